module guard

go 1.18
