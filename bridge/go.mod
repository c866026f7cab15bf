module github.com/alexispb/mygosnmp/verifbridge

go 1.23

require github.com/alexispb/mygosnmp v0.0.0

replace github.com/alexispb/mygosnmp => /repo
