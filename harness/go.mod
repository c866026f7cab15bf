module verif/harness

go 1.23

require (
	github.com/alexispb/mygosnmp v0.0.0
	github.com/alexispb/mygosnmp/verifbridge v0.0.0
)

replace github.com/alexispb/mygosnmp => /repo

replace github.com/alexispb/mygosnmp/verifbridge => ../bridge
