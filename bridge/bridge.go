// Package verifbridge gives the harness access to the diff of structs, which
// the repository's own tests judge decoded PDUs by.
package verifbridge

import "github.com/alexispb/mygosnmp/internal"

func StructsDiff(a, b interface{}) string { return internal.StructsDiff(a, b) }
