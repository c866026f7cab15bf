From 0aa9446f3d00ac46b145436dda18669c8d1da74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:50 +0000
Subject: [PATCH 01/13] fix: compress only the OID prefixes 1.3.6.1.1 to
 1.3.6.1.255

The one-byte prefix field cannot carry 256, and 0 means no prefix, so
1.3.6.1.0.x and 1.3.6.1.256.x were encoded as the unrelated OID x.
---
 agentx/encoding.go     | 4 ++--
 agentx/encoding_dbg.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index 3e8a625..0d4ccf1 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -160,7 +160,7 @@ func objectIdEncodingSize(id []uint32) (size int) {
 	size = 4
 	if len(id) > 0 {
 		nsubids := len(id)
-		if len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4] <= 256 {
+		if len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && 1 <= id[4] && id[4] <= 255 {
 			nsubids -= 5
 		}
 		size += 4 * nsubids
@@ -174,7 +174,7 @@ func (e encoder) appendObjectId(data []byte, val []uint32, include byte) []byte
 	}
 	nsubids := len(val)
 	prefix := byte(0)
-	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] <= 256 {
+	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && 1 <= val[4] && val[4] <= 255 {
 		nsubids -= 5
 		prefix = byte(val[4])
 		val = val[5:]
diff --git a/agentx/encoding_dbg.go b/agentx/encoding_dbg.go
index 8724348..a00ba3f 100644
--- a/agentx/encoding_dbg.go
+++ b/agentx/encoding_dbg.go
@@ -170,7 +170,7 @@ func (e encoderDbg) appendObjectId(data []byte, val []uint32, include byte) []by
 	nsubids := len(val)
 	prefix := byte(0)
 
-	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] <= 256 {
+	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && 1 <= val[4] && val[4] <= 255 {
 		nsubids -= 5
 		prefix = byte(val[4])
 		val = val[5:]
-- 
2.43.0


From ab331224e40d25fdef7747c6cadd692fb82e4542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:51 +0000
Subject: [PATCH 02/13] fix: refuse object identifiers of more than 128
 sub-identifiers

The encoder truncated the count to one byte and still reported success;
RFC 2741 allows 0-128 sub-identifiers in an object identifier encoding.
---
 agentx/encoding.go     | 10 ++++++++++
 agentx/encoding_dbg.go |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index 0d4ccf1..0d9fcc9 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -156,6 +156,10 @@ func (d decoder) parseOctetString(data []byte) (val string, next []byte) {
 	return
 }
 
+// maxSubids is the maximum number of sub-identifiers
+// in an object identifier encoding.
+const maxSubids = 128
+
 func objectIdEncodingSize(id []uint32) (size int) {
 	size = 4
 	if len(id) > 0 {
@@ -179,6 +183,9 @@ func (e encoder) appendObjectId(data []byte, val []uint32, include byte) []byte
 		prefix = byte(val[4])
 		val = val[5:]
 	}
+	if nsubids > maxSubids {
+		panic(ErrEncoding)
+	}
 	data = append(data, byte(nsubids), prefix, include, 0)
 	for _, subid := range val {
 		data = e.appendUint32(data, subid)
@@ -191,6 +198,9 @@ func (d decoder) parseObjectId(data []byte) (val []uint32, include byte, next []
 		panic(ErrEncoding)
 	}
 	nsubids, prefix, include := int(data[0]), uint32(data[1]), data[2]
+	if nsubids > maxSubids {
+		panic(ErrEncoding)
+	}
 	next = data[4:]
 	if nsubids == 0 && prefix == 0 {
 		return
diff --git a/agentx/encoding_dbg.go b/agentx/encoding_dbg.go
index a00ba3f..d549898 100644
--- a/agentx/encoding_dbg.go
+++ b/agentx/encoding_dbg.go
@@ -175,6 +175,9 @@ func (e encoderDbg) appendObjectId(data []byte, val []uint32, include byte) []by
 		prefix = byte(val[4])
 		val = val[5:]
 	}
+	if nsubids > maxSubids {
+		panic("too many sub-identifiers")
+	}
 
 	e.log.Writef("appending ObjectId header {nsubids: %d, prefix: %d, include: %d, reserved byte: 0}:",
 		nsubids, prefix, include)
@@ -201,6 +204,9 @@ func (d *decoderDbg) parseObjectId(startpos int) (val []uint32, include byte, ne
 	if data[3] != 0 {
 		panic("non-zero reserved byte")
 	}
+	if nsubids > maxSubids {
+		panic("too many sub-identifiers")
+	}
 	if nsubids == 0 && prefix == 0 {
 		d.log.Write("parsed ObjectId: <null>")
 		return
-- 
2.43.0


From f864513ad54f77e9764901fccc26bd590f30b1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:51 +0000
Subject: [PATCH 03/13] fix: reject varbind types above 255 instead of
 truncating them

A type field such as 0x0102 was decoded as Integer32.
---
 agentx/varbind.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentx/varbind.go b/agentx/varbind.go
index bdbe593..c927808 100644
--- a/agentx/varbind.go
+++ b/agentx/varbind.go
@@ -20,7 +20,7 @@ func (e encoder) appendVarbind(data []byte, vb asn.Varbind) []byte {
 func (d decoder) parseVarbind(data []byte) (vb asn.Varbind, next []byte) {
 	var tag int16
 	tag, next = d.parseInt16(data)
-	if vb.Tag = asn.Tag(tag); !vb.Tag.IsValueTag() {
+	if vb.Tag = asn.Tag(tag); int16(vb.Tag) != tag || !vb.Tag.IsValueTag() {
 		panic(ErrEncoding)
 	}
 	if next[0] != 0 || next[1] != 0 {
@@ -60,7 +60,7 @@ func (d decoderDbg) parseVarbind(startpos int) (vb asn.Varbind, nextpos int) {
 	tag, nextpos = d.parseInt16(startpos)
 	vb.Tag = asn.Tag(tag)
 	d.log.Writef("parsed Tag: %s", vb.Tag.String())
-	if vb.Tag = asn.Tag(tag); !vb.Tag.IsValueTag() {
+	if vb.Tag = asn.Tag(tag); int16(vb.Tag) != tag || !vb.Tag.IsValueTag() {
 		panic("Unknown value tag")
 	}
 	d.log.Write("parsing 2 reserved bytes")
-- 
2.43.0


From f8905f5182ff6158e63e4f64a309ae327e46afe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:52 +0000
Subject: [PATCH 04/13] fix: check the Opaque size against the data before
 allocating

A 12-byte payload announcing a 2 GB Opaque allocated 2 GB before it was
rejected.
---
 agentx/encoding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index 0d9fcc9..2deeaa9 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -253,9 +253,9 @@ func (d decoder) parseOpaque(data []byte) (val []byte, next []byte) {
 	if size < 0 {
 		panic(ErrEncoding)
 	}
+	chunk, next := next[:int(size)], next[int(size):]
 	val = make([]byte, int(size))
-	copy(val, next[:int(size)])
-	next = next[int(size):]
+	copy(val, chunk)
 	next = d.parsePaddingBytes(next, int(size))
 	return
 }
-- 
2.43.0


From 583a054f9722a127b2eb6dfd186e0d01d6f3e157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:39 +0000
Subject: [PATCH 05/13] fix: refuse to encode flags that are not allowed for
 the pdu type

EncodePdu reported success for pdus whose header DecodePduHeader (and any
RFC 2741 peer) rejects, e.g. a Close-pdu with a context.
---
 agentx/pdu.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index 66961b1..f9228ff 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -67,6 +67,10 @@ func EncodePdu(pdu Pdu) (data []byte, ok bool) {
 		ok = false
 		return
 	}
+	if pdu.Tag.NotAllowedFlags(pdu.Flags) != 0 {
+		ok = false
+		return
+	}
 
 	// This panics if pdu.Tag is unknown or pdu.Params = nil
 	payloadSize := pdu.countPayloadSize()
@@ -197,6 +201,11 @@ func EncodePduDbg(pdu Pdu, log logger.Log) (data []byte, ok bool) {
 		log.Write("!!! Error. Invalid type of payload params")
 		return
 	}
+	fooFlags := pdu.Tag.NotAllowedFlags(pdu.Flags)
+	if ok = fooFlags == 0; !ok {
+		log.Writef("!!! Error. Flags %s are not allowed for this pdu", fooFlags.String())
+		return
+	}
 
 	payloadSize := pdu.countPayloadSize()
 	pdu.PayloadSize = int32(payloadSize)
-- 
2.43.0


From 3b6ad60d709e1fa6bf4490171c990d6d737190bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:40 +0000
Subject: [PATCH 06/13] fix: refuse to encode negative GetBulk parameters

EncodePdu reported success for GetBulk-pdus that DecodePduPayload rejects.
---
 agentx/payload_params.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/agentx/payload_params.go b/agentx/payload_params.go
index 684924a..7a198bf 100644
--- a/agentx/payload_params.go
+++ b/agentx/payload_params.go
@@ -302,6 +302,9 @@ func (GetBulkParams) encodingSize() int {
 }
 
 func (p GetBulkParams) append(e encoder, data []byte) []byte {
+	if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {
+		panic(ErrEncoding)
+	}
 	data = e.appendInt16(data, p.NonRepeaters)
 	return e.appendInt16(data, p.MaxRepeatitions)
 }
@@ -318,6 +321,10 @@ func parseGetBulkParams(d decoder, data []byte) (PayloadParams, []byte) {
 
 func (p GetBulkParams) appendDbg(e encoderDbg, data []byte) []byte {
 	e.log.Write("appending GetBulkParams")
+	if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {
+		e.log.Write("!!! Error. NonRepeaters < 0 or MaxRepeatitions < 0")
+		panic(ErrEncoding)
+	}
 	e.log.Write("appending NonRepeaters")
 	data = e.appendInt16(data, p.NonRepeaters)
 	e.log.Write("appending MaxRepeatitions")
-- 
2.43.0


From 44670cb434190f47c21542e4e5db2e6601e0d6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:41 +0000
Subject: [PATCH 07/13] fix: refuse to encode payloads larger than the length
 field can carry

The payload size wrapped around, so a pdu of more than 2 GB was encoded
with a negative or far too small length and reported as a success.
---
 agentx/pdu.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index f9228ff..3b69ea3 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -1,6 +1,8 @@
 package agentx
 
 import (
+	"math"
+
 	"github.com/alexispb/mygosnmp/asn"
 	"github.com/alexispb/mygosnmp/hex"
 	"github.com/alexispb/mygosnmp/internal"
@@ -74,6 +76,10 @@ func EncodePdu(pdu Pdu) (data []byte, ok bool) {
 
 	// This panics if pdu.Tag is unknown or pdu.Params = nil
 	payloadSize := pdu.countPayloadSize()
+	if payloadSize > math.MaxInt32 {
+		ok = false
+		return
+	}
 	pdu.PayloadSize = int32(payloadSize)
 
 	data = make([]byte, 0, PduHeaderSize+payloadSize)
@@ -208,6 +214,10 @@ func EncodePduDbg(pdu Pdu, log logger.Log) (data []byte, ok bool) {
 	}
 
 	payloadSize := pdu.countPayloadSize()
+	if ok = payloadSize <= math.MaxInt32; !ok {
+		log.Writef("!!! Error. Payload size %d is too large", payloadSize)
+		return
+	}
 	pdu.PayloadSize = int32(payloadSize)
 	log.Writef("counted payload size: %d", payloadSize)
 
-- 
2.43.0


From 8ce95a4ed79f9629a034ba3d55e1e5b6454040d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:42 +0000
Subject: [PATCH 08/13] fix: DecodePduPayload rejects data that is not
 PayloadSize bytes long

DecodePduPayloadDbg, which is documented to be functionally equivalent,
already did: a payload cut at a varbind boundary was accepted silently by
one and rejected by the other.
---
 agentx/pdu.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index 3b69ea3..74f5cb5 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -155,6 +155,10 @@ func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
 		}
 	}()
 
+	if ok = len(data) == int(pdu.PayloadSize); !ok {
+		return
+	}
+
 	d := decoder{byteOrder: pdu.Flags.byteOrder()}
 
 	if pdu.Flags&FlagNonDefaultContext != 0 {
-- 
2.43.0


From 59f3d764fdfd06789577af31511f3316979dc696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:42 +0000
Subject: [PATCH 09/13] fix: decoding a payload replaces the payload fields of
 the pdu

Search ranges and varbinds were appended to whatever the pdu held before,
so decoding into a pdu used earlier returned the old elements as well.
---
 agentx/pdu.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index 74f5cb5..d934830 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -159,6 +159,7 @@ func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
 		return
 	}
 
+	pdu.Context, pdu.Params, pdu.Ranges, pdu.Varbinds = "", nil, nil, nil
 	d := decoder{byteOrder: pdu.Flags.byteOrder()}
 
 	if pdu.Flags&FlagNonDefaultContext != 0 {
@@ -370,6 +371,7 @@ func DecodePduPayloadDbg(pdu *Pdu, data []byte, log logger.Log) (ok bool) {
 		return
 	}
 
+	pdu.Context, pdu.Params, pdu.Ranges, pdu.Varbinds = "", nil, nil, nil
 	d := decoderDbg{
 		byteOrder: pdu.Flags.byteOrder(),
 		data:      data,
-- 
2.43.0


From 59d30241cc2c3aeaf6d15b01bc246771682e0148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:43 +0000
Subject: [PATCH 10/13] fix: GetNextNode at leaves that are prefixes of a range
 bound

A leaf that is a proper prefix of the start oid precedes it and must not
be returned; one that is a proper prefix of the end oid precedes it and
must not be skipped. An empty tree has no leaf, so nothing is returned
rather than the root.
---
 oid/node.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oid/node.go b/oid/node.go
index 5ac2591..baca5cd 100644
--- a/oid/node.go
+++ b/oid/node.go
@@ -119,14 +119,15 @@ func (node *Node) removeNode(oid []uint32, prune bool) bool {
 // Note that empty oid < not empty oid, so in case oid1 == nil,
 // it returns leaf node with the least oid.
 func (node *Node) getNextNode(oid1, oid2 []uint32, include1 bool, repeatition int16) (resnode *Node) {
-	if repeatition < 1 {
+	if repeatition < 1 || len(node.Children) == 0 {
 		return
 	}
 
 	var iterate func(*Node, int, bool, bool)
 	iterate = func(node *Node, ind int, eq1, eq2 bool) {
 		if len(node.Children) == 0 {
-			if (!eq1 || include1) && !eq2 {
+			// a leaf which is a proper prefix of oid1 (oid2) is less than it
+			if (!eq1 || include1 && ind == len(oid1)) && (!eq2 || ind < len(oid2)) {
 				if repeatition == 1 {
 					resnode = node
 				} else {
-- 
2.43.0


From c7a38ce014d1e1d1bbd67127a57b3cbc403db20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:44 +0000
Subject: [PATCH 11/13] fix: put the system group at 1.3.6.1.2.1.1

The names of the system group lacked the sub-identifier of the group
itself: system was mib2, sysOid was interfaces and sysOR* overlapped the
other groups (see RFC 3418).
---
 oid/name.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/oid/name.go b/oid/name.go
index f6caa25..a6e42cc 100644
--- a/oid/name.go
+++ b/oid/name.go
@@ -12,21 +12,21 @@ var Name = map[string][]uint32{
 	"mib2":         {1, 3, 6, 1, 2, 1},
 	"enterprises":  {1, 3, 6, 1, 4, 1},
 	// System
-	"system":          {1, 3, 6, 1, 2, 1},
-	"sysDescr":        {1, 3, 6, 1, 2, 1, 1}, // OctetString  read-only
-	"sysOid":          {1, 3, 6, 1, 2, 1, 2}, // ObjectID     read-only
-	"sysUpTime":       {1, 3, 6, 1, 2, 1, 3}, // TimeTicks    read-only
-	"sysContact":      {1, 3, 6, 1, 2, 1, 4}, // OctetString  read-write
-	"sysName":         {1, 3, 6, 1, 2, 1, 5}, // OctetString  read-write
-	"sysLocation":     {1, 3, 6, 1, 2, 1, 6}, // OctetString  read-write
-	"sysServices":     {1, 3, 6, 1, 2, 1, 7}, // Integer32    read-only
-	"sysORLastChange": {1, 3, 6, 1, 2, 1, 8}, // TimeTicks    read-only
-	"sysORTable":      {1, 3, 6, 1, 2, 1, 9},
-	"sysOREntry":      {1, 3, 6, 1, 2, 1, 9, 1},
-	"sysORIndex":      {1, 3, 6, 1, 2, 1, 9, 1, 1}, // Integer32    not-accessible
-	"sysORID":         {1, 3, 6, 1, 2, 1, 9, 1, 2}, // ObjectID     read-only
-	"sysORDescr":      {1, 3, 6, 1, 2, 1, 9, 1, 3}, // OctetString  read-only
-	"sysORUpTime":     {1, 3, 6, 1, 2, 1, 9, 1, 4}, // TimeTicks    read-only
+	"system":          {1, 3, 6, 1, 2, 1, 1},
+	"sysDescr":        {1, 3, 6, 1, 2, 1, 1, 1}, // OctetString  read-only
+	"sysOid":          {1, 3, 6, 1, 2, 1, 1, 2}, // ObjectID     read-only
+	"sysUpTime":       {1, 3, 6, 1, 2, 1, 1, 3}, // TimeTicks    read-only
+	"sysContact":      {1, 3, 6, 1, 2, 1, 1, 4}, // OctetString  read-write
+	"sysName":         {1, 3, 6, 1, 2, 1, 1, 5}, // OctetString  read-write
+	"sysLocation":     {1, 3, 6, 1, 2, 1, 1, 6}, // OctetString  read-write
+	"sysServices":     {1, 3, 6, 1, 2, 1, 1, 7}, // Integer32    read-only
+	"sysORLastChange": {1, 3, 6, 1, 2, 1, 1, 8}, // TimeTicks    read-only
+	"sysORTable":      {1, 3, 6, 1, 2, 1, 1, 9},
+	"sysOREntry":      {1, 3, 6, 1, 2, 1, 1, 9, 1},
+	"sysORIndex":      {1, 3, 6, 1, 2, 1, 1, 9, 1, 1}, // Integer32    not-accessible
+	"sysORID":         {1, 3, 6, 1, 2, 1, 1, 9, 1, 2}, // ObjectID     read-only
+	"sysORDescr":      {1, 3, 6, 1, 2, 1, 1, 9, 1, 3}, // OctetString  read-only
+	"sysORUpTime":     {1, 3, 6, 1, 2, 1, 1, 9, 1, 4}, // TimeTicks    read-only
 	// Interfaces
 	"interfaces":    {1, 3, 6, 1, 2, 1, 2},
 	"ifNumber":      {1, 3, 6, 1, 2, 1, 2, 1}, // Integer32  read-only
-- 
2.43.0


From 0bf3199512787e3d4af5c0506f1cc272ed739fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:46 +0000
Subject: [PATCH 12/13] fix: debug log messages with missing or mismatched
 arguments

The dump of an encoded varbind was never logged, and the close reason and
the invalid version were logged as formatting errors.
---
 agentx/payload_params.go | 2 +-
 agentx/pdu.go            | 2 +-
 agentx/varbind.go        | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/agentx/payload_params.go b/agentx/payload_params.go
index 7a198bf..7f864e3 100644
--- a/agentx/payload_params.go
+++ b/agentx/payload_params.go
@@ -138,7 +138,7 @@ func parseCloseParamsDbg(d decoderDbg, pos int) (PayloadParams, int) {
 	d.log.Write("parsing first 4 bytes")
 	data, pos := d.nextChunk(pos, 4)
 	p.Reason = CloseReason(data[0])
-	d.log.Writef("parsed Reason: %d", p.Reason.String())
+	d.log.Writef("parsed Reason: %s", p.Reason.String())
 	if data[1] != 0 || data[2] != 0 || data[3] != 0 {
 		panic("non-zero reserved byte")
 	}
diff --git a/agentx/pdu.go b/agentx/pdu.go
index d934830..b9f6a66 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -303,7 +303,7 @@ func DecodePduHeaderDbg(data []byte, log logger.Log) (pdu Pdu, ok bool) {
 	log.Writef("parsed agentx version: %d, pdu.Tag: %s, pdu.Flags: %s",
 		data[0], pdu.Tag.String(), pdu.Flags.String())
 	if ok = data[0] == 1; !ok {
-		log.Writef("!!! Error. Invalid agentx version", data[0])
+		log.Writef("!!! Error. Invalid agentx version %d", data[0])
 		return
 	}
 	if ok = pdu.Tag.IsKnown(); !ok {
diff --git a/agentx/varbind.go b/agentx/varbind.go
index c927808..c19b7d1 100644
--- a/agentx/varbind.go
+++ b/agentx/varbind.go
@@ -48,8 +48,8 @@ func (e encoderDbg) appendVarbind(data []byte, vb asn.Varbind) []byte {
 	e.log.Write("appending Varbind Value")
 	data = vbtable[vb.Tag].appendValueDbg(e, data, vb.Value)
 
-	e.log.Writef("appended Varbind data:\n%s")
-	hex.DumpSub("    ", data, startindex, len(data))
+	e.log.Writef("appended Varbind data:\n%s",
+		hex.DumpSub("    ", data, startindex, len(data)))
 	return data
 }
 
-- 
2.43.0


From 62fd16d18873384c81cdf9e023f67a0ee7b39412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:51 +0000
Subject: [PATCH 13/13] fix: a sequence is not a value tag

---
 asn/value.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn/value.go b/asn/value.go
index 9903273..a0ca47d 100644
--- a/asn/value.go
+++ b/asn/value.go
@@ -13,9 +13,11 @@ func (tag Tag) IsKnown() (ok bool) {
 	return
 }
 
+// IsValueTag tests whether a varbind can hold a value
+// with this tag.
 func (tag Tag) IsValueTag() (ok bool) {
 	_, ok = table[tag]
-	return
+	return ok && tag != TagSequence
 }
 
 func (tag Tag) String() string {
-- 
2.43.0

