#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays easy to edit)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CODEC = ["agentx/pdu.go", "agentx/pdu_tag.go", "agentx/payload_params.go", "agentx/varbind.go",
         "agentx/search_range.go", "agentx/encoding.go", "agentx/flags.go"]
DBG = ["agentx/encoding_dbg.go"]

add("C01", "Encode then decode gives back the same AgentX PDU",
    "For every PDU of each of the 18 AgentX types that encodes successfully, splitting the bytes into the 20-byte header and the payload and decoding both succeeds and yields the same PDU: the same type, flags, session, transaction and packet ids, context, parameters, search ranges and varbinds, in the same order. The only differences allowed are the ones the format itself makes: the payload size is filled in, fields the PDU type or its flags do not carry come back empty (context without its flag, ranges or varbinds of a type without them, the upper bound when the range sub-identifier is 0, the include mark of a null start OID, values of value-less varbinds), and empty and nil lists are the same. This holds in both byte orders.",
    ["inputs"], "all PDUs: every type, flag set, context, parameter value, OID, varbind type and value, list length, both byte orders",
    "TestPduEncoding round-trips one fixed PDU per type with one integer varbind and one OID family; lengths, padding residues, extreme integers, prefix boundaries and long lists are never generated.",
    CODEC, [("EncodePdu", "agentx/pdu.go:EncodePdu"), ("DecodePduHeader / DecodePduPayload", "agentx/pdu.go"), ("per-type parameter codecs", "agentx/payload_params.go"), ("varbind codec table", "agentx/varbind.go:vbtable"), ("OID prefix compression", "agentx/encoding.go:appendObjectId/parseObjectId")],
    observe=["return values of EncodePdu, DecodePduHeader, DecodePduPayload"])

add("C02", "Encoded PDUs are byte-exact RFC 2741 AgentX packets",
    "For every PDU it accepts, the encoder emits exactly the bytes RFC 2741 prescribes: version 1 header with the true payload length, all multi-byte integers in the byte order selected by the network-byte-order flag, strings and opaques length-prefixed and zero-padded to 4 bytes, IP addresses always in network order, zero reserved bytes, and the fields of each PDU type in the order the RFC lays down. An OID starting with 1.3.6.1.x is sent in the short form with prefix x exactly when x is between 1 and 255, a null OID is four zero bytes, and the include mark appears only on the start OID of a search range.",
    ["inputs"], "all encodable PDUs in both byte orders",
    "The tests compare a handful of hand-written packets; an error in one value type, length residue, byte order or field that no fixture uses passes them, and round-trip tests cannot see errors made symmetrically by encoder and decoder.",
    CODEC + ["agentx/docs/encoding.txt", "docs/rfc2741.AgentX.txt"], [("byte order implementations", "agentx/encoding.go:networkByteOrder, inverseByteOrder"), ("padding", "agentx/encoding.go:appendPaddingBytes"), ("OID compression", "agentx/encoding.go:appendObjectId"), ("size accounting", "agentx/pdu.go:countPayloadSize")],
    observe=["bytes returned by EncodePdu"])

add("C03", "Encoding accepts exactly the representable PDUs and never panics",
    "Encoding any PDU value returns normally. It reports success exactly when the PDU can be represented: a known type, parameters of that type's own kind, only flags allowed for that type, every carried varbind of a known value type holding a value of the matching Go type, no carried OID needing more than 128 encoded sub-identifiers, non-negative GetBulk counts, and a payload that fits the length field. Context, search ranges and varbinds that the PDU type or its flags do not carry are ignored, whatever they contain.",
    ["inputs"], "all PDU values, including ones with unknown types, nil or foreign parameters, ill-typed values, over-long OIDs and over-large payloads",
    "The tests only encode well-formed PDUs; no rejection path of the encoder is exercised at all.",
    CODEC, [("recover wrapper", "agentx/pdu.go:EncodePdu"), ("parameter kind test", "agentx/pdu_tag.go:isApplicableParams"), ("allowed flags", "agentx/pdu_tag.go:NotAllowedFlags"), ("value type assertions", "agentx/varbind.go:vbtable")],
    observe=["ok result of EncodePdu"])

add("C04", "Header decoding accepts exactly the valid headers with right fields",
    "Decoding a header succeeds for a byte string exactly when it is 20 bytes long, has version 1, a PDU type from 1 to 18, only flags allowed for that type, a zero reserved byte, and a payload length that is non-negative and a multiple of 4. On success every header field equals the value on the wire, read in the byte order the header's own flag selects, and the payload fields are empty.",
    ["inputs"], "all byte strings",
    "The tests decode 36 valid headers and never an invalid one; the space of type, flag, length and byte-order combinations is not covered.",
    ["agentx/pdu.go", "agentx/pdu_tag.go", "agentx/flags.go", "agentx/encoding.go"], [("DecodePduHeader", "agentx/pdu.go"), ("allowed flag table", "agentx/pdu_tag.go:pduTable")],
    observe=["return values of DecodePduHeader"])

add("C05", "Payload decoding accepts exactly well-formed payloads, field by field",
    "Given a header and any payload bytes, decoding succeeds exactly when the bytes are a well-formed payload for that header: as long as the header announces, consumed completely by the items that PDU type carries, no item truncated, zero reserved bytes and zero padding, OIDs of at most 128 encoded sub-identifiers, known varbind value types (compared on the whole 16-bit field), 4-byte IP addresses, non-negative lengths and GetBulk counts. On success each field has the value on the wire. Malformed input is refused, never repaired, truncated or partly accepted.",
    ["inputs"], "all headers and all payload byte strings (whether an include byte other than 0 or 1, or one outside a start OID, is refused is left open)",
    "The tests never decode a malformed payload; the demo flips one reserved byte. Truncations, surplus bytes, wrong lengths, unknown types and dirty padding at every position are untested.",
    CODEC, [("DecodePduPayload", "agentx/pdu.go"), ("parse functions", "agentx/encoding.go, agentx/payload_params.go, agentx/varbind.go, agentx/search_range.go")],
    observe=["ok result and the Pdu filled in by DecodePduPayload"])

add("C06", "Decoding hostile bytes never panics, hangs or over-allocates",
    "Header and payload decoding (plain and debug) of any bytes, with any preceding header value, returns normally with a success flag: no panic escapes and no call runs forever. The memory allocated by plain decoding stays within a constant factor of the input size, whatever lengths the input announces.",
    ["inputs"], "all byte strings and all header values, including unknown types and announced lengths up to 2^31-1",
    "The tests decode only valid packets of under 70 bytes; none contains a hostile length or is truncated.",
    CODEC + DBG, [("recover wrappers", "agentx/pdu.go"), ("bounds before allocation", "agentx/encoding.go:parseOctetString, parseOpaque, parseObjectId"), ("debug chunking", "agentx/encoding_dbg.go:nextChunk")],
    observe=["DecodePduHeader, DecodePduPayload, DecodePduHeaderDbg, DecodePduPayloadDbg; runtime allocation counters"])

add("C07", "Debug encoding is equivalent to plain encoding",
    "For every PDU value, valid or not, the debug encoder succeeds exactly when the plain encoder does, and on success both return the same bytes. The logger passed in has no influence on the result.",
    ["inputs"], "all PDU values, valid and invalid, and any logger",
    "The debug code is a separate copy of the codec; the tests compare the two on the same few valid fixtures only, never on rejected PDUs.",
    ["agentx/pdu.go", "agentx/encoding_dbg.go", "agentx/payload_params.go", "agentx/varbind.go", "agentx/search_range.go"], [("EncodePduDbg", "agentx/pdu.go"), ("encoderDbg", "agentx/encoding_dbg.go"), ("appendDbg methods", "agentx/payload_params.go")],
    observe=["EncodePdu, EncodePduDbg"])

add("C08", "Debug decoding is equivalent to plain decoding",
    "For every header byte string, and for every header value and payload byte string, the debug decoders succeed exactly when the plain decoders do, and on success both produce the same PDU (empty and nil lists being the same). The logger passed in has no influence on the result.",
    ["inputs"], "all header and payload byte strings, valid and malformed, and any logger",
    "The debug decoder is a separate position-based implementation; the tests compare both on the same valid fixtures and never on malformed input, which is what the debug decoder exists for.",
    ["agentx/pdu.go", "agentx/encoding_dbg.go", "agentx/payload_params.go", "agentx/varbind.go", "agentx/search_range.go"], [("DecodePduHeaderDbg / DecodePduPayloadDbg", "agentx/pdu.go"), ("decoderDbg", "agentx/encoding_dbg.go"), ("parse...Dbg functions", "agentx/payload_params.go")],
    observe=["DecodePduHeader, DecodePduPayload and their debug versions"])

add("C09", "Codec calls share no memory and keep no state",
    "Encoding and decoding never modify their inputs (the PDU and everything it refers to, respectively the byte slices), and their results share no memory with the inputs or with each other: changing the input afterwards, or making further codec calls, leaves every earlier result as it was, and what is appended to one decoded OID or byte value never shows in another. The result of a call depends only on its arguments; decoding a payload depends only on the header fields and the bytes, so stale payload fields in the PDU passed in do not show up in the result.",
    ["inputs", "histories"], "all PDUs and byte strings, and all sequences of codec calls that keep or overwrite earlier inputs and outputs",
    "The tests use each value once and never reuse or overwrite a buffer, so aliasing and leftover state are invisible to them.",
    CODEC, [("fresh buffers", "agentx/pdu.go:EncodePdu"), ("copies of decoded values", "agentx/encoding.go:parseOctetString, parseObjectId, parseOpaque"), ("payload fields reset", "agentx/pdu.go:DecodePduPayload")],
    observe=["inputs and outputs of all codec functions before and after later calls"])

add("C10", "A byte stream of PDUs is framed unambiguously",
    "When any sequence of PDUs is encoded and the bytes are concatenated, reading the stream back as documented (20 header bytes, decode, then as many payload bytes as the header announces, decode) yields exactly the original PDUs in order and ends exactly at the end of the stream. Byte orders and PDU types may be mixed freely, and every frame is a multiple of 4 bytes long.",
    ["inputs", "histories"], "all sequences of encodable PDUs",
    "The demo exchanges five PDUs over a socket; no test concatenates packets or mixes byte orders and types in one stream.",
    CODEC, [("payload length accounting", "agentx/pdu.go:countPayloadSize, the encodingSize functions"), ("header length", "agentx/pdu.go:DecodePduHeader")],
    observe=["EncodePdu, DecodePduHeader, DecodePduPayload"])

add("C11", "Any accepted packet re-encodes to an equivalent packet",
    "Every packet the decoder accepts, however the sender chose to encode it (OIDs with or without the short prefix form, any byte order), decodes to a PDU that encodes successfully, and decoding that encoding gives the same PDU again (only an include mark on a null start OID is dropped). Re-encoding is stable: encoding the decoded PDU a second time gives the same bytes, and they are never longer than the original packet.",
    ["inputs"], "all byte strings accepted by the decoders (with include bytes as the RFC prescribes them)",
    "The fixtures are all in the encoder's own normal form; packets in another sender's legal form are never decoded.",
    CODEC, [("parseObjectId / appendObjectId", "agentx/encoding.go"), ("acceptance tests shared by both directions", "agentx/pdu.go, agentx/payload_params.go")],
    observe=["DecodePduHeader, DecodePduPayload, EncodePdu"])

add("C12", "The codec is safe for concurrent use",
    "Any number of goroutines may encode and decode at the same time, also the same PDU value and the same input bytes, without data races. Every call returns what it returns when run alone, and a debug call writes the same messages to its own log.",
    ["schedules", "inputs"], "all interleavings of concurrent encode and decode calls (plain and debug) on shared and private data",
    "All tests are sequential and run without the race detector.",
    CODEC + DBG, [("no mutable package state", "agentx/pdu_tag.go:pduTable, agentx/varbind.go:vbtable, asn/value.go:table")],
    observe=["results of concurrent calls; Go race detector"])

add("C13", "OID comparison is the lexicographic total order",
    "Comparing two OIDs yields -1, 0 or +1 according to lexicographic order of their sub-identifiers as unsigned 32-bit numbers, a proper prefix coming before every extension of it, nil and empty being equal. It is a total order (antisymmetric, transitive, equal only for equal OIDs), and the six relational helpers (less, less-or-equal, equal, not-equal, greater-or-equal, greater) agree with it for every pair.",
    ["inputs"], "all pairs and triples of OIDs",
    "Twelve fixed pairs with sub-identifiers up to 4 are compared and the relational helpers other than equality are never tested; laws over all triples and large sub-identifiers cannot be sampled that way.",
    ["oid/oid.go", "generics/generics.go"], [("Compare and the relational helpers", "oid/oid.go"), ("Min", "generics/generics.go")],
    observe=["oid.Compare, Lt, Le, Eq, Ne, Ge, Gt"])

add("C14", "OID text form round-trips and malformed text is refused",
    "Printing an OID of up to 128 sub-identifiers and parsing the text, with or without a leading dot, gives back the same OID, and the text is the sub-identifiers in decimal joined by single dots. Parsing accepts exactly the strings made of an optional leading dot followed by nothing or by up to 128 dot-separated decimal numbers that fit 32 bits, yielding those numbers, and panics on every other string.",
    ["inputs"], "all OIDs and all strings",
    "Four valid strings are parsed; no malformed string, no limit (128 sub-identifiers, 2^32-1) and no round-trip is tested.",
    ["oid/oid.go"], [("Parse", "oid/oid.go"), ("Fprint / String", "oid/oid.go")],
    observe=["oid.Parse, oid.String, oid.Fprint"])

add("C15", "OID building blocks return correct, independent OIDs",
    "Cloning gives an equal OID; concatenating gives the sub-identifiers of the first followed by the extra ones; the prefix test is true exactly when the OID starts with the given sub-identifiers, so an OID always has as prefix whatever it was concatenated from. The results are independent copies: neither call changes its arguments, and later changes to arguments or results do not affect each other, even when arguments have spare capacity.",
    ["inputs", "histories"], "all OIDs and all sequences of clone, concatenate and overwrite operations",
    "The tests compare a few results with expected values but never write to a slice afterwards, so aliasing (the classic append bug) is invisible.",
    ["oid/oid.go"], [("Clone, Cat, HasPrefix", "oid/oid.go")],
    observe=["oid.Clone, oid.Cat, oid.HasPrefix and the backing arrays"])

add("C16", "The OID tree behaves as a prefix-closed set of nodes",
    "After any history of add, remove and clear operations, the tree contains exactly the OIDs added and their prefixes, minus removed nodes with everything below them: adding returns the new node (never one that was part of the tree before and was removed), or nothing if the OID is empty or already present; looking up returns that same node, with whatever data was attached to it, or nothing; removing reports whether the node was there and the root cannot be removed. Visiting the leaves calls back once for each node without children, in ascending OID order, with its full OID in a slice the callee may keep. Every node's parent link, sub-identifier and strictly ascending child list agree with its position.",
    ["histories", "inputs"], "all sequences of tree operations with arbitrary OIDs",
    "The only tree test adds three siblings and prints the leaves without asserting anything; lookup, removal, clearing and out-of-order insertion are never exercised.",
    ["oid/tree.go", "oid/node.go"], [("sorted child lists with binary search", "oid/node.go:searchChild, addChild, removeChild"), ("path walking", "oid/node.go:addNode, getNode, removeNode"), ("leaf visit", "oid/node.go:forRangeLeaves")],
    state=[("children", "ascending by sub-identifier", "oid/node.go:Node.Children"), ("parent", "back link", "oid/node.go:Node.Parent")],
    observe=["AddNode, GetNode, RemoveNode, Clear, ForRangeLeaves; exported Node fields"])

add("C17", "Tree get-next returns the least leaf within the range",
    "For every tree and range, get-next returns the leaf with the smallest OID that is greater than the start OID (or equal to it, if the start is included) and smaller than the end OID (without limit if the end is nil), and nothing if there is no such leaf; the root is never returned. Consequently, stepping from the empty OID with repeated get-next visits every leaf exactly once, in ascending order, and ends.",
    ["inputs", "histories"], "all trees reachable by any history, all start and end OIDs (including prefixes, extensions and neighbours of existing nodes), both include settings",
    "get-next has no test at all (the source says: draft, not tested).",
    ["oid/node.go", "oid/tree.go"], [("bounded ordered traversal", "oid/node.go:getNextNode")],
    observe=["Tree.GetNextNode"])

add("C18", "The OID tree is linearizable under concurrent use",
    "Goroutines may call the tree's operations concurrently without data races or deadlock: every operation returns. The results of any concurrent history are those of some sequential order of the same operations that respects their real-time order, and a leaf visit or get-next sees one consistent state of the tree.",
    ["schedules", "histories"], "all interleavings of add, lookup, get-next, remove, clear and leaf visits from several goroutines",
    "No test uses the tree from more than one goroutine.",
    ["oid/tree.go"], [("read-write lock around every operation", "oid/tree.go:Tree.lock")],
    state=[("lock", "guards the node structure", "oid/tree.go:Tree.lock")],
    observe=["results and call/return order of tree operations; Go race detector"])

add("C19", "A hex dump shows exactly the requested bytes at their offsets",
    "Dumping data[i1:i2] yields lines, each starting with the given prefix, an 8-digit upper-case hexadecimal offset and two spaces, followed by up to four bytes as two upper-case hex digits each: read back, they give every byte of the range once, in order, at its true offset, four per line except possibly the last, with no trailing newline. An empty range yields one line with just the offset; bounds that do not lie within the data yield a message containing 'out of range', never a panic; dumping everything or the last n bytes is dumping the corresponding range.",
    ["inputs"], "all byte strings, prefixes and integer bounds, in and out of range",
    "The package has no tests; it is only used to format failures of other tests.",
    ["hex/dump.go"], [("DumpSub, DumpTail, Dump, encodeOffset", "hex/dump.go")],
    observe=["returned strings"])

add("C20", "A hex diff is empty iff the data are equal and shows both sides",
    "The diff of two byte slices is the empty string exactly when they are equal. Otherwise both slices can be read back from it in full: a line with a blank mark is a group of four bytes (or the last few) common to both, a pair of lines marked as first and second shows differing groups, each line carries the group's offset, and a group is marked as different exactly when it differs.",
    ["inputs"], "all pairs of byte slices of any lengths",
    "The package has no tests, yet the test suite's comparisons of encoded data all rest on this function returning the empty string only for equal data.",
    ["hex/dump.go", "generics/generics.go"], [("DumpDiff", "hex/dump.go"), ("Min, Max", "generics/generics.go")],
    observe=["hex.DumpDiff"])

add("C21", "ASN value typing agrees between validation, codec and printing",
    "A value is valid for an ASN tag exactly when it has the Go type documented for the tag (any value for the value-less tags, none for sequences and unknown tags). A varbind is encodable exactly when its value is valid for its tag, every decoded varbind holds a value valid for its tag, and printing a value never panics: valid values print as their exact content (decimal numbers, dotted OIDs and addresses, verbatim strings, listed bytes) and invalid ones as a question mark.",
    ["inputs"], "all tags from 0 to 255 combined with values of any Go type and content",
    "The asn package has no tests of its own; the varbind test uses one value per type and never a mismatched one.",
    ["asn/value.go", "asn/varbind.go", "asn/tag.go", "agentx/varbind.go", "ipa/ip_address.go", "oid/oid.go"], [("tag table", "asn/value.go:table"), ("codec table", "agentx/varbind.go:vbtable")],
    observe=["Tag.IsValidValue, Tag.Fprint, Varbind.String, EncodePdu, DecodePduPayload"])

add("C22", "Every code renders as its own name, unknown codes as their number",
    "For each of the enumerations (PDU types, header flags, close reasons, ASN tags, PDU errors), every defined code renders as the name of that code and nothing else, so that different codes never render the same. Every undefined code renders as a placeholder containing its number, a flag set renders as its flags' names joined by '|', lowest bit first, with undefined bits shown in hex, and rendering never panics for any code.",
    ["inputs"], "all 256 (respectively 65536) codes of each enumeration and all 256 flag sets",
    "No test looks at rendered names, and the error names come from hand-maintainable index tables into one concatenated string, where a wrong index shifts every later name.",
    ["pduerror/error_string.go", "pduerror/error.go", "agentx/close_reason.go", "agentx/flags.go", "agentx/pdu_tag.go", "asn/value.go", "asn/tag.go"], [("String methods", "pduerror/error_string.go, agentx/close_reason.go, agentx/flags.go, agentx/pdu_tag.go, asn/value.go")],
    observe=["String methods and Flags.Fprint"])

add("C23", "The text form of a PDU shows every field faithfully",
    "The text form of a PDU lists every header field, the context, every parameter field and every search range and varbind, in order, one per line with its name (list elements on lines of their own) and its exact value, nested parts being indented one step further (up to eight steps). Two PDUs that differ in any field therefore have different text forms (for strings without control characters, and varbind values valid for their tags), missing parts are shown as <empty> or <nil>, and rendering any PDU, valid or not, never panics.",
    ["inputs"], "all PDUs, including ones with nil or foreign parameters and ill-typed values, at any non-negative depth",
    "TestPduEncoding judges decoded PDUs only by comparing these text forms, so a field missing from the rendering would silently weaken the tests themselves; nothing tests the rendering.",
    ["internal/struct.go", "internal/indent.go", "agentx/pdu.go", "agentx/search_range.go", "asn/varbind.go"], [("reflection printer", "internal/struct.go:fprintStruct, fprintValue"), ("Fprint methods", "agentx/search_range.go, asn/varbind.go, agentx/flags.go")],
    observe=["Pdu.String, SearchRange.String, Varbind.String"])

add("C24", "Debug logs are well-formed and tell success from failure",
    "For any input, the debug functions log at least one message, every message is a correctly formatted text (no formatting-error artefacts), a failed call logs a failure line starting with '!!!' as its last message, and a successful one logs no such line. The log of a successful encoding contains the hex dump of the complete packet and the logs of decoding contain the dump of the complete input; every dump line in them shows the packet's bytes at that offset, and no dump in them is out of range. The console logger prints each message verbatim, formatted messages after formatting, each followed by exactly one newline.",
    ["inputs"], "all PDUs and byte strings given to the debug functions; all messages given to the console logger",
    "The tests pass a logger that discards everything, and the demo prints the log without checking it.",
    ["agentx/pdu.go", "agentx/encoding_dbg.go", "agentx/payload_params.go", "agentx/varbind.go", "agentx/search_range.go", "logger/logger.go"], [("log calls", "agentx/pdu.go, agentx/encoding_dbg.go"), ("Console", "logger/logger.go")],
    observe=["messages received by a recording logger; standard output"])

add("C25", "MIB names map to their standard, distinct OIDs",
    "Every predefined MIB name resolves to the OID the standards assign to it, so different names have different OIDs and an object's OID extends the OID of the group, table or entry it belongs to. Names registered by the user resolve to what was registered, leave the predefined ones unchanged, and every registered OID survives printing, parsing and transport in a PDU.",
    ["inputs", "histories"], "all predefined names and all sequences of user registrations",
    "TestMibName registers one name and reads it back; the predefined table is never compared with anything.",
    ["oid/name.go"], [("Name map", "oid/name.go")],
    observe=["oid.Name"])

add("C26", "Debug logs name the values sent and received",
    "The log of a debug encoding, successful or not, shows the text form of the PDU first; that of a successful one then names, in wire order, the version, the type, the flags, the session, transaction and packet numbers, the payload size and every value sent: the context, each parameter, and the OIDs, values and text form of each search range and varbind. The log of a debug decoding names in the same way what was decoded from the bytes: the version, type and flags of every header of 20 bytes, the four numbers of an accepted header, and every value of an accepted payload. The dumps that accompany the values of an accepted payload show, together and in order, every byte of it. The names and values shown are exactly those of the PDU.",
    ["inputs"], "all PDUs, headers and payloads given to the debug functions",
    "The tests discard the log; a log that shows a wrong value misleads exactly the person who debugs with it, and no test would notice.",
    ["agentx/pdu.go", "agentx/encoding_dbg.go", "agentx/payload_params.go", "agentx/varbind.go", "agentx/search_range.go"], [("log calls", "agentx/pdu.go, agentx/encoding_dbg.go, agentx/payload_params.go, agentx/varbind.go")],
    observe=["messages received by a recording logger"])

add("C27", "The diff of two PDUs' texts is empty iff they are equal and loses no line",
    "The struct diff (internal.StructsDiff), by which the repository's tests judge decoded PDUs, is the empty string exactly when the text forms of the two structs are equal. Otherwise it lists all their lines in order: a line equal on both sides once, after a blank, and lines that differ one above the other, each after the mark of its side, a missing line counting as an empty one.",
    ["inputs"], "all pairs of PDUs and of structs with any strings in them",
    "Tests only ever see it return the empty string; if it returned that for texts that differ, they would pass whatever the codec does.",
    ["internal/struct.go", "generics/generics.go"], [("line diff", "internal/struct.go:StringsLinesDiff")],
    observe=["internal.StructsDiff"])

add("C28", "Type and flag predicates agree with the codec",
    "PduTag.IsKnown is true exactly for the 18 PDU types of RFC 2741, and PduTag.NotAllowedFlags, for a known type, returns exactly those of the given flags that the type does not allow. A PDU with otherwise valid content is encoded, and an otherwise valid header decoded, exactly when its type is known and no flag is among those not allowed. asn.Tag.IsKnown is true exactly for the defined ASN tags, and asn.Tag.IsValueTag exactly for those a varbind can carry: all defined ones but the sequence.",
    ["inputs"], "all 256 types with all 256 flag sets, all 256 ASN tags, and all PDUs that pass the codec",
    "No test calls the predicates; callers use them to tell in advance what will be encoded and what a peer may send.",
    ["agentx/pdu_tag.go", "agentx/flags.go", "asn/value.go", "asn/tag.go", "agentx/pdu.go", "agentx/varbind.go"], [("predicates", "agentx/pdu_tag.go:IsKnown, NotAllowedFlags; asn/value.go:IsKnown, IsValueTag")],
    observe=["PduTag.IsKnown, PduTag.NotAllowedFlags, asn.Tag.IsKnown, asn.Tag.IsValueTag, EncodePdu, DecodePduHeader"])

add("C29", "Appending a text form to a builder adds exactly that text",
    "Every Fprint function (of OIDs, IP addresses, header flags, search ranges, varbinds and ASN values) appends exactly the text form of its value to the builder it is given: what the builder held before stays, whatever its content, size and capacity, nothing else is added, and where there is a String function the text is the one String returns. Any sequence of such calls on one builder therefore gives the concatenation of the text forms.",
    ["inputs", "histories"], "all values and all sequences of Fprint calls on one builder with any earlier content",
    "No test calls the Fprint functions on a builder that already holds text, and most are never called by a test at all.",
    ["oid/oid.go", "ipa/ip_address.go", "agentx/flags.go", "agentx/search_range.go", "asn/varbind.go", "asn/value.go"], [("Fprint functions", "oid/oid.go, ipa/ip_address.go, agentx/flags.go, agentx/search_range.go, asn/varbind.go, asn/value.go")],
    observe=["Fprint and String functions"])

add("C30", "Min and Max return the smaller and the larger argument",
    "For every ordered type (integers of all sizes, floats other than NaN, strings, and named types of these), generics.Min returns the smaller and generics.Max the larger of its arguments, whatever their order, and either one if they are equal.",
    ["inputs"], "all pairs of values of all ordered types",
    "No test calls them directly, and the comparison of OIDs, the hex diff and the struct diff rest on them.",
    ["generics/generics.go"], [("Min, Max", "generics/generics.go")],
    observe=["generics.Min, generics.Max"])

add("C31", "Text, parsing and dump functions are safe for concurrent use",
    "Any number of goroutines may at the same time print, parse, compare, join and clone OIDs, print IP addresses, flags, tags, reasons, errors, varbinds, search ranges and PDUs, and make hex dumps and diffs, also of the same values, without data races. Every call returns what it returns when run alone, and results that are slices belong to their caller.",
    ["schedules", "inputs"], "all interleavings of concurrent calls on shared and private values",
    "All tests are sequential and run without the race detector.",
    ["oid/oid.go", "ipa/ip_address.go", "hex/dump.go", "agentx/pdu.go", "agentx/flags.go", "asn/varbind.go"],
    [("no mutable package state", "oid/oid.go, hex/dump.go, ipa/ip_address.go, agentx/pdu_tag.go, asn/value.go")],
    observe=["results of concurrent calls; Go race detector"])

add("C32", "The console logger may be shared by goroutines",
    "Any number of goroutines may write to the console at the same time, through one console logger or several, directly or by debug codec calls that log to it, without data races. Every message appears on standard output exactly once and whole, followed by one newline and not broken up by other messages, and the messages of one goroutine appear in the order in which it wrote them.",
    ["schedules", "inputs"], "all interleavings of concurrent console writes, messages of all sizes",
    "The demo shares one console between its two sides, but nothing looks at what is printed.",
    ["logger/logger.go"], [("one print call per message", "logger/logger.go Write, Writef")],
    observe=["standard output of concurrent Write and Writef calls; Go race detector"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
