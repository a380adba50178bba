#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
Z, O, G, S = "zeropb.go", "offsets.go", "generate/generate.go", "generate/stringtree.go"
TZ = "golden/testzeropb/test.zeropb.go"

prop("C01", "Decoding arbitrary bytes never panics, hangs or alters the input",
 "Decoding any byte string into a generated message returns, either with success or with an error. It never panics, never loops forever and never changes a byte of the input.",
 ["inputs"], "every byte string (truncated, overlong, random or hostile)",
 "The tests decode messages an encoder produced; a malformed length or varint at one particular position is not among them.",
 [Z, O, TZ], [("record loop", "zeropb.go Decode"), ("value sizes", "zeropb.go fieldDataSize"), ("offset table", "offsets.go Offsets.Set")])
prop("C02", "Decode accepts exactly the well-formed messages",
 "Decode succeeds if and only if the input is a sequence of complete records: a tag varint of a known wire type (varint, 32-bit, 64-bit, length-delimited) followed by a complete value, with every varint fitting 64 bits. Field numbers the schema does not know are accepted and skipped; input with field number 0 is left open.",
 ["inputs"], "every byte string",
 "Acceptance is a yes/no question per byte string; the tests only feed a handful of valid encodings and no boundary such as a value that ends one byte early.",
 [Z], [("tag, truncation and overflow checks", "zeropb.go Decode"), ("per-type size and bounds", "zeropb.go fieldDataSize")])
prop("C03", "Numeric accessors return the last value on the wire, or zero",
 "After a successful decode, the accessor of a singular bool, enum, integer or floating-point field returns the value of the field's last record in the message, converted as the protobuf wire format prescribes for its type, and zero if there is none. This holds for any mix, order and duplication of other fields and for padded varints.",
 ["inputs"], "every well-formed message whose records for the field have the field's wire type, and every field",
 "The tests read one message with each field present once; duplicates, padded varints, sign extension and 64-bit extremes are not sampled.",
 [Z, O], [("last record wins", "zeropb.go Decode"), ("value conversion", "zeropb.go Get*"), ("lookup", "offsets.go Offsets.Get")])
prop("C04", "String and bytes accessors return exactly the payload, without copying",
 "After a successful decode, the accessor of a singular string, bytes or message field returns exactly the payload of the field's last record, sharing the message's memory. An absent field reads as the empty string or nil bytes, while a present but empty bytes field reads as non-nil.",
 ["inputs"], "every well-formed message, payload length and payload content",
 "Payload lengths around the one-to-two byte prefix boundary, empty payloads and duplicates are not tried.",
 [Z], [("payload slicing", "zeropb.go GetString, GetBytes")])
prop("C05", "A value that was set is the value that is read back",
 "After setting a singular field to any value of its type, reading the field returns that value bit for bit, whatever the message held before: nothing, an older value of any length, duplicates, or padded encodings. Setting the field again replaces the value.",
 ["inputs", "histories"], "every value of every type, every prior message and every earlier sequence of mutations",
 "The round trip is tested for one value per field on an empty message; overwriting a value by one of another length exercises different code.",
 [Z], [("in-place and moving replacement", "zeropb.go setSingle"), ("value encoding", "zeropb.go Set*")])
prop("C06", "Setting or appending to one field leaves every other field unchanged",
 "After setting or appending to one field, every other field of the message (singular or repeated, present or absent) reads exactly as it did before. This holds wherever the fields are stored in the message and whatever size it has.",
 ["inputs", "histories"], "every message, mutated field, new value and observed field",
 "Replacing a value moves everything behind it; the tests never check other fields after a size-changing replacement.",
 [Z, O], [("shifting the tail and adjusting offsets", "zeropb.go setSingle"), ("append", "zeropb.go appendSingle")])
prop("C07", "The encoding of a message is always well-formed and means the same",
 "After any sequence of decode, set and append operations the encoded bytes are a well-formed protobuf message. An independent decoder reading them finds for each field the same values the accessors return.",
 ["inputs", "histories"], "every decoded message, mutation and value",
 "Interoperability is tested on one message built in one order.",
 [Z], [("record layout on mutation", "zeropb.go setSingle, appendSingle")])
prop("C08", "A mutated message equals a fresh decode of its own encoding",
 "At any point, decoding the encoded bytes of a message into a new message succeeds and gives a message whose every accessor agrees with the original. Hence what a history of mutations leaves behind depends on the encoded bytes alone.",
 ["histories"], "every decoded message followed by any mutation (one inductive step covers histories of any length)",
 "The cached positions are the only state besides the bytes; the tests never compare them with a fresh decode.",
 [Z, O], [("offset maintenance", "zeropb.go setSingle, appendSingle"), ("offset maintenance", "offsets.go")])
prop("C09", "Values are written in the canonical protobuf encoding of their type",
 "A value set into an empty message is encoded exactly as the protobuf specification prescribes: minimal tag of the right field number and wire type, minimal varint (negative int32 sign-extended to ten bytes), zig-zag for sint types, little-endian for fixed and floating-point types, and a minimal length prefix before payloads.",
 ["inputs"], "every value of every scalar, string and bytes type, and every field number",
 "One value per type is compared with the reference implementation.",
 [Z], [("encoders", "zeropb.go Set*")])
prop("C10", "Iterating a repeated field yields every element once, in order",
 "Iterating a repeated message field of a decoded or built message yields exactly the payloads of that field's records in wire order and then ends. Records of other fields of any wire type may stand before, between and after them.",
 ["inputs"], "every well-formed message, any interleaving of other records, any element contents including empty ones",
 "The tests iterate contiguous elements only.",
 [Z, TZ], [("first element", "zeropb.go GetRepeatedNonPacked"), ("scan to the next element", "zeropb.go FindNextField"), ("first offset kept", "zeropb.go Decode")])
prop("C11", "Appending adds exactly one element at the end of a repeated field",
 "After appending to a repeated field, iterating it yields the old elements unchanged and in order, followed by the new element. This holds for empty elements and for elements appended after other fields were set or replaced.",
 ["inputs", "histories"], "every message, element content and prior mutation",
 "The tests append to a fresh message in one order.",
 [Z], [("append", "zeropb.go appendSingle")])
prop("C12", "Reusing a message leaves nothing of its former content visible",
 "After decoding into a message that was used before, or resetting it, the message behaves like a brand-new message given the same bytes. No field, position or length of the former content remains visible.",
 ["histories"], "every former content (including positions beyond 64 KiB) and every new content",
 "Reuse with a different set of fields, or from a large to a small message, is never tried.",
 [O, Z, TZ], [("table reset", "offsets.go Offsets.Clear"), ("Reset", "golden/testzeropb/test.zeropb.go")])
prop("C13", "The position table is a faithful map for every position",
 "Looking up a field's recorded position returns the last position stored for it, or absent if none was stored since the table was cleared, for every field and every position from 1 up to 2^63, on either side of the 16-bit boundaries. Storing one field's position never affects another's.",
 ["inputs", "histories"], "every sequence of stores, clears and lookups; positions including 65533 to 65537",
 "Switching a field between the compact and the overflow representation is tested for single values only.",
 [O], [("array with overflow map", "offsets.go Get, Set, Clear")])
prop("C14", "Decoding and reading messages below 64 KiB does not allocate",
 "Decoding a message shorter than 65535 bytes and reading its fields performs no heap allocation. Setting or appending performs none either when the message's buffer has room for the result and the value does not come from the message itself.",
 ["inputs"], "every message below 65535 bytes, every accessor, every mutation that fits the capacity",
 "The benchmarks count allocations for one message; which inputs reach the allocating branch is a question about all of them.",
 [O, Z], [("lazy overflow map", "offsets.go Offsets.Set"), ("zero-copy accessors", "zeropb.go Get*")])
prop("C15", "Nested messages survive being set, appended, read and re-decoded",
 "A sub-message set into a field or appended to a repeated field is read back with all its fields intact, from the message itself and from a fresh decode of its encoding. An absent sub-message is reported as absent, an empty one as present.",
 ["inputs", "histories"], "every sub-message content and every position in the parent",
 "One nested message is tried.",
 [TZ, Z], [("generated accessors", "golden/testzeropb/test.zeropb.go"), ("sub-message slicing", "zeropb.go GetBytes")])
prop("C16", "Changing something read from a message cannot corrupt the message",
 "Appending to a byte slice read from a message, or setting and appending to fields of a sub-message read from it or from an iterator so that it grows, never changes any other byte of the parent message. The parent's other fields keep reading as before.",
 ["inputs", "histories"], "every message, extracted part and growing mutation of it",
 "It takes two live views of one buffer; the tests use one at a time.",
 [Z], [("capacity-limited slices", "zeropb.go GetBytes, FindNextField")])
prop("C17", "A field may be set to a value read from the same message",
 "Setting or appending a string or bytes value that was obtained from the same message (from any of its fields, or a part of it) has the same effect as using a private copy of that value.",
 ["inputs", "histories"], "every message, source field, sub-range and target field",
 "Aliasing between argument and buffer never occurs in the tests.",
 [Z], [("alias detection", "zeropb.go setSingle, appendSingle")])
prop("C18", "Reading a successfully decoded message never panics",
 "If Decode accepts an input, then reading any singular field whose records carry the wire type of its schema, and iterating any repeated field to the end, returns without panicking and never exposes bytes outside the input. Iteration always terminates.",
 ["inputs"], "every byte string Decode accepts, every accessor",
 "The accessors do no bounds checks of their own; the tests never read hostile input that decodes.",
 [Z], [("validation by Decode", "zeropb.go Decode, fieldDataSize"), ("unchecked parsing", "zeropb.go Get*, FindNextField")])
prop("C19", "Each schema field gets accessors of its own number, type and name",
 "For every message field of a supported type, the generated code contains a getter and a setter (for repeated message fields an iterator and an append method) named after the field, with the Go type the protobuf type maps to, and using the field's own number and the accessor of its wire encoding.",
 ["programs"], "every schema built from the supported field types, labels, names and numbers",
 "The golden files contain one schema per type in fixed order; other names, numbers and combinations are not generated.",
 [G], [("per-field templates", "generate/generate.go")])
prop("C20", "Generated tables cover every field number and mark repeated fields",
 "The position table of a generated message has room for the largest field number of the message, and exactly the repeated fields are registered as repeated with the decoder. This holds for fields declared in any order and for sparse numbers.",
 ["programs"], "every set of field numbers and labels of a message",
 "The golden schemas number their fields consecutively and in order.",
 [G], [("index size and repeated set", "generate/generate.go")])
prop("C21", "The plugin emits exactly one file, well named, per requested file",
 "The code generator's response contains exactly one generated file for each file it was asked to generate, in the order the request describes them, and none for mere dependencies. Each is named after its proto file with only the final suffix replaced.",
 ["inputs", "configurations"], "every request: any number of files, any subset requested, any file name",
 "The tests request one file at a time.",
 [G, "cmd/protoc-gen-zeropb/main.go"], [("file selection and naming", "generate/generate.go, cmd/protoc-gen-zeropb/main.go")])
prop("C22", "Field names become exported Go identifiers in camel case",
 "The Go name derived from a field name keeps exactly the letters and digits of the name, in order; the first of them and each one that follows a separator is upper-cased and the others are unchanged. For a field name whose first letter or digit is a letter the result is therefore an exported Go identifier.",
 ["inputs"], "every ASCII field name up to the stated length",
 "Only the names in the golden schemas are converted.",
 [G], [("case conversion", "generate/generate.go")])
prop("C23", "Template output is the exact concatenation of its parts",
 "Writing a template emits its parts in order: text verbatim, numbers in decimal, and indentation as that many repetitions of the indent string. After the underlying writer fails nothing more is written, and that first error is reported.",
 ["inputs", "fault_sequences"], "every sequence of parts up to the stated length, every content, every point at which the writer fails",
 "Rendering is exercised through one generator run into a writer that never fails.",
 [S], [("part rendering and sticky error", "generate/stringtree.go Write, Error")])
prop("C24", "A plugin that fails says so and produces no success response",
 "When reading the request, parsing it, generating code, encoding or writing the response fails, the plugin process ends with a non-zero exit status. It ends with status zero only after the complete response was written.",
 ["fault_sequences"], "every placement of a failure among the plugin's input and output steps",
 "No test runs the plugins, let alone with failing input or output.",
 ["cmd/protoc-gen-zeropb/main.go", "cmd/protoc-gen-text/main.go"], [("error paths", "cmd/protoc-gen-zeropb/main.go, cmd/protoc-gen-text/main.go")])
prop("C25", "Generated code compiles for every schema of supported types",
 "For every schema made of the supported field types the generated file is a valid Go file of its package that compiles against the runtime library.",
 ["programs"], "every schema of supported types",
 "Only the golden schemas are compiled.",
 [G], [("templates", "generate/generate.go")])
prop("C26", "Fields unknown to the schema are skipped by readers and kept by writers",
 "Records whose field number is not in the schema do not affect what accessors return. Mutating known fields keeps those records in the encoding, byte for byte and in order.",
 ["inputs", "histories"], "every message with unknown records of any wire type at any place, and every mutation",
 "No test message has unknown fields.",
 [Z], [("skipping by table size", "zeropb.go Decode"), ("tail move", "zeropb.go setSingle")])
prop("C27", "Messages beyond 64 KiB behave like small ones",
 "Decoding, reading, setting and appending work the same whether records lie below, at or beyond byte 65535 of the message. Replacing a value that moves other records across that boundary keeps every field readable.",
 ["inputs", "histories"], "every payload size around the boundary, every record order and mutation",
 "No test message exceeds 64 KiB.",
 [O, Z], [("overflow map", "offsets.go"), ("offset adjustment", "zeropb.go setSingle")])
prop("C28", "Reading a message never modifies it",
 "Getters, iterators and Encode modify neither the message's bytes nor its bookkeeping. Any number of reads in any order give the same answers.",
 ["inputs", "histories"], "every decoded message and every read accessor",
 "A write hidden in a read path shows only when the bytes or a second read are compared.",
 [Z, TZ], [("read accessors", "zeropb.go Get*, FindNextField")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
