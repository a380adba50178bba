From b5e3d959147369d9ad82833f54c20c6e21989f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 1/7] fix: return errors from Decode for malformed varints,
 lengths and wire types

Overflowing varints have a negative size, huge lengths overflowed int and
unsupported wire types panicked. All of these come from the encoded bytes, so
Decode has to reject them instead of panicking or looping forever.
---
 zeropb.go | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index ee03185..77eb97b 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -13,6 +13,8 @@ import (
 	"github.com/pkg/errors"
 )
 
+var errVarintOverflow = errors.New(`varint overflows 64 bits`)
+
 // GetBool gets an encoded bool field with the given field id.
 func GetBool(buf []byte, offsets Offsets, fieldID int) bool {
 	offset, ok := offsets.Get(fieldID)
@@ -429,6 +431,8 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 		tag, size := binary.Uvarint(buf[idx:])
 		if size == 0 {
 			return io.ErrUnexpectedEOF
+		} else if size < 0 {
+			return errVarintOverflow
 		}
 		idx += size
 		if idx >= len(buf) {
@@ -458,8 +462,10 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 			// support so leave it unsupported for now.
 		}
 
-		s := fieldDataSize(typ, buf[idx:])
-		if s == 0 {
+		s, err := fieldDataSize(typ, buf[idx:])
+		if err != nil {
+			return err
+		} else if s == 0 {
 			return io.ErrUnexpectedEOF
 		}
 		idx += s
@@ -485,28 +491,37 @@ func FindNextField(buf []byte, field int) ([]byte, []byte) {
 		if f == field {
 			return buf[idx:], msg
 		}
-		idx += fieldDataSize(typ, buf[idx:])
+		s, _ := fieldDataSize(typ, buf[idx:])
+		idx += s
 	}
 	return nil, msg
 }
 
-func fieldDataSize(typ uint64, buf []byte) int {
+// fieldDataSize returns the encoded size of the field data at the start of buf
+// or 0 if buf ends in the middle of it.
+func fieldDataSize(typ uint64, buf []byte) (int, error) {
 	switch typ {
 	case proto.WireVarint:
 		_, size := binary.Uvarint(buf)
-		return size
+		if size < 0 {
+			return 0, errVarintOverflow
+		}
+		return size, nil
 	case proto.WireFixed32:
-		return 4
+		return 4, nil
 	case proto.WireFixed64:
-		return 8
+		return 8, nil
 	case proto.WireBytes:
-		len, lenSize := binary.Uvarint(buf)
-		if lenSize == 0 {
-			return 0
+		dataLen, lenSize := binary.Uvarint(buf)
+		if lenSize < 0 {
+			return 0, errVarintOverflow
+		}
+		if lenSize == 0 || dataLen > uint64(len(buf)) {
+			return 0, nil
 		}
-		return lenSize + int(len)
+		return lenSize + int(dataLen), nil
 	default:
-		panic(errors.Errorf(`unsupported type: %d`, typ))
+		return 0, errors.Errorf(`unsupported type: %d`, typ)
 	}
 }
 
-- 
2.43.0


From c27a7d69eef35a94ee955be3fda8f4c1c92e13f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 2/7] fix: skip unknown field ids in Decode instead of
 panicking

A field id past the end of the offsets array indexed out of range.
---
 zeropb.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zeropb.go b/zeropb.go
index 77eb97b..32d8645 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -445,7 +445,10 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 
 		// TODO(dan): It's odd that we're passing in only the repeatedness of the
 		// field. Maybe pass in some sort of field descriptor instead?
-		if _, ok := repeatedFields[fieldID]; ok {
+		if fieldID >= len(offsets.a) {
+			// A field added by a newer version of the schema, there's nowhere to
+			// store the offset and no accessor for it. Just skip over it.
+		} else if _, ok := repeatedFields[fieldID]; ok {
 			// For a repeated field, set the offset if this is the first one we've
 			// found but don't overwrite an earlier offset. The repeated field
 			// iterator will start from this offset and re-parse the rest of the
-- 
2.43.0


From 9ca33f66fabce06ebb3f68f2affdfb188655de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 3/7] fix: cap the slices handed out for bytes and message
 fields

They had capacity into the fields encoded after them, so growing a decoded
sub-message (or appending to a bytes value) overwrote those fields.
---
 zeropb.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 32d8645..02064e2 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -167,7 +167,8 @@ func GetBytes(buf []byte, offsets Offsets, fieldID int) []byte {
 	}
 	len, lenSize := binary.Uvarint(buf[offset:])
 	offset += uint64(lenSize)
-	return buf[offset : offset+len]
+	// Cap the result, so appending to it can't overwrite the rest of buf.
+	return buf[offset : offset+len : offset+len]
 }
 
 // SetBool set an encoded bool field with the given field id, overwriting an
@@ -485,7 +486,8 @@ func FindNextField(buf []byte, field int) ([]byte, []byte) {
 	// NB: FindNextField doesn't do the same bounds checking that Decode does
 	// because Decode has already validated the input.
 	msgLen, lenSize := binary.Uvarint(buf)
-	msg := buf[lenSize : lenSize+int(msgLen)]
+	// Cap the result, so appending to it can't overwrite the rest of buf.
+	msg := buf[lenSize : lenSize+int(msgLen) : lenSize+int(msgLen)]
 	for idx := lenSize + int(msgLen); idx < len(buf); {
 		tag, size := binary.Uvarint(buf[idx:])
 		idx += size
-- 
2.43.0


From c258f8c4def385c697825b9214158839f55274d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 4/7] fix: remove the whole tag when replacing a field with a
 padded tag

A decoded tag isn't necessarily minimally encoded. Assuming that it is left
the start of the old tag behind and corrupted the message.
---
 zeropb.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zeropb.go b/zeropb.go
index 02064e2..4b622a3 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -359,6 +359,14 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 		}
 
 		fieldBegin, fieldEnd := offset-uint64(tagLen), offset+uint64(oldLen)
+		// The tag in a decoded message may be longer than the one we'd encode, in
+		// which case it's padded with zeros. A minimal tag never ends in one.
+		if (*buf)[offset-1] == 0 {
+			fieldBegin--
+			for i := offset - 2; (*buf)[i] == 0x80; i-- {
+				fieldBegin--
+			}
+		}
 		// TODO(dan): sanity check that we got the same tag bytes here?
 		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
 		removedBytes := fieldEnd - fieldBegin
-- 
2.43.0


From 1f73afed52982e5c8b28b423cc64700b4bdbf136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 5/7] fix: allow setting a field to a value aliasing the
 message's own buffer

Replacing a field moves bytes around before copying the new value in, so a
value backed by the same buffer (say, a sub-message that was read, modified and
set again) was corrupted along the way.
---
 zeropb.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/zeropb.go b/zeropb.go
index 4b622a3..42ece25 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -333,6 +333,7 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 	var scratch [binary.MaxVarintLen64]byte
 	tag := uint64(fieldID<<3 | typ)
 	tagLen := binary.PutUvarint(scratch[:], tag)
+	val = unalias(*buf, val)
 
 	if offset, ok := offsets.Get(fieldID); ok {
 		var oldLen int
@@ -399,11 +400,27 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 	*buf = append(*buf, val...)
 }
 
+// unalias returns val, copied if it's backed by the same memory as buf. This
+// happens when a field is set to (something derived from) the result of one of
+// the message's own accessors.
+func unalias(buf, val []byte) []byte {
+	if cap(buf) == 0 || len(val) == 0 {
+		return val
+	}
+	bufBegin := uintptr(unsafe.Pointer(&buf[:1][0]))
+	valBegin := uintptr(unsafe.Pointer(&val[0]))
+	if valBegin+uintptr(len(val)) <= bufBegin || bufBegin+uintptr(cap(buf)) <= valBegin {
+		return val
+	}
+	return append([]byte(nil), val...)
+}
+
 func appendSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byte) {
 	var scratch [binary.MaxVarintLen64]byte
 
 	tag := uint64(fieldID<<3 | typ)
 	tagLen := binary.PutUvarint(scratch[:], tag)
+	val = unalias(*buf, val)
 	*buf = append(*buf, scratch[:tagLen]...)
 
 	offset := len(*buf)
-- 
2.43.0


From 2588ee7406cd817d6fbd528afe25d3da183be931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 6/7] fix: only replace the suffix when naming generated files

A .proto anywhere else in the path was also replaced, for example foo.protos/x.proto
was generated into the foo.zeropb.gos directory.
---
 generate/generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index 865c09f..0642a17 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -49,7 +49,7 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 		generateMessage(st, indent, *m)
 	}
 
-	name := strings.ReplaceAll(req.GetName(), `.proto`, `.zeropb.go`)
+	name := strings.TrimSuffix(req.GetName(), `.proto`) + `.zeropb.go`
 	content := buf.String()
 	res := &CodeGeneratorResponse_File{Name: &name, Content: &content}
 	return res, nil
-- 
2.43.0


From 2c1fa3bf29b2e6ec96719604e6c91648bbaa7569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 7/7] fix: exit with an error status when a plugin fails

---
 cmd/protoc-gen-text/main.go   | 1 +
 cmd/protoc-gen-zeropb/main.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cmd/protoc-gen-text/main.go b/cmd/protoc-gen-text/main.go
index 815ad11..369de75 100644
--- a/cmd/protoc-gen-text/main.go
+++ b/cmd/protoc-gen-text/main.go
@@ -29,5 +29,6 @@ func run() error {
 func main() {
 	if err := run(); err != nil {
 		fmt.Fprintf(os.Stderr, "%+v\n", err)
+		os.Exit(1)
 	}
 }
diff --git a/cmd/protoc-gen-zeropb/main.go b/cmd/protoc-gen-zeropb/main.go
index 2915585..97a5529 100644
--- a/cmd/protoc-gen-zeropb/main.go
+++ b/cmd/protoc-gen-zeropb/main.go
@@ -37,5 +37,6 @@ func run() error {
 func main() {
 	if err := run(); err != nil {
 		fmt.Fprintf(os.Stderr, "%+v\n", err)
+		os.Exit(1)
 	}
 }
-- 
2.43.0

