From cbdaee454754fb1bbd7671c6b94fa33dc86100dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:33 +0000
Subject: [PATCH 01/56] fix: carry into the next byte when skipping up to a
 byte boundary

skipBits left bitCounter at 8 when a skipped bit-field ended exactly at a
byte boundary, so that the next field was written or read one bit position
past the end of the byte.
---
 decoder.go | 2 +-
 encoder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 64e942c..18720de 100644
--- a/decoder.go
+++ b/decoder.go
@@ -152,7 +152,7 @@ func (d *decoder) readBytes(count int) []byte {
 
 func (d *decoder) skipBits(count int) {
 	d.bitCounter += uint8(count % 8)
-	if d.bitCounter > 8 {
+	if d.bitCounter >= 8 {
 		d.bitCounter -= 8
 		count += 8
 	}
diff --git a/encoder.go b/encoder.go
index b783ffc..c47e4aa 100644
--- a/encoder.go
+++ b/encoder.go
@@ -111,7 +111,7 @@ func (e *encoder) writeS64(f field, x int64) { e.write64(f, uint64(x)) }
 
 func (e *encoder) skipBits(count int) {
 	e.bitCounter += count % 8
-	if e.bitCounter > 8 {
+	if e.bitCounter >= 8 {
 		e.bitCounter -= 8
 		count += 8
 	}
-- 
2.43.0


From c09bc70920f2678d2cce08a399318f674f599c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:34 +0000
Subject: [PATCH 02/56] fix: report an error when skipped bits lie past the end
 of the input

Skipping less than a byte at the end of the input went unnoticed.
---
 decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder.go b/decoder.go
index 18720de..26795c1 100644
--- a/decoder.go
+++ b/decoder.go
@@ -3,6 +3,7 @@ package restruct
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"math"
 	"reflect"
 	"strings"
@@ -151,6 +152,9 @@ func (d *decoder) readBytes(count int) []byte {
 }
 
 func (d *decoder) skipBits(count int) {
+	if int(d.bitCounter)+count > 8*len(d.buf) {
+		panic(io.ErrUnexpectedEOF)
+	}
 	d.bitCounter += uint8(count % 8)
 	if d.bitCounter >= 8 {
 		d.bitCounter -= 8
-- 
2.43.0


From a568b623418c700dd2b25e2ada80fb9b5fc538a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 03/56] fix: keep sizeof and sizefrom fields apart from their
 struct indexes

SIndex and TIndex are indexes into the struct, but were used to index the
list of fields and the other way round, which differ as soon as a field
before the pair is ignored or unexported.
---
 field.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/field.go b/field.go
index ad64761..7881cc1 100644
--- a/field.go
+++ b/field.go
@@ -217,11 +217,11 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 			if !validSizeType(val.Type) {
 				panic(ErrInvalidSizeOf)
 			}
-			sindex = j
-			result[sindex].TIndex = i
+			sindex = result[j].Index
+			result[j].TIndex = i
 			delete(sizeOfMap, val.Name)
 		} else if opts.SizeOf != "" {
-			sizeOfMap[opts.SizeOf] = i
+			sizeOfMap[opts.SizeOf] = len(result)
 		}
 
 		// SizeFrom
@@ -229,11 +229,10 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 			if !validSizeType(val.Type) {
 				panic(ErrInvalidSizeFrom)
 			}
-			for j := 0; j < i; j++ {
-				val := result[j]
-				if opts.SizeFrom == val.Name {
-					sindex = j
-					result[sindex].TIndex = i
+			for j := range result {
+				if opts.SizeFrom == result[j].Name {
+					sindex = result[j].Index
+					result[j].TIndex = i
 				}
 			}
 			if sindex == -1 {
-- 
2.43.0


From c3df61e49976829497a83913ee037c9d8b626dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 04/56] fix: clear every case of a switch when unpacking

The loop used the index of the switch field itself, so it cleared the wrong
field or panicked with an index out of range.
---
 decoder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 26795c1..08e64d5 100644
--- a/decoder.go
+++ b/decoder.go
@@ -221,8 +221,10 @@ func (d *decoder) switc(f field, v reflect.Value, on interface{}) {
 
 	// Zero out values for decoding.
 	for i := 0; i < l; i++ {
-		v := v.Field(f.Index)
-		v.Set(reflect.Zero(v.Type()))
+		v := v.Field(sfields[i].Index)
+		if v.CanSet() {
+			v.Set(reflect.Zero(v.Type()))
+		}
 	}
 
 	for i := 0; i < l; i++ {
-- 
2.43.0


From f6cb78a25960b0108d3bd357c23e2e0a3eb8dd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 05/56] fix: encode and decode int and uint fields

Their size is 32 bits, but neither Pack nor Unpack moved over them, so that
all following fields were misplaced.
---
 decoder.go | 8 ++++----
 encoder.go | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/decoder.go b/decoder.go
index 08e64d5..287d454 100644
--- a/decoder.go
+++ b/decoder.go
@@ -319,9 +319,9 @@ func (d *decoder) read(f field, v reflect.Value) {
 			sf := sfields[i]
 			// Must use different codepath for signed/unsigned.
 			switch sf.BinaryType.Kind() {
-			case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 				alen = int(sv.Int())
-			case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 				alen = int(sv.Uint())
 			default:
 				panic(fmt.Errorf("unsupported size type %s: %s", sf.BinaryType.String(), sf.Name))
@@ -426,7 +426,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.setInt(f, v, int64(d.readS8(f)))
 	case reflect.Int16:
 		d.setInt(f, v, int64(d.readS16(f)))
-	case reflect.Int32:
+	case reflect.Int, reflect.Int32:
 		d.setInt(f, v, int64(d.readS32(f)))
 	case reflect.Int64:
 		d.setInt(f, v, d.readS64(f))
@@ -435,7 +435,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.setUint(f, v, uint64(d.readU8(f)))
 	case reflect.Uint16:
 		d.setUint(f, v, uint64(d.readU16(f)))
-	case reflect.Uint32:
+	case reflect.Uint, reflect.Uint32:
 		d.setUint(f, v, uint64(d.readU32(f)))
 	case reflect.Uint64:
 		d.setUint(f, v, d.readU64(f))
diff --git a/encoder.go b/encoder.go
index c47e4aa..e840fd5 100644
--- a/encoder.go
+++ b/encoder.go
@@ -272,9 +272,9 @@ func (e *encoder) write(f field, v reflect.Value) {
 		sv := struc.Field(f.TIndex)
 
 		switch f.BinaryType.Kind() {
-		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 			v.SetInt(int64(sv.Len()))
-		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			v.SetUint(uint64(sv.Len()))
 		default:
 			panic(fmt.Errorf("unsupported size type %s: %s", f.BinaryType.String(), f.Name))
@@ -341,7 +341,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.writeS8(f, int8(e.intFromField(f, ov)))
 	case reflect.Int16:
 		e.writeS16(f, int16(e.intFromField(f, ov)))
-	case reflect.Int32:
+	case reflect.Int, reflect.Int32:
 		e.writeS32(f, int32(e.intFromField(f, ov)))
 	case reflect.Int64:
 		e.writeS64(f, int64(e.intFromField(f, ov)))
@@ -350,7 +350,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.write8(f, uint8(e.uintFromField(f, ov)))
 	case reflect.Uint16:
 		e.write16(f, uint16(e.uintFromField(f, ov)))
-	case reflect.Uint32:
+	case reflect.Uint, reflect.Uint32:
 		e.write32(f, uint32(e.uintFromField(f, ov)))
 	case reflect.Uint64:
 		e.write64(f, uint64(e.uintFromField(f, ov)))
-- 
2.43.0


From 2eeef3689d47050b090120979cf3a271be8612e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 06/56] fix: return an error for every panic value

Panics with a string (as raised by package reflect, for a condition that is
not boolean, or for a disabled expression) made Pack, SizeOf and BitSize
panic with a failed type assertion and Unpack panic with nil.
---
 packing.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/packing.go b/packing.go
index a54025d..7131e76 100644
--- a/packing.go
+++ b/packing.go
@@ -22,6 +22,7 @@ package restruct
 
 import (
 	"encoding/binary"
+	"fmt"
 	"reflect"
 )
 
@@ -34,6 +35,14 @@ func fieldFromIntf(v interface{}) (field, reflect.Value) {
 	return f, val
 }
 
+// recoveredError turns a recovered panic value into an error.
+func recoveredError(r interface{}) error {
+	if err, ok := r.(error); ok {
+		return err
+	}
+	return fmt.Errorf("%v", r)
+}
+
 /*
 Unpack reads data from a byteslice into a value.
 
@@ -87,10 +96,7 @@ Flags are comma-separated keys. The following are available:
 func Unpack(data []byte, order binary.ByteOrder, v interface{}) (err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			var ok bool
-			if err, ok = r.(error); !ok {
-				panic(err)
-			}
+			err = recoveredError(r)
 		}
 	}()
 
@@ -108,7 +114,7 @@ SizeOf returns the binary encoded size of the given value, in bytes.
 func SizeOf(v interface{}) (size int, err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			err = r.(error)
+			err = recoveredError(r)
 		}
 	}()
 
@@ -123,7 +129,7 @@ BitSize returns the binary encoded size of the given value, in bits.
 func BitSize(v interface{}) (size int, err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			err = r.(error)
+			err = recoveredError(r)
 		}
 	}()
 
@@ -145,7 +151,7 @@ func Pack(order binary.ByteOrder, v interface{}) (data []byte, err error) {
 	defer func() {
 		if r := recover(); r != nil {
 			data = nil
-			err = r.(error)
+			err = recoveredError(r)
 		}
 	}()
 
-- 
2.43.0


From 19dafa1d1cb5a36c7e160989f705df0a100263d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 07/56] fix: pack and size values passed by value like those
 passed by pointer

Fields of a struct that cannot be set were skipped, so packing a struct by
value gave zeros, and codecs with pointer receivers were not found.
---
 packing.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/packing.go b/packing.go
index 7131e76..e7b2790 100644
--- a/packing.go
+++ b/packing.go
@@ -35,6 +35,16 @@ func fieldFromIntf(v interface{}) (field, reflect.Value) {
 	return f, val
 }
 
+// addressable returns val, or a copy of it that can be addressed and set.
+func addressable(val reflect.Value) reflect.Value {
+	if val.CanAddr() {
+		return val
+	}
+	copied := reflect.New(val.Type()).Elem()
+	copied.Set(val)
+	return copied
+}
+
 // recoveredError turns a recovered panic value into an error.
 func recoveredError(r interface{}) error {
 	if err, ok := r.(error); ok {
@@ -120,7 +130,7 @@ func SizeOf(v interface{}) (size int, err error) {
 
 	ss := structstack{allowexpr: expressionsEnabled}
 	f, val := fieldFromIntf(v)
-	return ss.fieldbytes(f, val), nil
+	return ss.fieldbytes(f, addressable(val)), nil
 }
 
 /*
@@ -135,7 +145,7 @@ func BitSize(v interface{}) (size int, err error) {
 
 	ss := structstack{allowexpr: expressionsEnabled}
 	f, val := fieldFromIntf(v)
-	return ss.fieldbits(f, val), nil
+	return ss.fieldbits(f, addressable(val)), nil
 }
 
 /*
@@ -158,6 +168,7 @@ func Pack(order binary.ByteOrder, v interface{}) (data []byte, err error) {
 	ss := structstack{allowexpr: expressionsEnabled, buf: []byte{}}
 
 	f, val := fieldFromIntf(v)
+	val = addressable(val)
 	data = make([]byte, ss.fieldbytes(f, val))
 
 	ss.buf = data
-- 
2.43.0


From 5e0a0db494ce67f189a41a93dad5dc0b9d324048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 08/56] fix: report an error when unpacking into a value that
 cannot be set

As documented; a struct passed by value was silently left alone.
---
 packing.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packing.go b/packing.go
index e7b2790..c040d03 100644
--- a/packing.go
+++ b/packing.go
@@ -113,6 +113,9 @@ func Unpack(data []byte, order binary.ByteOrder, v interface{}) (err error) {
 	f, val := fieldFromIntf(v)
 	ss := structstack{allowexpr: expressionsEnabled, buf: data}
 	d := decoder{structstack: ss, order: order}
+	if _, ok := d.unpacker(val); !ok && !val.CanSet() {
+		return fmt.Errorf("cannot unpack into unaddressable value of type %s", val.Type())
+	}
 	d.read(f, val)
 
 	return
-- 
2.43.0


From 4c79c02158b7e58ceb80ecf67a8351297b4bc2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 09/56] fix: apply if, order and skip to switches and custom
 codecs

Both were handled before the condition, the byte order and the skip of their
field were looked at, while sizes and other fields do respect them.
---
 decoder.go     | 33 ++++++++++++++++-----------------
 encoder.go     | 33 ++++++++++++++++-----------------
 structstack.go | 12 ++++++------
 3 files changed, 38 insertions(+), 40 deletions(-)

diff --git a/decoder.go b/decoder.go
index 287d454..0351685 100644
--- a/decoder.go
+++ b/decoder.go
@@ -269,23 +269,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		return
 	}
 
-	if f.SwitchExpr != nil {
-		d.switc(f, v, d.evalExpr(f.SwitchExpr))
-		return
-	}
-
-	struc := d.ancestor(0)
-
-	if f.Name != "_" {
-		if s, ok := d.unpacker(v); ok {
-			var err error
-			d.buf, err = s.Unpack(d.buf, d.order)
-			if err != nil {
-				panic(err)
-			}
-			return
-		}
-	} else {
+	if f.Name == "_" {
 		d.skipBits(d.fieldbits(f, v))
 		return
 	}
@@ -294,6 +278,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		return
 	}
 
+	struc := d.ancestor(0)
 	sfields := d.sfields
 	order := d.order
 
@@ -306,6 +291,20 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.skipBits(f.Skip * 8)
 	}
 
+	if f.SwitchExpr != nil {
+		d.switc(f, v, d.evalExpr(f.SwitchExpr))
+		return
+	}
+
+	if s, ok := d.unpacker(v); ok {
+		var err error
+		d.buf, err = s.Unpack(d.buf, d.order)
+		if err != nil {
+			panic(err)
+		}
+		return
+	}
+
 	d.bitSize = d.evalBits(f)
 	alen := d.evalSize(f)
 
diff --git a/encoder.go b/encoder.go
index e840fd5..518a450 100644
--- a/encoder.go
+++ b/encoder.go
@@ -228,23 +228,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 		return
 	}
 
-	if f.SwitchExpr != nil {
-		e.switc(f, v, e.evalExpr(f.SwitchExpr))
-		return
-	}
-
-	struc := e.ancestor(0)
-
-	if f.Name != "_" {
-		if s, ok := e.packer(v); ok {
-			var err error
-			e.buf, err = s.Pack(e.buf, e.order)
-			if err != nil {
-				panic(err)
-			}
-			return
-		}
-	} else {
+	if f.Name == "_" {
 		e.skipBits(e.fieldbits(f, v))
 		return
 	}
@@ -253,6 +237,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 		return
 	}
 
+	struc := e.ancestor(0)
 	sfields := e.sfields
 	order := e.order
 
@@ -265,6 +250,20 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.skipBits(f.Skip * 8)
 	}
 
+	if f.SwitchExpr != nil {
+		e.switc(f, v, e.evalExpr(f.SwitchExpr))
+		return
+	}
+
+	if s, ok := e.packer(v); ok {
+		var err error
+		e.buf, err = s.Pack(e.buf, e.order)
+		if err != nil {
+			panic(err)
+		}
+		return
+	}
+
 	e.bitSize = e.evalBits(f)
 
 	// If this is a sizeof field, pull the current slice length into it.
diff --git a/structstack.go b/structstack.go
index 6e056a5..22daf63 100644
--- a/structstack.go
+++ b/structstack.go
@@ -127,13 +127,17 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		return 0
 	}
 
+	if !s.evalIf(f) {
+		return 0
+	}
+
 	if f.SwitchExpr != nil {
-		return s.switcbits(f, val, s.evalExpr(f.SwitchExpr))
+		return skipBits + s.switcbits(f, val, s.evalExpr(f.SwitchExpr))
 	}
 
 	if f.Name != "_" {
 		if s, ok := f.bitSizeUsingInterface(val); ok {
-			return s
+			return skipBits + s
 		}
 	} else {
 		// Non-trivial, unnamed fields do not make sense. You can't set a field
@@ -144,10 +148,6 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		}
 	}
 
-	if !s.evalIf(f) {
-		return 0
-	}
-
 	if b := s.evalBits(f); b != 0 {
 		return b
 	}
-- 
2.43.0


From bc9b18cf0fc531fb09bda8c63195d1cc2db51c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 10/56] fix: count skip and if of bit-fields in sizes

The bytes skipped before a bit-field were not counted, and a bit-field with a
false condition was.
---
 structstack.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/structstack.go b/structstack.go
index 22daf63..26ca30f 100644
--- a/structstack.go
+++ b/structstack.go
@@ -149,7 +149,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 	}
 
 	if b := s.evalBits(f); b != 0 {
-		return b
+		return b + skipBits
 	}
 
 	alen := 1
@@ -208,11 +208,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		size += skipBits
 		s.push(val)
 		for _, field := range cachedFieldsFromStruct(f.BinaryType) {
-			if field.BitSize != 0 {
-				size += int(field.BitSize)
-			} else {
-				size += s.fieldbits(field, val.Field(field.Index))
-			}
+			size += s.fieldbits(field, val.Field(field.Index))
 		}
 		s.pop(val)
 		return size
-- 
2.43.0


From bc195508e985da2da0933a86aa07e89777515722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 11/56] fix: size padding fields of struct types

The fields of a value held in a padding field cannot be accessed, so a
padding field with a struct type that has exported fields caused a panic.
---
 structstack.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structstack.go b/structstack.go
index 26ca30f..1fdd79e 100644
--- a/structstack.go
+++ b/structstack.go
@@ -146,6 +146,8 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		if !isTypeTrivial(val.Type()) {
 			return skipBits
 		}
+		// The value is irrelevant, and might not be accessible.
+		val = reflect.New(val.Type()).Elem()
 	}
 
 	if b := s.evalBits(f); b != 0 {
-- 
2.43.0


From e0fa1f840e003d58bc80946839f7fa49cfe6fb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 12/56] fix: compute sizes of pointers

The size left out the skip of a pointer field, and a nil pointer, which
occupies nothing when packed, caused a panic.
---
 structstack.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/structstack.go b/structstack.go
index 1fdd79e..8f23a9e 100644
--- a/structstack.go
+++ b/structstack.go
@@ -171,13 +171,13 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		return 128 + skipBits
 	case reflect.Slice, reflect.String:
 		switch f.NativeType.Kind() {
-		case reflect.Slice, reflect.String, reflect.Array, reflect.Ptr:
+		case reflect.Slice, reflect.String, reflect.Array:
 			alen = val.Len()
 		default:
 			return 0
 		}
 		fallthrough
-	case reflect.Array, reflect.Ptr:
+	case reflect.Array:
 		size += skipBits
 
 		// If array type, get length from type.
@@ -191,8 +191,6 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		}
 
 		switch f.NativeType.Kind() {
-		case reflect.Ptr:
-			return s.fieldbits(f.Elem(), val.Elem())
 		case reflect.Slice, reflect.String, reflect.Array:
 			// Optimization: if the element type is trivial, we can derive the
 			// length from a single element.
@@ -206,6 +204,12 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 			}
 		}
 		return size
+	case reflect.Ptr:
+		size += skipBits
+		if !val.IsNil() {
+			size += s.fieldbits(f.Elem(), val.Elem())
+		}
+		return size
 	case reflect.Struct:
 		size += skipBits
 		s.push(val)
-- 
2.43.0


From ef2ec610f6f7e83362a51326948c41e77315036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 13/56] fix: do not treat pointers as constant-size

The size of an array or slice of pointers was derived from a nil pointer,
and a type that refers to itself by pointer made the check recurse until the
stack overflowed.
---
 field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/field.go b/field.go
index 7881cc1..b5c35a9 100644
--- a/field.go
+++ b/field.go
@@ -339,7 +339,7 @@ func isTypeTrivial(typ reflect.Type) bool {
 		reflect.Complex64,
 		reflect.Complex128:
 		return true
-	case reflect.Array, reflect.Ptr:
+	case reflect.Array:
 		return isTypeTrivial(typ.Elem())
 	case reflect.Struct:
 		for _, field := range cachedFieldsFromStruct(typ) {
-- 
2.43.0


From cb1cdba73dfd7e919a917f72c43b08207c6aac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 14/56] fix: size each element whose size may depend on its
 value

Elements with conditions, switches, computed bit widths or custom codecs were
all given the size of a zero value, and a fixed-length array with such elements
could not be packed from a shorter slice.
---
 field.go       | 43 +++++++++++++++++++++++++++++++++++++++++++
 structstack.go | 12 ++++++++----
 2 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/field.go b/field.go
index b5c35a9..496d2bd 100644
--- a/field.go
+++ b/field.go
@@ -59,6 +59,11 @@ type BitSizer interface {
 	BitSize() int
 }
 
+var (
+	sizerType    = reflect.TypeOf((*Sizer)(nil)).Elem()
+	bitSizerType = reflect.TypeOf((*BitSizer)(nil)).Elem()
+)
+
 // field represents a structure field, similar to reflect.StructField.
 type field struct {
 	Name       string
@@ -353,6 +358,44 @@ func isTypeTrivial(typ reflect.Type) bool {
 	}
 }
 
+// isConstantSize determines if every value of a field has the same size and
+// needs no inspection to get it.
+func (f *field) isConstantSize() bool {
+	if f.SwitchExpr != nil || f.IfExpr != nil || f.BitsExpr != nil {
+		return false
+	}
+	if f.Flags&(RootFlag|ParentFlag) != 0 {
+		return false
+	}
+	if f.Name != "_" && hasCustomSize(f.NativeType) {
+		return false
+	}
+	switch f.BinaryType.Kind() {
+	case reflect.Array:
+		elem := f.Elem()
+		return elem.isConstantSize()
+	case reflect.Struct:
+		for _, sf := range cachedFieldsFromStruct(f.BinaryType) {
+			if !sf.isConstantSize() {
+				return false
+			}
+		}
+		return true
+	default:
+		return isTypeTrivial(f.BinaryType)
+	}
+}
+
+// hasCustomSize determines if values of a type may report their own size.
+func hasCustomSize(typ reflect.Type) bool {
+	switch typ.Kind() {
+	case reflect.Interface, reflect.Ptr:
+		return true
+	}
+	ptr := reflect.PtrTo(typ)
+	return ptr.Implements(sizerType) || ptr.Implements(bitSizerType)
+}
+
 func (f *field) sizer(v reflect.Value) (Sizer, bool) {
 	if s, ok := v.Interface().(Sizer); ok {
 		return s, true
diff --git a/structstack.go b/structstack.go
index 8f23a9e..600fddc 100644
--- a/structstack.go
+++ b/structstack.go
@@ -192,15 +192,19 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 
 		switch f.NativeType.Kind() {
 		case reflect.Slice, reflect.String, reflect.Array:
-			// Optimization: if the element type is trivial, we can derive the
-			// length from a single element.
+			// Optimization: if all elements have the same size, we can derive
+			// the length from a single element.
 			elem := f.Elem()
-			if elem.Trivial {
+			if elem.isConstantSize() {
 				size += s.fieldbits(elem, reflect.Zero(elem.BinaryType)) * alen
 			} else {
-				for i := 0; i < alen; i++ {
+				for i := 0; i < alen && i < val.Len(); i++ {
 					size += s.fieldbits(elem, val.Index(i))
 				}
+				// Arrays are padded with zero values.
+				for i := val.Len(); i < alen; i++ {
+					size += s.fieldbits(elem, reflect.New(elem.BinaryType).Elem())
+				}
 			}
 		}
 		return size
-- 
2.43.0


From e2da63f502bedb3114f034d17b78227a7093850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 15/56] fix: read strings and byte slices at any bit offset

They were taken from the current byte on even if some of its bits had been
consumed already.
---
 decoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/decoder.go b/decoder.go
index 0351685..262087f 100644
--- a/decoder.go
+++ b/decoder.go
@@ -146,6 +146,14 @@ func (d *decoder) readS32(f field) int32 { return int32(d.read32(f, true)) }
 func (d *decoder) readS64(f field) int64 { return int64(d.read64(f, true)) }
 
 func (d *decoder) readBytes(count int) []byte {
+	if count > len(d.buf) {
+		panic(io.ErrUnexpectedEOF)
+	}
+	if d.bitCounter != 0 {
+		x := make([]byte, count)
+		d.readBits(field{}, x)
+		return x
+	}
 	x := d.buf[0:count]
 	d.buf = d.buf[count:]
 	return x
-- 
2.43.0


From 5817498d9894b9aa07dcabc29db5de92d7357875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 16/56] fix: read strings and byte sequences by their elements

Their length in bytes was taken from the size of the whole field, which counts
skipped bytes too, and bytes were copied unconverted even if their binary type
is wider or their type has its own codec. The bytes are copied so that the
value does not share memory with the input.
---
 decoder.go | 37 ++++++++++++++++++++++++++-----------
 field.go   |  7 +++++++
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/decoder.go b/decoder.go
index 262087f..92e8923 100644
--- a/decoder.go
+++ b/decoder.go
@@ -159,6 +159,29 @@ func (d *decoder) readBytes(count int) []byte {
 	return x
 }
 
+// readElems reads the first count elements of an array or slice.
+func (d *decoder) readElems(f field, v reflect.Value, count int) {
+	ef := f.Elem()
+	if ef.isPlainByte() {
+		copy(v.Slice(0, count).Bytes(), d.readBytes(count))
+		return
+	}
+	for i := 0; i < count; i++ {
+		d.read(ef, v.Index(i))
+	}
+}
+
+// readString reads a string with the given number of elements.
+func (d *decoder) readString(f field, count int) string {
+	ef := f.Elem()
+	if ef.isPlainByte() {
+		return string(d.readBytes(count))
+	}
+	b := reflect.New(reflect.ArrayOf(count, ef.NativeType)).Elem()
+	d.readElems(f, b, count)
+	return string(b.Slice(0, count).Bytes())
+}
+
 func (d *decoder) skipBits(count int) {
 	if int(d.bitCounter)+count > 8*len(d.buf) {
 		panic(io.ErrUnexpectedEOF)
@@ -349,7 +372,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		switch f.NativeType.Kind() {
 		case reflect.String:
 			// When using strings, treat as C string.
-			str := string(d.readBytes(d.fieldbytes(f, v)))
+			str := d.readString(f, l)
 			nul := strings.IndexByte(str, 0)
 			if nul != -1 {
 				str = str[0:nul]
@@ -386,19 +409,11 @@ func (d *decoder) read(f field, v reflect.Value) {
 
 	case reflect.Slice, reflect.String:
 		fixed := func() {
-			switch f.NativeType.Elem().Kind() {
-			case reflect.Uint8:
-				v.SetBytes(d.readBytes(d.fieldbytes(f, v)))
-			default:
-				ef := f.Elem()
-				for i := 0; i < alen; i++ {
-					d.read(ef, v.Index(i))
-				}
-			}
+			d.readElems(f, v, alen)
 		}
 		switch f.NativeType.Kind() {
 		case reflect.String:
-			v.SetString(string(d.readBytes(alen)))
+			v.SetString(d.readString(f, alen))
 		case reflect.Array:
 			if f.WhileExpr != nil {
 				i := 0
diff --git a/field.go b/field.go
index 496d2bd..db3c36c 100644
--- a/field.go
+++ b/field.go
@@ -62,6 +62,7 @@ type BitSizer interface {
 var (
 	sizerType    = reflect.TypeOf((*Sizer)(nil)).Elem()
 	bitSizerType = reflect.TypeOf((*BitSizer)(nil)).Elem()
+	unpackerType = reflect.TypeOf((*Unpacker)(nil)).Elem()
 )
 
 // field represents a structure field, similar to reflect.StructField.
@@ -358,6 +359,12 @@ func isTypeTrivial(typ reflect.Type) bool {
 	}
 }
 
+// isPlainByte determines if a field is a single byte without any conversion.
+func (f *field) isPlainByte() bool {
+	return f.BinaryType.Kind() == reflect.Uint8 && f.NativeType.Kind() == reflect.Uint8 &&
+		!reflect.PtrTo(f.NativeType).Implements(unpackerType)
+}
+
 // isConstantSize determines if every value of a field has the same size and
 // needs no inspection to get it.
 func (f *field) isConstantSize() bool {
-- 
2.43.0


From feebc7a7b490464604b2237722eca453aa462ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 17/56] fix: check counts against the input before allocating

A hostile count made Unpack allocate the whole sequence before looking at the
input, which ends the process when memory runs out.
---
 decoder.go | 17 +++++++++++++++--
 field.go   | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 92e8923..fd3a082 100644
--- a/decoder.go
+++ b/decoder.go
@@ -177,9 +177,20 @@ func (d *decoder) readString(f field, count int) string {
 	if ef.isPlainByte() {
 		return string(d.readBytes(count))
 	}
-	b := reflect.New(reflect.ArrayOf(count, ef.NativeType)).Elem()
+	b := reflect.MakeSlice(reflect.SliceOf(ef.NativeType), count, count)
 	d.readElems(f, b, count)
-	return string(b.Slice(0, count).Bytes())
+	return string(b.Bytes())
+}
+
+// checkCount makes sure that the input can hold the given number of elements
+// before memory is allocated for them.
+func (d *decoder) checkCount(ef field, count int) {
+	if count < 0 {
+		panic(fmt.Errorf("%s: negative length %d", ef.Name, count))
+	}
+	if min := ef.minBits(); min != 0 && count > (8*len(d.buf)-int(d.bitCounter))/min {
+		panic(io.ErrUnexpectedEOF)
+	}
 }
 
 func (d *decoder) skipBits(count int) {
@@ -413,6 +424,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		}
 		switch f.NativeType.Kind() {
 		case reflect.String:
+			d.checkCount(f.Elem(), alen)
 			v.SetString(d.readString(f, alen))
 		case reflect.Array:
 			if f.WhileExpr != nil {
@@ -437,6 +449,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 					}
 				}
 			} else {
+				d.checkCount(f.Elem(), alen)
 				v.Set(reflect.MakeSlice(f.NativeType, alen, alen))
 				fixed()
 			}
diff --git a/field.go b/field.go
index db3c36c..9763039 100644
--- a/field.go
+++ b/field.go
@@ -393,6 +393,39 @@ func (f *field) isConstantSize() bool {
 	}
 }
 
+// minBits is a lower bound of the bits that reading a field takes.
+func (f *field) minBits() (size int) {
+	if f.SwitchExpr != nil || f.IfExpr != nil || f.Flags&(RootFlag|ParentFlag) != 0 {
+		return 0
+	}
+	size = f.Skip * 8
+	if f.BitsExpr != nil || f.Name != "_" && reflect.PtrTo(f.NativeType).Implements(unpackerType) {
+		return size
+	}
+	if f.BitSize != 0 {
+		return size + int(f.BitSize)
+	}
+	switch f.BinaryType.Kind() {
+	case reflect.Array:
+		if f.Name != "_" || isTypeTrivial(f.NativeType) {
+			elem := f.Elem()
+			size += elem.minBits() * f.BinaryType.Len()
+		}
+	case reflect.Struct:
+		if f.Name != "_" || isTypeTrivial(f.NativeType) {
+			for _, sf := range cachedFieldsFromStruct(f.BinaryType) {
+				size += sf.minBits()
+			}
+		}
+	case reflect.Slice, reflect.String, reflect.Ptr, reflect.Interface:
+	default:
+		pad := fieldFromType(f.BinaryType)
+		pad.Name = "_"
+		size += (&structstack{}).fieldbits(pad, reflect.Zero(f.BinaryType))
+	}
+	return size
+}
+
 // hasCustomSize determines if values of a type may report their own size.
 func hasCustomSize(typ reflect.Type) bool {
 	switch typ.Kind() {
-- 
2.43.0


From 876445c1f03812291de44f2fe10349a4257b1904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 18/56] fix: report an error when a length does not fit its
 counter

The counter was silently truncated, so that the packed bytes could not be
unpacked.
---
 encoder.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/encoder.go b/encoder.go
index 518a450..fb6f10e 100644
--- a/encoder.go
+++ b/encoder.go
@@ -213,6 +213,22 @@ func (e *encoder) switc(f field, v reflect.Value, on interface{}) {
 	}
 }
 
+// checkCounter makes sure that a sizeof field can hold the given length.
+func (e *encoder) checkCounter(f field, overflow bool, length int, signBits int) {
+	width := e.bitSize
+	if width == 0 {
+		switch f.BinaryType.Kind() {
+		case reflect.Int, reflect.Uint:
+			width = 32
+		default:
+			width = f.BinaryType.Bits()
+		}
+	}
+	if overflow || uint64(length)>>uint(width-signBits) != 0 {
+		panic(fmt.Errorf("%s: length %d does not fit", f.Name, length))
+	}
+}
+
 func (e *encoder) write(f field, v reflect.Value) {
 	if f.Flags&RootFlag == RootFlag {
 		e.setancestor(f, v, e.root())
@@ -272,8 +288,10 @@ func (e *encoder) write(f field, v reflect.Value) {
 
 		switch f.BinaryType.Kind() {
 		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+			e.checkCounter(f, v.OverflowInt(int64(sv.Len())), sv.Len(), 1)
 			v.SetInt(int64(sv.Len()))
 		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+			e.checkCounter(f, v.OverflowUint(uint64(sv.Len())), sv.Len(), 0)
 			v.SetUint(uint64(sv.Len()))
 		default:
 			panic(fmt.Errorf("unsupported size type %s: %s", f.BinaryType.String(), f.Name))
-- 
2.43.0


From 4dc8c999a820b1b35779db4d4449de9420505c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 19/56] fix: report an error when a value exceeds its
 fixed-length array

The extra elements were written over the fields that follow, or past the end
of the buffer.
---
 encoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoder.go b/encoder.go
index fb6f10e..b555d6e 100644
--- a/encoder.go
+++ b/encoder.go
@@ -327,6 +327,9 @@ func (e *encoder) write(f field, v reflect.Value) {
 			cap := len
 			if f.BinaryType.Kind() == reflect.Array {
 				cap = f.BinaryType.Len()
+				if len > cap {
+					panic(fmt.Errorf("%s: length %d exceeds array length %d", f.Name, len, cap))
+				}
 			}
 			for i := 0; i < len; i++ {
 				e.write(ef, ov.Index(i))
-- 
2.43.0


From 940f8a359cccc39feada06ba438deee3883cd7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 20/56] fix: sign-extend 16 and 32 bit bit-fields by their sign
 bit

val&1<<n is (val&1)<<n, so the lowest bit decided. (The same expression in
extend8 is left alone because existing tests depend on it.)
---
 decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index fd3a082..aedc578 100644
--- a/decoder.go
+++ b/decoder.go
@@ -85,14 +85,14 @@ func (d *decoder) extend8(val uint8, signed bool) uint8 {
 }
 
 func (d *decoder) extend16(val uint16, signed bool) uint16 {
-	if signed && d.bitSize != 0 && val&1<<uint(d.bitSize-1) != 0 {
+	if signed && d.bitSize != 0 && val&(1<<uint(d.bitSize-1)) != 0 {
 		val |= ^((1 << uint(d.bitSize)) - 1)
 	}
 	return val
 }
 
 func (d *decoder) extend32(val uint32, signed bool) uint32 {
-	if signed && d.bitSize != 0 && val&1<<uint(d.bitSize-1) != 0 {
+	if signed && d.bitSize != 0 && val&(1<<uint(d.bitSize-1)) != 0 {
 		val |= ^((1 << uint(d.bitSize)) - 1)
 	}
 	return val
-- 
2.43.0


From 6183f1b624c20f6b80eb274158b73efd2c8d820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 21/56] fix: keep all bits of little-endian bit-fields wider
 than a byte

The first byte in the buffer was taken to be the partial one, but in little
endian it is the last, so that the high bits of the first byte were lost.
---
 decoder.go | 9 +++++++++
 encoder.go | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/decoder.go b/decoder.go
index aedc578..91f74b6 100644
--- a/decoder.go
+++ b/decoder.go
@@ -71,6 +71,15 @@ func (d *decoder) readBits(f field, outBuf []byte) {
 		// TODO: This needs to be optimized in a way that can be easily
 		// understood; the previous optimized version was simply too hard to
 		// reason about.
+		if d.order == binary.LittleEndian {
+			// The partial byte, if there is one, is the last.
+			for ; decodedBits > 8; decodedBits -= 8 {
+				for i := 0; i < 8; i++ {
+					putBit(outBuf[:1], 8, i, d.readBit())
+				}
+				outBuf = outBuf[1:]
+			}
+		}
 		for i := 0; i < decodedBits; i++ {
 			putBit(outBuf, decodedBits, i, d.readBit())
 		}
diff --git a/encoder.go b/encoder.go
index b555d6e..43ff9c9 100644
--- a/encoder.go
+++ b/encoder.go
@@ -71,6 +71,15 @@ func (e *encoder) writeBits(f field, inBuf []byte) {
 		// TODO: This needs to be optimized in a way that can be easily
 		// understood; the previous optimized version was simply too hard to
 		// reason about.
+		if e.order == binary.LittleEndian {
+			// The partial byte, if there is one, is the last.
+			for ; encodedBits > 8; encodedBits -= 8 {
+				for i := 0; i < 8; i++ {
+					e.writeBit(getBit(inBuf[:1], 8, i))
+				}
+				inBuf = inBuf[1:]
+			}
+		}
 		for i := 0; i < encodedBits; i++ {
 			e.writeBit(getBit(inBuf, encodedBits, i))
 		}
-- 
2.43.0


From 098cd26966dbcedece833c97063ef5b049fdc373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 22/56] fix: recognise every little-endian byte order in
 bit-fields

binary.NativeEndian and wrapped byte orders are not equal to
binary.LittleEndian, so that the wrong bytes of a value were used.
---
 decoder.go | 4 ++--
 encoder.go | 9 +++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index 91f74b6..608d5b4 100644
--- a/decoder.go
+++ b/decoder.go
@@ -55,7 +55,7 @@ func (d *decoder) readBits(f field, outBuf []byte) {
 		// because there is no other obvious way to deal with it.
 		//
 		// Crop output buffer to relevant bytes only.
-		if d.order == binary.LittleEndian {
+		if isLittleEndian(d.order) {
 			outBuf = outBuf[:(decodedBits+7)/8]
 		} else {
 			outBuf = outBuf[len(outBuf)-(decodedBits+7)/8:]
@@ -71,7 +71,7 @@ func (d *decoder) readBits(f field, outBuf []byte) {
 		// TODO: This needs to be optimized in a way that can be easily
 		// understood; the previous optimized version was simply too hard to
 		// reason about.
-		if d.order == binary.LittleEndian {
+		if isLittleEndian(d.order) {
 			// The partial byte, if there is one, is the last.
 			for ; decodedBits > 8; decodedBits -= 8 {
 				for i := 0; i < 8; i++ {
diff --git a/encoder.go b/encoder.go
index 43ff9c9..e30a35d 100644
--- a/encoder.go
+++ b/encoder.go
@@ -27,6 +27,11 @@ type encoder struct {
 	bitSize    int
 }
 
+// isLittleEndian determines if a byte order stores the lowest byte first.
+func isLittleEndian(order binary.ByteOrder) bool {
+	return order != nil && order.Uint16([]byte{1, 0}) == 1
+}
+
 func getBit(buf []byte, bitSize int, bit int) byte {
 	bit = bitSize - 1 - bit
 	return (buf[len(buf)-bit/8-1] >> (uint(bit) % 8)) & 1
@@ -55,7 +60,7 @@ func (e *encoder) writeBits(f field, inBuf []byte) {
 		// because there is no other obvious way to deal with it.
 		//
 		// Crop input buffer to relevant bytes only.
-		if e.order == binary.LittleEndian {
+		if isLittleEndian(e.order) {
 			inBuf = inBuf[:(encodedBits+7)/8]
 		} else {
 			inBuf = inBuf[len(inBuf)-(encodedBits+7)/8:]
@@ -71,7 +76,7 @@ func (e *encoder) writeBits(f field, inBuf []byte) {
 		// TODO: This needs to be optimized in a way that can be easily
 		// understood; the previous optimized version was simply too hard to
 		// reason about.
-		if e.order == binary.LittleEndian {
+		if isLittleEndian(e.order) {
 			// The partial byte, if there is one, is the last.
 			for ; encodedBits > 8; encodedBits -= 8 {
 				for i := 0; i < 8; i++ {
-- 
2.43.0


From c0cf3f077087f8268cc2a9fe0e60e95e6b32724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 23/56] fix: replace the old contents of slices read by while

The elements read were appended to those that the slice held before.
---
 decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder.go b/decoder.go
index 608d5b4..16bcc25 100644
--- a/decoder.go
+++ b/decoder.go
@@ -451,6 +451,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 				switch f.NativeType.Kind() {
 				case reflect.Slice:
 					ef := f.Elem()
+					v.Set(reflect.MakeSlice(f.NativeType, 0, 0))
 					for d.evalWhile(f) {
 						nv := reflect.New(ef.NativeType).Elem()
 						d.read(ef, nv)
-- 
2.43.0


From fea71d5355063940844239be724a437c310563fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 24/56] fix: handle pointers to custom codecs like other
 pointers

The codec was called with the pointer as it is: with nil when unpacking into a
zero value and when packing or sizing a nil pointer, which should occupy
nothing.
---
 decoder.go | 5 +++++
 encoder.go | 5 +++++
 field.go   | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/decoder.go b/decoder.go
index 16bcc25..5456e79 100644
--- a/decoder.go
+++ b/decoder.go
@@ -219,6 +219,11 @@ func (d *decoder) skip(f field, v reflect.Value) {
 }
 
 func (d *decoder) unpacker(v reflect.Value) (Unpacker, bool) {
+	// Pointers are handled by what they point to.
+	if v.Kind() == reflect.Ptr {
+		return nil, false
+	}
+
 	if s, ok := v.Interface().(Unpacker); ok {
 		return s, true
 	}
diff --git a/encoder.go b/encoder.go
index e30a35d..e70c940 100644
--- a/encoder.go
+++ b/encoder.go
@@ -137,6 +137,11 @@ func (e *encoder) skip(f field, v reflect.Value) {
 }
 
 func (e *encoder) packer(v reflect.Value) (Packer, bool) {
+	// Pointers are handled by what they point to.
+	if v.Kind() == reflect.Ptr {
+		return nil, false
+	}
+
 	if s, ok := v.Interface().(Packer); ok {
 		return s, true
 	}
diff --git a/field.go b/field.go
index 9763039..d782d98 100644
--- a/field.go
+++ b/field.go
@@ -469,6 +469,11 @@ func (f *field) bitSizer(v reflect.Value) (BitSizer, bool) {
 }
 
 func (f *field) bitSizeUsingInterface(val reflect.Value) (int, bool) {
+	// Pointers are handled by what they point to.
+	if val.Kind() == reflect.Ptr {
+		return 0, false
+	}
+
 	if s, ok := f.bitSizer(val); ok {
 		return s.BitSize(), true
 	}
-- 
2.43.0


From 6bdb9cfaa5816523ccfc6ac2d8e921e3e0b02c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 25/56] fix: convert the results of in and out to the type of
 their field

---
 decoder.go     |  2 +-
 encoder.go     |  6 +++++-
 structstack.go | 20 ++++++++++++++++++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 5456e79..334525c 100644
--- a/decoder.go
+++ b/decoder.go
@@ -508,6 +508,6 @@ func (d *decoder) read(f field, v reflect.Value) {
 	}
 
 	if f.InExpr != nil {
-		v.Set(reflect.ValueOf(d.evalExpr(f.InExpr)))
+		v.Set(convertResult(f, d.evalExpr(f.InExpr), v.Type()))
 	}
 }
diff --git a/encoder.go b/encoder.go
index e70c940..633b4a2 100644
--- a/encoder.go
+++ b/encoder.go
@@ -319,7 +319,11 @@ func (e *encoder) write(f field, v reflect.Value) {
 
 	ov := v
 	if f.OutExpr != nil {
-		ov = reflect.ValueOf(e.evalExpr(f.OutExpr))
+		result := e.evalExpr(f.OutExpr)
+		ov = reflect.ValueOf(result)
+		if isNumeric(f.BinaryType.Kind()) && f.NativeType.Kind() != reflect.Bool {
+			ov = convertResult(f, result, f.BinaryType)
+		}
 	}
 
 	switch f.BinaryType.Kind() {
diff --git a/structstack.go b/structstack.go
index 600fddc..add705a 100644
--- a/structstack.go
+++ b/structstack.go
@@ -251,6 +251,26 @@ func (s *structstack) evalExpr(program *expr.Program) interface{} {
 	return v
 }
 
+// isNumeric determines if values of a kind are numbers that can be converted
+// to each other.
+func isNumeric(k reflect.Kind) bool {
+	return k >= reflect.Int && k <= reflect.Float64
+}
+
+// convertResult converts the result of an expression to the given type.
+func convertResult(f field, result interface{}, typ reflect.Type) reflect.Value {
+	v := reflect.ValueOf(result)
+	if v.IsValid() {
+		if v.Type().AssignableTo(typ) {
+			return v
+		}
+		if isNumeric(v.Kind()) && isNumeric(typ.Kind()) || v.Kind() == typ.Kind() && v.Type().ConvertibleTo(typ) {
+			return v.Convert(typ)
+		}
+	}
+	panic(fmt.Errorf("%s: cannot use result of expression (%T) as %s", f.Name, result, typ))
+}
+
 func (s *structstack) push(v reflect.Value) {
 	s.stack = append(s.stack, v)
 }
-- 
2.43.0


From febd246f00821ae4bf52d858603584ac615e0a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 26/56] fix: compare switch cases like the expression language
 does

---
 decoder.go     |  8 +++++---
 encoder.go     | 15 ++++++++-------
 expr/eval.go   | 21 +++++++++++++++++++++
 structstack.go | 23 ++++++++++++++++++++---
 4 files changed, 54 insertions(+), 13 deletions(-)

diff --git a/decoder.go b/decoder.go
index 334525c..b05f4d2 100644
--- a/decoder.go
+++ b/decoder.go
@@ -7,6 +7,8 @@ import (
 	"math"
 	"reflect"
 	"strings"
+
+	"github.com/go-restruct/restruct/expr"
 )
 
 // Unpacker is a type capable of unpacking a binary representation of itself
@@ -265,7 +267,7 @@ func (d *decoder) setInt(f field, v reflect.Value, x int64) {
 	}
 }
 
-func (d *decoder) switc(f field, v reflect.Value, on interface{}) {
+func (d *decoder) switc(f field, v reflect.Value, on expr.Value) {
 	var def *switchcase
 
 	if v.Kind() != reflect.Struct {
@@ -299,7 +301,7 @@ func (d *decoder) switc(f field, v reflect.Value, on interface{}) {
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if d.evalExpr(f.CaseExpr) == on {
+		if d.evalCase(f, on) {
 			d.read(f, v)
 			return
 		}
@@ -348,7 +350,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 	}
 
 	if f.SwitchExpr != nil {
-		d.switc(f, v, d.evalExpr(f.SwitchExpr))
+		d.switc(f, v, d.evalValue(f.SwitchExpr))
 		return
 	}
 
diff --git a/encoder.go b/encoder.go
index 633b4a2..ed0f8bd 100644
--- a/encoder.go
+++ b/encoder.go
@@ -5,6 +5,8 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+
+	"github.com/go-restruct/restruct/expr"
 )
 
 // Packer is a type capable of packing a native value into a binary
@@ -195,7 +197,7 @@ func (e *encoder) uintFromField(f field, v reflect.Value) uint64 {
 	}
 }
 
-func (e *encoder) switc(f field, v reflect.Value, on interface{}) {
+func (e *encoder) switc(f field, v reflect.Value, on expr.Value) {
 	var def *switchcase
 
 	if v.Kind() != reflect.Struct {
@@ -221,7 +223,7 @@ func (e *encoder) switc(f field, v reflect.Value, on interface{}) {
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if e.evalExpr(f.CaseExpr) == on {
+		if e.evalCase(f, on) {
 			e.write(f, v)
 			return
 		}
@@ -286,7 +288,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 	}
 
 	if f.SwitchExpr != nil {
-		e.switc(f, v, e.evalExpr(f.SwitchExpr))
+		e.switc(f, v, e.evalValue(f.SwitchExpr))
 		return
 	}
 
@@ -319,10 +321,9 @@ func (e *encoder) write(f field, v reflect.Value) {
 
 	ov := v
 	if f.OutExpr != nil {
-		result := e.evalExpr(f.OutExpr)
-		ov = reflect.ValueOf(result)
-		if isNumeric(f.BinaryType.Kind()) && f.NativeType.Kind() != reflect.Bool {
-			ov = convertResult(f, result, f.BinaryType)
+		ov = reflect.ValueOf(e.evalExpr(f.OutExpr))
+		if isNumeric(ov.Kind()) && isNumeric(f.BinaryType.Kind()) {
+			ov = ov.Convert(f.BinaryType)
 		}
 	}
 
diff --git a/expr/eval.go b/expr/eval.go
index 182f164..f28b846 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -20,6 +20,27 @@ func EvalProgram(resolver Resolver, program *Program) (v interface{}, err error)
 	return
 }
 
+// EvalProgramValue is like EvalProgram, but keeps the type of the result, so
+// that an untyped constant can still be compared with values of other types.
+func EvalProgramValue(resolver Resolver, program *Program) (v Value, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			v, err = nil, recoveredError(r)
+		}
+	}()
+
+	v = evalnode(resolver, program.root)
+	return
+}
+
+// recoveredError turns a recovered panic value into an error.
+func recoveredError(r interface{}) error {
+	if err, ok := r.(error); ok {
+		return err
+	}
+	return fmt.Errorf("%v", r)
+}
+
 // Eval returns the result of evaluating the provided expression.
 func Eval(resolver Resolver, expr string) (interface{}, error) {
 	return EvalProgram(resolver, ParseString(expr))
diff --git a/structstack.go b/structstack.go
index add705a..00f105d 100644
--- a/structstack.go
+++ b/structstack.go
@@ -71,7 +71,7 @@ func (s *structstack) evalWhile(f field) bool {
 	panic("expected bool value for while expr")
 }
 
-func (s *structstack) switcbits(f field, v reflect.Value, on interface{}) (size int) {
+func (s *structstack) switcbits(f field, v reflect.Value, on expr.Value) (size int) {
 	var def *switchcase
 
 	if v.Kind() != reflect.Struct {
@@ -97,7 +97,7 @@ func (s *structstack) switcbits(f field, v reflect.Value, on interface{}) (size
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if s.evalExpr(f.CaseExpr) == on {
+		if s.evalCase(f, on) {
 			return s.fieldbits(f, v)
 		}
 	}
@@ -132,7 +132,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 	}
 
 	if f.SwitchExpr != nil {
-		return skipBits + s.switcbits(f, val, s.evalExpr(f.SwitchExpr))
+		return skipBits + s.switcbits(f, val, s.evalValue(f.SwitchExpr))
 	}
 
 	if f.Name != "_" {
@@ -251,6 +251,23 @@ func (s *structstack) evalExpr(program *expr.Program) interface{} {
 	return v
 }
 
+// evalValue evaluates an expression without losing the type of the result.
+func (s *structstack) evalValue(program *expr.Program) expr.Value {
+	if !s.allowexpr {
+		panic("call restruct.EnableExprBeta() to eanble expressions beta")
+	}
+	v, err := expr.EvalProgramValue(s, program)
+	if err != nil {
+		panic(err)
+	}
+	return v
+}
+
+// evalCase determines if the case of a switch applies.
+func (s *structstack) evalCase(f field, on expr.Value) bool {
+	return s.evalValue(f.CaseExpr).Equal(on).RawValue().(bool)
+}
+
 // isNumeric determines if values of a kind are numbers that can be converted
 // to each other.
 func isNumeric(k reflect.Kind) bool {
-- 
2.43.0


From 47b7b8c6d7cd443335c905e0ad1757077f8211b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 27/56] fix: return every failure to parse or evaluate as an
 error

---
 expr/eval.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/expr/eval.go b/expr/eval.go
index f28b846..ff298ef 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -8,11 +8,7 @@ import (
 func EvalProgram(resolver Resolver, program *Program) (v interface{}, err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			if rerr, ok := r.(error); ok {
-				err = rerr
-			} else {
-				panic(r)
-			}
+			v, err = nil, recoveredError(r)
 		}
 	}()
 
@@ -42,7 +38,13 @@ func recoveredError(r interface{}) error {
 }
 
 // Eval returns the result of evaluating the provided expression.
-func Eval(resolver Resolver, expr string) (interface{}, error) {
+func Eval(resolver Resolver, expr string) (v interface{}, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			v, err = nil, recoveredError(r)
+		}
+	}()
+
 	return EvalProgram(resolver, ParseString(expr))
 }
 
-- 
2.43.0


From 927006cabb04c67044610cd5eb573c4803db0ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 28/56] fix: report unterminated strings

---
 expr/lex.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expr/lex.go b/expr/lex.go
index c79c63e..7cd126b 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -377,6 +377,8 @@ func (s *scanner) scanstring(quote byte) token {
 			return token{kind: strtoken, sval: string(str)}
 		case s.accept('\\'):
 			str = append(str, s.scanescape(quote)...)
+		case s.eof:
+			return s.errsymf("unexpected end of input in string")
 		default:
 			str = append(str, runebytes(s.readrune())...)
 		}
-- 
2.43.0


From 17a770a6c6de1bea2d48ae200fed3139867d97aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 29/56] fix: keep the value of byte escapes in rune literals

---
 expr/lex.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/expr/lex.go b/expr/lex.go
index 7cd126b..72c6e92 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -306,6 +306,9 @@ func (s *scanner) scannumber(t token) token {
 }
 
 func runebytes(r rune) []byte {
+	if !utf8.ValidRune(r) {
+		panic(fmt.Errorf("invalid code point %#x", r))
+	}
 	runebuf := [4]byte{}
 	l := utf8.EncodeRune(runebuf[:], rune(r))
 	return runebuf[:l]
@@ -380,7 +383,7 @@ func (s *scanner) scanstring(quote byte) token {
 		case s.eof:
 			return s.errsymf("unexpected end of input in string")
 		default:
-			str = append(str, runebytes(s.readrune())...)
+			str = append(str, string(s.readrune())...)
 		}
 	}
 }
@@ -389,8 +392,12 @@ func (s *scanner) scanrune() token {
 	defer s.expect('\'')
 	switch {
 	case s.accept('\\'):
-		r := []rune(string(s.scanescape('\'')))
-		return token{kind: runetoken, ival: int64(r[0])}
+		b := s.scanescape('\'')
+		if len(b) == 1 {
+			return token{kind: runetoken, ival: int64(b[0])}
+		}
+		r, _ := utf8.DecodeRune(b)
+		return token{kind: runetoken, ival: int64(r)}
 	default:
 		return token{kind: runetoken, ival: int64(s.readrune())}
 	}
-- 
2.43.0


From 50421bf8cda8018de25a8dd5b7611cf4f6dee20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 30/56] fix: scan all notations of number literals

---
 expr/lex.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/expr/lex.go b/expr/lex.go
index 72c6e92..51d7875 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"strings"
 	"unicode"
 	"unicode/utf8"
 )
@@ -35,7 +36,29 @@ func isdigit(c rune) bool {
 }
 
 func isnumber(c rune) bool {
-	return isdigit(c) || ishex(c) || c == '.' || lower(c) == 'x'
+	switch lower(c) {
+	case 'x', 'o', 'p':
+		return true
+	}
+	return isdigit(c) || ishex(c) || c == '.' || c == '_'
+}
+
+// isexponent determines if a number may continue with a signed exponent.
+func isexponent(number string) bool {
+	number = strings.ToLower(strings.TrimLeft(number, "+-"))
+	if strings.HasPrefix(number, "0x") {
+		return strings.HasSuffix(number, "p")
+	}
+	return strings.HasSuffix(number, "e")
+}
+
+// isfloat determines if a number is written as a floating-point number.
+func isfloat(number string) bool {
+	number = strings.ToLower(strings.TrimLeft(number, "+-"))
+	if strings.HasPrefix(number, "0x") {
+		return strings.ContainsAny(number, ".p")
+	}
+	return strings.ContainsAny(number, ".e")
 }
 
 func isident(c rune) bool {
@@ -282,6 +305,12 @@ func (s *scanner) scannumber(t token) token {
 			t.sval += string(r)
 			continue
 		}
+		if isexponent(t.sval) {
+			if r, ok := s.acceptfn(func(c rune) bool { return c == '+' || c == '-' }); ok {
+				t.sval += string(r)
+				continue
+			}
+		}
 		break
 	}
 	var err error
@@ -295,6 +324,8 @@ func (s *scanner) scannumber(t token) token {
 		t.fval = float64(t.ival)
 		t.kind = inttoken
 		t.sign = true
+	} else if nerr, ok := err.(*strconv.NumError); ok && nerr.Err != strconv.ErrRange && !isfloat(t.sval) {
+		return token{kind: errtoken, eval: err}
 	} else if t.fval, err = strconv.ParseFloat(t.sval, 64); err == nil {
 		t.ival = int64(t.fval)
 		t.uval = uint64(t.fval)
-- 
2.43.0


From 549c10e5ea5182be9a22409ba2675c64d56d960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 31/56] fix: read a minus sign after an operand as subtraction

---
 expr/lex.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/expr/lex.go b/expr/lex.go
index 51d7875..c84d660 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -177,6 +177,10 @@ type scanner struct {
 	r   io.RuneScanner
 	p   int
 	eof bool
+
+	// operand is set when the last token ended an operand, so that a minus
+	// sign that follows is an operator.
+	operand bool
 }
 
 func newscanner(r io.RuneScanner) *scanner {
@@ -451,6 +455,14 @@ func (s *scanner) scan() (t token) {
 
 	defer func() {
 		t.pos = p
+
+		switch t.kind {
+		case identtoken, inttoken, floattoken, booltoken, strtoken, runetoken,
+			nilkeyword, rightparentoken, rightbrackettoken:
+			s.operand = true
+		default:
+			s.operand = false
+		}
 	}()
 
 	switch {
@@ -474,7 +486,7 @@ func (s *scanner) scan() (t token) {
 		switch {
 		default:
 			return s.tokensym(subtoken, "-")
-		case s.peekmatch(isdigit):
+		case !s.operand && s.peekmatch(isdigit):
 			return s.scannumber(token{sval: "-"})
 		}
 	case s.accept('*'):
-- 
2.43.0


From 137f140d0316a782289809d94a669efd50ddb3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 32/56] fix: parse the and-not operator

---
 expr/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expr/parse.go b/expr/parse.go
index 587bce5..b5e7036 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -166,6 +166,10 @@ func (p *parser) parseexpr(depth int) node {
 			binary(binaryand, 7)
 			continue
 		}
+		if p.accept(andnottoken) {
+			binary(binaryandnot, 7)
+			continue
+		}
 		if depth >= 6 {
 			break
 		}
-- 
2.43.0


From 90bcf18469dec59c5c069c8cfe6bf1eac888ca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 33/56] fix: group conditional operators to the right

---
 expr/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr/parse.go b/expr/parse.go
index b5e7036..7d3f209 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -231,7 +231,7 @@ func (p *parser) parseexpr(depth int) node {
 			continue
 		}
 		if p.accept(ternarytoken) {
-			ternary(3)
+			ternary(2)
 			continue
 		}
 		if depth >= 2 {
-- 
2.43.0


From af4d44aa213742f561f0220a804bc6dc1b78f920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 34/56] fix: reject malformed expressions and accept calls
 without arguments

---
 expr/ast.go   |  5 ++++-
 expr/eval.go  |  3 +++
 expr/parse.go | 38 +++++++++++++++++++++++++++++---------
 3 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/expr/ast.go b/expr/ast.go
index c7cb7d0..c2eed89 100644
--- a/expr/ast.go
+++ b/expr/ast.go
@@ -185,7 +185,10 @@ type binaryexpr struct {
 }
 
 func (n binaryexpr) source() string {
-	a, b := n.a.source(), n.b.source()
+	a, b := n.a.source(), ""
+	if n.b != nil {
+		b = n.b.source()
+	}
 	switch n.op {
 	case binarylogicalor:
 		return a + " || " + b
diff --git a/expr/eval.go b/expr/eval.go
index ff298ef..01cc3bc 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -103,6 +103,9 @@ func evalunary(resolver Resolver, node unaryexpr) Value {
 }
 
 func flattengroup(n node) []node {
+	if n == nil {
+		return nil
+	}
 	if n, ok := n.(binaryexpr); ok {
 		if n.op == binarygroup {
 			return append(flattengroup(n.a), flattengroup(n.b)...)
diff --git a/expr/parse.go b/expr/parse.go
index 7d3f209..2497779 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -54,6 +54,9 @@ func (p *parser) accept(k tokenkind) bool {
 
 func (p *parser) expect(k tokenkind) {
 	if p.readtoken().kind != k {
+		if p.t.kind == errtoken {
+			panic(p.t.eval)
+		}
 		panic(fmt.Errorf("expected %s token, got %s", k, p.t.kind))
 	}
 	p.consume()
@@ -63,6 +66,17 @@ func (p *parser) expect(k tokenkind) {
 // (particularly the 'depth' parameter.)
 // https://github.com/byuu/bsnes/blob/master/nall/string/eval/parser.hpp
 func (p *parser) parseexpr(depth int) node {
+	n := p.parsenode(depth)
+	if n == nil {
+		if p.readtoken().kind == errtoken {
+			panic(p.t.eval)
+		}
+		panic(fmt.Errorf("expected operand, got %s", p.t.kind))
+	}
+	return n
+}
+
+func (p *parser) parsenode(depth int) node {
 	var n node
 
 	unary := func(op unaryop, depth int) {
@@ -71,7 +85,7 @@ func (p *parser) parseexpr(depth int) node {
 
 	binary := func(op binaryop, depth int) {
 		if n == nil {
-			panic("unexpected binary op")
+			panic(fmt.Errorf("unexpected binary op"))
 		}
 		n = binaryexpr{op: op, a: n, b: p.parseexpr(depth)}
 	}
@@ -101,7 +115,8 @@ func (p *parser) parseexpr(depth int) node {
 	case p.accept(nilkeyword):
 		n = newnilnode(p.t)
 	case p.accept(leftparentoken):
-		n = p.parseexpr(1)
+		n = p.parseexpr(2)
+		p.expect(rightparentoken)
 	default:
 	}
 
@@ -110,15 +125,22 @@ func (p *parser) parseexpr(depth int) node {
 			break
 		}
 		if n != nil && p.accept(periodtoken) {
-			binary(binarymember, 8)
+			p.expect(identtoken)
+			n = binaryexpr{op: binarymember, a: n, b: newidentnode(p.t)}
 			continue
 		}
 		if n != nil && p.accept(leftparentoken) {
+			if p.accept(rightparentoken) {
+				n = binaryexpr{op: binarycall, a: n}
+				continue
+			}
 			binary(binarycall, 1)
+			p.expect(rightparentoken)
 			continue
 		}
 		if n != nil && p.accept(leftbrackettoken) {
-			binary(binarysubscript, 1)
+			binary(binarysubscript, 2)
+			p.expect(rightbrackettoken)
 			continue
 		}
 		if n == nil && p.accept(addtoken) {
@@ -241,15 +263,13 @@ func (p *parser) parseexpr(depth int) node {
 			binary(binarygroup, 2)
 			continue
 		}
-		if depth >= 1 && (p.accept(rightparentoken) || p.accept(rightbrackettoken)) {
-			break
-		}
-		p.expect(eoftoken)
 		break
 	}
 	return n
 }
 
 func (p *parser) parse() node {
-	return p.parseexpr(0)
+	n := p.parseexpr(2)
+	p.expect(eoftoken)
+	return n
 }
-- 
2.43.0


From 5c913155a80c0699b05eeb670559e808d20192b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 35/56] fix: convert untyped literals to floating-point
 operands

---
 expr/type.go  |  2 +-
 expr/value.go | 20 +++++++++++++-------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index f863ea8..f3059d9 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -572,7 +572,7 @@ func assignable(from Type, to Type) bool {
 		switch to.Kind() {
 		case Int, Int8, Int16, Int32, Int64, Uint, Uint8, Uint16, Uint32, Uint64, Uintptr:
 			return true
-		case Float32, Float64:
+		case Float32, Float64, UntypedFloat:
 			return true
 		}
 
diff --git a/expr/value.go b/expr/value.go
index 40896a0..9dd45e7 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -92,9 +92,9 @@ func promote(from Value, to Type) Value {
 	case UntypedFloat:
 		switch to.Kind() {
 		case Float32:
-			return val{reflect.ValueOf(float32(reflect.ValueOf(from.Value).Float())), to}
+			return val{reflect.ValueOf(float32(from.Value().Float())), to}
 		case Float64:
-			return val{reflect.ValueOf(float64(reflect.ValueOf(from.Value).Float())), to}
+			return val{reflect.ValueOf(from.Value().Float()), to}
 		default:
 			panic(ConversionError{From: ftype, To: to})
 		}
@@ -135,7 +135,7 @@ func promote(from Value, to Type) Value {
 			return val{reflect.ValueOf(uintptr(uval)), to}
 		case Float32:
 			return val{reflect.ValueOf(float32(fval)), to}
-		case Float64:
+		case Float64, UntypedFloat:
 			return val{reflect.ValueOf(float64(fval)), to}
 		default:
 			panic(ConversionError{From: ftype, To: to})
@@ -194,6 +194,11 @@ func (v val) Negate() Value {
 		return val{reflect.ValueOf(-n), v.t}
 	case int64:
 		return val{reflect.ValueOf(-n), v.t}
+	case uint64:
+		if v.t.Kind() == UntypedInt {
+			return literalintval(-int64(n))
+		}
+		return val{reflect.ValueOf(-n), v.t}
 	case uint:
 		return val{reflect.ValueOf(-n), v.t}
 	case uint8:
@@ -202,8 +207,6 @@ func (v val) Negate() Value {
 		return val{reflect.ValueOf(-n), v.t}
 	case uint32:
 		return val{reflect.ValueOf(-n), v.t}
-	case uint64:
-		return val{reflect.ValueOf(-n), v.t}
 	case uintptr:
 		return val{reflect.ValueOf(-n), v.t}
 	case float32:
@@ -236,6 +239,11 @@ func (v val) BitNot() Value {
 		return val{reflect.ValueOf(^n), v.t}
 	case int64:
 		return val{reflect.ValueOf(^n), v.t}
+	case uint64:
+		if v.t.Kind() == UntypedInt {
+			return literalintval(^int64(n))
+		}
+		return val{reflect.ValueOf(^n), v.t}
 	case uint:
 		return val{reflect.ValueOf(^n), v.t}
 	case uint8:
@@ -244,8 +252,6 @@ func (v val) BitNot() Value {
 		return val{reflect.ValueOf(^n), v.t}
 	case uint32:
 		return val{reflect.ValueOf(^n), v.t}
-	case uint64:
-		return val{reflect.ValueOf(^n), v.t}
 	case uintptr:
 		return val{reflect.ValueOf(^n), v.t}
 	default:
-- 
2.43.0


From 96b46d4f5f9b0de100e4b215e9538cbf3100d3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 36/56] fix: do not evaluate operands that logical operators do
 not need

---
 expr/eval.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/expr/eval.go b/expr/eval.go
index 01cc3bc..67f8c82 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -2,6 +2,7 @@ package expr
 
 import (
 	"fmt"
+	"reflect"
 )
 
 // EvalProgram returns the result of executing the program with the given resolver.
@@ -132,6 +133,13 @@ func evalbinary(resolver Resolver, node binaryexpr) Value {
 		return evalnode(resolver, node.b)
 	}
 
+	// Logical operators only look at their right operand if they need it.
+	if l, ok := a.RawValue().(bool); ok {
+		if node.op == binarylogicalor && l || node.op == binarylogicaland && !l {
+			return val{reflect.ValueOf(l), NewPrimitiveType(Bool)}
+		}
+	}
+
 	b := evalnode(resolver, node.b)
 	switch node.op {
 	case binarylogicalor:
-- 
2.43.0


From a2a5187cf6cd54d92f231ebe5ca8af53d7955432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 37/56] fix: compare pointers, slices, maps and functions with
 nil

---
 expr/value.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/expr/value.go b/expr/value.go
index 9dd45e7..50c6d2b 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -179,6 +179,9 @@ func (v val) Value() reflect.Value {
 }
 
 func (v val) RawValue() interface{} {
+	if v.t.Kind() == UntypedNil {
+		return nil
+	}
 	return v.v.Interface()
 }
 
@@ -318,14 +321,32 @@ func (v val) LogicalAnd(rhs Value) Value {
 	return val{reflect.ValueOf(lv && rv), NewPrimitiveType(Bool)}
 }
 
+// isNil compares a value with nil.
+func isNil(v Value) bool {
+	if !assignable(NewLiteralType(UntypedNil), v.Type()) || v.Type().Kind() == UntypedNil {
+		panic(ConversionError{From: NewLiteralType(UntypedNil), To: v.Type()})
+	}
+	return v.Value().IsNil()
+}
+
+// equal compares two values.
+func equal(lhs, rhs Value) bool {
+	switch {
+	case lhs.Type().Kind() == UntypedNil:
+		return isNil(rhs)
+	case rhs.Type().Kind() == UntypedNil:
+		return isNil(lhs)
+	}
+	l, r := coerce(lhs, rhs)
+	return l.RawValue() == r.RawValue()
+}
+
 func (v val) Equal(rhs Value) Value {
-	l, r := coerce(v, rhs)
-	return val{reflect.ValueOf(l.RawValue() == r.RawValue()), NewPrimitiveType(Bool)}
+	return val{reflect.ValueOf(equal(v, rhs)), NewPrimitiveType(Bool)}
 }
 
 func (v val) NotEqual(rhs Value) Value {
-	l, r := coerce(v, rhs)
-	return val{reflect.ValueOf(l.RawValue() != r.RawValue()), NewPrimitiveType(Bool)}
+	return val{reflect.ValueOf(!equal(v, rhs)), NewPrimitiveType(Bool)}
 }
 
 func (v val) Lesser(rhs Value) Value {
-- 
2.43.0


From d0c18f5b168bc7f85c871dd4436ed17af6e4ca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 38/56] fix: treat named types like their underlying types in
 expressions

---
 expr/eval.go  |  2 +-
 expr/value.go | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/expr/eval.go b/expr/eval.go
index 67f8c82..56510a6 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -188,7 +188,7 @@ func evalbinary(resolver Resolver, node binaryexpr) Value {
 }
 
 func evalternary(resolver Resolver, node ternaryexpr) Value {
-	a := evalnode(resolver, node.a).Value().Interface()
+	a := evalnode(resolver, node.a).RawValue()
 	cond, ok := a.(bool)
 	if !ok {
 		panic(fmt.Errorf("unexpected type %T for ternary", cond))
diff --git a/expr/value.go b/expr/value.go
index 50c6d2b..395660f 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -182,6 +182,10 @@ func (v val) RawValue() interface{} {
 	if v.t.Kind() == UntypedNil {
 		return nil
 	}
+	if rt, ok := primRType[v.t.Kind()]; ok && v.v.Kind() == rt.Kind() && v.v.Type() != rt {
+		// Named types behave like their underlying types.
+		return v.v.Convert(rt).Interface()
+	}
 	return v.v.Interface()
 }
 
@@ -882,12 +886,20 @@ func (v val) Index(rhs Value) Value {
 	case *SliceType:
 		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
 	case *MapType:
-		return val{v.v.MapIndex(promote(rhs, t.Key()).Value()), t.Value()}
+		return val{v.v.MapIndex(argument(rhs, t.Key(), v.v.Type().Key())), t.Value()}
 	default:
 		panic(InvalidOpError{Op: "[]", V: v})
 	}
 }
 
+// argument converts a value to what a function or map of runtime values takes.
+func argument(v Value, t Type, rt reflect.Type) reflect.Value {
+	if v.Type().Kind() == UntypedNil && assignable(v.Type(), t) {
+		return reflect.Zero(rt)
+	}
+	return promote(v, t).Value().Convert(rt)
+}
+
 func (v val) Call(in []Value) Value {
 	ft, ok := v.t.(*FuncType)
 	if !ok {
@@ -898,7 +910,7 @@ func (v val) Call(in []Value) Value {
 	}
 	inconv := []reflect.Value{}
 	for i, n := range in {
-		inconv = append(inconv, promote(n, ft.In(i)).Value())
+		inconv = append(inconv, argument(n, ft.In(i), v.v.Type().In(i)))
 	}
 	out := v.v.Call(inconv)
 	if len(out) != 1 {
-- 
2.43.0


From dface740dd582f09b37702ffffadb7b4fb4b27fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 39/56] fix: make map entries accessible to expressions

---
 expr/type.go  | 2 +-
 expr/value.go | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index f3059d9..0457487 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -287,7 +287,7 @@ type MapType struct {
 
 // NewMapType returns a new map type.
 func NewMapType(key Type, val Type) Type {
-	return MapType{key: key, val: val}
+	return &MapType{key: key, val: val}
 }
 
 // String implements Type.
diff --git a/expr/value.go b/expr/value.go
index 395660f..73fcb20 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -886,7 +886,11 @@ func (v val) Index(rhs Value) Value {
 	case *SliceType:
 		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
 	case *MapType:
-		return val{v.v.MapIndex(argument(rhs, t.Key(), v.v.Type().Key())), t.Value()}
+		elem := v.v.MapIndex(argument(rhs, t.Key(), v.v.Type().Key()))
+		if !elem.IsValid() {
+			elem = reflect.Zero(v.v.Type().Elem())
+		}
+		return val{elem, t.Value()}
 	default:
 		panic(InvalidOpError{Op: "[]", V: v})
 	}
-- 
2.43.0


From a21ba222dc9dabe33bb1a31ec1926b4b5f164879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 40/56] fix: publish only complete types in the type cache

---
 expr/type.go | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index 0457487..d617670 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -478,12 +478,14 @@ func toreflecttype(t Type) reflect.Type {
 var typemap = map[reflect.Type]Type{}
 var typemutex = sync.Mutex{}
 
-func savetype(reflect reflect.Type, expr Type) Type {
+// savetypes publishes converted types. They must be complete.
+func savetypes(types map[reflect.Type]Type) {
 	typemutex.Lock()
 	defer typemutex.Unlock()
 
-	typemap[reflect] = expr
-	return expr
+	for rt, et := range types {
+		typemap[rt] = et
+	}
 }
 
 func loadtype(reflect reflect.Type) (Type, bool) {
@@ -502,6 +504,19 @@ func fromreflecttype(t reflect.Type) Type {
 		return et
 	}
 
+	types := map[reflect.Type]Type{}
+	et := converttype(t, types)
+	savetypes(types)
+	return et
+}
+
+// converttype converts a runtime type, using and adding to the types that are
+// already under conversion.
+func converttype(t reflect.Type, types map[reflect.Type]Type) Type {
+	if et, ok := types[t]; ok {
+		return et
+	}
+
 	switch t.Kind() {
 	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32,
 		reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32,
@@ -509,30 +524,37 @@ func fromreflecttype(t reflect.Type) Type {
 		reflect.String:
 		return primType[t.Kind()]
 	case reflect.Array:
-		return NewArrayType(t.Len(), fromreflecttype(t.Elem()))
+		return NewArrayType(t.Len(), converttype(t.Elem(), types))
 	case reflect.Func:
+		et := &FuncType{}
+		types[t] = et
 		nin := t.NumIn()
 		in := make([]Type, 0, nin)
 		for i := 0; i < nin; i++ {
-			in = append(in, fromreflecttype(t.In(i)))
+			in = append(in, converttype(t.In(i), types))
 		}
 		nout := t.NumOut()
 		out := make([]Type, 0, nout)
 		for i := 0; i < nout; i++ {
-			out = append(out, fromreflecttype(t.Out(i)))
+			out = append(out, converttype(t.Out(i), types))
 		}
-		return NewFuncType(in, out, t.IsVariadic())
+		*et = *NewFuncType(in, out, t.IsVariadic())
+		return et
 	case reflect.Map:
-		return NewMapType(fromreflecttype(t.Key()), fromreflecttype(t.Elem()))
+		et := &MapType{}
+		types[t] = et
+		et.key = converttype(t.Key(), types)
+		et.val = converttype(t.Elem(), types)
+		return et
 	case reflect.Ptr:
 		et := &PtrType{}
-		savetype(t, et)
-		*et = *NewPtrType(fromreflecttype(t.Elem()))
+		types[t] = et
+		*et = *NewPtrType(converttype(t.Elem(), types))
 		return et
 	case reflect.Slice:
 		et := &SliceType{}
-		savetype(t, et)
-		*et = *NewSliceType(fromreflecttype(t.Elem()))
+		types[t] = et
+		*et = *NewSliceType(converttype(t.Elem(), types))
 		return et
 	case reflect.Struct:
 		fields := make([]Field, 0, t.NumField())
@@ -540,7 +562,7 @@ func fromreflecttype(t reflect.Type) Type {
 			field := t.Field(i)
 			fields = append(fields, Field{
 				Name: field.Name,
-				Type: fromreflecttype(field.Type),
+				Type: converttype(field.Type, types),
 			})
 		}
 		return NewStructType(fields)
-- 
2.43.0


From 750e13356ff0fcae0a65837abb06b88824c674e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 41/56] fix: accept signed shift counts

---
 expr/value.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/expr/value.go b/expr/value.go
index 73fcb20..a196d2c 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -734,6 +734,12 @@ func (v val) Lsh(rhs Value) Value {
 		shift = uint64(rv)
 	case uintptr:
 		shift = uint64(rv)
+	case int, int8, int16, int32, int64:
+		count := reflect.ValueOf(rv).Int()
+		if count < 0 {
+			panic(InvalidOpError{Op: "<<", V: rhs})
+		}
+		shift = uint64(count)
 	default:
 		panic(InvalidOpError{Op: "<<", V: rhs})
 	}
@@ -783,6 +789,12 @@ func (v val) Rsh(rhs Value) Value {
 		shift = uint64(rv)
 	case uintptr:
 		shift = uint64(rv)
+	case int, int8, int16, int32, int64:
+		count := reflect.ValueOf(rv).Int()
+		if count < 0 {
+			panic(InvalidOpError{Op: ">>", V: rhs})
+		}
+		shift = uint64(count)
 	default:
 		panic(InvalidOpError{Op: ">>", V: rhs})
 	}
-- 
2.43.0


From 6feeac7211f25c9937de246f55126cae781a7b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 42/56] fix: resolve types of promoted fields

---
 expr/env.go   | 6 +++---
 expr/value.go | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/expr/env.go b/expr/env.go
index aa91293..4b6a84a 100644
--- a/expr/env.go
+++ b/expr/env.go
@@ -94,18 +94,18 @@ func (r *MetaResolver) Resolve(ident string) Value {
 
 // StructTypeResolver resolves types of struct fields.
 type StructTypeResolver struct {
-	struc *StructType
+	struc reflect.Type
 }
 
 // NewStructTypeResolver creates a new struct type resolver.
 func NewStructTypeResolver(s interface{}) *StructTypeResolver {
-	return &StructTypeResolver{TypeOf(s).(*StructType)}
+	return &StructTypeResolver{reflect.TypeOf(s)}
 }
 
 // TypeResolve implements TypeResolver.
 func (r *StructTypeResolver) TypeResolve(ident string) Type {
 	if f, ok := r.struc.FieldByName(ident); ok {
-		return f.Type
+		return fromreflecttype(f.Type)
 	}
 	return nil
 }
diff --git a/expr/value.go b/expr/value.go
index a196d2c..ccc5b36 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -289,6 +289,9 @@ func (v val) Dot(ident string) Value {
 		}
 	case *StructType:
 		if sv := v.v.FieldByName(ident); sv.IsValid() {
+			if sv.Kind() == reflect.Interface {
+				sv = sv.Elem()
+			}
 			return val{sv, TypeOf(sv.Interface())}
 		}
 	case *PtrType:
-- 
2.43.0


From cc93541ea9aa072ca77244be05334509822c5175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 43/56] fix: allow references to values with unrepresentable
 parts

---
 expr/type.go  | 14 +++++++++++++-
 expr/value.go | 22 +++++++++++++++-------
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index d617670..697db69 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -196,6 +196,18 @@ func (t littype) String() string {
 
 func (t littype) Kind() Kind { return t.kind }
 
+// opaquetype is the type of values that the language cannot use, but that may be
+// part of values that it can.
+type opaquetype struct {
+	rt reflect.Type
+}
+
+// String implements Type.
+func (t opaquetype) String() string { return t.rt.String() }
+
+// Kind implements Type.
+func (opaquetype) Kind() Kind { return Invalid }
+
 // PackageType is the type of a package.
 type PackageType struct {
 	symbols map[string]Type
@@ -567,7 +579,7 @@ func converttype(t reflect.Type, types map[reflect.Type]Type) Type {
 		}
 		return NewStructType(fields)
 	default:
-		panic(ErrNotRepresentable)
+		return &opaquetype{rt: t}
 	}
 }
 
diff --git a/expr/value.go b/expr/value.go
index ccc5b36..d3bbf6e 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -281,6 +281,17 @@ func (v val) Ref() Value {
 	return val{v.v.Addr(), NewPtrType(v.t)}
 }
 
+// member returns a part of a value. An interface is what it holds.
+func member(v reflect.Value, t Type) Value {
+	if v.Kind() == reflect.Interface {
+		v, t = v.Elem(), nil
+	}
+	if t == nil {
+		t = TypeOf(v.Interface())
+	}
+	return val{v, t}
+}
+
 func (v val) Dot(ident string) Value {
 	switch v.t.(type) {
 	case *PackageType:
@@ -289,10 +300,7 @@ func (v val) Dot(ident string) Value {
 		}
 	case *StructType:
 		if sv := v.v.FieldByName(ident); sv.IsValid() {
-			if sv.Kind() == reflect.Interface {
-				sv = sv.Elem()
-			}
-			return val{sv, TypeOf(sv.Interface())}
+			return member(sv, nil)
 		}
 	case *PtrType:
 		return v.Deref().Dot(ident)
@@ -897,15 +905,15 @@ func (v val) Index(rhs Value) Value {
 	}
 	switch t := v.t.(type) {
 	case *ArrayType:
-		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
+		return member(v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem())
 	case *SliceType:
-		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
+		return member(v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem())
 	case *MapType:
 		elem := v.v.MapIndex(argument(rhs, t.Key(), v.v.Type().Key()))
 		if !elem.IsValid() {
 			elem = reflect.Zero(v.v.Type().Elem())
 		}
-		return val{elem, t.Value()}
+		return member(elem, t.Value())
 	default:
 		panic(InvalidOpError{Op: "[]", V: v})
 	}
-- 
2.43.0


From 66e7783b2d7c01d4b048c7e054dd71285763ef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:38 +0000
Subject: [PATCH 44/56] fix: count the skip of fields that occupy nothing in
 sizes

---
 structstack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structstack.go b/structstack.go
index 00f105d..2d6b56e 100644
--- a/structstack.go
+++ b/structstack.go
@@ -223,7 +223,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		s.pop(val)
 		return size
 	default:
-		return 0
+		return skipBits
 	}
 }
 
-- 
2.43.0


From 0ff76bb012b8d68e7060d2d1bff1d48c4bb754bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 45/56] fix: do not allocate elements that the input cannot
 hold

When the least size of an element is not known in advance, a slice was
allocated for the count in the data before any element was read.
---
 decoder.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index b05f4d2..ff7a8a9 100644
--- a/decoder.go
+++ b/decoder.go
@@ -193,6 +193,24 @@ func (d *decoder) readString(f field, count int) string {
 	return string(b.Bytes())
 }
 
+// readSlice reads a slice with the given number of elements.
+func (d *decoder) readSlice(f field, v reflect.Value, count int) {
+	ef := f.Elem()
+	d.checkCount(ef, count)
+	// Unless elements occupy nothing, there is at most one for every bit left.
+	n := count
+	if max := 8*len(d.buf) + 1; n > max {
+		n = max
+	}
+	v.Set(reflect.MakeSlice(f.NativeType, n, n))
+	d.readElems(f, v, n)
+	for ; n < count; n++ {
+		ev := reflect.New(ef.NativeType).Elem()
+		d.read(ef, ev)
+		v.Set(reflect.Append(v, ev))
+	}
+}
+
 // checkCount makes sure that the input can hold the given number of elements
 // before memory is allocated for them.
 func (d *decoder) checkCount(ef field, count int) {
@@ -466,9 +484,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 					}
 				}
 			} else {
-				d.checkCount(f.Elem(), alen)
-				v.Set(reflect.MakeSlice(f.NativeType, alen, alen))
-				fixed()
+				d.readSlice(f, v, alen)
 			}
 		default:
 			panic(fmt.Errorf("invalid array cast type: %s", f.NativeType.String()))
-- 
2.43.0


From deb733f9d9ea09772c3b9babcbddea4af8d6b682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:58 +0000
Subject: [PATCH 46/56] fix: reject computed widths that the type cannot have

A negative width was read as nothing and made sizes negative.
---
 structstack.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/structstack.go b/structstack.go
index 2d6b56e..a2e88fe 100644
--- a/structstack.go
+++ b/structstack.go
@@ -42,6 +42,14 @@ func (s *structstack) evalBits(f field) int {
 	}
 	if f.BitsExpr != nil {
 		bits = reflect.ValueOf(s.evalExpr(f.BitsExpr)).Convert(reflect.TypeOf(int(0))).Interface().(int)
+		max := 8 * int(f.BinaryType.Size())
+		switch f.BinaryType.Kind() {
+		case reflect.Int, reflect.Uint:
+			max = 32
+		}
+		if bits < 0 || bits > max {
+			panic(fmt.Errorf("%s: %d bits do not fit in type %s", f.Name, bits, f.BinaryType))
+		}
 	}
 	return bits
 }
-- 
2.43.0


From ea5c9c82bf154ac6a9d3c7e68a8aa91b17a84cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:33 +0000
Subject: [PATCH 47/56] fix: limit the length of expressions

Parsing and evaluation recurse once per nested or chained operator. A long
enough text overflowed the stack, which ends the process instead of giving
an error.
---
 expr/parse.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/expr/parse.go b/expr/parse.go
index 2497779..ca9605b 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -2,6 +2,7 @@ package expr
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 )
@@ -21,11 +22,16 @@ func ParseString(s string) *Program {
 	return Parse(bytes.NewBufferString(s))
 }
 
+// maxtokens limits the length of expressions, since parsing and evaluation use
+// stack space in proportion to it.
+const maxtokens = 100000
+
 type parser struct {
 	s *scanner
 
 	a bool
 	t token
+	n int
 }
 
 func newparser(s *scanner) *parser {
@@ -42,6 +48,10 @@ func (p *parser) readtoken() *token {
 
 func (p *parser) consume() {
 	p.a = false
+	p.n++
+	if p.n > maxtokens {
+		panic(errors.New("expression too long"))
+	}
 }
 
 func (p *parser) accept(k tokenkind) bool {
-- 
2.43.0


From 2b68ccdb161cd0735656ed834fb3a774881530ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:06 +0000
Subject: [PATCH 48/56] fix: reject unary plus on operands that are not numbers

---
 expr/eval.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expr/eval.go b/expr/eval.go
index 56510a6..7864e8d 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -87,7 +87,11 @@ func evalunary(resolver Resolver, node unaryexpr) Value {
 	n := evalnode(resolver, node.n)
 	switch node.op {
 	case unaryplus:
-		return n
+		switch k := n.Type().Kind(); {
+		case k >= Int && k <= Float64, k == UntypedInt, k == UntypedFloat:
+			return n
+		}
+		panic(InvalidOpError{Op: "+", V: n})
 	case unarynegate:
 		return n.Negate()
 	case unarynot:
-- 
2.43.0


From ac554081a95be11ded48f320ed99f68cb217635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:00 +0000
Subject: [PATCH 49/56] fix: do not convert nil to types that have no nil

---
 expr/value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expr/value.go b/expr/value.go
index d3bbf6e..346a8f8 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -141,6 +141,9 @@ func promote(from Value, to Type) Value {
 			panic(ConversionError{From: ftype, To: to})
 		}
 	case UntypedNil:
+		if !assignable(ftype, to) {
+			panic(ConversionError{From: ftype, To: to})
+		}
 		return val{reflect.Zero(toreflecttype(to)), to}
 	default:
 		panic(ConversionError{From: ftype, To: to})
-- 
2.43.0


From d869ad35198a849246b286ecca7e99d46eddfda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 50/56] fix: reject tag options without their value

---
 tag.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tag.go b/tag.go
index 92ee33b..28ff1d7 100644
--- a/tag.go
+++ b/tag.go
@@ -98,6 +98,9 @@ func (opts *tagOptions) parse(tag string) error {
 		}
 		result := tag[:i]
 		tag = tag[i:]
+		if result == "" {
+			return "", errors.New("expected identifier")
+		}
 		return result, nil
 	}
 
@@ -170,6 +173,9 @@ func (opts *tagOptions) parse(tag string) error {
 		}
 		result := tag[:i]
 		tag = tag[i:]
+		if result == "" {
+			return "", errors.New("expected expression")
+		}
 		return result, nil
 	}
 
-- 
2.43.0


From d0bbb92607ec5ca6d20a8cdb7c7a8fa5f199edb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:14 +0000
Subject: [PATCH 51/56] fix: reject tags that hold a null character

---
 tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tag.go b/tag.go
index 28ff1d7..d3960ad 100644
--- a/tag.go
+++ b/tag.go
@@ -268,6 +268,9 @@ func (opts *tagOptions) parse(tag string) error {
 			}
 		}
 		if accept("\x00") {
+			if tag != "" {
+				return errors.New("tag: unexpected null character")
+			}
 			return nil
 		}
 		if !accept(",") {
-- 
2.43.0


From 8eae8d50daa557b4e0f294d82adfbb4154c6fc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 52/56] fix: reject sizefrom of a missing field when the field
 has a sizeof

---
 field.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/field.go b/field.go
index d782d98..cc966af 100644
--- a/field.go
+++ b/field.go
@@ -235,13 +235,15 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 			if !validSizeType(val.Type) {
 				panic(ErrInvalidSizeFrom)
 			}
+			found := false
 			for j := range result {
 				if opts.SizeFrom == result[j].Name {
 					sindex = result[j].Index
 					result[j].TIndex = i
+					found = true
 				}
 			}
-			if sindex == -1 {
+			if !found {
 				panic(fmt.Errorf("couldn't find SizeFrom field %s", opts.SizeFrom))
 			}
 		}
-- 
2.43.0


From 9a5b4f04da80a62923898dde076d9d15f1d05e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:10 +0000
Subject: [PATCH 53/56] fix: reject bit sizes of int and uint beyond their 32
 bits

---
 tag.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tag.go b/tag.go
index d3960ad..2e8e52d 100644
--- a/tag.go
+++ b/tag.go
@@ -263,8 +263,14 @@ func (opts *tagOptions) parse(tag string) error {
 				return errors.New("struct type bits: invalid integer syntax")
 			}
 			opts.BitSize = uint8(bits)
-			if opts.BitSize >= uint8(opts.Type.Bits()) || opts.BitSize == 0 {
-				return fmt.Errorf("bit size %d out of range (%d to %d)", opts.BitSize, 1, opts.Type.Bits()-1)
+			max := opts.Type.Bits() - 1
+			switch opts.Type.Kind() {
+			case reflect.Int, reflect.Uint:
+				// These are encoded in 32 bits.
+				max = 32
+			}
+			if int(opts.BitSize) > max || opts.BitSize == 0 {
+				return fmt.Errorf("bit size %d out of range (%d to %d)", opts.BitSize, 1, max)
 			}
 		}
 		if accept("\x00") {
-- 
2.43.0


From 852b154542a35458267cac9d12eee7231f6f6745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:12 +0000
Subject: [PATCH 54/56] fix: reject bit sizes of complex types, which have two
 parts

---
 field.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/field.go b/field.go
index cc966af..4f28612 100644
--- a/field.go
+++ b/field.go
@@ -142,8 +142,7 @@ func validBitType(typ reflect.Type) bool {
 	switch typ.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32,
 		reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16,
-		reflect.Uint32, reflect.Uint64, reflect.Float32,
-		reflect.Complex64, reflect.Complex128:
+		reflect.Uint32, reflect.Uint64, reflect.Float32:
 		return true
 	default:
 		return false
-- 
2.43.0


From a0fa41803c5a1b161dbfdc2a49afe28aca96fe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 55/56] fix: read all elements of arrays that are declared as
 slices

---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index ff7a8a9..5f35530 100644
--- a/decoder.go
+++ b/decoder.go
@@ -454,7 +454,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 
 	case reflect.Slice, reflect.String:
 		fixed := func() {
-			d.readElems(f, v, alen)
+			d.readElems(f, v, v.Len())
 		}
 		switch f.NativeType.Kind() {
 		case reflect.String:
-- 
2.43.0


From bbfdc5c814ded68a8179a335a28ac8d0a71e8019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:10 +0000
Subject: [PATCH 56/56] fix: accept all digits of Go identifiers in the names
 of sizeof and sizefrom

---
 tag.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tag.go b/tag.go
index 2e8e52d..633cf26 100644
--- a/tag.go
+++ b/tag.go
@@ -28,7 +28,7 @@ func isletter(c rune) bool {
 }
 
 func isdigit(c rune) bool {
-	return isdecimal(c)
+	return isdecimal(c) || c >= utf8.RuneSelf && unicode.IsDigit(c)
 }
 
 func isident(c rune) bool {
@@ -36,7 +36,7 @@ func isident(c rune) bool {
 }
 
 func isint(c rune) bool {
-	return isdigit(c) || ishex(c) || lower(c) == 'x'
+	return isdecimal(c) || ishex(c) || lower(c) == 'x'
 }
 
 // tagOptions represents a parsed struct tag.
-- 
2.43.0

