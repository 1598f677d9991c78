From 8850d365f81cfcddac6fec00798e14885dc6fce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 01/57] fix: advance a byte when skipped bits end exactly on a
 byte boundary

---
 decoder.go | 2 +-
 encoder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 64e942c..18720de 100644
--- a/decoder.go
+++ b/decoder.go
@@ -152,7 +152,7 @@ func (d *decoder) readBytes(count int) []byte {
 
 func (d *decoder) skipBits(count int) {
 	d.bitCounter += uint8(count % 8)
-	if d.bitCounter > 8 {
+	if d.bitCounter >= 8 {
 		d.bitCounter -= 8
 		count += 8
 	}
diff --git a/encoder.go b/encoder.go
index b783ffc..c47e4aa 100644
--- a/encoder.go
+++ b/encoder.go
@@ -111,7 +111,7 @@ func (e *encoder) writeS64(f field, x int64) { e.write64(f, uint64(x)) }
 
 func (e *encoder) skipBits(count int) {
 	e.bitCounter += count % 8
-	if e.bitCounter > 8 {
+	if e.bitCounter >= 8 {
 		e.bitCounter -= 8
 		count += 8
 	}
-- 
2.43.0


From ba6434165f08978ff8badf78de8a7ed9d3ec4fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 02/57] fix: return an error instead of panicking from Pack,
 Unpack, SizeOf and BitSize

---
 packing.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/packing.go b/packing.go
index a54025d..6ea6dc5 100644
--- a/packing.go
+++ b/packing.go
@@ -22,9 +22,18 @@ package restruct
 
 import (
 	"encoding/binary"
+	"fmt"
 	"reflect"
 )
 
+// errorFromPanic converts a recovered panic value into an error.
+func errorFromPanic(r interface{}) error {
+	if err, ok := r.(error); ok {
+		return err
+	}
+	return fmt.Errorf("restruct: %v", r)
+}
+
 func fieldFromIntf(v interface{}) (field, reflect.Value) {
 	val := reflect.ValueOf(v)
 	if val.Kind() == reflect.Ptr {
@@ -87,10 +96,7 @@ Flags are comma-separated keys. The following are available:
 func Unpack(data []byte, order binary.ByteOrder, v interface{}) (err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			var ok bool
-			if err, ok = r.(error); !ok {
-				panic(err)
-			}
+			err = errorFromPanic(r)
 		}
 	}()
 
@@ -108,7 +114,7 @@ SizeOf returns the binary encoded size of the given value, in bytes.
 func SizeOf(v interface{}) (size int, err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			err = r.(error)
+			err = errorFromPanic(r)
 		}
 	}()
 
@@ -123,7 +129,7 @@ BitSize returns the binary encoded size of the given value, in bits.
 func BitSize(v interface{}) (size int, err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			err = r.(error)
+			err = errorFromPanic(r)
 		}
 	}()
 
@@ -145,7 +151,7 @@ func Pack(order binary.ByteOrder, v interface{}) (data []byte, err error) {
 	defer func() {
 		if r := recover(); r != nil {
 			data = nil
-			err = r.(error)
+			err = errorFromPanic(r)
 		}
 	}()
 
-- 
2.43.0


From 2ea7595a7712a51f35462a1852acec55239574f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 03/57] fix: count skip and honour if when sizing bitfields

---
 structstack.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/structstack.go b/structstack.go
index 6e056a5..edb6d88 100644
--- a/structstack.go
+++ b/structstack.go
@@ -149,7 +149,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 	}
 
 	if b := s.evalBits(f); b != 0 {
-		return b
+		return b + skipBits
 	}
 
 	alen := 1
@@ -208,11 +208,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		size += skipBits
 		s.push(val)
 		for _, field := range cachedFieldsFromStruct(f.BinaryType) {
-			if field.BitSize != 0 {
-				size += int(field.BitSize)
-			} else {
-				size += s.fieldbits(field, val.Field(field.Index))
-			}
+			size += s.fieldbits(field, val.Field(field.Index))
 		}
 		s.pop(val)
 		return size
-- 
2.43.0


From d75693f200ed4f6747c5266ea909376298234a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 04/57] fix: size pointer fields with skip and nil pointer
 fields as they are encoded

---
 structstack.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/structstack.go b/structstack.go
index edb6d88..6b06cbb 100644
--- a/structstack.go
+++ b/structstack.go
@@ -190,7 +190,11 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 
 		switch f.NativeType.Kind() {
 		case reflect.Ptr:
-			return s.fieldbits(f.Elem(), val.Elem())
+			// The encoder skips nil pointers.
+			if val.IsNil() {
+				return size
+			}
+			return size + s.fieldbits(f.Elem(), val.Elem())
 		case reflect.Slice, reflect.String, reflect.Array:
 			// Optimization: if the element type is trivial, we can derive the
 			// length from a single element.
-- 
2.43.0


From 7bf10b4a47ab6bffd9d7ca510e122cfd963fd342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 05/57] fix: zero the cases of a switch, not the field at the
 switch's own index

---
 decoder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 18720de..0b7fb8b 100644
--- a/decoder.go
+++ b/decoder.go
@@ -217,8 +217,10 @@ func (d *decoder) switc(f field, v reflect.Value, on interface{}) {
 
 	// Zero out values for decoding.
 	for i := 0; i < l; i++ {
-		v := v.Field(f.Index)
-		v.Set(reflect.Zero(v.Type()))
+		v := v.Field(sfields[i].Index)
+		if v.CanSet() {
+			v.Set(reflect.Zero(v.Type()))
+		}
 	}
 
 	for i := 0; i < l; i++ {
-- 
2.43.0


From 4f60a8531ec4ee6cbc3806e79302131ae5aee355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:51 +0000
Subject: [PATCH 06/57] fix: tie sizeof and sizefrom fields together when
 ignored fields precede them

---
 field.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/field.go b/field.go
index ad64761..11e9fe0 100644
--- a/field.go
+++ b/field.go
@@ -218,7 +218,11 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 				panic(ErrInvalidSizeOf)
 			}
 			sindex = j
-			result[sindex].TIndex = i
+			for k := range result {
+				if result[k].Index == sindex {
+					result[k].TIndex = i
+				}
+			}
 			delete(sizeOfMap, val.Name)
 		} else if opts.SizeOf != "" {
 			sizeOfMap[opts.SizeOf] = i
@@ -229,11 +233,10 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 			if !validSizeType(val.Type) {
 				panic(ErrInvalidSizeFrom)
 			}
-			for j := 0; j < i; j++ {
-				val := result[j]
-				if opts.SizeFrom == val.Name {
-					sindex = j
-					result[sindex].TIndex = i
+			for j := range result {
+				if opts.SizeFrom == result[j].Name {
+					sindex = result[j].Index
+					result[j].TIndex = i
 				}
 			}
 			if sindex == -1 {
-- 
2.43.0


From d5c56c9a865a77b9aaad5a20d5b6129b5f4b7e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 07/57] fix: read strings and byte slices that are not
 byte-aligned bit by bit

---
 decoder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/decoder.go b/decoder.go
index 0b7fb8b..d02b484 100644
--- a/decoder.go
+++ b/decoder.go
@@ -145,6 +145,16 @@ func (d *decoder) readS32(f field) int32 { return int32(d.read32(f, true)) }
 func (d *decoder) readS64(f field) int64 { return int64(d.read64(f, true)) }
 
 func (d *decoder) readBytes(count int) []byte {
+	if d.bitCounter != 0 {
+		// Not byte-aligned: assemble the bytes bit by bit.
+		x := make([]byte, len(d.buf[0:count:len(d.buf)]))
+		for i := range x {
+			for bit := 0; bit < 8; bit++ {
+				putBit(x[i:i+1], 8, bit, d.readBit())
+			}
+		}
+		return x
+	}
 	x := d.buf[0:count]
 	d.buf = d.buf[count:]
 	return x
-- 
2.43.0


From 7786563e3e8b94bbc7f4e73aefa0954b5bd74bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 08/57] fix: do not read the skipped bytes again as string or
 byte slice content

---
 decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index d02b484..9021c42 100644
--- a/decoder.go
+++ b/decoder.go
@@ -348,7 +348,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		switch f.NativeType.Kind() {
 		case reflect.String:
 			// When using strings, treat as C string.
-			str := string(d.readBytes(d.fieldbytes(f, v)))
+			str := string(d.readBytes(d.fieldbytes(f, v) - f.Skip))
 			nul := strings.IndexByte(str, 0)
 			if nul != -1 {
 				str = str[0:nul]
@@ -387,7 +387,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		fixed := func() {
 			switch f.NativeType.Elem().Kind() {
 			case reflect.Uint8:
-				v.SetBytes(d.readBytes(d.fieldbytes(f, v)))
+				v.SetBytes(d.readBytes(d.fieldbytes(f, v) - f.Skip))
 			default:
 				ef := f.Elem()
 				for i := 0; i < alen; i++ {
-- 
2.43.0


From 168e1b6487ac464b9dfde373904198f26fd75f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 09/57] fix: decode byte-like slice elements with their own
 wire type and Unpacker

---
 decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 9021c42..5fa4d30 100644
--- a/decoder.go
+++ b/decoder.go
@@ -385,11 +385,11 @@ func (d *decoder) read(f field, v reflect.Value) {
 
 	case reflect.Slice, reflect.String:
 		fixed := func() {
-			switch f.NativeType.Elem().Kind() {
-			case reflect.Uint8:
+			ef := f.Elem()
+			switch byteType := reflect.TypeOf(byte(0)); {
+			case ef.NativeType == byteType && ef.BinaryType == byteType:
 				v.SetBytes(d.readBytes(d.fieldbytes(f, v) - f.Skip))
 			default:
-				ef := f.Elem()
 				for i := 0; i < alen; i++ {
 					d.read(ef, v.Index(i))
 				}
-- 
2.43.0


From 798b3cfc0f62324df4d310d400ee1aa9e5a06a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 10/57] fix: do not size elements of varying size, pointers and
 custom sizers from one zero element

---
 field.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/field.go b/field.go
index 11e9fe0..29b8233 100644
--- a/field.go
+++ b/field.go
@@ -320,11 +320,19 @@ func cachedFieldsFromStruct(typ reflect.Type) (result fields) {
 	return
 }
 
+var (
+	sizerType    = reflect.TypeOf((*Sizer)(nil)).Elem()
+	bitSizerType = reflect.TypeOf((*BitSizer)(nil)).Elem()
+)
+
 // isTypeTrivial determines if a given type is constant-size.
 func isTypeTrivial(typ reflect.Type) bool {
 	if typ == nil {
 		return false
 	}
+	if ptr := reflect.PtrTo(typ); ptr.Implements(sizerType) || ptr.Implements(bitSizerType) {
+		return false
+	}
 	switch typ.Kind() {
 	case reflect.Bool,
 		reflect.Int,
@@ -343,11 +351,14 @@ func isTypeTrivial(typ reflect.Type) bool {
 		reflect.Complex64,
 		reflect.Complex128:
 		return true
-	case reflect.Array, reflect.Ptr:
+	case reflect.Array:
 		return isTypeTrivial(typ.Elem())
 	case reflect.Struct:
 		for _, field := range cachedFieldsFromStruct(typ) {
-			if !isTypeTrivial(field.BinaryType) {
+			if !isTypeTrivial(field.BinaryType) || !isTypeTrivial(field.NativeType) {
+				return false
+			}
+			if field.IfExpr != nil || field.BitsExpr != nil || field.SwitchExpr != nil {
 				return false
 			}
 		}
-- 
2.43.0


From 3cae5740bb2dfe7036bc7b313dcd4334935d7b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 11/57] fix: size struct-typed padding fields without reading
 their inaccessible value

---
 structstack.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/structstack.go b/structstack.go
index 6b06cbb..fe64740 100644
--- a/structstack.go
+++ b/structstack.go
@@ -142,6 +142,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		if !isTypeTrivial(val.Type()) {
 			return skipBits
 		}
+		val = reflect.Zero(val.Type())
 	}
 
 	if !s.evalIf(f) {
-- 
2.43.0


From 5180173c245b5e8aff7c3886b532565ae65e95b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 12/57] fix: pack structs passed by value instead of emitting
 zeros

---
 packing.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/packing.go b/packing.go
index 6ea6dc5..31bc2eb 100644
--- a/packing.go
+++ b/packing.go
@@ -43,6 +43,17 @@ func fieldFromIntf(v interface{}) (field, reflect.Value) {
 	return f, val
 }
 
+// addressable returns val, or an addressable copy of it if it is not
+// addressable, so that values can be passed by value.
+func addressable(val reflect.Value) reflect.Value {
+	if val.CanAddr() {
+		return val
+	}
+	n := reflect.New(val.Type()).Elem()
+	n.Set(val)
+	return n
+}
+
 /*
 Unpack reads data from a byteslice into a value.
 
@@ -120,7 +131,7 @@ func SizeOf(v interface{}) (size int, err error) {
 
 	ss := structstack{allowexpr: expressionsEnabled}
 	f, val := fieldFromIntf(v)
-	return ss.fieldbytes(f, val), nil
+	return ss.fieldbytes(f, addressable(val)), nil
 }
 
 /*
@@ -135,7 +146,7 @@ func BitSize(v interface{}) (size int, err error) {
 
 	ss := structstack{allowexpr: expressionsEnabled}
 	f, val := fieldFromIntf(v)
-	return ss.fieldbits(f, val), nil
+	return ss.fieldbits(f, addressable(val)), nil
 }
 
 /*
@@ -158,6 +169,7 @@ func Pack(order binary.ByteOrder, v interface{}) (data []byte, err error) {
 	ss := structstack{allowexpr: expressionsEnabled, buf: []byte{}}
 
 	f, val := fieldFromIntf(v)
+	val = addressable(val)
 	data = make([]byte, ss.fieldbytes(f, val))
 
 	ss.buf = data
-- 
2.43.0


From 3809b8c0613b5748959824927290291ed0ff47a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 13/57] fix: report an error when Unpack is given an
 unaddressable value

---
 packing.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packing.go b/packing.go
index 31bc2eb..3be10a6 100644
--- a/packing.go
+++ b/packing.go
@@ -114,6 +114,9 @@ func Unpack(data []byte, order binary.ByteOrder, v interface{}) (err error) {
 	f, val := fieldFromIntf(v)
 	ss := structstack{allowexpr: expressionsEnabled, buf: data}
 	d := decoder{structstack: ss, order: order}
+	if _, ok := d.unpacker(val); !ok && !val.CanSet() {
+		return fmt.Errorf("cannot unpack into unaddressable %s", val.Type())
+	}
 	d.read(f, val)
 
 	return
-- 
2.43.0


From 05a17ff845365cd4c2ee13d0063c65265a02e782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 14/57] fix: encode and decode plain int and uint fields as the
 32 bits they are sized as

---
 decoder.go | 4 ++--
 encoder.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index 5fa4d30..a7b4f54 100644
--- a/decoder.go
+++ b/decoder.go
@@ -432,7 +432,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.setInt(f, v, int64(d.readS8(f)))
 	case reflect.Int16:
 		d.setInt(f, v, int64(d.readS16(f)))
-	case reflect.Int32:
+	case reflect.Int, reflect.Int32:
 		d.setInt(f, v, int64(d.readS32(f)))
 	case reflect.Int64:
 		d.setInt(f, v, d.readS64(f))
@@ -441,7 +441,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.setUint(f, v, uint64(d.readU8(f)))
 	case reflect.Uint16:
 		d.setUint(f, v, uint64(d.readU16(f)))
-	case reflect.Uint32:
+	case reflect.Uint, reflect.Uint32:
 		d.setUint(f, v, uint64(d.readU32(f)))
 	case reflect.Uint64:
 		d.setUint(f, v, d.readU64(f))
diff --git a/encoder.go b/encoder.go
index c47e4aa..842352d 100644
--- a/encoder.go
+++ b/encoder.go
@@ -341,7 +341,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.writeS8(f, int8(e.intFromField(f, ov)))
 	case reflect.Int16:
 		e.writeS16(f, int16(e.intFromField(f, ov)))
-	case reflect.Int32:
+	case reflect.Int, reflect.Int32:
 		e.writeS32(f, int32(e.intFromField(f, ov)))
 	case reflect.Int64:
 		e.writeS64(f, int64(e.intFromField(f, ov)))
@@ -350,7 +350,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.write8(f, uint8(e.uintFromField(f, ov)))
 	case reflect.Uint16:
 		e.write16(f, uint16(e.uintFromField(f, ov)))
-	case reflect.Uint32:
+	case reflect.Uint, reflect.Uint32:
 		e.write32(f, uint32(e.uintFromField(f, ov)))
 	case reflect.Uint64:
 		e.write64(f, uint64(e.uintFromField(f, ov)))
-- 
2.43.0


From b039dd19563db3a4d9dfa104134602817e4f6982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 15/57] fix: reject lengths that do not fit in their sizeof
 field

---
 encoder.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/encoder.go b/encoder.go
index 842352d..c143cd4 100644
--- a/encoder.go
+++ b/encoder.go
@@ -176,6 +176,20 @@ func (e *encoder) uintFromField(f field, v reflect.Value) uint64 {
 	}
 }
 
+// checkLen panics if length n does not survive being stored in size field f.
+func (e *encoder) checkLen(f field, v reflect.Value, n int, signBits uint) {
+	bits := uint(f.BinaryType.Bits())
+	if e.bitSize != 0 {
+		bits = uint(e.bitSize)
+	}
+	if b := uint(v.Type().Bits()); b < bits {
+		bits = b
+	}
+	if uint64(n)>>(bits-signBits) != 0 {
+		panic(fmt.Errorf("length %d does not fit in size field %s", n, f.Name))
+	}
+}
+
 func (e *encoder) switc(f field, v reflect.Value, on interface{}) {
 	var def *switchcase
 
@@ -273,8 +287,10 @@ func (e *encoder) write(f field, v reflect.Value) {
 
 		switch f.BinaryType.Kind() {
 		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+			e.checkLen(f, v, sv.Len(), 1)
 			v.SetInt(int64(sv.Len()))
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+			e.checkLen(f, v, sv.Len(), 0)
 			v.SetUint(uint64(sv.Len()))
 		default:
 			panic(fmt.Errorf("unsupported size type %s: %s", f.BinaryType.String(), f.Name))
-- 
2.43.0


From 50e17594a64817b7c33117159baa5ad63a652f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 16/57] fix: reject negative bit sizes

---
 structstack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structstack.go b/structstack.go
index fe64740..1d6d0d7 100644
--- a/structstack.go
+++ b/structstack.go
@@ -42,6 +42,9 @@ func (s *structstack) evalBits(f field) int {
 	}
 	if f.BitsExpr != nil {
 		bits = reflect.ValueOf(s.evalExpr(f.BitsExpr)).Convert(reflect.TypeOf(int(0))).Interface().(int)
+		if bits < 0 {
+			panic(fmt.Errorf("%s: negative bit size %d", f.Name, bits))
+		}
 	}
 	return bits
 }
-- 
2.43.0


From 0e00c1b4a7ad28411ef42fd05481b18b3792ff7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 17/57] fix: replace the earlier content of a slice decoded
 with while

---
 decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder.go b/decoder.go
index a7b4f54..b4f3b78 100644
--- a/decoder.go
+++ b/decoder.go
@@ -414,6 +414,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 				switch f.NativeType.Kind() {
 				case reflect.Slice:
 					ef := f.Elem()
+					v.Set(reflect.Zero(v.Type()))
 					for d.evalWhile(f) {
 						nv := reflect.New(ef.NativeType).Elem()
 						d.read(ef, nv)
-- 
2.43.0


From 54f6c4e5f46fc63132d8208b90a3deeb99f55747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 18/57] fix: do not allocate slices for declared lengths the
 data cannot hold

---
 decoder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/decoder.go b/decoder.go
index b4f3b78..a698ec7 100644
--- a/decoder.go
+++ b/decoder.go
@@ -421,6 +421,16 @@ func (d *decoder) read(f field, v reflect.Value) {
 						v.Set(reflect.Append(v, nv))
 					}
 				}
+			} else if alen > 8*len(d.buf) {
+				// More elements than bits left: do not trust the length and
+				// grow the slice while there is data for it.
+				ef := f.Elem()
+				v.Set(reflect.Zero(v.Type()))
+				for i := 0; i < alen; i++ {
+					nv := reflect.New(ef.NativeType).Elem()
+					d.read(ef, nv)
+					v.Set(reflect.Append(v, nv))
+				}
 			} else {
 				v.Set(reflect.MakeSlice(f.NativeType, alen, alen))
 				fixed()
-- 
2.43.0


From ee695a322380bf1618dba40dad5308aad7493cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 19/57] fix: match integer literals in switch cases whatever
 the switch value's integer type

---
 decoder.go     |  2 +-
 encoder.go     |  2 +-
 structstack.go | 27 ++++++++++++++++++++++++++-
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index a698ec7..7051c3d 100644
--- a/decoder.go
+++ b/decoder.go
@@ -249,7 +249,7 @@ func (d *decoder) switc(f field, v reflect.Value, on interface{}) {
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if d.evalExpr(f.CaseExpr) == on {
+		if matches(d.evalExpr(f.CaseExpr), on) {
 			d.read(f, v)
 			return
 		}
diff --git a/encoder.go b/encoder.go
index c143cd4..05e4af0 100644
--- a/encoder.go
+++ b/encoder.go
@@ -216,7 +216,7 @@ func (e *encoder) switc(f field, v reflect.Value, on interface{}) {
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if e.evalExpr(f.CaseExpr) == on {
+		if matches(e.evalExpr(f.CaseExpr), on) {
 			e.write(f, v)
 			return
 		}
diff --git a/structstack.go b/structstack.go
index 1d6d0d7..8258315 100644
--- a/structstack.go
+++ b/structstack.go
@@ -12,6 +12,31 @@ type switchcase struct {
 	v reflect.Value
 }
 
+// matches compares the value of a case with the value switched on. Integers
+// are compared by value, because an integer literal has a type of its own.
+func matches(c, on interface{}) bool {
+	cv, ov := reflect.ValueOf(c), reflect.ValueOf(on)
+	cint, cneg := intvalue(cv)
+	oint, oneg := intvalue(ov)
+	if cint != nil && oint != nil {
+		return *cint == *oint && cneg == oneg
+	}
+	return c == on
+}
+
+// intvalue returns the bits and sign of an integer, or nil for other values.
+func intvalue(v reflect.Value) (bits *uint64, neg bool) {
+	switch v.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		n := uint64(v.Int())
+		return &n, v.Int() < 0
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		n := v.Uint()
+		return &n, false
+	}
+	return nil, false
+}
+
 type structstack struct {
 	buf       []byte
 	stack     []reflect.Value
@@ -100,7 +125,7 @@ func (s *structstack) switcbits(f field, v reflect.Value, on interface{}) (size
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if s.evalExpr(f.CaseExpr) == on {
+		if matches(s.evalExpr(f.CaseExpr), on) {
 			return s.fieldbits(f, v)
 		}
 	}
-- 
2.43.0


From da0b881047bc9ac3adae7689979ff23deaa1696b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 20/57] fix: report unterminated string literals instead of
 looping forever

---
 expr/lex.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expr/lex.go b/expr/lex.go
index c79c63e..18a1c72 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -377,6 +377,8 @@ func (s *scanner) scanstring(quote byte) token {
 			return token{kind: strtoken, sval: string(str)}
 		case s.accept('\\'):
 			str = append(str, s.scanescape(quote)...)
+		case s.accept(eof):
+			panic(fmt.Errorf("unexpected eof in string"))
 		default:
 			str = append(str, runebytes(s.readrune())...)
 		}
-- 
2.43.0


From 29912f466f43eead14433bd9e4e06c619909b70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 21/57] fix: return an error instead of panicking from Eval and
 EvalProgram

---
 expr/eval.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/expr/eval.go b/expr/eval.go
index 182f164..ff363b0 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -8,11 +8,7 @@ import (
 func EvalProgram(resolver Resolver, program *Program) (v interface{}, err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			if rerr, ok := r.(error); ok {
-				err = rerr
-			} else {
-				panic(r)
-			}
+			err = errorFromPanic(r)
 		}
 	}()
 
@@ -21,10 +17,24 @@ func EvalProgram(resolver Resolver, program *Program) (v interface{}, err error)
 }
 
 // Eval returns the result of evaluating the provided expression.
-func Eval(resolver Resolver, expr string) (interface{}, error) {
+func Eval(resolver Resolver, expr string) (v interface{}, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = errorFromPanic(r)
+		}
+	}()
+
 	return EvalProgram(resolver, ParseString(expr))
 }
 
+// errorFromPanic converts a recovered panic value into an error.
+func errorFromPanic(r interface{}) error {
+	if err, ok := r.(error); ok {
+		return err
+	}
+	return fmt.Errorf("expr: %v", r)
+}
+
 func evalnode(resolver Resolver, node node) Value {
 	switch n := node.(type) {
 	case identnode:
-- 
2.43.0


From 6b8af435f9c77ea9d0a8320a873458513ee5c258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 22/57] fix: parse the and-not operator

---
 expr/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expr/parse.go b/expr/parse.go
index 587bce5..b5e7036 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -166,6 +166,10 @@ func (p *parser) parseexpr(depth int) node {
 			binary(binaryand, 7)
 			continue
 		}
+		if p.accept(andnottoken) {
+			binary(binaryandnot, 7)
+			continue
+		}
 		if depth >= 6 {
 			break
 		}
-- 
2.43.0


From 93a13d1822ebb9d148944457a90018747cecc795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 23/57] fix: scan a minus between two operands as subtraction

---
 expr/lex.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/expr/lex.go b/expr/lex.go
index 18a1c72..2772c1c 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -154,6 +154,8 @@ type scanner struct {
 	r   io.RuneScanner
 	p   int
 	eof bool
+
+	operand bool // the last token ended an operand
 }
 
 func newscanner(r io.RuneScanner) *scanner {
@@ -411,8 +413,16 @@ func (s *scanner) scan() (t token) {
 
 	p := s.p
 
+	operand := s.operand
 	defer func() {
 		t.pos = p
+		switch t.kind {
+		case identtoken, inttoken, floattoken, booltoken, strtoken, runetoken, nilkeyword,
+			rightparentoken, rightbrackettoken:
+			s.operand = true
+		default:
+			s.operand = false
+		}
 	}()
 
 	switch {
@@ -436,7 +446,7 @@ func (s *scanner) scan() (t token) {
 		switch {
 		default:
 			return s.tokensym(subtoken, "-")
-		case s.peekmatch(isdigit):
+		case !operand && s.peekmatch(isdigit):
 			return s.scannumber(token{sval: "-"})
 		}
 	case s.accept('*'):
-- 
2.43.0


From 34bbde054d70110d609fc5b309d21573d44a9dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 24/57] fix: make the ternary operator right associative

---
 expr/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr/parse.go b/expr/parse.go
index b5e7036..5d80b91 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -79,9 +79,9 @@ func (p *parser) parseexpr(depth int) node {
 	ternary := func(depth int) {
 		t := ternaryexpr{}
 		t.a = n
-		t.b = p.parseexpr(depth)
+		t.b = p.parseexpr(depth - 1)
 		p.expect(colontoken)
-		t.c = p.parseexpr(depth)
+		t.c = p.parseexpr(depth - 1)
 		n = t
 	}
 
-- 
2.43.0


From 8d0b539bfa8d93fbea0def4c60c31291c6077b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 25/57] fix: require brackets and parentheses to be closed by
 their own kind

---
 expr/parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/expr/parse.go b/expr/parse.go
index 5d80b91..afb31c2 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -102,6 +102,7 @@ func (p *parser) parseexpr(depth int) node {
 		n = newnilnode(p.t)
 	case p.accept(leftparentoken):
 		n = p.parseexpr(1)
+		p.expect(rightparentoken)
 	default:
 	}
 
@@ -115,10 +116,12 @@ func (p *parser) parseexpr(depth int) node {
 		}
 		if n != nil && p.accept(leftparentoken) {
 			binary(binarycall, 1)
+			p.expect(rightparentoken)
 			continue
 		}
 		if n != nil && p.accept(leftbrackettoken) {
 			binary(binarysubscript, 1)
+			p.expect(rightbrackettoken)
 			continue
 		}
 		if n == nil && p.accept(addtoken) {
@@ -241,7 +244,7 @@ func (p *parser) parseexpr(depth int) node {
 			binary(binarygroup, 2)
 			continue
 		}
-		if depth >= 1 && (p.accept(rightparentoken) || p.accept(rightbrackettoken)) {
+		if depth >= 1 {
 			break
 		}
 		p.expect(eoftoken)
-- 
2.43.0


From 786f1f5dfab3d7885f2c4140d2ce87329d02a59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 26/57] fix: evaluate the right operand of && and || only if it
 matters

---
 expr/eval.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expr/eval.go b/expr/eval.go
index ff363b0..5789cde 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -2,6 +2,7 @@ package expr
 
 import (
 	"fmt"
+	"reflect"
 )
 
 // EvalProgram returns the result of executing the program with the given resolver.
@@ -114,6 +115,11 @@ func evalbinary(resolver Resolver, node binaryexpr) Value {
 		return a.Call(in)
 	case binarygroup:
 		return evalnode(resolver, node.b)
+	case binarylogicalor, binarylogicaland:
+		// The right operand is only evaluated if it matters.
+		if l, ok := a.RawValue().(bool); ok && l == (node.op == binarylogicalor) {
+			return val{reflect.ValueOf(l), NewPrimitiveType(Bool)}
+		}
 	}
 
 	b := evalnode(resolver, node.b)
-- 
2.43.0


From bd47572fd45dd0870814b2f1e4ab37fbb241f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 27/57] fix: convert untyped float constants from their value

---
 expr/value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr/value.go b/expr/value.go
index 40896a0..7acf7fa 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -92,9 +92,9 @@ func promote(from Value, to Type) Value {
 	case UntypedFloat:
 		switch to.Kind() {
 		case Float32:
-			return val{reflect.ValueOf(float32(reflect.ValueOf(from.Value).Float())), to}
+			return val{reflect.ValueOf(float32(from.Value().Float())), to}
 		case Float64:
-			return val{reflect.ValueOf(float64(reflect.ValueOf(from.Value).Float())), to}
+			return val{reflect.ValueOf(float64(from.Value().Float())), to}
 		default:
 			panic(ConversionError{From: ftype, To: to})
 		}
-- 
2.43.0


From db2c1608bfa6faef4ced8053c7dc2775f702f357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 28/57] fix: allow an integer and a float constant in one
 expression

---
 expr/type.go  | 2 +-
 expr/value.go | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/expr/type.go b/expr/type.go
index f863ea8..f3059d9 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -572,7 +572,7 @@ func assignable(from Type, to Type) bool {
 		switch to.Kind() {
 		case Int, Int8, Int16, Int32, Int64, Uint, Uint8, Uint16, Uint32, Uint64, Uintptr:
 			return true
-		case Float32, Float64:
+		case Float32, Float64, UntypedFloat:
 			return true
 		}
 
diff --git a/expr/value.go b/expr/value.go
index 7acf7fa..1a9d81e 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -137,6 +137,8 @@ func promote(from Value, to Type) Value {
 			return val{reflect.ValueOf(float32(fval)), to}
 		case Float64:
 			return val{reflect.ValueOf(float64(fval)), to}
+		case UntypedFloat:
+			return val{reflect.ValueOf(float64(fval)), to}
 		default:
 			panic(ConversionError{From: ftype, To: to})
 		}
-- 
2.43.0


From bbaf9a7597761a7a276063ce6395abe8ff4ca244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 29/57] fix: keep the sign of negated integer constants in
 float expressions

---
 expr/value.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/expr/value.go b/expr/value.go
index 1a9d81e..d9b7ffe 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -184,7 +184,17 @@ func (v val) RawValue() interface{} {
 	return v.v.Interface()
 }
 
+// signed gives a non-negative integer constant a signed representation, so
+// that negating or inverting it yields a negative constant.
+func (v val) signed() val {
+	if n, ok := v.RawValue().(uint64); ok && v.t.Kind() == UntypedInt {
+		return val{reflect.ValueOf(int64(n)), v.t}
+	}
+	return v
+}
+
 func (v val) Negate() Value {
+	v = v.signed()
 	switch n := v.RawValue().(type) {
 	case int:
 		return val{reflect.ValueOf(-n), v.t}
@@ -227,6 +237,7 @@ func (v val) Not() Value {
 }
 
 func (v val) BitNot() Value {
+	v = v.signed()
 	switch n := v.RawValue().(type) {
 	case int:
 		return val{reflect.ValueOf(^n), v.t}
-- 
2.43.0


From ac70b35c9565c3106af3e51afff31419c28f67ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 30/57] fix: let values of named types behave as their
 primitive type in expressions

---
 decoder.go    | 6 +++++-
 expr/value.go | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 7051c3d..bf3bc36 100644
--- a/decoder.go
+++ b/decoder.go
@@ -475,6 +475,10 @@ func (d *decoder) read(f field, v reflect.Value) {
 	}
 
 	if f.InExpr != nil {
-		v.Set(reflect.ValueOf(d.evalExpr(f.InExpr)))
+		in := reflect.ValueOf(d.evalExpr(f.InExpr))
+		if in.Kind() == v.Kind() {
+			in = in.Convert(v.Type())
+		}
+		v.Set(in)
 	}
 }
diff --git a/expr/value.go b/expr/value.go
index d9b7ffe..8d30f13 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -181,6 +181,10 @@ func (v val) Value() reflect.Value {
 }
 
 func (v val) RawValue() interface{} {
+	// Values of named types act as values of the primitive type they are based on.
+	if rt, ok := primRType[v.t.Kind()]; ok && v.v.IsValid() && v.v.Type() != rt {
+		return v.v.Convert(rt).Interface()
+	}
 	return v.v.Interface()
 }
 
-- 
2.43.0


From 1c99909647d7881f59ad6d064a4cbb69aa594b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 31/57] fix: compare pointers, slices, maps and functions with
 nil

---
 expr/value.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/expr/value.go b/expr/value.go
index 8d30f13..b7aa6ba 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -143,6 +143,9 @@ func promote(from Value, to Type) Value {
 			panic(ConversionError{From: ftype, To: to})
 		}
 	case UntypedNil:
+		if !assignable(ftype, to) {
+			panic(ConversionError{From: ftype, To: to})
+		}
 		return val{reflect.Zero(toreflecttype(to)), to}
 	default:
 		panic(ConversionError{From: ftype, To: to})
@@ -329,12 +332,34 @@ func (v val) LogicalAnd(rhs Value) Value {
 	return val{reflect.ValueOf(lv && rv), NewPrimitiveType(Bool)}
 }
 
+// isnil compares a value with the untyped nil constant. ok is false if this is
+// not a comparison of a value that can be nil with nil.
+func isnil(lhs Value, rhs Value) (equal bool, ok bool) {
+	if lhs.Type().Kind() == UntypedNil {
+		lhs, rhs = rhs, lhs
+	}
+	if rhs.Type().Kind() != UntypedNil {
+		return false, false
+	}
+	switch lhs.Type().Kind() {
+	case Ptr, Func, Slice, Map:
+		return lhs.Value().IsNil(), true
+	}
+	return false, false
+}
+
 func (v val) Equal(rhs Value) Value {
+	if equal, ok := isnil(v, rhs); ok {
+		return val{reflect.ValueOf(equal), NewPrimitiveType(Bool)}
+	}
 	l, r := coerce(v, rhs)
 	return val{reflect.ValueOf(l.RawValue() == r.RawValue()), NewPrimitiveType(Bool)}
 }
 
 func (v val) NotEqual(rhs Value) Value {
+	if equal, ok := isnil(v, rhs); ok {
+		return val{reflect.ValueOf(!equal), NewPrimitiveType(Bool)}
+	}
 	l, r := coerce(v, rhs)
 	return val{reflect.ValueOf(l.RawValue() != r.RawValue()), NewPrimitiveType(Bool)}
 }
-- 
2.43.0


From af8a797e209a953e0dc7c227c17a07bf401cbc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 32/57] fix: keep the value of octal and hex escapes in rune
 literals

---
 expr/lex.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expr/lex.go b/expr/lex.go
index 2772c1c..0ce1c0a 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -391,7 +391,11 @@ func (s *scanner) scanrune() token {
 	defer s.expect('\'')
 	switch {
 	case s.accept('\\'):
-		r := []rune(string(s.scanescape('\'')))
+		b := s.scanescape('\'')
+		if len(b) == 1 {
+			return token{kind: runetoken, ival: int64(b[0])}
+		}
+		r := []rune(string(b))
 		return token{kind: runetoken, ival: int64(r[0])}
 	default:
 		return token{kind: runetoken, ival: int64(s.readrune())}
-- 
2.43.0


From 1234e972b6cbcdc1f81e8d496e1ce031c4af2fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 33/57] fix: make map values indexable in expressions

---
 expr/type.go  | 2 +-
 expr/value.go | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index f3059d9..0457487 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -287,7 +287,7 @@ type MapType struct {
 
 // NewMapType returns a new map type.
 func NewMapType(key Type, val Type) Type {
-	return MapType{key: key, val: val}
+	return &MapType{key: key, val: val}
 }
 
 // String implements Type.
diff --git a/expr/value.go b/expr/value.go
index b7aa6ba..435451e 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -897,7 +897,11 @@ func (v val) Index(rhs Value) Value {
 	case *SliceType:
 		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
 	case *MapType:
-		return val{v.v.MapIndex(promote(rhs, t.Key()).Value()), t.Value()}
+		elem := v.v.MapIndex(promote(rhs, t.Key()).Value())
+		if !elem.IsValid() {
+			elem = reflect.Zero(v.v.Type().Elem())
+		}
+		return val{elem, t.Value()}
 	default:
 		panic(InvalidOpError{Op: "[]", V: v})
 	}
-- 
2.43.0


From 7e74976637ed86b097e67b91514b02b7ef022874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 34/57] fix: allow calls without arguments

---
 expr/eval.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expr/eval.go b/expr/eval.go
index 5789cde..312e32a 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -91,6 +91,9 @@ func evalunary(resolver Resolver, node unaryexpr) Value {
 }
 
 func flattengroup(n node) []node {
+	if n == nil {
+		return nil
+	}
 	if n, ok := n.(binaryexpr); ok {
 		if n.op == binarygroup {
 			return append(flattengroup(n.a), flattengroup(n.b)...)
-- 
2.43.0


From d80f242339edc73ceb31a2a4bb170317aa124044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 35/57] fix: share converted types only when they are complete

---
 expr/type.go | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index 0457487..c9b0b42 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -478,12 +478,13 @@ func toreflecttype(t Type) reflect.Type {
 var typemap = map[reflect.Type]Type{}
 var typemutex = sync.Mutex{}
 
-func savetype(reflect reflect.Type, expr Type) Type {
+func savetypes(types map[reflect.Type]Type) {
 	typemutex.Lock()
 	defer typemutex.Unlock()
 
-	typemap[reflect] = expr
-	return expr
+	for reflect, expr := range types {
+		typemap[reflect] = expr
+	}
 }
 
 func loadtype(reflect reflect.Type) (Type, bool) {
@@ -498,9 +499,21 @@ func loadtype(reflect reflect.Type) (Type, bool) {
 
 // fromreflecttype converts a runtime type into an expr type.
 func fromreflecttype(t reflect.Type) Type {
+	// Types are only shared once they are complete.
+	types := map[reflect.Type]Type{}
+	et := buildtype(t, types)
+	savetypes(types)
+	return et
+}
+
+// buildtype converts a runtime type; types holds the types under construction.
+func buildtype(t reflect.Type, types map[reflect.Type]Type) Type {
 	if et, ok := loadtype(t); ok {
 		return et
 	}
+	if et, ok := types[t]; ok {
+		return et
+	}
 
 	switch t.Kind() {
 	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32,
@@ -509,30 +522,30 @@ func fromreflecttype(t reflect.Type) Type {
 		reflect.String:
 		return primType[t.Kind()]
 	case reflect.Array:
-		return NewArrayType(t.Len(), fromreflecttype(t.Elem()))
+		return NewArrayType(t.Len(), buildtype(t.Elem(), types))
 	case reflect.Func:
 		nin := t.NumIn()
 		in := make([]Type, 0, nin)
 		for i := 0; i < nin; i++ {
-			in = append(in, fromreflecttype(t.In(i)))
+			in = append(in, buildtype(t.In(i), types))
 		}
 		nout := t.NumOut()
 		out := make([]Type, 0, nout)
 		for i := 0; i < nout; i++ {
-			out = append(out, fromreflecttype(t.Out(i)))
+			out = append(out, buildtype(t.Out(i), types))
 		}
 		return NewFuncType(in, out, t.IsVariadic())
 	case reflect.Map:
-		return NewMapType(fromreflecttype(t.Key()), fromreflecttype(t.Elem()))
+		return NewMapType(buildtype(t.Key(), types), buildtype(t.Elem(), types))
 	case reflect.Ptr:
 		et := &PtrType{}
-		savetype(t, et)
-		*et = *NewPtrType(fromreflecttype(t.Elem()))
+		types[t] = et
+		*et = *NewPtrType(buildtype(t.Elem(), types))
 		return et
 	case reflect.Slice:
 		et := &SliceType{}
-		savetype(t, et)
-		*et = *NewSliceType(fromreflecttype(t.Elem()))
+		types[t] = et
+		*et = *NewSliceType(buildtype(t.Elem(), types))
 		return et
 	case reflect.Struct:
 		fields := make([]Field, 0, t.NumField())
@@ -540,7 +553,7 @@ func fromreflecttype(t reflect.Type) Type {
 			field := t.Field(i)
 			fields = append(fields, Field{
 				Name: field.Name,
-				Type: fromreflecttype(field.Type),
+				Type: buildtype(field.Type, types),
 			})
 		}
 		return NewStructType(fields)
-- 
2.43.0


From 1091df74087aa46ac41d708b1cdbb44d190cec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 36/57] fix: unpack a custom type behind a nil pointer into a
 new element

---
 decoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decoder.go b/decoder.go
index bf3bc36..8399a4c 100644
--- a/decoder.go
+++ b/decoder.go
@@ -175,6 +175,11 @@ func (d *decoder) skip(f field, v reflect.Value) {
 
 func (d *decoder) unpacker(v reflect.Value) (Unpacker, bool) {
 	if s, ok := v.Interface().(Unpacker); ok {
+		if v.Kind() == reflect.Ptr && v.CanSet() {
+			// The pointer may be nil: unpack into a new element.
+			v.Set(reflect.New(v.Type().Elem()))
+			s = v.Interface().(Unpacker)
+		}
 		return s, true
 	}
 
-- 
2.43.0


From a2da89a49aa237bb39fb0d31c1e9e281266665f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 37/57] fix: reject tags with a NUL or with an empty identifier
 or expression

---
 tag.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tag.go b/tag.go
index 92ee33b..ba43301 100644
--- a/tag.go
+++ b/tag.go
@@ -73,6 +73,10 @@ func (opts *tagOptions) parse(tag string) error {
 		return nil
 	}
 
+	// A NUL marks the end of the tag while parsing.
+	if strings.IndexByte(tag, 0) != -1 {
+		return errors.New("tag: unexpected NUL")
+	}
 	tag += "\x00"
 
 	accept := func(v string) bool {
@@ -96,6 +100,9 @@ func (opts *tagOptions) parse(tag string) error {
 				return "", fmt.Errorf("invalid identifier character %c", r)
 			}
 		}
+		if i == 0 {
+			return "", errors.New("expected identifier")
+		}
 		result := tag[:i]
 		tag = tag[i:]
 		return result, nil
@@ -168,6 +175,9 @@ func (opts *tagOptions) parse(tag string) error {
 				}
 			}
 		}
+		if strings.TrimSpace(tag[:i]) == "" {
+			return "", errors.New("expected expression")
+		}
 		result := tag[:i]
 		tag = tag[i:]
 		return result, nil
-- 
2.43.0


From 7475aa23ced8e4ccab55a8a06209e84fbc81d28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:40 +0000
Subject: [PATCH 38/57] fix: reject missing arguments between commas

---
 expr/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expr/parse.go b/expr/parse.go
index afb31c2..004ab7e 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -242,6 +242,9 @@ func (p *parser) parseexpr(depth int) node {
 		}
 		if p.accept(commatoken) {
 			binary(binarygroup, 2)
+			if n.(binaryexpr).b == nil && p.readtoken().kind == commatoken {
+				panic("unexpected comma")
+			}
 			continue
 		}
 		if depth >= 1 {
-- 
2.43.0


From ad3bab668bb8d99bd5f56eadf294c4c434b95986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 39/57] fix: reject expressions with missing operands when they
 are parsed

---
 expr/parse.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/expr/parse.go b/expr/parse.go
index 004ab7e..2f4bdfa 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -65,23 +65,39 @@ func (p *parser) expect(k tokenkind) {
 func (p *parser) parseexpr(depth int) node {
 	var n node
 
+	operand := func(depth int) node {
+		n := p.parseexpr(depth)
+		if n == nil {
+			panic(fmt.Errorf("expected operand, got %s", p.readtoken().kind))
+		}
+		return n
+	}
+
 	unary := func(op unaryop, depth int) {
-		n = unaryexpr{op: op, n: p.parseexpr(depth)}
+		n = unaryexpr{op: op, n: operand(depth)}
 	}
 
 	binary := func(op binaryop, depth int) {
 		if n == nil {
 			panic("unexpected binary op")
 		}
-		n = binaryexpr{op: op, a: n, b: p.parseexpr(depth)}
+		if op == binarycall || op == binarygroup {
+			// Calls may have no arguments, and argument lists a trailing comma.
+			n = binaryexpr{op: op, a: n, b: p.parseexpr(depth)}
+			return
+		}
+		n = binaryexpr{op: op, a: n, b: operand(depth)}
 	}
 
 	ternary := func(depth int) {
+		if n == nil {
+			panic("unexpected ternary op")
+		}
 		t := ternaryexpr{}
 		t.a = n
-		t.b = p.parseexpr(depth - 1)
+		t.b = operand(depth - 1)
 		p.expect(colontoken)
-		t.c = p.parseexpr(depth - 1)
+		t.c = operand(depth - 1)
 		n = t
 	}
 
-- 
2.43.0


From b5f9cb839799c684e609eb52095b073b4852ef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 40/57] fix: let values of named bool types decide a ternary

---
 expr/eval.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr/eval.go b/expr/eval.go
index 312e32a..a1817f6 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -173,10 +173,10 @@ func evalbinary(resolver Resolver, node binaryexpr) Value {
 }
 
 func evalternary(resolver Resolver, node ternaryexpr) Value {
-	a := evalnode(resolver, node.a).Value().Interface()
+	a := evalnode(resolver, node.a).RawValue()
 	cond, ok := a.(bool)
 	if !ok {
-		panic(fmt.Errorf("unexpected type %T for ternary", cond))
+		panic(fmt.Errorf("unexpected type %T for ternary", a))
 	}
 	if cond {
 		return evalnode(resolver, node.b)
-- 
2.43.0


From 285bdb015706c9d114ec4efbb3f2673b2c6ec9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:06 +0000
Subject: [PATCH 41/57] fix: convert nil to recursive types without recursing
 forever

---
 expr/type.go  | 40 ----------------------------------------
 expr/value.go | 27 ++++++++++++++++++---------
 2 files changed, 18 insertions(+), 49 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index c9b0b42..aad9fbc 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -435,46 +435,6 @@ func TypeEqual(a, b Type) bool {
 	return reflect.DeepEqual(a, b)
 }
 
-// toreflecttype converts an expr type into a runtime type.
-func toreflecttype(t Type) reflect.Type {
-	switch t := t.(type) {
-	case *PrimitiveType:
-		return primRType[t.Kind()]
-	case *ArrayType:
-		return reflect.ArrayOf(t.Len(), toreflecttype(t.Elem()))
-	case *SliceType:
-		return reflect.SliceOf(toreflecttype(t.Elem()))
-	case *StructType:
-		fields := make([]reflect.StructField, 0, t.NumFields())
-		for i := 0; i < t.NumFields(); i++ {
-			field := t.Field(i)
-			fields = append(fields, reflect.StructField{
-				Name: field.Name,
-				Type: toreflecttype(field.Type),
-			})
-		}
-		return reflect.StructOf(fields)
-	case *MapType:
-		return reflect.MapOf(toreflecttype(t.Key()), toreflecttype(t.Value()))
-	case *PtrType:
-		return reflect.PtrTo(toreflecttype(t.Elem()))
-	case *FuncType:
-		nin := t.NumIn()
-		in := make([]reflect.Type, 0, nin)
-		for i := 0; i < nin; i++ {
-			in = append(in, toreflecttype(t.In(i)))
-		}
-		nout := t.NumOut()
-		out := make([]reflect.Type, 0, nout)
-		for i := 0; i < nout; i++ {
-			out = append(out, toreflecttype(t.Out(i)))
-		}
-		return reflect.FuncOf(in, out, t.IsVariadic())
-	default:
-		panic(ErrNotRepresentable)
-	}
-}
-
 var typemap = map[reflect.Type]Type{}
 var typemutex = sync.Mutex{}
 
diff --git a/expr/value.go b/expr/value.go
index 435451e..6884f75 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -75,7 +75,8 @@ type val struct {
 	t Type
 }
 
-func promote(from Value, to Type) Value {
+// promote converts a value to the given type; rt is the runtime type of to.
+func promote(from Value, to Type, rt reflect.Type) Value {
 	if TypeEqual(from.Type(), to) {
 		return from
 	}
@@ -146,12 +147,20 @@ func promote(from Value, to Type) Value {
 		if !assignable(ftype, to) {
 			panic(ConversionError{From: ftype, To: to})
 		}
-		return val{reflect.Zero(toreflecttype(to)), to}
+		return val{reflect.Zero(rt), to}
 	default:
 		panic(ConversionError{From: ftype, To: to})
 	}
 }
 
+// rtypeof returns the runtime type of a value.
+func rtypeof(v Value) reflect.Type {
+	if v.Type().Kind() == UntypedNil {
+		return nil
+	}
+	return v.Value().Type()
+}
+
 func coerce1(v Value) Value {
 	if v.Type().Kind() == UntypedInt {
 		switch n := v.RawValue().(type) {
@@ -168,9 +177,9 @@ func coerce(lhs Value, rhs Value) (Value, Value) {
 	if TypeEqual(lhs.Type(), rhs.Type()) {
 		return coerce1(lhs), coerce1(rhs)
 	} else if assignable(lhs.Type(), rhs.Type()) {
-		return promote(lhs, rhs.Type()), rhs
+		return promote(lhs, rhs.Type(), rtypeof(rhs)), rhs
 	} else if assignable(rhs.Type(), lhs.Type()) {
-		return lhs, promote(rhs, lhs.Type())
+		return lhs, promote(rhs, lhs.Type(), rtypeof(lhs))
 	}
 	panic(ConversionError{From: lhs.Type(), To: rhs.Type()})
 }
@@ -888,16 +897,16 @@ func (v val) AndNot(rhs Value) Value {
 
 func (v val) Index(rhs Value) Value {
 	if v.t.Kind() == String {
-		index := promote(rhs, NewPrimitiveType(Int)).RawValue().(int)
+		index := promote(rhs, NewPrimitiveType(Int), primRType[Int]).RawValue().(int)
 		return val{reflect.ValueOf(v.RawValue().(string)[index]), NewPrimitiveType(Uint8)}
 	}
 	switch t := v.t.(type) {
 	case *ArrayType:
-		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
+		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int), primRType[Int]).RawValue().(int)), t.Elem()}
 	case *SliceType:
-		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
+		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int), primRType[Int]).RawValue().(int)), t.Elem()}
 	case *MapType:
-		elem := v.v.MapIndex(promote(rhs, t.Key()).Value())
+		elem := v.v.MapIndex(promote(rhs, t.Key(), v.v.Type().Key()).Value())
 		if !elem.IsValid() {
 			elem = reflect.Zero(v.v.Type().Elem())
 		}
@@ -917,7 +926,7 @@ func (v val) Call(in []Value) Value {
 	}
 	inconv := []reflect.Value{}
 	for i, n := range in {
-		inconv = append(inconv, promote(n, ft.In(i)).Value())
+		inconv = append(inconv, promote(n, ft.In(i), v.v.Type().In(i)).Value())
 	}
 	out := v.v.Call(inconv)
 	if len(out) != 1 {
-- 
2.43.0


From 2556652225739abc899ba9d5fab704ccd54c6fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:35 +0000
Subject: [PATCH 42/57] fix: pass values of named types as arguments and map
 keys

---
 expr/value.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/expr/value.go b/expr/value.go
index 6884f75..2d1a86a 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -161,6 +161,14 @@ func rtypeof(v Value) reflect.Type {
 	return v.Value().Type()
 }
 
+// named converts between a primitive type and the named types based on it.
+func named(v Value, rt reflect.Type) reflect.Value {
+	if _, ok := primRType[v.Type().Kind()]; ok && v.Value().Type() != rt {
+		return v.Value().Convert(rt)
+	}
+	return v.Value()
+}
+
 func coerce1(v Value) Value {
 	if v.Type().Kind() == UntypedInt {
 		switch n := v.RawValue().(type) {
@@ -906,7 +914,7 @@ func (v val) Index(rhs Value) Value {
 	case *SliceType:
 		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int), primRType[Int]).RawValue().(int)), t.Elem()}
 	case *MapType:
-		elem := v.v.MapIndex(promote(rhs, t.Key(), v.v.Type().Key()).Value())
+		elem := v.v.MapIndex(named(promote(rhs, t.Key(), v.v.Type().Key()), v.v.Type().Key()))
 		if !elem.IsValid() {
 			elem = reflect.Zero(v.v.Type().Elem())
 		}
@@ -926,7 +934,7 @@ func (v val) Call(in []Value) Value {
 	}
 	inconv := []reflect.Value{}
 	for i, n := range in {
-		inconv = append(inconv, promote(n, ft.In(i), v.v.Type().In(i)).Value())
+		inconv = append(inconv, named(promote(n, ft.In(i), v.v.Type().In(i)), v.v.Type().In(i)))
 	}
 	out := v.v.Call(inconv)
 	if len(out) != 1 {
-- 
2.43.0


From 7243bb6df42568bb399595fa6f95ba7094472cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 43/57] fix: return an error for values nested too deeply
 instead of overflowing the stack

---
 decoder.go     |  3 +++
 encoder.go     |  3 +++
 structstack.go | 21 +++++++++++++++++++++
 3 files changed, 27 insertions(+)

diff --git a/decoder.go b/decoder.go
index 8399a4c..679e030 100644
--- a/decoder.go
+++ b/decoder.go
@@ -266,6 +266,9 @@ func (d *decoder) switc(f field, v reflect.Value, on interface{}) {
 }
 
 func (d *decoder) read(f field, v reflect.Value) {
+	d.enter()
+	defer d.leave()
+
 	if f.Flags&RootFlag == RootFlag {
 		d.setancestor(f, v, d.root())
 		return
diff --git a/encoder.go b/encoder.go
index 05e4af0..f29568e 100644
--- a/encoder.go
+++ b/encoder.go
@@ -228,6 +228,9 @@ func (e *encoder) switc(f field, v reflect.Value, on interface{}) {
 }
 
 func (e *encoder) write(f field, v reflect.Value) {
+	e.enter()
+	defer e.leave()
+
 	if f.Flags&RootFlag == RootFlag {
 		e.setancestor(f, v, e.root())
 		return
diff --git a/structstack.go b/structstack.go
index 8258315..767b8d9 100644
--- a/structstack.go
+++ b/structstack.go
@@ -37,9 +37,15 @@ func intvalue(v reflect.Value) (bits *uint64, neg bool) {
 	return nil, false
 }
 
+// maxDepth limits how deep values may be nested, so that cyclic values, types
+// that contain a pointer to themselves, and hostile data do not overflow the
+// stack, which could not be recovered from.
+const maxDepth = 10000
+
 type structstack struct {
 	buf       []byte
 	stack     []reflect.Value
+	depth     int
 	allowexpr bool
 }
 
@@ -139,6 +145,9 @@ func (s *structstack) switcbits(f field, v reflect.Value, on interface{}) (size
 
 // fieldbits determines the encoded size of a field in bits.
 func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
+	s.enter()
+	defer s.leave()
+
 	skipBits := f.Skip * 8
 
 	if f.Flags&RootFlag == RootFlag {
@@ -274,6 +283,18 @@ func (s *structstack) evalExpr(program *expr.Program) interface{} {
 	return v
 }
 
+// enter is called for every value that is processed, until leave is called.
+func (s *structstack) enter() {
+	s.depth++
+	if s.depth > maxDepth {
+		panic(fmt.Errorf("values nested more than %d deep", maxDepth))
+	}
+}
+
+func (s *structstack) leave() {
+	s.depth--
+}
+
 func (s *structstack) push(v reflect.Value) {
 	s.stack = append(s.stack, v)
 }
-- 
2.43.0


From 439c0b1981b4aa76a9264fc5504150ceda757c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 44/57] fix: reject values that are longer than their array on
 the wire

---
 encoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoder.go b/encoder.go
index f29568e..d2545cb 100644
--- a/encoder.go
+++ b/encoder.go
@@ -330,6 +330,9 @@ func (e *encoder) write(f field, v reflect.Value) {
 			if f.BinaryType.Kind() == reflect.Array {
 				cap = f.BinaryType.Len()
 			}
+			if len > cap {
+				panic(fmt.Errorf("%s: length %d does not fit in %s", f.Name, len, f.BinaryType))
+			}
 			for i := 0; i < len; i++ {
 				e.write(ef, ov.Index(i))
 			}
-- 
2.43.0


From 1c9c6804845c9d34c9c2b0b20dc91ecb3f3b00e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 45/57] fix: size complex fields with a bit width by both of
 their parts

---
 structstack.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/structstack.go b/structstack.go
index 767b8d9..79929d4 100644
--- a/structstack.go
+++ b/structstack.go
@@ -187,6 +187,11 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 	}
 
 	if b := s.evalBits(f); b != 0 {
+		switch f.BinaryType.Kind() {
+		case reflect.Complex64, reflect.Complex128:
+			// The real and imaginary part have this many bits each.
+			b *= 2
+		}
 		return b + skipBits
 	}
 
-- 
2.43.0


From 94c61a1be074478f3a47e47715d3ed7e2af3b838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:25 +0000
Subject: [PATCH 46/57] fix: size elements of custom types by value, whatever
 their type on the wire

---
 field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/field.go b/field.go
index 29b8233..8117727 100644
--- a/field.go
+++ b/field.go
@@ -114,7 +114,7 @@ func (f *field) Elem() field {
 		TIndex:     -1,
 		SIndex:     -1,
 		Skip:       0,
-		Trivial:    isTypeTrivial(t.Elem()),
+		Trivial:    isTypeTrivial(t.Elem()) && isTypeTrivial(dt.Elem()),
 	}
 }
 
-- 
2.43.0


From c8fe263bf234034fd9eb15727c29953b14ece6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:25 +0000
Subject: [PATCH 47/57] fix: size slices that are shorter than their array on
 the wire

---
 encoder.go     | 2 +-
 structstack.go | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index d2545cb..a66ce1f 100644
--- a/encoder.go
+++ b/encoder.go
@@ -337,7 +337,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 				e.write(ef, ov.Index(i))
 			}
 			for i := len; i < cap; i++ {
-				e.write(ef, reflect.New(f.BinaryType.Elem()).Elem())
+				e.write(ef, reflect.New(ef.NativeType).Elem())
 			}
 		default:
 			panic(fmt.Errorf("invalid array cast type: %s", f.NativeType.String()))
diff --git a/structstack.go b/structstack.go
index 79929d4..7c4df57 100644
--- a/structstack.go
+++ b/structstack.go
@@ -245,8 +245,14 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 			if elem.Trivial {
 				size += s.fieldbits(elem, reflect.Zero(elem.BinaryType)) * alen
 			} else {
+				// The encoder fills arrays up with zero values.
+				zero := reflect.New(elem.NativeType).Elem()
 				for i := 0; i < alen; i++ {
-					size += s.fieldbits(elem, val.Index(i))
+					if i < val.Len() {
+						size += s.fieldbits(elem, val.Index(i))
+					} else {
+						size += s.fieldbits(elem, zero)
+					}
 				}
 			}
 		}
-- 
2.43.0


From 1c24264e6cf890f9e7e73a2c52d14d015f1cbad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:34 +0000
Subject: [PATCH 48/57] fix: let float cases match the value switched on,
 whatever their float type

---
 structstack.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/structstack.go b/structstack.go
index 7c4df57..7419e8a 100644
--- a/structstack.go
+++ b/structstack.go
@@ -12,8 +12,8 @@ type switchcase struct {
 	v reflect.Value
 }
 
-// matches compares the value of a case with the value switched on. Integers
-// are compared by value, because an integer literal has a type of its own.
+// matches compares the value of a case with the value switched on. Numbers
+// are compared by value, because a literal has a type of its own.
 func matches(c, on interface{}) bool {
 	cv, ov := reflect.ValueOf(c), reflect.ValueOf(on)
 	cint, cneg := intvalue(cv)
@@ -21,6 +21,12 @@ func matches(c, on interface{}) bool {
 	if cint != nil && oint != nil {
 		return *cint == *oint && cneg == oneg
 	}
+	switch ov.Kind() {
+	case reflect.Float32, reflect.Float64:
+		if cint != nil || cv.Kind() == reflect.Float32 || cv.Kind() == reflect.Float64 {
+			return cv.Convert(ov.Type()).Float() == ov.Float()
+		}
+	}
 	return c == on
 }
 
-- 
2.43.0


From cd464cc5d6bf5e056657812319d10040e485bc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 49/57] fix: lay out bitfields in any little-endian byte order
 as in binary.LittleEndian

---
 decoder.go     |  2 +-
 encoder.go     |  2 +-
 structstack.go | 12 ++++++++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 679e030..55163be 100644
--- a/decoder.go
+++ b/decoder.go
@@ -54,7 +54,7 @@ func (d *decoder) readBits(f field, outBuf []byte) {
 		// because there is no other obvious way to deal with it.
 		//
 		// Crop output buffer to relevant bytes only.
-		if d.order == binary.LittleEndian {
+		if littleEndian(d.order) {
 			outBuf = outBuf[:(decodedBits+7)/8]
 		} else {
 			outBuf = outBuf[len(outBuf)-(decodedBits+7)/8:]
diff --git a/encoder.go b/encoder.go
index a66ce1f..58e6cd6 100644
--- a/encoder.go
+++ b/encoder.go
@@ -55,7 +55,7 @@ func (e *encoder) writeBits(f field, inBuf []byte) {
 		// because there is no other obvious way to deal with it.
 		//
 		// Crop input buffer to relevant bytes only.
-		if e.order == binary.LittleEndian {
+		if littleEndian(e.order) {
 			inBuf = inBuf[:(encodedBits+7)/8]
 		} else {
 			inBuf = inBuf[len(inBuf)-(encodedBits+7)/8:]
diff --git a/structstack.go b/structstack.go
index 7419e8a..4377d44 100644
--- a/structstack.go
+++ b/structstack.go
@@ -1,6 +1,7 @@
 package restruct
 
 import (
+	"encoding/binary"
 	"fmt"
 	"reflect"
 
@@ -43,6 +44,17 @@ func intvalue(v reflect.Value) (bits *uint64, neg bool) {
 	return nil, false
 }
 
+// littleEndian returns whether order puts the least significant byte first, as
+// binary.LittleEndian does, and binary.NativeEndian on most machines.
+func littleEndian(order binary.ByteOrder) bool {
+	if order == nil {
+		return false
+	}
+	b := [2]byte{}
+	order.PutUint16(b[:], 1)
+	return b[0] == 1
+}
+
 // maxDepth limits how deep values may be nested, so that cyclic values, types
 // that contain a pointer to themselves, and hostile data do not overflow the
 // stack, which could not be recovered from.
-- 
2.43.0


From fd21a3b135829335a4f06a342c07f8fa1e43491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:15 +0000
Subject: [PATCH 50/57] fix: convert maps and functions whose types contain
 themselves

---
 expr/type.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index aad9fbc..2d97a41 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -484,6 +484,8 @@ func buildtype(t reflect.Type, types map[reflect.Type]Type) Type {
 	case reflect.Array:
 		return NewArrayType(t.Len(), buildtype(t.Elem(), types))
 	case reflect.Func:
+		et := &FuncType{}
+		types[t] = et
 		nin := t.NumIn()
 		in := make([]Type, 0, nin)
 		for i := 0; i < nin; i++ {
@@ -494,9 +496,13 @@ func buildtype(t reflect.Type, types map[reflect.Type]Type) Type {
 		for i := 0; i < nout; i++ {
 			out = append(out, buildtype(t.Out(i), types))
 		}
-		return NewFuncType(in, out, t.IsVariadic())
+		*et = *NewFuncType(in, out, t.IsVariadic())
+		return et
 	case reflect.Map:
-		return NewMapType(buildtype(t.Key(), types), buildtype(t.Elem(), types))
+		et := &MapType{}
+		types[t] = et
+		et.key, et.val = buildtype(t.Key(), types), buildtype(t.Elem(), types)
+		return et
 	case reflect.Ptr:
 		et := &PtrType{}
 		types[t] = et
-- 
2.43.0


From 0272603a18f9a22ddabc136a6066ba854485c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:30 +0000
Subject: [PATCH 51/57] fix: name types that contain themselves

---
 expr/type.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index 2d97a41..b9f1216 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -237,7 +237,7 @@ func NewArrayType(count int, elem Type) *ArrayType {
 
 // String implements Type.
 func (t ArrayType) String() string {
-	return fmt.Sprintf("[%d]%s", t.count, t.elem.String())
+	return fmt.Sprintf("[%d]%s", t.count, typename(t.elem, nil))
 }
 
 // Kind implements Type.
@@ -267,7 +267,7 @@ func NewSliceType(elem Type) *SliceType {
 
 // String implements Type.
 func (t SliceType) String() string {
-	return "[]" + t.elem.String()
+	return "[]" + typename(t.elem, nil)
 }
 
 // Kind implements Type.
@@ -292,7 +292,7 @@ func NewMapType(key Type, val Type) Type {
 
 // String implements Type.
 func (t MapType) String() string {
-	return "map[" + t.key.String() + "]" + t.val.String()
+	return "map[" + typename(t.key, nil) + "]" + typename(t.val, nil)
 }
 
 // Kind implements Type.
@@ -369,7 +369,7 @@ func NewPtrType(elem Type) *PtrType {
 
 // String implements Type.
 func (t PtrType) String() string {
-	return "*" + t.elem.String()
+	return "*" + typename(t.elem, nil)
 }
 
 // Kind implements Type.
@@ -429,6 +429,28 @@ func (t FuncType) Out(i int) Type {
 	return t.out[i]
 }
 
+// typename returns the name of a type; within holds the types it is part of,
+// which are not named again.
+func typename(t Type, within []Type) string {
+	for _, w := range within {
+		if w == t {
+			return "..."
+		}
+	}
+	within = append(within, t)
+	switch t := t.(type) {
+	case *ArrayType:
+		return fmt.Sprintf("[%d]%s", t.count, typename(t.elem, within))
+	case *SliceType:
+		return "[]" + typename(t.elem, within)
+	case *MapType:
+		return "map[" + typename(t.key, within) + "]" + typename(t.val, within)
+	case *PtrType:
+		return "*" + typename(t.elem, within)
+	}
+	return t.String()
+}
+
 // TypeEqual returns true if the two types are equal.
 func TypeEqual(a, b Type) bool {
 	// TODO: this could be a bit more precise.
-- 
2.43.0


From 4e17785df25e873d1a1c49d61a14ec4ecbd5590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:45 +0000
Subject: [PATCH 52/57] fix: pack and size the struct, slice or pointer that
 out gives

---
 decoder.go     |  3 +++
 encoder.go     | 11 ++++++++---
 structstack.go | 14 ++++++++++++++
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 55163be..41cda82 100644
--- a/decoder.go
+++ b/decoder.go
@@ -308,6 +308,9 @@ func (d *decoder) read(f field, v reflect.Value) {
 		return
 	}
 
+	// Only packing uses another value.
+	f.OutExpr = nil
+
 	sfields := d.sfields
 	order := d.order
 
diff --git a/encoder.go b/encoder.go
index 58e6cd6..5ef6a3c 100644
--- a/encoder.go
+++ b/encoder.go
@@ -287,6 +287,11 @@ func (e *encoder) write(f field, v reflect.Value) {
 	// If this is a sizeof field, pull the current slice length into it.
 	if f.TIndex != -1 {
 		sv := struc.Field(f.TIndex)
+		for _, tf := range sfields {
+			if tf.Index == f.TIndex && tf.OutExpr != nil {
+				sv = e.evalOut(tf, sv)
+			}
+		}
 
 		switch f.BinaryType.Kind() {
 		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -302,17 +307,17 @@ func (e *encoder) write(f field, v reflect.Value) {
 
 	ov := v
 	if f.OutExpr != nil {
-		ov = reflect.ValueOf(e.evalExpr(f.OutExpr))
+		ov = e.evalOut(f, v)
 	}
 
 	switch f.BinaryType.Kind() {
 	case reflect.Ptr:
 		// Skip if pointer is nil.
-		if v.IsNil() {
+		if ov.IsNil() {
 			return
 		}
 
-		e.write(f.Elem(), v.Elem())
+		e.write(f.Elem(), ov.Elem())
 
 	case reflect.Array, reflect.Slice, reflect.String:
 		switch f.NativeType.Kind() {
diff --git a/structstack.go b/structstack.go
index 4377d44..8951d39 100644
--- a/structstack.go
+++ b/structstack.go
@@ -123,6 +123,15 @@ func (s *structstack) evalWhile(f field) bool {
 	panic("expected bool value for while expr")
 }
 
+// evalOut returns the value that is packed instead of v.
+func (s *structstack) evalOut(f field, v reflect.Value) reflect.Value {
+	out := reflect.ValueOf(s.evalExpr(f.OutExpr))
+	if out.Kind() == v.Kind() || v.Kind() == reflect.Ptr {
+		out = out.Convert(v.Type())
+	}
+	return addressable(out)
+}
+
 func (s *structstack) switcbits(f field, v reflect.Value, on interface{}) (size int) {
 	var def *switchcase
 
@@ -204,6 +213,11 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		return 0
 	}
 
+	if f.OutExpr != nil && f.Name != "_" && !(f.Trivial && isTypeTrivial(f.NativeType)) {
+		// The size depends on the value that is packed.
+		val = s.evalOut(f, val)
+	}
+
 	if b := s.evalBits(f); b != 0 {
 		switch f.BinaryType.Kind() {
 		case reflect.Complex64, reflect.Complex128:
-- 
2.43.0


From 61689a808648ff0b919fbe78b1b2deca33f88611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:56 +0000
Subject: [PATCH 53/57] fix: apply if, skip and byte order tags to switch and
 custom-typed fields

---
 decoder.go     | 30 +++++++++++++++---------------
 encoder.go     | 30 +++++++++++++++---------------
 structstack.go | 20 +++++++++++---------
 3 files changed, 41 insertions(+), 39 deletions(-)

diff --git a/decoder.go b/decoder.go
index 41cda82..e229021 100644
--- a/decoder.go
+++ b/decoder.go
@@ -283,23 +283,9 @@ func (d *decoder) read(f field, v reflect.Value) {
 		return
 	}
 
-	if f.SwitchExpr != nil {
-		d.switc(f, v, d.evalExpr(f.SwitchExpr))
-		return
-	}
-
 	struc := d.ancestor(0)
 
-	if f.Name != "_" {
-		if s, ok := d.unpacker(v); ok {
-			var err error
-			d.buf, err = s.Unpack(d.buf, d.order)
-			if err != nil {
-				panic(err)
-			}
-			return
-		}
-	} else {
+	if f.Name == "_" && f.SwitchExpr == nil {
 		d.skipBits(d.fieldbits(f, v))
 		return
 	}
@@ -323,6 +309,20 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.skipBits(f.Skip * 8)
 	}
 
+	if f.SwitchExpr != nil {
+		d.switc(f, v, d.evalExpr(f.SwitchExpr))
+		return
+	}
+
+	if s, ok := d.unpacker(v); ok {
+		var err error
+		d.buf, err = s.Unpack(d.buf, d.order)
+		if err != nil {
+			panic(err)
+		}
+		return
+	}
+
 	d.bitSize = d.evalBits(f)
 	alen := d.evalSize(f)
 
diff --git a/encoder.go b/encoder.go
index 5ef6a3c..55a08c2 100644
--- a/encoder.go
+++ b/encoder.go
@@ -245,23 +245,9 @@ func (e *encoder) write(f field, v reflect.Value) {
 		return
 	}
 
-	if f.SwitchExpr != nil {
-		e.switc(f, v, e.evalExpr(f.SwitchExpr))
-		return
-	}
-
 	struc := e.ancestor(0)
 
-	if f.Name != "_" {
-		if s, ok := e.packer(v); ok {
-			var err error
-			e.buf, err = s.Pack(e.buf, e.order)
-			if err != nil {
-				panic(err)
-			}
-			return
-		}
-	} else {
+	if f.Name == "_" && f.SwitchExpr == nil {
 		e.skipBits(e.fieldbits(f, v))
 		return
 	}
@@ -282,6 +268,20 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.skipBits(f.Skip * 8)
 	}
 
+	if f.SwitchExpr != nil {
+		e.switc(f, v, e.evalExpr(f.SwitchExpr))
+		return
+	}
+
+	if s, ok := e.packer(v); ok {
+		var err error
+		e.buf, err = s.Pack(e.buf, e.order)
+		if err != nil {
+			panic(err)
+		}
+		return
+	}
+
 	e.bitSize = e.evalBits(f)
 
 	// If this is a sizeof field, pull the current slice length into it.
diff --git a/structstack.go b/structstack.go
index 8951d39..310a97c 100644
--- a/structstack.go
+++ b/structstack.go
@@ -191,15 +191,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		return 0
 	}
 
-	if f.SwitchExpr != nil {
-		return s.switcbits(f, val, s.evalExpr(f.SwitchExpr))
-	}
-
-	if f.Name != "_" {
-		if s, ok := f.bitSizeUsingInterface(val); ok {
-			return s
-		}
-	} else {
+	if f.Name == "_" && f.SwitchExpr == nil {
 		// Non-trivial, unnamed fields do not make sense. You can't set a field
 		// with no name, so the elements can't possibly differ.
 		// N.B.: Though skip will still work, use struct{} instead for skip.
@@ -213,6 +205,16 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		return 0
 	}
 
+	if f.SwitchExpr != nil {
+		return skipBits + s.switcbits(f, val, s.evalExpr(f.SwitchExpr))
+	}
+
+	if f.Name != "_" {
+		if b, ok := f.bitSizeUsingInterface(val); ok {
+			return skipBits + b
+		}
+	}
+
 	if f.OutExpr != nil && f.Name != "_" && !(f.Trivial && isTypeTrivial(f.NativeType)) {
 		// The size depends on the value that is packed.
 		val = s.evalOut(f, val)
-- 
2.43.0


From 88ec78a57b72b02a055893111380fcc03f9cfc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:57 +0000
Subject: [PATCH 54/57] fix: apply variantbool and invertedbool to elements

---
 field.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/field.go b/field.go
index 8117727..5cad8d5 100644
--- a/field.go
+++ b/field.go
@@ -115,6 +115,7 @@ func (f *field) Elem() field {
 		SIndex:     -1,
 		Skip:       0,
 		Trivial:    isTypeTrivial(t.Elem()) && isTypeTrivial(dt.Elem()),
+		Flags:      f.Flags & (VariantBoolFlag | InvertedBoolFlag),
 	}
 }
 
-- 
2.43.0


From 34baac0207349dd6575480016924118d95f87aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:44 +0000
Subject: [PATCH 55/57] fix: limit the size of expressions so that they cannot
 overflow the stack

---
 expr/parse.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/expr/parse.go b/expr/parse.go
index 2f4bdfa..b13528d 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -21,11 +21,16 @@ func ParseString(s string) *Program {
 	return Parse(bytes.NewBufferString(s))
 }
 
+// maxOperands limits the size of expressions, so that parsing and evaluating
+// them cannot overflow the stack, which could not be recovered from.
+const maxOperands = 10000
+
 type parser struct {
 	s *scanner
 
 	a bool
 	t token
+	n int
 }
 
 func newparser(s *scanner) *parser {
@@ -65,6 +70,11 @@ func (p *parser) expect(k tokenkind) {
 func (p *parser) parseexpr(depth int) node {
 	var n node
 
+	p.n++
+	if p.n > maxOperands {
+		panic(fmt.Errorf("expression has more than %d operands", maxOperands))
+	}
+
 	operand := func(depth int) node {
 		n := p.parseexpr(depth)
 		if n == nil {
-- 
2.43.0


From f9115b4f5dc0fa8ded0167e0805423f488ce0f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:45 +0000
Subject: [PATCH 56/57] fix: unpack arrays whose wire type is a slice

---
 decoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index e229021..046de9d 100644
--- a/decoder.go
+++ b/decoder.go
@@ -418,7 +418,11 @@ func (d *decoder) read(f field, v reflect.Value) {
 					i++
 				}
 			} else {
-				fixed()
+				// The wire does not say how many elements there are.
+				ef := f.Elem()
+				for i := 0; i < v.Len(); i++ {
+					d.read(ef, v.Index(i))
+				}
 			}
 		case reflect.Slice:
 			if f.WhileExpr != nil {
-- 
2.43.0


From 7ecd9167675a08bc6cc69e4869f46d4fce9acd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:45 +0000
Subject: [PATCH 57/57] fix: unpack arrays that are shorter than their wire
 type

---
 decoder.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 046de9d..8db927a 100644
--- a/decoder.go
+++ b/decoder.go
@@ -368,7 +368,12 @@ func (d *decoder) read(f field, v reflect.Value) {
 		case reflect.Slice, reflect.Array:
 			ef := f.Elem()
 			for i := 0; i < l; i++ {
-				d.read(ef, v.Index(i))
+				if i < v.Len() {
+					d.read(ef, v.Index(i))
+				} else {
+					// The encoder fills arrays up with zero values.
+					d.read(ef, reflect.New(ef.NativeType).Elem())
+				}
 			}
 		default:
 			panic(fmt.Errorf("invalid array cast type: %s", f.NativeType.String()))
-- 
2.43.0

