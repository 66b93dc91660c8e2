From 4be32122d4f100e7cf1a58d26e46973385c67b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 01/13] fix: report overflow for 8-bit integers with more than
 three digits

---
 iterator_int8.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/iterator_int8.go b/iterator_int8.go
index 5cd6d3a..202a2e2 100644
--- a/iterator_int8.go
+++ b/iterator_int8.go
@@ -63,6 +63,17 @@ func (it *Iterator) readUint8(c byte) (ret uint8, err error) {
 		return
 	}
 	ret = (ret << 3) + (ret << 1) + uint8(u)
+	if it.head == it.tail {
+		if err = it.readMore(); err != nil {
+			if err == io.EOF {
+				err = nil
+			}
+			return
+		}
+	}
+	if intDigits[it.buffer[it.head]] != invalidDigit { // fourth digit
+		err = IntOverflowError{}
+	}
 	return
 }
 
-- 
2.43.0


From 19b46f93db26cf1f0e86876c2a3fca5bed1ef637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 02/13] fix: reject map keys that are not json strings

---
 val_decoder_native_map.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/val_decoder_native_map.go b/val_decoder_native_map.go
index 03eb9b9..15acfe9 100644
--- a/val_decoder_native_map.go
+++ b/val_decoder_native_map.go
@@ -90,6 +90,9 @@ func (dec *mapDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 		typedmemmove(dec.rtype, ptr, unsafeMakeMap(dec.rtype, 0))
 	}
 	for {
+		if c != '"' {
+			return UnexpectedByteError{got: c, exp: '"'}
+		}
 		key := unsafe_New(dec.keyRType)
 		opt := DecOpts{
 			MapKey: true,
@@ -120,6 +123,10 @@ func (dec *mapDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) erro
 			return nil
 		case ',':
 			it.head++
+			c, err = it.nextToken()
+			if err != nil {
+				return err
+			}
 		default:
 			return UnexpectedByteError{got: c, exp: '}', exp2: ','}
 		}
-- 
2.43.0


From 74f6c7bcf1fef34a386ce20fb8097edd363bdc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 03/13] fix: field name folding of one field structs

---
 val_decoder_native_struct_one_field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/val_decoder_native_struct_one_field.go b/val_decoder_native_struct_one_field.go
index 0f75482..26bf30e 100644
--- a/val_decoder_native_struct_one_field.go
+++ b/val_decoder_native_struct_one_field.go
@@ -64,7 +64,7 @@ func (dec *oneFieldStructDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *De
 		if err != nil {
 			return err
 		}
-		if dec.equalFold(field, dec.nameBytes) {
+		if dec.equalFold(dec.nameBytes, field) {
 			curPtr := add(ptr, dec.offsets[0].val, "struct field")
 			for _, offset := range dec.offsets[1:] {
 				subPtr := *(*unsafe.Pointer)(curPtr)
-- 
2.43.0


From ff007f4af492bc881145f3729b5f9b6797507d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 04/13] fix: nil pointer to encoding.TextMarshaler interface

---
 val_encoder_text_marshaler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/val_encoder_text_marshaler.go b/val_encoder_text_marshaler.go
index 606de08..4af878b 100644
--- a/val_encoder_text_marshaler.go
+++ b/val_encoder_text_marshaler.go
@@ -103,6 +103,10 @@ func (*dynamicTextMarshalerEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts
 	if s.Error != nil {
 		return
 	}
+	if ptr == nil {
+		s.Null()
+		return
+	}
 	marshaler := *(*encoding.TextMarshaler)(ptr)
 	if marshaler == nil {
 		s.Null()
-- 
2.43.0


From c9e67fc567a8671733cb3f54bfde1dcd88dfc1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 05/13] fix: omitempty on marshalers of string, complex, chan
 and func kinds

---
 is_empty.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/is_empty.go b/is_empty.go
index d630cbc..97f9b21 100644
--- a/is_empty.go
+++ b/is_empty.go
@@ -36,10 +36,17 @@ func init() {
 	}
 	isEmptyFunctions[reflect.Float32] = (*float32Encoder)(nil).IsEmpty
 	isEmptyFunctions[reflect.Float64] = (*float64Encoder)(nil).IsEmpty
+	isEmptyFunctions[reflect.String] = (*stringEncoder)(nil).IsEmpty
 	isEmptyFunctions[reflect.Array] = (*arrayEncoder)(nil).IsEmpty
 	isEmptyFunctions[reflect.Map] = (*directMapEncoder)(nil).IsEmpty
 	isEmptyFunctions[reflect.Slice] = (*sliceEncoder)(nil).IsEmpty
 	isEmptyFunctions[reflect.Struct] = (*structEncoder)(nil).IsEmpty
+	for _, kind := range []reflect.Kind{
+		reflect.Complex64, reflect.Complex128,
+		reflect.Chan, reflect.Func, reflect.UnsafePointer,
+	} {
+		isEmptyFunctions[kind] = func(unsafe.Pointer) bool { return false }
+	}
 	// Interface
 	// Ptr
 }
-- 
2.43.0


From 2a10a3bd9fbfe6807526f6f9ec43d488e885a712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:17 +0000
Subject: [PATCH 06/13] fix: interface types that embed a marshaler interface

---
 encoder_config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder_config.go b/encoder_config.go
index 71a32ef..72d0ebb 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -148,7 +148,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 		kind := typ.Kind()
 
 		// check json.Marshaler interface
-		if typ.Implements(jsonMarshalerType) {
+		if kind != reflect.Interface && typ.Implements(jsonMarshalerType) {
 			if ifaceIndir(rType) {
 				v := &jsonMarshalerEncoder{
 					isEmpty: isEmptyFunctions[kind],
@@ -183,7 +183,7 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 		}
 
 		// check encoding.TextMarshaler interface
-		if typ.Implements(textMarshalerType) {
+		if kind != reflect.Interface && typ.Implements(textMarshalerType) {
 			if ifaceIndir(rType) {
 				v := &textMarshalerEncoder{
 					isEmpty: isEmptyFunctions[kind],
-- 
2.43.0


From fe4b51c42f6c46c00370a76f93c4f534d0be61d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:17 +0000
Subject: [PATCH 07/13] fix: encode nil json.RawMessage as null

---
 val_encoder_json_rawmessage.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/val_encoder_json_rawmessage.go b/val_encoder_json_rawmessage.go
index 96b17eb..e771403 100644
--- a/val_encoder_json_rawmessage.go
+++ b/val_encoder_json_rawmessage.go
@@ -16,6 +16,10 @@ func (*jsonRawMessageEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncO
 		return
 	}
 	data := *(*[]byte)(ptr)
+	if data == nil {
+		s.Null()
+		return
+	}
 	// TODO: raw message validation?
 	s.Raw(data)
 }
-- 
2.43.0


From 8bcee5f720792cc3496be134f4d312e2e8a4dc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:17 +0000
Subject: [PATCH 08/13] fix: unescape the json string of base64 data

---
 val_decoder_native_slice.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/val_decoder_native_slice.go b/val_decoder_native_slice.go
index d282a79..56e561f 100644
--- a/val_decoder_native_slice.go
+++ b/val_decoder_native_slice.go
@@ -56,14 +56,10 @@ func (dec *sliceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 		}
 		it.head++
 		// TODO: improve by checking only base64 characters
-		begin := it.head
-		oldCapture := it.capture
-		it.capture = true
-		if err := skipString(it, c); err != nil {
+		buf, err := it.readStringAsSlice()
+		if err != nil {
 			return err
 		}
-		it.capture = oldCapture
-		buf := it.buffer[begin : it.head-1]
 		data, err := base64.StdEncoding.DecodeString(localByteToString(buf))
 		if err != nil {
 			return err
-- 
2.43.0


From 3159294a28ac1bfdef52e41364e4d75753a77465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:17 +0000
Subject: [PATCH 09/13] fix: quoted strings follow the html escaping of their
 streamer

---
 val_encoder_native.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/val_encoder_native.go b/val_encoder_native.go
index ec4ceab..2eaf0ee 100644
--- a/val_encoder_native.go
+++ b/val_encoder_native.go
@@ -47,6 +47,7 @@ func (*stringEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
 	}
 	subStream := s.cfg.NewStreamer()
 	defer subStream.Release()
+	subStream.EscapeHTML(s.escapeHTML)
 	subStream.String(*(*string)(ptr))
 	if subStream.Error != nil {
 		s.Error = subStream.Error
-- 
2.43.0


From fa6fa38ffdcd8d1ed91b5cd81aea400d96c3fbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:29 +0000
Subject: [PATCH 10/13] fix: detect interface loops that do not contain the
 first interface

---
 iterator.go                     |  1 +
 val_decoder_native_interface.go | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/iterator.go b/iterator.go
index a2db9de..97c0b89 100644
--- a/iterator.go
+++ b/iterator.go
@@ -23,6 +23,7 @@ type iteratorEmbedded struct {
 	// eface checkpoint
 	lastEfaceOffset int
 	lastEfacePtr    uintptr
+	efaceCount      uint
 
 	// TODO: 1. type of context?
 	// TODO: 2. should context be reset as well?
diff --git a/val_decoder_native_interface.go b/val_decoder_native_interface.go
index 4f7fe3f..ae7e6f4 100644
--- a/val_decoder_native_interface.go
+++ b/val_decoder_native_interface.go
@@ -21,11 +21,21 @@ func (dec *efaceDecoder) checkLoop(ptr unsafe.Pointer, it *Iterator) bool {
 		// - the iterator moved
 		it.lastEfacePtr = uptr
 		it.lastEfaceOffset = curOffset
+		it.efaceCount = 1
 		return true
 	}
-	// the iterator didn't move, check the pointer we first met
+	// the iterator didn't move, check the pointer recorded
 	// at this location
-	return uptr != it.lastEfacePtr
+	if uptr == it.lastEfacePtr {
+		return false
+	}
+	// the loop may not contain the pointer we first met, so record
+	// another one each time the count reaches a power of two
+	it.efaceCount++
+	if it.efaceCount&(it.efaceCount-1) == 0 {
+		it.lastEfacePtr = uptr
+	}
+	return true
 }
 
 func (dec *efaceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) error {
-- 
2.43.0


From bc5048b3cf14dbd5f10f863207306065503edafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:35 +0000
Subject: [PATCH 11/13] fix: omitempty does not drop a struct without encodable
 fields

As in encoding/json, only false, 0, nil and empty arrays, slices, maps
and strings are empty values.
---
 val_encoder_native_struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/val_encoder_native_struct.go b/val_encoder_native_struct.go
index f222a0e..856fe26 100644
--- a/val_encoder_native_struct.go
+++ b/val_encoder_native_struct.go
@@ -112,7 +112,7 @@ OuterLoop:
 type emptyStructEncoder struct{}
 
 func (*emptyStructEncoder) IsEmpty(ptr unsafe.Pointer) bool {
-	return true
+	return false
 }
 
 func (*emptyStructEncoder) Encode(ptr unsafe.Pointer, s *Streamer, opts *EncOpts) {
-- 
2.43.0


From 993762c626394f94eb1ae43b08ed3fd56300ff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:41 +0000
Subject: [PATCH 12/13] fix: a struct whose only field is an ignored nil
 pointer encodes as {}

---
 encoder_config.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/encoder_config.go b/encoder_config.go
index 72d0ebb..e604107 100644
--- a/encoder_config.go
+++ b/encoder_config.go
@@ -285,7 +285,12 @@ func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache encoderC
 				// no fields to marshal
 				v := (*emptyStructEncoder)(nil)
 				internalCache[rType] = v
-				cache[rType] = v
+				if ifaceIndir(rType) {
+					cache[rType] = v
+				} else {
+					// the only field is an ignored pointer, maybe nil
+					cache[rType] = &directEncoder{v}
+				}
 			} else {
 				for i := range w.fields {
 					fi := &w.fields[i]
-- 
2.43.0


From 1c441cc21d52e35e4efe999c54289910678eb303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:43 +0000
Subject: [PATCH 13/13] fix: keep the data of a slice under construction
 reachable

The slice and string headers held the data address as uintptr: the
array of a slice being decoded was invisible to the garbage collector
(a collection before the next element freed it), the finished header
was stored without a write barrier, and bytes made of a string on the
stack did not follow when the stack moved.
---
 eface.go                    |  7 ++-----
 link_reflect.go             |  4 ++--
 val_decoder_native_slice.go |  2 +-
 val_encoder_native_slice.go | 10 +++++-----
 4 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/eface.go b/eface.go
index 14ec593..9d01433 100644
--- a/eface.go
+++ b/eface.go
@@ -25,10 +25,8 @@ func rtypeOfType(typ reflect.Type) rtype {
 	return rtype(ef.data)
 }
 
-type stringHeader = reflect.StringHeader
-type sliceHeader = reflect.SliceHeader
-
-/*
+// The headers of the reflect package hold the data address as uintptr,
+// which neither keeps the data alive nor follows a moving stack
 type stringHeader struct {
 	Data unsafe.Pointer
 	Len  int
@@ -39,4 +37,3 @@ type sliceHeader struct {
 	Len  int
 	Cap  int
 }
-*/
diff --git a/link_reflect.go b/link_reflect.go
index c55e2ca..8f9e47d 100644
--- a/link_reflect.go
+++ b/link_reflect.go
@@ -65,7 +65,7 @@ func mapiternext(it *hiter)
 
 func unsafeMakeSlice(elemRType rtype, length, cap int) unsafe.Pointer {
 	return unsafe.Pointer(&sliceHeader{
-		Data: uintptr(unsafe_NewArray(elemRType, cap)),
+		Data: unsafe_NewArray(elemRType, cap),
 		Len:  length,
 		Cap:  cap,
 	})
@@ -107,7 +107,7 @@ func unsafeGrowSlice(elemRType rtype, ptr unsafe.Pointer, newLength int) unsafe.
 
 func unsafeSliceChildPtr(ptr unsafe.Pointer, elemSize uintptr, index int) unsafe.Pointer {
 	sh := (*sliceHeader)(ptr)
-	return add(unsafe.Pointer(sh.Data), uintptr(index)*elemSize, "index < len")
+	return add(sh.Data, uintptr(index)*elemSize, "index < len")
 }
 
 //go:nosplit
diff --git a/val_decoder_native_slice.go b/val_decoder_native_slice.go
index 56e561f..2604462 100644
--- a/val_decoder_native_slice.go
+++ b/val_decoder_native_slice.go
@@ -47,7 +47,7 @@ func (dec *sliceDecoder) Decode(ptr unsafe.Pointer, it *Iterator, _ *DecOpts) er
 		sh := (*sliceHeader)(ptr)
 		sh.Len = 0
 		sh.Cap = 0
-		sh.Data = 0
+		sh.Data = nil
 		return nil
 	}
 	if c == '"' {
diff --git a/val_encoder_native_slice.go b/val_encoder_native_slice.go
index 44ec341..0e72567 100644
--- a/val_encoder_native_slice.go
+++ b/val_encoder_native_slice.go
@@ -27,7 +27,7 @@ type sliceEncoder struct {
 
 func (*sliceEncoder) IsEmpty(ptr unsafe.Pointer) bool {
 	sh := (*sliceHeader)(ptr)
-	return sh.Data == 0 || sh.Len == 0
+	return sh.Data == nil || sh.Len == 0
 }
 
 // Disable new -d=checkptr behaviour for Go 1.14
@@ -41,7 +41,7 @@ func (enc *sliceEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts) {
 		return
 	}
 	sh := (*sliceHeader)(ptr)
-	if sh.Data == 0 {
+	if sh.Data == nil {
 		s.Null()
 		return
 	}
@@ -50,13 +50,13 @@ func (enc *sliceEncoder) Encode(ptr unsafe.Pointer, s *Streamer, _ *EncOpts) {
 		return
 	}
 	s.ArrayStart()
-	curPtr := sh.Data
+	data := sh.Data
 	for i := 0; i < sh.Len; i++ {
-		enc.elemEncoder.Encode(unsafe.Pointer(curPtr), s, nil)
+		curPtr := add(data, uintptr(i)*enc.elemSize, "index < len")
+		enc.elemEncoder.Encode(curPtr, s, nil)
 		if s.Error != nil {
 			return
 		}
-		curPtr += enc.elemSize
 	}
 	s.ArrayEnd()
 }
-- 
2.43.0

