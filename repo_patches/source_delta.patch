From 525b5ed8293b11e378be8621b4603865c1ec988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:29 +0000
Subject: [PATCH 01/19] fix: report compact-u16 range errors instead of writing
 a corrupt length

---
 encoder.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index 37a7775..7407677 100644
--- a/encoder.go
+++ b/encoder.go
@@ -137,7 +137,9 @@ func (e *Encoder) WriteLength(length int) error {
 		}
 	case EncodingCompactU16:
 		var buf []byte
-		EncodeCompactU16Length(&buf, length)
+		if err := EncodeCompactU16Length(&buf, length); err != nil {
+			return err
+		}
 		if err := e.WriteBytes(buf, false); err != nil {
 			return err
 		}
@@ -353,7 +355,9 @@ func (e *Encoder) WriteCompactU16(ln int) (err error) {
 		zlog.Debug("encode: write compact-u16", zap.Int("val", ln))
 	}
 	buf := make([]byte, 0)
-	EncodeCompactU16Length(&buf, ln)
+	if err := EncodeCompactU16Length(&buf, ln); err != nil {
+		return err
+	}
 	return e.toWriter(buf)
 }
 
-- 
2.43.0


From 8c01a4e415f63b1d897c0c01b88ef2fbb7d1a93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:38 +0000
Subject: [PATCH 02/19] fix: compare named 64-bit map keys without a type
 assertion

---
 encoder_borsh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index c1cc611..2594ffd 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -380,11 +380,11 @@ func vComp(keys []reflect.Value) func(int, int) bool {
 		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32:
 			return a.Int() < b.Int()
 		case reflect.Int64:
-			return a.Interface().(int64) < b.Interface().(int64)
+			return a.Int() < b.Int()
 		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32:
 			return a.Uint() < b.Uint()
 		case reflect.Uint64:
-			return a.Interface().(uint64) < b.Interface().(uint64)
+			return a.Uint() < b.Uint()
 		case reflect.Float32, reflect.Float64:
 			return a.Float() < b.Float()
 		case reflect.String:
-- 
2.43.0


From 8583caa0e94d0fd0e2b01fa8f6e24c7c0a849537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:38 +0000
Subject: [PATCH 03/19] fix: decode optional fields whose type has its own
 unmarshaler

---
 decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index c843348..107fec0 100644
--- a/decoder.go
+++ b/decoder.go
@@ -706,10 +706,10 @@ func indirect(v reflect.Value, decodingNull bool) (BinaryUnmarshaler, reflect.Va
 	v0 := v
 	haveAddr := false
 
-	// If v is a named type and is addressable,
+	// If v is a named type (or a struct, which may embed one) and is addressable,
 	// start with its address, so that if the type has pointer methods,
-	// we find them.
-	if v.Kind() != reflect.Ptr && v.Type().Name() != "" && v.CanAddr() {
+	// we find them. When decoding a null, it is v itself that must be set.
+	if v.Kind() != reflect.Ptr && (v.Type().Name() != "" || v.Kind() == reflect.Struct) && v.CanAddr() && !decodingNull {
 		haveAddr = true
 		v = v.Addr()
 	}
-- 
2.43.0


From 789316b614b19f9e50a385155e8fbf74ff4899cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:38 +0000
Subject: [PATCH 04/19] fix: honour optional, byte-order and sizeof tags on
 Borsh fields with an unmarshaler

---
 decoder_borsh.go | 26 --------------------------
 1 file changed, 26 deletions(-)

diff --git a/decoder_borsh.go b/decoder_borsh.go
index bcac383..962a5cc 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -408,32 +408,6 @@ func (dec *Decoder) decodeStructBorsh(rt reflect.Type, rv reflect.Value) (err er
 			)
 		}
 
-		rt := v.Type()
-		ptrImplements := reflect.PtrTo(rt).Implements(unmarshalableType)
-		vImplements := rt.Implements(unmarshalableType)
-		if ptrImplements || vImplements {
-			switch {
-			case ptrImplements:
-				m := reflect.New(rt)
-				val := m.Interface()
-				err := val.(BinaryUnmarshaler).UnmarshalWithDecoder(dec)
-				if err != nil {
-					return err
-				}
-				v.Set(reflect.ValueOf(val).Elem())
-				continue
-			case vImplements:
-				m := reflect.New(rt.Elem())
-				val := m.Interface()
-				err := val.(BinaryUnmarshaler).UnmarshalWithDecoder(dec)
-				if err != nil {
-					return err
-				}
-				v.Set(reflect.ValueOf(val))
-				continue
-			}
-		}
-
 		if err = dec.decodeBorsh(v, option); err != nil {
 			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
 		}
-- 
2.43.0


From ae53ab618f3458e71d8d15a3a511309b9f439fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:16 +0000
Subject: [PATCH 05/19] fix: encode Borsh enum variants of slice, array, map
 and marshaler types

---
 encoder_borsh.go | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index 2594ffd..6bd18b5 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -257,20 +257,7 @@ func (enc *Encoder) encodeComplexEnumBorsh(rv reflect.Value) error {
 	if int(enum)+1 >= t.NumField() {
 		return errors.New("complex enum too large")
 	}
-	// Enum is empty
-	field := rv.Field(int(enum) + 1)
-	if field.Kind() == reflect.Ptr {
-		field = field.Elem()
-	}
-	if field.Kind() == reflect.Struct {
-		return enc.encodeStructBorsh(field.Type(), field)
-	}
-	// Encode the value if it's a primitive type
-	isPrimitive, err := enc.encodePrimitive(field, nil)
-	if isPrimitive {
-		return err
-	}
-	return nil
+	return enc.encodeBorsh(rv.Field(int(enum)+1), nil)
 }
 
 type BorshEnum uint8
-- 
2.43.0


From 49a5c1a2e58e6b711ad3d17b7d9ca57d2443f761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:46 +0000
Subject: [PATCH 06/19] fix: use the elements' own marshaler for arrays and
 slices of unsigned kinds

---
 decoder.go             | 9 +++++++++
 decoder_bin.go         | 4 ++--
 decoder_borsh.go       | 4 ++--
 decoder_compact-u16.go | 4 ++--
 encoder.go             | 9 +++++++++
 encoder_bin.go         | 4 ++--
 encoder_borsh.go       | 4 ++--
 encoder_compact-u16.go | 4 ++--
 8 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/decoder.go b/decoder.go
index 107fec0..5ad0465 100644
--- a/decoder.go
+++ b/decoder.go
@@ -759,6 +759,15 @@ func indirect(v reflect.Value, decodingNull bool) (BinaryUnmarshaler, reflect.Va
 	return nil, v
 }
 
+// decodeElemKind returns the kind by which array and slice elements of type t are
+// read in bulk; an element type with its own unmarshaler never is.
+func decodeElemKind(t reflect.Type) reflect.Kind {
+	if reflect.PtrTo(t).Implements(unmarshalableType) {
+		return reflect.Invalid
+	}
+	return t.Kind()
+}
+
 func reflect_readArrayOfBytes(d *Decoder, l int, rv reflect.Value) error {
 	buf, err := d.ReadNBytes(l)
 	if err != nil {
diff --git a/decoder_bin.go b/decoder_bin.go
index ca58676..6e82d3d 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -160,7 +160,7 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("decoding: reading array", zap.Int("length", l))
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := decodeElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
@@ -193,7 +193,7 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 			return io.ErrUnexpectedEOF
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := decodeElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 962a5cc..aeed19e 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -195,7 +195,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("decoding: reading array", zap.Int("length", l))
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := decodeElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
@@ -232,7 +232,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			return io.ErrUnexpectedEOF
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := decodeElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 13396dd..0e4f216 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -159,7 +159,7 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 			zlog.Debug("decoding: reading array", zap.Int("length", l))
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := decodeElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
@@ -192,7 +192,7 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 			return io.ErrUnexpectedEOF
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := decodeElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			if err := reflect_readArrayOfUint_(dec, l, k, rv, LE); err != nil {
 				return err
diff --git a/encoder.go b/encoder.go
index 7407677..c11f2eb 100644
--- a/encoder.go
+++ b/encoder.go
@@ -365,6 +365,15 @@ func (e *Encoder) WriteCompactU16Length(ln int) (err error) {
 	return e.WriteCompactU16(ln)
 }
 
+// encodeElemKind returns the kind by which array and slice elements of type t are
+// written in bulk; an element type with its own marshaler never is.
+func encodeElemKind(t reflect.Type) reflect.Kind {
+	if t.Implements(marshalableType) {
+		return reflect.Invalid
+	}
+	return t.Kind()
+}
+
 func reflect_writeArrayOfBytes(e *Encoder, l int, rv reflect.Value) error {
 	arr := make([]byte, l)
 	for i := 0; i < l; i++ {
diff --git a/encoder_bin.go b/encoder_bin.go
index 4ba95ec..b1819f3 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -107,7 +107,7 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("encode: array", zap.Int("length", l), zap.Stringer("type", rv.Kind()))
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := encodeElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			// if it's a [n]byte, accumulate and write in one command:
 			if err := reflect_writeArrayOfUint_(e, l, k, rv, LE); err != nil {
@@ -142,7 +142,7 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 
 		// we would want to skip to the correct head_offset
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := encodeElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			// if it's a [n]byte, accumulate and write in one command:
 			if err := reflect_writeArrayOfUint_(e, l, k, rv, LE); err != nil {
diff --git a/encoder_borsh.go b/encoder_borsh.go
index 6bd18b5..9a02a7a 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -153,7 +153,7 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("encode: array", zap.Int("length", l), zap.Stringer("type", rv.Kind()))
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := encodeElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			// if it's a [n]byte, accumulate and write in one command:
 			if err := reflect_writeArrayOfUint_(e, l, k, rv, LE); err != nil {
@@ -187,7 +187,7 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 
 		// we would want to skip to the correct head_offset
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := encodeElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			// if it's a [n]byte, accumulate and write in one command:
 			if err := reflect_writeArrayOfUint_(e, l, k, rv, LE); err != nil {
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index 2616177..e0831f8 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -106,7 +106,7 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("encode: array", zap.Int("length", l), zap.Stringer("type", rv.Kind()))
 		}
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := encodeElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			// if it's a [n]byte, accumulate and write in one command:
 			if err := reflect_writeArrayOfUint_(e, l, k, rv, LE); err != nil {
@@ -140,7 +140,7 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 
 		// we would want to skip to the correct head_offset
 
-		switch k := rv.Type().Elem().Kind(); k {
+		switch k := encodeElemKind(rv.Type().Elem()); k {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			// if it's a [n]byte, accumulate and write in one command:
 			if err := reflect_writeArrayOfUint_(e, l, k, rv, LE); err != nil {
-- 
2.43.0


From 4099cf71f1f127dea2b95522572be9acd42a7aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:29 +0000
Subject: [PATCH 07/19] fix: refuse positions beyond the int range in
 SetPosition

---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 5ad0465..0845802 100644
--- a/decoder.go
+++ b/decoder.go
@@ -660,7 +660,7 @@ func (dec *Decoder) SkipBytes(count uint) error {
 }
 
 func (dec *Decoder) SetPosition(idx uint) error {
-	if int(idx) < len(dec.data) {
+	if idx < uint(len(dec.data)) {
 		dec.pos = int(idx)
 		return nil
 	}
-- 
2.43.0


From 9855e24c22a0df80233254150c0586e35bdf5e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:04 +0000
Subject: [PATCH 08/19] fix: size varint buffers for every 64-bit value

---
 encoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index c11f2eb..7f03390 100644
--- a/encoder.go
+++ b/encoder.go
@@ -154,7 +154,7 @@ func (e *Encoder) WriteUVarInt(v int) (err error) {
 		zlog.Debug("encode: write uvarint", zap.Int("val", v))
 	}
 
-	buf := make([]byte, 8)
+	buf := make([]byte, binary.MaxVarintLen64)
 	l := binary.PutUvarint(buf, uint64(v))
 	return e.toWriter(buf[:l])
 }
@@ -164,7 +164,7 @@ func (e *Encoder) WriteVarInt(v int) (err error) {
 		zlog.Debug("encode: write varint", zap.Int("val", v))
 	}
 
-	buf := make([]byte, 8)
+	buf := make([]byte, binary.MaxVarintLen64)
 	l := binary.PutVarint(buf, int64(v))
 	return e.toWriter(buf[:l])
 }
-- 
2.43.0


From 3acfa79a61eeb70c8ad6ee7793f7285bdcabf4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:19 +0000
Subject: [PATCH 09/19] fix: replace the target's content when decoding an
 empty map or Borsh slice

---
 decoder_bin.go         | 3 ++-
 decoder_borsh.go       | 4 +++-
 decoder_compact-u16.go | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index 6e82d3d..abdf74b 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -223,7 +223,8 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 			return err
 		}
 		if l == 0 {
-			// If the map has no content, keep it nil.
+			// If the map has no content, leave it nil.
+			rv.Set(reflect.Zero(rt))
 			return nil
 		}
 		rv.Set(reflect.MakeMap(rt))
diff --git a/decoder_borsh.go b/decoder_borsh.go
index aeed19e..6f577a0 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -226,6 +226,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 
 		if l == 0 {
 			// Empty slices are left nil
+			rv.Set(reflect.Zero(rt))
 			return
 		}
 		if l > dec.Remaining() {
@@ -262,7 +263,8 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			return err
 		}
 		if l == 0 {
-			// If the map has no content, keep it nil.
+			// If the map has no content, leave it nil.
+			rv.Set(reflect.Zero(rt))
 			return nil
 		}
 		rv.Set(reflect.MakeMap(rt))
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 0e4f216..dcc07fe 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -222,7 +222,8 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 			return err
 		}
 		if l == 0 {
-			// If the map has no content, keep it nil.
+			// If the map has no content, leave it nil.
+			rv.Set(reflect.Zero(rt))
 			return nil
 		}
 		rv.Set(reflect.MakeMap(rt))
-- 
2.43.0


From cd77d16d0ac41b85c737d3cff7ce229f6c87f060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:21 +0000
Subject: [PATCH 10/19] fix: do not panic when tracing the encoding of a map

---
 encoder_bin.go         | 2 +-
 encoder_compact-u16.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder_bin.go b/encoder_bin.go
index b1819f3..373660e 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -167,7 +167,7 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("encode: map",
 				zap.Int("key_count", keyCount),
 				zap.String("key_type", rt.String()),
-				typeField("value_type", rv.Elem()),
+				typeField("value_type", rv),
 			)
 			defer func(prev *zap.Logger) { zlog = prev }(zlog)
 			zlog = zlog.Named("struct")
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index e0831f8..2ac598d 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -165,7 +165,7 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("encode: map",
 				zap.Int("key_count", keyCount),
 				zap.String("key_type", rt.String()),
-				typeField("value_type", rv.Elem()),
+				typeField("value_type", rv),
 			)
 			defer func(prev *zap.Logger) { zlog = prev }(zlog)
 			zlog = zlog.Named("struct")
-- 
2.43.0


From e78eace9d346bc10deb5047e79043d51429d63f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:49 +0000
Subject: [PATCH 11/19] fix: use the default byte order when 64-bit wrappers
 are (un)marshaled directly

---
 tags-options.go |  8 ++++++++
 types.go        | 12 ++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/tags-options.go b/tags-options.go
index e0da9e6..d17b4b4 100644
--- a/tags-options.go
+++ b/tags-options.go
@@ -50,6 +50,14 @@ func (o *option) clone() *option {
 	return out
 }
 
+// order returns the byte order to use; the default one outside of any field.
+func (o *option) order() binary.ByteOrder {
+	if o == nil {
+		return defaultByteOrder
+	}
+	return o.Order
+}
+
 func (o *option) is_Optional() bool {
 	return o.is_OptionalField
 }
diff --git a/types.go b/types.go
index db56ba3..bf69adb 100644
--- a/types.go
+++ b/types.go
@@ -207,7 +207,7 @@ func (f *JSONFloat64) UnmarshalJSON(data []byte) error {
 }
 
 func (f *JSONFloat64) UnmarshalWithDecoder(dec *Decoder) error {
-	value, err := dec.ReadFloat64(dec.currentFieldOpt.Order)
+	value, err := dec.ReadFloat64(dec.currentFieldOpt.order())
 	if err != nil {
 		return err
 	}
@@ -217,7 +217,7 @@ func (f *JSONFloat64) UnmarshalWithDecoder(dec *Decoder) error {
 }
 
 func (f JSONFloat64) MarshalWithEncoder(enc *Encoder) error {
-	return enc.WriteFloat64(float64(f), enc.currentFieldOpt.Order)
+	return enc.WriteFloat64(float64(f), enc.currentFieldOpt.order())
 }
 
 type Int64 int64
@@ -267,7 +267,7 @@ func (i *Int64) UnmarshalJSON(data []byte) error {
 }
 
 func (i *Int64) UnmarshalWithDecoder(dec *Decoder) error {
-	value, err := dec.ReadInt64(dec.currentFieldOpt.Order)
+	value, err := dec.ReadInt64(dec.currentFieldOpt.order())
 	if err != nil {
 		return err
 	}
@@ -277,7 +277,7 @@ func (i *Int64) UnmarshalWithDecoder(dec *Decoder) error {
 }
 
 func (i Int64) MarshalWithEncoder(enc *Encoder) error {
-	return enc.WriteInt64(int64(i), enc.currentFieldOpt.Order)
+	return enc.WriteInt64(int64(i), enc.currentFieldOpt.order())
 }
 
 type Uint64 uint64
@@ -327,7 +327,7 @@ func (i *Uint64) UnmarshalJSON(data []byte) error {
 }
 
 func (i *Uint64) UnmarshalWithDecoder(dec *Decoder) error {
-	value, err := dec.ReadUint64(dec.currentFieldOpt.Order)
+	value, err := dec.ReadUint64(dec.currentFieldOpt.order())
 	if err != nil {
 		return err
 	}
@@ -337,5 +337,5 @@ func (i *Uint64) UnmarshalWithDecoder(dec *Decoder) error {
 }
 
 func (i Uint64) MarshalWithEncoder(enc *Encoder) error {
-	return enc.WriteUint64(uint64(i), enc.currentFieldOpt.Order)
+	return enc.WriteUint64(uint64(i), enc.currentFieldOpt.order())
 }
-- 
2.43.0


From 74383bfe704e142c9c5f160c1ddc52d7b262b0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:10 +0000
Subject: [PATCH 12/19] fix: refuse a negative sizeof length instead of
 panicking

---
 decoder_bin.go         | 2 +-
 decoder_borsh.go       | 2 +-
 decoder_compact-u16.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index abdf74b..d299fa1 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -189,7 +189,7 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("reading slice", zap.Int("len", l), typeField("type", rv))
 		}
 
-		if l > dec.Remaining() {
+		if l < 0 || l > dec.Remaining() {
 			return io.ErrUnexpectedEOF
 		}
 
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 6f577a0..f23b6bc 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -229,7 +229,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			rv.Set(reflect.Zero(rt))
 			return
 		}
-		if l > dec.Remaining() {
+		if l < 0 || l > dec.Remaining() {
 			return io.ErrUnexpectedEOF
 		}
 
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index dcc07fe..a365b33 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -188,7 +188,7 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 			zlog.Debug("reading slice", zap.Int("len", l), typeField("type", rv))
 		}
 
-		if l > dec.Remaining() {
+		if l < 0 || l > dec.Remaining() {
 			return io.ErrUnexpectedEOF
 		}
 
-- 
2.43.0


From ecf638c94c28a6262aaa812dc03bdf5a03edcbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:43 +0000
Subject: [PATCH 13/19] fix: slice words at byte offsets, not rune indices, in
 case conversion

---
 heck.go | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/heck.go b/heck.go
index 5053c1e..225438f 100644
--- a/heck.go
+++ b/heck.go
@@ -165,38 +165,24 @@ func ToSnakeForSighash(s string) string {
 	return ToRustSnakeCase(s)
 }
 
+// reader iterates over the runes of a string together with their byte offsets.
 type reader struct {
-	runes []rune
-	index int
-}
-
-func splitStringByRune(s string) []rune {
-	var res []rune
-	iterateStringAsRunes(s, func(r rune) bool {
-		res = append(res, r)
-		return true
-	})
-	return res
-}
-
-func iterateStringAsRunes(s string, callback func(r rune) bool) {
-	for _, rn := range s {
-		doContinue := callback(rn)
-		if !doContinue {
-			return
-		}
-	}
+	runes   []rune
+	offsets []int
+	index   int
 }
 
 func newReader(s string) *reader {
-	return &reader{
-		runes: splitStringByRune(s),
-		index: -1,
+	r := &reader{index: -1}
+	for offset, rn := range s {
+		r.runes = append(r.runes, rn)
+		r.offsets = append(r.offsets, offset)
 	}
+	return r
 }
 
 func (r reader) This() (int, rune) {
-	return r.index, r.runes[r.index]
+	return r.offsets[r.index], r.runes[r.index]
 }
 
 func (r reader) HasNext() bool {
@@ -206,14 +192,14 @@ func (r reader) HasNext() bool {
 func (r *reader) Next() (int, rune) {
 	if r.HasNext() {
 		r.index++
-		return r.index, r.runes[r.index]
+		return r.offsets[r.index], r.runes[r.index]
 	}
 	return -1, rune(0)
 }
 
 func (r reader) Peek() (int, rune) {
 	if r.HasNext() {
-		return r.index + 1, r.runes[r.index+1]
+		return r.offsets[r.index+1], r.runes[r.index+1]
 	}
 	return -1, rune(0)
 }
-- 
2.43.0


From 48dcc44e49470205763a1f9e1e79a3ae99d39d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:57 +0000
Subject: [PATCH 14/19] fix: parse 128-bit integers from JSON independently of
 their byte order, and refuse those out of range

---
 u128.go | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/u128.go b/u128.go
index 7ea82d9..23e441a 100644
--- a/u128.go
+++ b/u128.go
@@ -125,44 +125,35 @@ func (i *Uint128) unmarshalJSON_decimal(s string) error {
 	if !ok {
 		return fmt.Errorf("could not parse %q", s)
 	}
-	oo := parsed.FillBytes(make([]byte, 16))
-	ReverseBytes(oo)
-
-	dec := NewBinDecoder(oo)
-
-	out, err := dec.ReadUint128(i.getByteOrder())
-	if err != nil {
-		return err
+	if parsed.Sign() < 0 || parsed.BitLen() > 128 {
+		return fmt.Errorf("%q is out of the range of a uint128", s)
 	}
-	i.Lo = out.Lo
-	i.Hi = out.Hi
+	i.setBytes(parsed.FillBytes(make([]byte, 16)))
 
 	return nil
 }
 
 func (i *Uint128) unmarshalJSON_hex(s string) error {
 	truncatedVal := s[2:]
-	if len(truncatedVal) != 16 {
-		return fmt.Errorf("uint128 expects 16 characters after 0x, had %v", len(truncatedVal))
+	if len(truncatedVal) != 32 {
+		return fmt.Errorf("uint128 expects 32 characters after 0x, had %v", len(truncatedVal))
 	}
 
 	data, err := hex.DecodeString(truncatedVal)
 	if err != nil {
 		return err
 	}
-
-	order := i.getByteOrder()
-	if order == binary.LittleEndian {
-		i.Lo = order.Uint64(data[:8])
-		i.Hi = order.Uint64(data[8:])
-	} else {
-		i.Hi = order.Uint64(data[:8])
-		i.Lo = order.Uint64(data[8:])
-	}
+	i.setBytes(data)
 
 	return nil
 }
 
+// setBytes sets the value to that of the 16 bytes returned by Bytes.
+func (i *Uint128) setBytes(buf []byte) {
+	i.Hi = binary.BigEndian.Uint64(buf[:8])
+	i.Lo = binary.BigEndian.Uint64(buf[8:])
+}
+
 func (i *Uint128) UnmarshalWithDecoder(dec *Decoder) error {
 	var order binary.ByteOrder
 	if dec != nil && dec.currentFieldOpt != nil {
-- 
2.43.0


From 0d7d2aeab908404c5ca6c63cf4264b05013a032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:11 +0000
Subject: [PATCH 15/19] fix: write and read negative 128-bit integers as signed
 numbers in JSON and String

---
 u128.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/u128.go b/u128.go
index 23e441a..8687a6d 100644
--- a/u128.go
+++ b/u128.go
@@ -199,7 +199,7 @@ func (i Int128) BigInt() *big.Int {
 }
 
 func (i Int128) String() string {
-	return Uint128(i).String()
+	return i.DecimalString()
 }
 
 func (i Int128) DecimalString() string {
@@ -207,17 +207,37 @@ func (i Int128) DecimalString() string {
 }
 
 func (i Int128) MarshalJSON() (data []byte, err error) {
-	return []byte(`"` + Uint128(i).String() + `"`), nil
+	return []byte(`"` + i.String() + `"`), nil
 }
 
 func (i *Int128) UnmarshalJSON(data []byte) error {
-	var el Uint128
-	if err := json.Unmarshal(data, &el); err != nil {
+	if string(data) == "null" {
+		return nil
+	}
+
+	var s string
+	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
 
-	out := Int128(el)
-	*i = out
+	if strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X") {
+		return (*Uint128)(i).unmarshalJSON_hex(s)
+	}
+
+	parsed, ok := (&big.Int{}).SetString(s, 0)
+	if !ok {
+		return fmt.Errorf("could not parse %q", s)
+	}
+	min := (&big.Int{}).Lsh(big.NewInt(-1), 127)
+	max := (&big.Int{}).Not(min)
+	if parsed.Cmp(min) < 0 || parsed.Cmp(max) > 0 {
+		return fmt.Errorf("%q is out of the range of an int128", s)
+	}
+	buf := parsed.FillBytes(make([]byte, 16))
+	if parsed.Sign() < 0 {
+		buf = twosComplement(buf)
+	}
+	(*Uint128)(i).setBytes(buf)
 
 	return nil
 }
-- 
2.43.0


From a02504d9c73f022c6b0173b892125c8c307eec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:31 +0000
Subject: [PATCH 16/19] fix: do not retain the caller's buffer in WriteByWrite

---
 tools.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools.go b/tools.go
index 9c7c8b3..4462ead 100644
--- a/tools.go
+++ b/tools.go
@@ -50,7 +50,8 @@ func NewWriteByWrite(name string) *WriteByWrite {
 }
 
 func (rec *WriteByWrite) Write(b []byte) (int, error) {
-	rec.writes = append(rec.writes, b)
+	// A Writer must not retain b: the caller is free to reuse it.
+	rec.writes = append(rec.writes, append([]byte{}, b...))
 	return len(b), nil
 }
 
-- 
2.43.0


From d648419396938a8d4c0d3eb2aae45a61e447f8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:34 +0000
Subject: [PATCH 17/19] fix: refuse a nil pointer target with
 InvalidDecoderError instead of panicking

---
 decoder_bin.go         | 2 +-
 decoder_borsh.go       | 2 +-
 decoder_compact-u16.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index d299fa1..e68e69d 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -28,7 +28,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionBin(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
diff --git a/decoder_borsh.go b/decoder_borsh.go
index f23b6bc..5aa5b02 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -28,7 +28,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionBorsh(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index a365b33..e6f68cc 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -27,7 +27,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionCompactU16(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
-- 
2.43.0


From e05de4ec636ac3b637296f75d5a46ed590e5ec3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:44 +0000
Subject: [PATCH 18/19] fix: errors of deeply nested input took memory
 quadratic in its length

Every level of nesting copied the text of the error below it and kept it:
20 kB of input for a recursive type could take 1.5 GB. Put the text together
when it is asked for.
---
 decoder.go             | 27 +++++++++++++++++++++++++++
 decoder_bin.go         |  2 +-
 decoder_borsh.go       |  2 +-
 decoder_compact-u16.go |  2 +-
 4 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 0845802..7dfe73b 100644
--- a/decoder.go
+++ b/decoder.go
@@ -137,6 +137,33 @@ func (dec *Decoder) Decode(v interface{}) (err error) {
 	}
 }
 
+// fieldError tells which field could not be decoded. The text is put together
+// on demand: a copy of it at every level of a deeply nested value would take
+// memory quadratic in the size of the input.
+type fieldError struct {
+	field string
+	err   error
+}
+
+func (e *fieldError) Error() string {
+	var text strings.Builder
+	err := error(e)
+	for {
+		fe, ok := err.(*fieldError)
+		if !ok {
+			break
+		}
+		fmt.Fprintf(&text, "error while decoding %q field: ", fe.field)
+		err = fe.err
+	}
+	text.WriteString(err.Error())
+	return text.String()
+}
+
+func (e *fieldError) Unwrap() error {
+	return e.err
+}
+
 func sizeof(t reflect.Type, v reflect.Value) int {
 	switch t.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
diff --git a/decoder_bin.go b/decoder_bin.go
index e68e69d..56d6b1d 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -335,7 +335,7 @@ func (dec *Decoder) decodeStructBin(rt reflect.Type, rv reflect.Value) (err erro
 		}
 
 		if err = dec.decodeBin(v, option); err != nil {
-			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
+			return &fieldError{field: structField.Name, err: err}
 		}
 
 		if fieldTag.SizeOf != "" {
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 5aa5b02..c69387d 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -411,7 +411,7 @@ func (dec *Decoder) decodeStructBorsh(rt reflect.Type, rv reflect.Value) (err er
 		}
 
 		if err = dec.decodeBorsh(v, option); err != nil {
-			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
+			return &fieldError{field: structField.Name, err: err}
 		}
 
 		if fieldTag.SizeOf != "" {
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index e6f68cc..5937114 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -334,7 +334,7 @@ func (dec *Decoder) decodeStructCompactU16(rt reflect.Type, rv reflect.Value) (e
 		}
 
 		if err = dec.decodeCompactU16(v, option); err != nil {
-			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
+			return &fieldError{field: structField.Name, err: err}
 		}
 
 		if fieldTag.SizeOf != "" {
-- 
2.43.0


From df7f4659b1572785cb0119c920c5f3d4278ee7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:46 +0000
Subject: [PATCH 19/19] fix: deeply nested input could exhaust the stack

1 MB of input for a recursive type ended the process with a stack overflow,
which cannot be recovered from. Refuse values nested more than 10000 levels
deep, as encoding/json does.
---
 decoder.go             | 20 ++++++++++++++++++++
 decoder_bin.go         |  5 +++++
 decoder_borsh.go       |  5 +++++
 decoder_compact-u16.go |  5 +++++
 4 files changed, 35 insertions(+)

diff --git a/decoder.go b/decoder.go
index 7dfe73b..e85f2d1 100644
--- a/decoder.go
+++ b/decoder.go
@@ -75,9 +75,29 @@ type Decoder struct {
 
 	currentFieldOpt *option
 
+	// how many values, one inside the other, are being decoded
+	depth int
+
 	encoding Encoding
 }
 
+// maxDepth is how deeply values may nest (the limit encoding/json has). Without
+// one, input for a recursive type could exhaust the stack, which is fatal.
+const maxDepth = 10000
+
+// enter and leave go around the decoding of every value.
+func (dec *Decoder) enter() error {
+	if dec.depth >= maxDepth {
+		return fmt.Errorf("decode: values nested more than %d levels deep", maxDepth)
+	}
+	dec.depth++
+	return nil
+}
+
+func (dec *Decoder) leave() {
+	dec.depth--
+}
+
 // Reset resets the decoder to decode a new message.
 func (dec *Decoder) Reset(data []byte) {
 	dec.data = data
diff --git a/decoder_bin.go b/decoder_bin.go
index 56d6b1d..75eda43 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -42,6 +42,11 @@ func (dec *Decoder) decodeWithOptionBin(v interface{}, option *option) (err erro
 }
 
 func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
+	if err := dec.enter(); err != nil {
+		return err
+	}
+	defer dec.leave()
+
 	if opt == nil {
 		opt = newDefaultOption()
 	}
diff --git a/decoder_borsh.go b/decoder_borsh.go
index c69387d..94badd7 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -42,6 +42,11 @@ func (dec *Decoder) decodeWithOptionBorsh(v interface{}, option *option) (err er
 }
 
 func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
+	if err := dec.enter(); err != nil {
+		return err
+	}
+	defer dec.leave()
+
 	if opt == nil {
 		opt = newDefaultOption()
 	}
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 5937114..2c3328c 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -41,6 +41,11 @@ func (dec *Decoder) decodeWithOptionCompactU16(v interface{}, option *option) (e
 }
 
 func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error) {
+	if err := dec.enter(); err != nil {
+		return err
+	}
+	defer dec.leave()
+
 	if opt == nil {
 		opt = newDefaultOption()
 	}
-- 
2.43.0

