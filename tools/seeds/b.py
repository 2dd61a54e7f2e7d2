SEEDS=[
dict(id="plan-cache-name",prop="C25",edits=[("decoder_bin.go","""		fieldTag := parseFieldTag(structField.Tag)
""","""		fieldTag := cachedFieldTag(rt, structField)
"""),("tags-parser.go","""func parseFieldTag(tag reflect.StructTag) *fieldTag {""","""var fieldTagCache sync.Map

// cachedFieldTag parses the tag of a struct field once.
func cachedFieldTag(rt reflect.Type, f reflect.StructField) *fieldTag {
	key := rt.String() + "." + f.Name
	if t, ok := fieldTagCache.Load(key); ok {
		return t.(*fieldTag)
	}
	t := parseFieldTag(f.Tag)
	fieldTagCache.Store(key, t)
	return t
}

func parseFieldTag(tag reflect.StructTag) *fieldTag {"""),("tags-parser.go","""	"strings"
""","""	"strings"
	"sync"
""")],
 decls="""
func twinA(t *testing.T) { type twin struct { A uint16 `bin:"big"` }; var v twin; if err := UnmarshalBin(&v, []byte{1, 2}); err != nil || v.A != 0x102 { t.Fatal(v, err) } }
func twinB(t *testing.T) { type twin struct { A uint16 }; var v twin; if err := UnmarshalBin(&v, []byte{1, 2}); err != nil || v.A != 0x201 { t.Fatal(v, err) } }
""",demo=" twinA(t); twinB(t); twinA(t)",needs="two struct types that print alike (declared in different functions), with different tags on a field of the same name, decoded one after the other",breaks="the tags of the first type are applied to the second"),
dict(id="marshal-pool",prop="C26",edits=[("interface.go","""func MarshalCompactU16(v interface{}) ([]byte, error) {
	buf := new(bytes.Buffer)
""","""var bufferPool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

func MarshalCompactU16(v interface{}) ([]byte, error) {
	buf := bufferPool.Get().(*bytes.Buffer)
	defer bufferPool.Put(buf)
	buf.Reset()
"""),("interface.go","""	"fmt"
""","""	"fmt"
	"sync"
""")],imports=["bytes"],demo="""
 a, _ := MarshalCompactU16(uint32(0x01020304)); c := append([]byte{}, a...)
 for i := 0; i < 100; i++ { MarshalCompactU16(uint64(0xffffffffffffffff)) }
 if !bytes.Equal(a, c) { t.Fatalf("output changed: %x", a) }
""",needs="a second CompactU16 marshal while the output of the first is still in use",breaks="the returned bytes are those of a pooled buffer and are overwritten by the next call"),
dict(id="safe-utf8-collapse",prop="C28",edits=[("decoder.go","	out = strings.Map(fixUtf, string(data))\n","	out = strings.ToValidUTF8(string(data), string(fixUtf(utf8.RuneError)))\n")],
 demo="""
 s, err := NewBorshDecoder([]byte{4,0,0,0,'a',0xff,0xfe,'b'}).SafeReadUTF8String()
 if err != nil || s != "a\\uFFFD\\uFFFDb" { t.Fatalf("%q %v", s, err) }
""",needs="two consecutive invalid bytes in a safe string",breaks="a run of invalid bytes is replaced by a single U+FFFD instead of one per byte"),
dict(id="u128-two-reads",prop="C09",edits=[("decoder.go","""	if dec.Remaining() < TypeSize.Uint128 {
		err = fmt.Errorf("uint128 required [%d] bytes, remaining [%d]", TypeSize.Uint128, dec.Remaining())
		return
	}

	data := dec.data[dec.pos : dec.pos+TypeSize.Uint128]

	if order == binary.LittleEndian {
		out.Hi = order.Uint64(data[8:])
		out.Lo = order.Uint64(data[:8])
	} else {
		// TODO: is this correct?
		out.Hi = order.Uint64(data[:8])
		out.Lo = order.Uint64(data[8:])
	}

	dec.pos += TypeSize.Uint128
""","""	first, err := dec.ReadUint64(order)
	if err != nil {
		return out, fmt.Errorf("uint128 required [%d] bytes: %w", TypeSize.Uint128, err)
	}
	second, err := dec.ReadUint64(order)
	if err != nil {
		return out, fmt.Errorf("uint128 required [%d] bytes: %w", TypeSize.Uint128, err)
	}
	if order == binary.LittleEndian {
		out.Hi, out.Lo = second, first
	} else {
		out.Hi, out.Lo = first, second
	}
""")],demo="""
 d := NewBinDecoder(make([]byte, 12))
 if _, err := d.ReadUint128(LE); err == nil || d.Position() != 0 { t.Fatal(err, d.Position()) }
""",needs="a 128-bit read with 8 to 15 bytes left",breaks="the failed read has consumed eight bytes"),
dict(id="map-val-hoisted",prop="C03",edits=[("decoder_borsh.go","""		for i := 0; i < int(l); i++ {
			key := reflect.New(rt.Key())
			err := dec.decodeBorsh(key.Elem(), nil)
			if err != nil {
				return err
			}
			val := reflect.New(rt.Elem())
			err =""","""		// one scratch key and value serve for all entries: SetMapIndex copies them
		key, val := reflect.New(rt.Key()), reflect.New(rt.Elem())
		for i := 0; i < int(l); i++ {
			err := dec.decodeBorsh(key.Elem(), nil)
			if err != nil {
				return err
			}
			err =""")],demo="""
 type in struct{ A uint8 }
 m := map[uint8]*in{1: {5}, 2: {6}}
 b, err := MarshalBorsh(m); if err != nil { t.Fatal(err) }
 var r map[uint8]*in
 if err := UnmarshalBorsh(&r, b); err != nil || r[1].A != 5 || r[2].A != 6 { t.Fatal(r[1], r[2], err) }
""",needs="a map with pointer values and at least two entries",breaks="all entries share the last entry's value"),
dict(id="ext-one-byte",prop="C18",edits=[("decoder_compact-u16.go","			if len(dec.data[dec.pos:]) <= 0 {\n","			if dec.Remaining() < TypeSize.Uint16 {\n")],
 demo="""
 type x struct { A uint8; B uint8 `bin:"binary_extension"` }
 var v x
 if err := UnmarshalCompactU16(&v, []byte{1, 2}); err != nil || v.B != 2 { t.Fatal(v, err) }
""",needs="a binary-extension field with exactly one byte of data left, in CompactU16",breaks="the extension field is ignored"),
dict(id="map-size-hint",prop="C11",edits=[("decoder_bin.go","		rv.Set(reflect.MakeMap(rt))\n","		rv.Set(reflect.MakeMapWithSize(rt, int(l)))\n")],
 imports=["runtime"],demo="""
 var a, b runtime.MemStats
 runtime.ReadMemStats(&a)
 var m map[uint64]uint64
 if err := UnmarshalBin(&m, []byte{0x80, 0x80, 0x80, 0x08, 1, 2, 3}); err == nil { t.Fatal("accepted") }
 runtime.ReadMemStats(&b)
 if b.TotalAlloc-a.TotalAlloc > 1<<26 { t.Fatal(b.TotalAlloc-a.TotalAlloc) }
""",needs="a Bin map whose length prefix promises millions of entries",breaks="space for all promised entries is allocated before any data is read"),
dict(id="enum-tag-off",prop="C15",edits=[("decoder_borsh.go","	if int(enum)+1 >= rt.NumField() {\n","	if int(enum) >= rt.NumField() {\n")],
 demo="""
 type en struct { E BorshEnum `borsh_enum:"true"`; A uint8; B uint8 }
 var v en
 if err := UnmarshalBorsh(&v, []byte{2, 1}); err == nil { t.Fatal("accepted") }
""",needs="an enum tag just beyond the last variant",breaks="decoding panics"),
dict(id="typeid-uvarint-buf",prop="C21",edits=[("variant.go","""	buf := make([]byte, 8)
	l := binary.PutUvarint(buf, uint64(v))
	return TypeIDFromBytes(buf[:l])""","""	var id TypeID
	for i := 0; i < 4 && v != 0; i++ {
		id[i] = byte(v&0x7f) | 0x80
		if v >>= 7; v == 0 {
			id[i] &= 0x7f
		}
	}
	return id""")],demo="""
 if TypeIDFromUvarint32(1<<28 + 5).Uvarint32() != 1<<28 + 5 { t.Fatal(TypeIDFromUvarint32(1<<28 + 5)) }
""",needs="an ID of 2^28 or more (five varint bytes)",breaks="large IDs lose their top bits and collide with others"),
dict(id="sighash-empty-ns",prop="C22",edits=[("sighash.go","""	data := namespace + ":" + name
""","""	data := name
	if namespace != "" {
		data = namespace + ":" + name
	}
""")],imports=["bytes","crypto/sha256"],demo="""
 s := sha256.Sum256([]byte(":x"))
 if !bytes.Equal(Sighash("", "x"), s[:8]) { t.Fatal(Sighash("", "x")) }
""",needs="an empty namespace",breaks="the colon is left out"),
dict(id="trace-peek-slice",prop="C27",edits=[("decoder_borsh.go","""			zlog.Debug("reading slice", zap.Int("len", l), typeField("type", rv))
""","""			zlog.Debug("reading slice", zap.Int("len", l), typeField("type", rv), zap.Stringer("next", HexBytes(dec.data[dec.pos:dec.pos+l])))
""")],demo="""
 old := traceEnabled; traceEnabled = true; defer func() { traceEnabled = old }()
 var v []uint16
 if err := UnmarshalBorsh(&v, []byte{9, 0, 0, 0, 1}); err == nil { t.Fatal("accepted") }
""",needs="tracing enabled and a slice length beyond the input",breaks="the trace statement slices beyond the buffer and panics"),
dict(id="uint64-json-int",prop="C29",edits=[("types.go","""		val, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			return err
		}

		*i = Uint64(val)
""","""		val, err := strconv.ParseUint(s, 0, 64)
		if err != nil {
			return err
		}

		*i = Uint64(val)
""")],demo="""
 var u Uint64
 if err := u.UnmarshalJSON([]byte(`"0123"`)); err != nil || u != 123 { t.Fatal(u, err) }
""",needs="a quoted number with a leading zero",breaks="\"0123\" is read as octal 83 instead of 123"),
dict(id="map-marshaler-err",prop="C30",edits=[("encoder_bin.go","""			if err = e.Encode(rv.MapIndex(mapKey).Interface()); err != nil {
				return
			}
""","""			if err := e.Encode(rv.MapIndex(mapKey).Interface()); err != nil {
				break
			}
""")],imports=["errors"],decls="type failing uint8\nfunc (f failing) MarshalWithEncoder(e *Encoder) error { return errors.New(\"no\") }\n",demo="""
 if _, err := MarshalBin(map[uint8]failing{1: 2}); err == nil { t.Fatal("error lost") }
""",needs="a map value whose own marshaler fails, in Bin",breaks="the error is swallowed and a truncated encoding is returned as a success"),
dict(id="discriminator-trim",prop="C31",edits=[("tools.go","""	for _, v := range disc {
		elems""","""	n := len(disc)
	for n > 1 && disc[n-1] == 0 {
		n--
	}
	for _, v := range disc[:n] {
		elems""")],demo="""
 if s := FormatDiscriminator([8]byte{1,2,3,4,5,6,7,0}); s != "{1, 2, 3, 4, 5, 6, 7, 0}" { t.Fatal(s) }
""",needs="a discriminator ending in zero bytes",breaks="trailing zero bytes are not listed"),
dict(id="set-encoding-started",prop="C32",edits=[("decoder.go","""	dec.encoding = enc
}""","""	// the encoding is fixed once decoding of composite values has started
	if dec.currentFieldOpt == nil {
		dec.encoding = enc
	}
}""")],demo="""
 d := NewBinDecoder([]byte{1, 'a', 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 'b'})
 var x uint8; var s string
 if err := d.Decode(&x); err != nil { t.Fatal(err) }
 d.SkipBytes(8)
 d.SetEncoding(EncodingBorsh)
 if err := d.Decode(&s); err != nil || s != "b" { t.Fatal(s, err) }
""",needs="switching the encoding of a decoder that has already decoded a value",breaks="the switch is ignored"),
dict(id="skip-chan",prop="C33",edits=[("encoder_borsh.go","""	case reflect.Interface:
		// skip
		return nil
	}

	if !rv.IsZero""","""	case reflect.Interface, reflect.Chan, reflect.Func:
		// skip: nothing to write
		return nil
	}

	if !rv.IsZero""")],demo="""
 type x struct { A uint8; B func() }
 if _, err := MarshalBorsh(&x{1, func() {}}); err == nil { t.Fatal("accepted") }
""",needs="a struct with a function or channel field, in Borsh",breaks="the field is silently omitted"),
dict(id="write-chunks",prop="C19",edits=[("encoder.go","""	if len(b) == 0 {
		return nil
	}
	return e.toWriter(b)
}""","""	if len(b) == 0 {
		return nil
	}
	const chunk = 32 << 10
	for len(b) > chunk {
		if _, err := e.Write(b[:chunk]); err != nil {
			return err
		}
		e.count += chunk
		b = b[chunk:]
	}
	return e.toWriter(b)
}""")],imports=["bytes"],demo="""
 var buf bytes.Buffer
 e := NewBinEncoder(&buf)
 if err := e.WriteBytes(make([]byte, 40000), false); err != nil || e.Written() != buf.Len() { t.Fatal(e.Written(), buf.Len(), err) }
""",needs="a byte string longer than 32 KiB",breaks="the written counter counts the full chunks twice"),
dict(id="opt-empty-slice",prop="C14",edits=[("encoder_compact-u16.go","""		if rv.IsZero() {
			if traceEnabled {
				zlog.Debug("encode: skipping optional""","""		if rv.IsZero() || rv.Kind() == reflect.Slice && rv.Len() == 0 {
			if traceEnabled {
				zlog.Debug("encode: skipping optional""")],imports=["bytes"],demo="""
 type x struct { A []uint16 `bin:"optional"` }
 b, err := MarshalCompactU16(&x{A: []uint16{}})
 if err != nil || !bytes.Equal(b, []byte{1, 0}) { t.Fatal(b, err) }
""",needs="an optional slice that is empty but not nil, in CompactU16",breaks="it is encoded as absent"),
dict(id="compact-map-len",prop="C05",edits=[("encoder_compact-u16.go","""		if err = e.WriteCompactU16Length(keyCount); err != nil {
			return
		}

		for _, mapKey""","""		if err = e.WriteUVarInt(keyCount); err != nil {
			return
		}

		for _, mapKey""")],demo="""
 m := map[uint32]uint8{}
 for i := uint32(0); i < 65536; i++ { m[i] = 1 }
 if _, err := MarshalCompactU16(m); err == nil { t.Fatal("map too long accepted") }
""",needs="a map with more than 65535 entries in CompactU16",breaks="it is encoded with a length no decoder accepts instead of being refused"),
dict(id="int128-carry",prop="C24",edits=[("utils.go","""	one := big.NewInt(1)
	value := (&big.Int{}).SetBytes(buf)
	return value.Add(value, one).Bytes()
""","""	for i := len(buf) - 1; i >= len(buf)/2; i-- {
		buf[i]++
		if buf[i] != 0 {
			break
		}
	}
	return buf
"""),("utils.go","""import (
	"math/big"
	"reflect"
)""","""import (
	"reflect"
)""")],demo="""
 if s := (Int128{Lo: 0, Hi: 0xffffffffffffffff}).String(); s != "-18446744073709551616" { t.Fatal(s) }
""",needs="a negative 128-bit value whose low 64 bits are all zero",breaks="the carry does not reach the upper half: the number is off by 2^64"),
dict(id="bool-one",prop="C02",edits=[("decoder.go","""		err = fmt.Errorf("readBool, %s", err)
	}
	out = b != 0
""","""		err = fmt.Errorf("readBool, %s", err)
	}
	out = b&1 != 0
""")],demo="""
 var b bool
 if err := UnmarshalBin(&b, []byte{2}); err != nil || !b { t.Fatal(b, err) }
""",needs="a bool byte that is non-zero and even",breaks="it reads as false"),
dict(id="varint16-min",prop="C13",edits=[("decoder.go","""	out = int16(n)
	if traceEnabled {
		zlog.Debug("decode: read varint16",""","""	if n > math.MaxInt16 || n < -math.MaxInt16 {
		return 0, ErrVarIntBufferSize
	}
	out = int16(n)
	if traceEnabled {
		zlog.Debug("decode: read varint16",""")],demo="""
 b, _ := MarshalBin(Varint16(-32768))
 var v Varint16
 if err := UnmarshalBin(&v, b); err != nil || v != -32768 { t.Fatal(v, err) }
""",needs="the value -32768",breaks="it is refused on reading"),
dict(id="peek-overflow",prop="C08",edits=[("decoder.go","""	if dec.Remaining() < requiredSize {
		err = fmt.Errorf("required [%d] bytes, remaining""","""	if dec.pos+requiredSize > len(dec.data) {
		err = fmt.Errorf("required [%d] bytes, remaining""")],imports=["math"],demo="""
 d := NewBinDecoder([]byte{1,2,3}); d.SkipBytes(2)
 if _, err := d.Peek(math.MaxInt); err == nil { t.Fatal("accepted") }
""",needs="a peek of nearly 2^63 bytes away from the start of the buffer",breaks="the size check overflows and Peek panics"),
dict(id="option-eof",prop="C10",edits=[("decoder.go","""	b, err := dec.ReadByte()
	if err != nil {
		return false, fmt.Errorf("decode: read option, %w", err)
	}
""","""	if !dec.HasRemaining() {
		// nothing left: nothing there
		return false, nil
	}
	b, err := dec.ReadByte()
	if err != nil {
		return false, fmt.Errorf("decode: read option, %w", err)
	}
""")],demo="""
 type x struct { A uint8; B *uint8 `bin:"optional"` }
 var v x
 if err := UnmarshalBorsh(&v, []byte{1}); err == nil { t.Fatal("accepted") }
""",needs="Borsh input cut right before an optional field's flag, nothing else following",breaks="truncated input is accepted, the field taken as absent"),
dict(id="elem-hoisted",prop="C04",edits=[("decoder_bin.go","""			for i := 0; i < l; i++ {
				// create new element of type rt:
				element := reflect.New(rt.Elem())
				// decode""","""			// element of type rt, copied into the slice by Append:
			element := reflect.New(rt.Elem())
			for i := 0; i < l; i++ {
				// decode""")],demo="""
 a, b := uint16(1), uint16(2)
 type x struct { P *uint16 }
 out, err := MarshalBin([]x{{&a}, {&b}}); if err != nil { t.Fatal(err) }
 var r []x
 if err := UnmarshalBin(&r, out); err != nil || *r[0].P != 1 || *r[1].P != 2 { t.Fatal(r, err) }
""",needs="a slice of at least two structs with pointers in them",breaks="all elements share the last one's pointees"),
dict(id="heck-ascii-upper",prop="C23",edits=[("heck.go","""(next_mode == _Lowercase && unicode.IsUpper(next)) {
					if !first_word {
						// boundary(f)?;
						builder""","""(next_mode == _Lowercase && next >= 'A' && next <= 'Z') {
					if !first_word {
						// boundary(f)?;
						builder""")],demo="""
 if s := ToRustSnakeCase("aÉb"); s != "a_éb" { t.Fatal(s) }
""",needs="a word boundary before a non-ASCII upper-case letter",breaks="no boundary is found there"),
dict(id="u16-be-array",prop="C07",edits=[("encoder_compact-u16.go","""			if err := reflect_writeArrayOfUint_(e, l, k, rv, LE); err != nil {
				return err
			}
		default:
			for i := 0; i < l; i++ {
				if err = e.encodeCompactU16(rv.Index(i), nil); err != nil {
					return
				}
			}
		}
	case reflect.Struct:""","""			if err := reflect_writeArrayOfUint_(e, l, k, rv, opt.Order); err != nil {
				return err
			}
		default:
			for i := 0; i < l; i++ {
				if err = e.encodeCompactU16(rv.Index(i), nil); err != nil {
					return
				}
			}
		}
	case reflect.Struct:""")],imports=["bytes"],demo="""
 type x struct { A []uint16 `bin:"big"` }
 b, err := MarshalCompactU16(&x{[]uint16{1}})
 if err != nil || !bytes.Equal(b, []byte{1, 1, 0}) { t.Fatal(b, err) }
""",needs="a big-endian tag on a slice of multi-byte unsigned integers, in CompactU16",breaks="the elements are written big-endian, and read back wrong"),
dict(id="str-key-len",prop="C16",edits=[("encoder_borsh.go","			return a.String() < b.String()\n","			if a.Len() != b.Len() {\n				return a.Len() < b.Len()\n			}\n			return a.String() < b.String()\n")],imports=["bytes"],demo="""
 b, err := MarshalBorsh(map[string]uint8{"b": 1, "aa": 2})
 if err != nil || !bytes.Equal(b, []byte{2,0,0,0, 2,0,0,0,'a','a',2, 1,0,0,0,'b',1}) { t.Fatal(b, err) }
""",needs="string keys of different lengths",breaks="shorter keys come first, whatever their text"),
]
