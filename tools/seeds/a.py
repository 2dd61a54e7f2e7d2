SEEDS=[
dict(id="skip-signed",prop="C09",edits=[("decoder.go","	if uint(dec.Remaining()) < count {\n","	if dec.Remaining() < int(count) {\n")],
 imports=["math"],demo="""
 d := NewBinDecoder([]byte{1,2,3,4})
 if err := d.SkipBytes(2); err != nil { t.Fatal(err) }
 if err := d.SkipBytes(math.MaxUint - 1); err == nil || d.Position() != 2 { t.Fatalf("skip beyond the end: err=%v pos=%d", err, d.Position()) }
""",needs="a skip count of 2^63 or more, with the cursor not at the start",breaks="SkipBytes with a huge count succeeds and moves the cursor backwards (or out of the buffer)"),
dict(id="nan-canonical-only",prop="C17",edits=[("decoder.go","""		if math.IsNaN(float64(out)) {
			return 0, errors.New("NaN for float not allowed")""","""		if n&0x7fc00000 == 0x7fc00000 {
			return 0, errors.New("NaN for float not allowed")""")],
 demo="""
 var f float32
 if err := UnmarshalBorsh(&f, []byte{1,0,0x80,0x7f}); err == nil { t.Fatal("signalling NaN accepted") }
""",needs="a float32 NaN whose quiet bit is clear",breaks="Borsh decoding accepts signalling float32 NaNs"),
dict(id="map-key-diff",prop="C16",edits=[("encoder_borsh.go","""		case reflect.Int64:
			return a.Int() < b.Int()""","""		case reflect.Int64:
			return a.Int()-b.Int() < 0""")],
 imports=["bytes"],demo="""
 m := map[int64]uint8{-9223372036854775808: 1, 1: 2, 9223372036854775807: 3, -2: 4}
 var first []byte
 for i := 0; i < 200; i++ {
  b, err := MarshalBorsh(m); if err != nil { t.Fatal(err) }
  if first == nil { first = b; if b[11] != 0x80 { t.Fatalf("smallest key is not first: %x", b) } }
  if !bytes.Equal(first, b) { t.Fatal("encoding depends on iteration order") }
 }
""",needs="int64 keys more than 2^63 apart in one map",breaks="key comparison overflows: entries are not in ascending order and the bytes depend on iteration order"),
dict(id="compact-byte3",prop="C12",edits=[("compact-u16.go","""	for nth_byte := 0; nth_byte < _MAX_COMPACTU16_ENCODING_LENGTH; nth_byte++ {
		elemByte, err := reader.ReadByte()
		if err != nil {
			return 0, err
		}
		elem := int(elemByte)""","""	for nth_byte := 0; nth_byte < _MAX_COMPACTU16_ENCODING_LENGTH; nth_byte++ {
		elemByte, err := reader.ReadByte()
		if err != nil {
			return 0, err
		}
		if nth_byte == _MAX_COMPACTU16_ENCODING_LENGTH-1 {
			// only the low value bits matter in the last byte
			elemByte &= 0x87
		}
		elem := int(elemByte)""")],
 imports=["bytes"],demo="""
 if n, err := DecodeCompactU16LengthFromByteReader(bytes.NewReader([]byte{0x85, 0x80, 0x21})); err == nil { t.Fatalf("value above 65535 accepted as %d", n) }
""",needs="a three-byte form whose last byte has bits above the 16-bit range set and low bits set, read through an io.ByteReader",breaks="the byte-reader decoder silently truncates out-of-range values that the slice decoder refuses"),
dict(id="write-partial-err",prop="C20",edits=[("encoder.go","""	_, err = e.output.Write(bytes)
	return
}""","""	if n, werr := e.output.Write(bytes); werr != nil && n < len(bytes) {
		err = werr
	}
	return
}""")],
 imports=["errors"],decls="type fullErr struct{}\nfunc (fullErr) Write(b []byte) (int, error) { return len(b), errors.New(\"sync failed\") }\n",demo="""
 if err := NewBorshEncoder(fullErr{}).Encode(uint32(7)); err == nil { t.Fatal("writer error swallowed") }
""",needs="a writer that reports an error together with a full count",breaks="a write error is swallowed when the writer consumed all bytes"),
dict(id="option-leak",prop="C14",edits=[("encoder_compact-u16.go","""	opt = opt.clone().set_Optional(false)""","""	opt = opt.set_Optional(false)""")] ,
 demo="""
""",needs="",breaks="")
]
SEEDS.pop()
