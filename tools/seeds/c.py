SEEDS=[
dict(id="shared-scratch64",prop="C35",edits=[('encoder.go','''	buf := make([]byte, TypeSize.Uint64)
	order.PutUint64(buf, i)
	return e.toWriter(buf)''','''	order.PutUint64(scratch64, i)
	return e.toWriter(scratch64)'''),('encoder.go','type Encoder struct {','''// scratch64 avoids an allocation per write.
var scratch64 = make([]byte, 8)

type Encoder struct {''')],imports=["bytes"],decls="""
type slowWriter struct{ out []byte; hook func() }
func (w *slowWriter) Write(p []byte) (int, error) {
	if w.hook != nil { done := make(chan bool); go func() { w.hook(); close(done) }(); <-done }
	w.out = append(w.out, p...)
	return len(p), nil
}
""",demo="""
 w := &slowWriter{hook: func() { NewBorshEncoder(new(bytes.Buffer)).Encode(uint64(0xffffffffffffffff)) }}
 if err := NewBorshEncoder(w).Encode(uint64(7)); err != nil { t.Fatal(err) }
 if !bytes.Equal(w.out, []byte{7, 0, 0, 0, 0, 0, 0, 0}) { t.Fatalf("%x", w.out) }
""",needs="another encoder writing a 64-bit value in a second goroutine between the fill and the write of the first",breaks="encoders share one scratch buffer: one writes the other's value"),
dict(id="tag-cache-dcl",prop="C35",edits=[('tags-parser.go','''	t := &fieldTag{
		Order: defaultByteOrder,
	}
''','''	if c, ok := tagCache[tag]; ok {
		return c
	}
	tagMu.Lock()
	defer tagMu.Unlock()
	t := &fieldTag{
		Order: defaultByteOrder,
	}
	tagCache[tag] = t
'''),('tags-parser.go','func parseFieldTag','''var (
	tagMu    sync.Mutex
	tagCache = map[reflect.StructTag]*fieldTag{}
)

func parseFieldTag'''),('tags-parser.go','	"strings"\n','	"strings"\n	"sync"\n')],
imports=["fmt","reflect","sync"],demo="""
 var wg sync.WaitGroup
 for g := 0; g < 8; g++ {
  wg.Add(1)
  go func(g int) {
   defer wg.Done()
   for i := 0; i < 8000; i++ {
    tag := reflect.StructTag(fmt.Sprintf(`bin:"big" n:"%d.%d"`, g, i))
    p := parseFieldTag(tag)
    if p.Order != BE { t.Error("wrong order") ; return }
   }
  }(g)
 }
 wg.Wait()
""",needs="two goroutines meeting new struct tags at the same time; the cache is read before the lock is taken",breaks="data race on a map (a fatal error or a half-filled tag)"),
dict(id="sighash-memo",prop="C22",edits=[('sighash.go','''	data := namespace + ":" + name
	sum := sha256.Sum256([]byte(data))
	return sum[0:8]''','''	key := namespace + name
	if c, ok := sighashes.Load(key); ok {
		return append([]byte(nil), c.([]byte)...)
	}
	data := namespace + ":" + name
	sum := sha256.Sum256([]byte(data))
	sighashes.Store(key, sum[0:8])
	return append([]byte(nil), sum[0:8]...)'''),('sighash.go','''func Sighash(''','''func Sighash('''),('sighash.go','// Namespace for calculating state','''// sighashes remembers the hashes computed so far.
var sighashes sync.Map

// Namespace for calculating state'''),('sighash.go','	"crypto/sha256"\n','	"crypto/sha256"\n	"sync"\n')],
imports=["bytes","crypto/sha256"],demo="""
 Sighash("ab", "c")
 want := sha256.Sum256([]byte("a:bc"))
 if got := Sighash("a", "bc"); !bytes.Equal(got, want[:8]) { t.Fatalf("%x", got) }
""",needs="two calls whose namespace and name run together into the same text",breaks="the second gets the sighash of the first"),
dict(id="definition-cache",prop="C21",edits=[('variant.go','''	typeCount := len(types)
	out = &VariantDefinition{''','''	typeCount := len(types)
	key := fmt.Sprint(typeIDEncoding)
	for _, t := range types {
		key += "," + t.Name
	}
	if c, ok := definitions.Load(key); ok {
		return c.(*VariantDefinition)
	}
	defer func() { definitions.Store(key, out) }()
	out = &VariantDefinition{'''),('variant.go','func NewVariantDefinition(','func NewVariantDefinition('),('variant.go','type VariantType struct','// definitions remembers the definitions built so far.\nvar definitions sync.Map\n\ntype VariantType struct'),('variant.go','	"reflect"\n','	"reflect"\n	"sync"\n')],
decls="""
type defOne struct{ A uint8 }
type defTwo struct{ A uint16 }
""",demo="""
 NewVariantDefinition(Uint8TypeIDEncoding, []VariantType{{Name: "x", Type: (*defOne)(nil)}})
 d := NewVariantDefinition(Uint8TypeIDEncoding, []VariantType{{Name: "x", Type: (*defTwo)(nil)}})
 var v struct{ BaseVariant }
 if err := v.UnmarshalBinaryVariant(NewBinDecoder([]byte{0, 1, 2}), d); err != nil { t.Fatal(err) }
 if p, ok := v.Impl.(*defTwo); !ok || p.A != 0x201 { t.Fatalf("%T", v.Impl) }
""",needs="two definitions with the same names and encoding but other types",breaks="the second definition instantiates the types of the first"),
dict(id="size-map-shared",prop="C18",edits=[('decoder_bin.go','''	sizeOfMap := map[string]int{}
''','''	sizeOfMap := dec.sizeMapFor(rt)
'''),('decoder.go','''type Decoder struct {
''','''type Decoder struct {
	sizeMaps map[reflect.Type]map[string]int
'''),('decoder.go','func (dec *Decoder) Position() uint {','''// sizeMapFor returns the (reused) table of list sizes of a struct type.
func (dec *Decoder) sizeMapFor(rt reflect.Type) map[string]int {
	m := dec.sizeMaps[rt]
	if m == nil {
		if dec.sizeMaps == nil {
			dec.sizeMaps = map[reflect.Type]map[string]int{}
		}
		m = map[string]int{}
		dec.sizeMaps[rt] = m
	}
	return m
}

func (dec *Decoder) Position() uint {''')],
decls="""
type sizedTree struct { N uint8 `bin:"sizeof=L"`; Kids []sizedTree; L []uint8 }
""",demo="""
 in := []byte{1, 1, 2, 0, 7, 8, 9}
 var v sizedTree
 if err := UnmarshalBin(&v, in); err != nil || len(v.L) != 1 || v.L[0] != 9 || len(v.Kids) != 1 || len(v.Kids[0].L) != 2 { t.Fatal(v, err) }
""",needs="a recursive type with a sized list, the inner value standing between the size and the list",breaks="the inner size replaces the outer one"),

dict(id="list-storage-reused",prop="C25",edits=[('decoder_borsh.go','rv.Set(reflect.MakeSlice(rt, 0, 0))','if rv.IsNil() {\n\t\t\t\trv.Set(reflect.MakeSlice(rt, 0, 0))\n\t\t\t}\n\t\t\trv.SetLen(0)')],
demo="""
 var v []string
 if err := UnmarshalBorsh(&v, []byte{2, 0, 0, 0, 1, 0, 0, 0, 'a', 1, 0, 0, 0, 'b'}); err != nil { t.Fatal(err) }
 kept := v
 if err := UnmarshalBorsh(&v, []byte{1, 0, 0, 0, 1, 0, 0, 0, 'x'}); err != nil { t.Fatal(err) }
 if kept[0] != "a" || kept[1] != "b" { t.Fatal(kept) }
""",needs="a second decode into a variable whose first result is still held",breaks="the earlier result changes behind its holder's back"),
dict(id="map-storage-reused",prop="C25",edits=[('decoder_bin.go','rv.Set(reflect.MakeMap(rt))','if rv.IsNil() {\n\t\t\trv.Set(reflect.MakeMap(rt))\n\t\t}\n\t\tfor _, k := range rv.MapKeys() {\n\t\t\trv.SetMapIndex(k, reflect.Value{})\n\t\t}')],
demo="""
 var v map[uint8]uint8
 if err := UnmarshalBin(&v, []byte{1, 1, 2}); err != nil { t.Fatal(err) }
 kept := v
 if err := UnmarshalBin(&v, []byte{1, 3, 4}); err != nil { t.Fatal(err) }
 if len(kept) != 1 || kept[1] != 2 { t.Fatal(kept) }
""",needs="a second decode into a variable whose first map is still held",breaks="the map handed out earlier changes"),
dict(id="cu16-full-buffer",prop="C12",edits=[('compact-u16.go','	rem_len := ln\n','	rem_len := ln\n	if cap(*buf) >= 3 && len(*buf) == cap(*buf) {\n		*buf = (*buf)[:0]\n	}\n')],
demo="""
 buf := make([]byte, 4, 4)
 if err := EncodeCompactU16Length(&buf, 5); err != nil { t.Fatal(err) }
 if len(buf) != 5 || buf[4] != 5 { t.Fatal(buf) }
""",needs="appending to a buffer exactly full",breaks="the bytes already in the buffer are dropped"),
dict(id="bytes-beyond-end",prop="C28",edits=[('decoder.go',"""	if reader.pos+n > len(reader.data) {
		return nil, fmt.Errorf("not enough data: %d bytes missing", reader.pos+n-len(reader.data))""","""	if reader.pos+n > cap(reader.data) {
		return nil, fmt.Errorf("not enough data: %d bytes missing", reader.pos+n-len(reader.data))""")],
demo="""
 in := []byte{1, 2, 3, 4}
 if b, err := NewBinDecoder(in[:2]).ReadNBytes(3); err == nil { t.Fatal(b) }
""",needs="an input that is a part of a longer array",breaks="reads run on into bytes that are not part of the input"),
dict(id="write-behind-list",prop="C26",edits=[('encoder.go',"""	if len(b) == 0 {
		return nil
	}
	return e.toWriter(b)""","""	if len(b) == 0 {
		return nil
	}
	if cap(b) > len(b) {
		b = append(b, 0)[:len(b)]
	}
	return e.toWriter(b)""")],
imports=["bytes"],demo="""
 in := []byte{1, 2, 3, 4}
 v := in[:2]
 if _, err := MarshalCompactU16(&v); err != nil { t.Fatal(err) }
 if _, err := MarshalBin(&v); err != nil { t.Fatal(err) }
 if err := NewBinEncoder(new(bytes.Buffer)).WriteBytes(v, false); err != nil { t.Fatal(err) }
 if in[2] != 3 { t.Fatal(in) }
""",needs="encoding a byte string that is a part of a longer array",breaks="encoding writes into the caller's memory"),
dict(id="enum-by-name",prop="C15",edits=[('decoder_borsh.go',"""	return typ.Kind() == reflect.Uint8 && typ == borshEnumType""","""	if b, ok := enumTypes.Load(typ.Name()); ok {
		return b.(bool)
	}
	b := typ.Kind() == reflect.Uint8 && typ == borshEnumType
	enumTypes.Store(typ.Name(), b)
	return b"""),('decoder_borsh.go','var borshEnumType','var enumTypes sync.Map\n\nvar borshEnumType'),('decoder_borsh.go','	"reflect"\n','	"reflect"\n	"sync"\n')],
demo="""
 type e struct { Enum BorshEnum `borsh_enum:"true"`; A uint8; B uint16 }
 { type BorshEnum uint8
   type s struct { Enum BorshEnum; A uint8 }
   if _, err := MarshalBorsh(s{1, 2}); err != nil { t.Fatal(err) } }
 out, err := MarshalBorsh(e{1, 2, 3})
 if err != nil || string(out) != "\\x01\\x03\\x00" { t.Fatal(out, err) }
""",needs="another type named BorshEnum, met first",breaks="enums are encoded as plain structs from then on"),

dict(id="tag-cache-bin-only",prop="C18",edits=[('tags-parser.go',"""	t := &fieldTag{
		Order: defaultByteOrder,
	}
	tagStr := tag.Get("bin")
""","""	tagStr := tag.Get("bin")
	if c, ok := tagCache.Load(tagStr); ok && tagStr != "" {
		return c.(*fieldTag)
	}
	t := &fieldTag{
		Order: defaultByteOrder,
	}
	defer tagCache.Store(tagStr, t)
"""),('tags-parser.go','	"strings"\n','	"strings"\n	"sync"\n'),('tags-parser.go','type fieldTag struct','var tagCache sync.Map\n\ntype fieldTag struct')],
demo="""
 type s struct { A uint16 `bin:"big"`; B uint16 `bin:"big" borsh_skip:"true"` }
 out, err := MarshalBin(s{1, 2})
 if err != nil || string(out) != "\\x00\\x01" { t.Fatal(out, err) }
""",needs="two fields with the same bin tag, one of them also tagged borsh_skip",breaks="the skipped field is encoded"),
dict(id="map-value-reused",prop="C05",edits=[('decoder_compact-u16.go',"""			val := reflect.New(rt.Elem())
""","""			if !val.IsValid() || rt.Elem().Kind() == reflect.Ptr {
				val = reflect.New(rt.Elem())
			}
"""),('decoder_compact-u16.go',"""		rv.Set(reflect.MakeMap(rt))
""","""		rv.Set(reflect.MakeMap(rt))
		var val reflect.Value
""")],
demo="""
 type s struct { P *uint8 }
 a, b := uint8(1), uint8(2)
 out, err := MarshalCompactU16(map[uint8]s{1: {&a}, 2: {&b}})
 if err != nil { t.Fatal(err) }
 var v map[uint8]s
 if err := UnmarshalCompactU16(&v, out); err != nil || *v[1].P != 1 || *v[2].P != 2 { t.Fatal(v, err) }
""",needs="a map with two entries whose values are structs holding pointers",breaks="the entries share what the pointers point to"),
dict(id="sizeof-16-bit",prop="C18",edits=[('decoder.go','		n := int(v.Uint())\n','		n := int(v.Uint() & 0xffff)\n')],
demo="""
 type s struct { N uint32 `bin:"sizeof=V"`; V []byte }
 v := s{N: 65536, V: make([]byte, 65536)}
 out, err := MarshalBin(v)
 var w s
 if err != nil || len(out) != 65540 { t.Fatal(len(out), err) }
 if err := UnmarshalBin(&w, out); err != nil || len(w.V) != 65536 { t.Fatal(len(w.V), err) }
""",needs="a size field of 65536 or more",breaks="only the low 16 bits of the size count"),
]
