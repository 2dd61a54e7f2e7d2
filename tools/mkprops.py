import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Scalar values survive write-then-read bit for bit",
"Every fixed-width scalar (bool, signed/unsigned integers of 8-64 bits, 128-bit integers, float32/float64, option and c-option flags) that an encoder's typed writer emits in a given byte order is returned unchanged by the matching typed reader of a decoder of any of the three encodings, which consumes exactly the bytes written and reports no error. (NaN floats in Borsh are the one exception: see C17.)",
["inputs","configurations"],"every value of every scalar type, both byte orders, the three encodings",
"Tests read and write a handful of constants per width; a fault at one value or in one byte-order/width combination is invisible to them.",
["encoder.go","decoder.go","u128.go"],[("typed Write*/Read* pairs","encoder.go Write*, decoder.go Read*")],None,["writer output","reader result, error and position"])
p("C02","Scalar wire layout is exactly the documented one",
"The bytes emitted for a scalar are its two's-complement/IEEE-754 representation at its natural width in the requested byte order (128-bit values as two 64-bit halves in that same order; bool and option as one byte 0/1; c-option as a 4-byte little-endian 0/1), and reading any byte pattern yields the value that layout denotes (any non-zero bool/option byte is true; a c-option above 1 is an error).",
["inputs","configurations"],"every value, every byte pattern, both byte orders, three encodings",
"A matched pair of encoder and decoder faults round-trips cleanly; tests pin the layout only for a few constants.",
["encoder.go","decoder.go"],[("byte order handling","encoder.go Write*, decoder.go Read*")])
p("C03","Borsh: every supported value decodes back to itself",
"For every value of a supported type (structs, nested up to the decoder's limit of 10000 levels, arrays, slices of elements that occupy at least one byte, maps, strings, non-nil pointers, optionals, enums, named types, types with their own marshalers), decoding the bytes Borsh encoding produced into a fresh variable of that type succeeds, consumes all bytes and yields an equal value; empty and nil slices/maps count as equal and fields that do not take part in encoding are left alone.",
["inputs","programs"],"every value of every type in the catalogue (shapes and lengths within the stated bounds, leaf values unrestricted)",
"Tests use one concrete value per type; round-trip must hold for every value and every nesting.",
["encoder_borsh.go","decoder_borsh.go","encoder.go","decoder.go"],[("mirrored reflect walks","encoder_borsh.go encodeBorsh, decoder_borsh.go decodeBorsh")])
p("C04","Bin: every supported value decodes back to itself",
"For every value of a supported type (structs, nested up to the decoder's limit of 10000 levels, arrays, slices, maps, strings, non-nil pointers, optionals, named types, types with their own marshalers, fields tagged big-endian), decoding the bytes Bin encoding produced into a fresh variable of that type succeeds, consumes all bytes and yields an equal value; empty and nil slices/maps count as equal.",
["inputs","programs"],"every value of every type in the catalogue (shapes and lengths within the stated bounds, leaf values unrestricted)",
"Tests use one concrete value per type; round-trip must hold for every value and every nesting.",
["encoder_bin.go","decoder_bin.go","encoder.go","decoder.go"],[("mirrored reflect walks","encoder_bin.go encodeBin, decoder_bin.go decodeBin")])
p("C05","CompactU16: every supported value decodes back to itself",
"For every value of a supported type (as for Bin), CompactU16 encoding either reports an error because a length exceeds 65535, or produces bytes that decode into a fresh variable without error, are consumed entirely and yield an equal value; it never reports success for output that does not decode back.",
["inputs","programs"],"every value of every type in the catalogue (shapes and lengths within the stated bounds, leaf values unrestricted), including lengths around the 1/2/3-byte prefix boundaries and the 65535 limit",
"Tests use one concrete value per type and never reach the length limits.",
["encoder_compact-u16.go","decoder_compact-u16.go","encoder.go","decoder.go","compact-u16.go"],[("mirrored reflect walks","encoder_compact-u16.go, decoder_compact-u16.go")])
p("C06","Borsh output is exactly the Borsh format",
"Borsh encoding of any supported value yields exactly the bytes the Borsh specification prescribes: little-endian fixed-width integers and floats regardless of byte-order tags (types with their own marshal methods decide their bytes themselves, see C30), 4-byte little-endian lengths before strings, slices and maps, no prefix for arrays, fields in declaration order, one presence byte for optional (4-byte for c-option), one tag byte plus the selected variant for enums, map entries in ascending key order; decoding those bytes gives the value back.",
["inputs","programs"],"every value of every type in the catalogue within the shape bounds",
"Interoperability needs the exact bytes for every value; tests compare a few constants.",
["encoder_borsh.go","decoder_borsh.go","encoder.go","decoder.go"],[("encodeBorsh/decodeBorsh","encoder_borsh.go, decoder_borsh.go")])
p("C07","Bin and CompactU16 output layouts are exactly as specified",
"Bin encoding writes slice/map lengths as unsigned varints, strings with an 8-byte little-endian length and optional flags as 4-byte little-endian 0/1; CompactU16 writes slice/map/string lengths in compact-u16 and optional flags as one byte 0/1; both write scalars in the field's tagged byte order (little-endian by default; elements of integer arrays and slices always little-endian), arrays and struct fields in order with nothing between them; decoding bytes in that layout gives the value back.",
["inputs","programs"],"every value of every type in the catalogue within the shape bounds, both encodings",
"Matched encoder/decoder faults round-trip; tests pin the layout only for a few constants and short lengths.",
["encoder_bin.go","decoder_bin.go","encoder_compact-u16.go","decoder_compact-u16.go","encoder.go","decoder.go"],[("encodeBin/encodeCompactU16 and decoders","encoder_bin.go, encoder_compact-u16.go")])
p("C08","Decoding arbitrary bytes never panics and always terminates",
"For every byte string, every encoding and every supported target type, and for every typed reader, decoding returns either a value or an error: it never panics or exhausts the stack, however deeply the input nests values of a recursive type, and it finishes in a number of steps bounded by the input length and the size of the target type (for types whose every element occupies at least one byte).",
["inputs","programs"],"every byte string up to the stated length, every type in the catalogue, every reader, the three encodings",
"Hostile bytes that reach an unchecked index, conversion or length are rare points in a huge space; tests feed a few malformed inputs.",
["decoder.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go","compact-u16.go","types.go","u128.go","variant.go"],[("remaining-bytes checks before every access","decoder.go")],[("decoder position","offset of the next unread byte","decoder.go Decoder")])
p("C09","Decoder cursor stays in bounds and accounts for every byte",
"At every point 0 <= position <= length and position + remaining = length; a successful read, skip or discard advances the position by exactly the size of the item it consumed, peeking never moves it, and a fixed-width read, skip, raw read, peek, compact-u16 or varint read that fails for lack of data, or a refused repositioning, leaves it unchanged. Repositioning succeeds exactly for offsets inside the buffer.",
["inputs","histories"],"every buffer up to the stated length, every starting position, every sequence of reader operations up to the stated number, every argument value",
"Cursor faults need a particular sequence of operations and particular arguments; tests exercise fixed scripts.",
["decoder.go","compact-u16.go"],[("position updates","decoder.go")],[("decoder position","offset of the next unread byte","decoder.go Decoder")])
p("C10","Truncated input is rejected and trailing bytes are left unread",
"If the valid encoding of a value is cut short at any point, decoding it reports an error rather than a value (fields tagged as binary extensions excepted); if extra bytes follow it, decoding yields the same value and leaves exactly the extra bytes unread.",
["inputs","fault_sequences"],"every value of the catalogue types within the shape bounds, every truncation point, every trailing byte string of the stated length, the three encodings",
"Truncation points and values multiply; tests cut a few constants.",
["decoder.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go"],[("remaining-bytes checks","decoder.go")])
p("C11","A hostile length prefix cannot drive allocation beyond the input",
"Decoding never allocates memory out of proportion to the input it was given: a length prefix (or a size-carrying field) that promises more data than remains is answered with an error before anything of that size is allocated, and what is allocated in all (error texts included) grows no faster than the input.",
["inputs","programs"],"every byte string up to the stated length, every type in the catalogue, the three encodings",
"A single missing or misordered check is only visible on hostile prefixes, which tests do not enumerate.",
["decoder.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go"],[("length vs. remaining checks before make/MakeSlice","decoder.go reflect_readArrayOfUint_, decoder_*.go slices")])
p("C12","compact-u16 is a canonical bijection on 0..65535",
"Every integer in 0..65535 has exactly one compact-u16 encoding, of minimal length (1-3 bytes), which is what the encoder emits and the only form the decoders accept for it; every other integer is refused with an error and nothing is written; the slice, byte-reader and decoder-method forms agree on value, consumed bytes and acceptance for every input.",
["inputs"],"every int, every byte string (the first three bytes matter)",
"Tests list some boundary values; aliases and overlong forms are the classic gap.",
["compact-u16.go","encoder.go","decoder.go"],[("EncodeCompactU16Length / DecodeCompactU16","compact-u16.go")])
p("C13","Varints round-trip for every integer and reject malformed input",
"Every int written as a signed or unsigned varint is read back unchanged, in the standard LEB128/zig-zag layout with minimal length; the 16/32-bit varint types return every value of their range unchanged; input that is truncated or longer than ten bytes' worth of 64-bit data is refused with an error and leaves the cursor where it was.",
["inputs"],"every int, every 16/32-bit value, every byte string up to 11 bytes",
"Multi-byte boundaries and the top of the range are not sampled by tests.",
["encoder.go","decoder.go","types.go"],[("WriteUVarInt/WriteVarInt, ReadUvarint*/ReadVarint*","encoder.go, decoder.go")])
p("C14","Optional fields: presence flag, absence and payload always agree",
"For a field tagged optional (or c-option in Borsh), a zero/nil value is encoded as just the absent flag and anything else as the present flag followed by the plain encoding of the value; decoding the absent flag sets the field to zero/nil and consumes nothing more, decoding the present flag yields the payload, whatever the field's type (scalars, strings, slices, structs, pointers, types with their own marshalers). Optionality never leaks into nested values or following fields.",
["inputs","programs"],"every value of every optional field type in the catalogue, the three encodings",
"Tests cover a pointer and a slice in one encoding; the type x presence x encoding matrix is not sampled.",
["encoder_bin.go","encoder_borsh.go","encoder_compact-u16.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go","tags-options.go"],[("option handling at the head of encode*/decode*","encoder_*.go, decoder_*.go")])
p("C15","Borsh enums: the tag selects exactly one variant",
"Encoding an enum writes its tag byte followed by the complete encoding of the variant that tag selects and nothing of the other variants, whatever the variant's type; decoding reads the tag, decodes exactly that variant and leaves the others untouched; a tag with no variant is an error in both directions.",
["inputs","programs"],"every tag byte, every payload value of the catalogue enum types",
"Tests use a few tags and struct/primitive payloads.",
["encoder_borsh.go","decoder_borsh.go"],[("encodeComplexEnumBorsh/deserializeComplexEnum","encoder_borsh.go, decoder_borsh.go")])
p("C16","Borsh map encoding is deterministic and key-ordered",
"Encoding a map in Borsh emits its entries in strictly ascending key order (numeric for integer and float keys, bytewise for strings, for built-in and named key types alike), so the bytes depend only on the map's contents, never on insertion history or iteration order; decoding them gives the same map.",
["inputs","schedules","histories"],"every set of keys and values up to the stated size, every iteration order",
"Go randomises iteration order per run, so a test that passes proves nothing about the next run.",
["encoder_borsh.go"],[("sorted keys","encoder_borsh.go vComp")])
p("C17","Borsh never emits or accepts NaN; all other floats are bit-exact",
"In Borsh every attempt to encode or decode a NaN (any payload, either width, any nesting) reports an error, and every non-NaN float including infinities, signed zeros and subnormals passes through bit-exactly; in Bin and CompactU16 no float is refused and every non-NaN float passes through bit-exactly.",
["inputs"],"all 2^32 float32 and all 2^64 float64 bit patterns, scalar, field, slice and array positions, three encodings",
"Tests check one NaN per width.",
["encoder.go","decoder.go","encoder_borsh.go","decoder_borsh.go"],[("NaN checks","encoder.go WriteFloat*, decoder.go ReadFloat*")])
p("C18","Field tags: skipped, unexported, ordered and sized fields",
"Fields tagged to be skipped and unexported fields contribute no bytes and are left untouched by decoding; a byte-order tag governs exactly its own scalar field in Bin and CompactU16; a field that carries another slice's size fixes that slice's element count in place of a length prefix; trailing binary-extension fields are decoded when data remains and left untouched when it does not; tag words combine in any order, and unknown words and other tag keys have no effect.",
["inputs","programs"],"every value and byte string for the catalogue's tag combinations, the three encodings where the tag applies",
"Tests check single tags with constants, not their interaction with neighbours.",
["tags-parser.go","tags-options.go","encoder_bin.go","encoder_borsh.go","encoder_compact-u16.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go"],[("parseFieldTag and struct walks","tags-parser.go, encode/decodeStruct*")])
p("C19","Byte counts equal the bytes actually produced",
"For every value and encoding, the byte-count functions, the encoder's written counter and the length of the marshalled output agree, and what reaches the underlying writer is exactly the marshalled output in order.",
["inputs","programs"],"every value of the catalogue types within the shape bounds, the three encodings, counters sampled after every operation",
"Counts diverge only on some paths (lengths, options, errors); tests check a constant.",
["interface.go","encoder.go"],[("byteCounter / count","interface.go, encoder.go toWriter")])
p("C20","A failing writer always surfaces as an error",
"If the underlying writer fails at any write, the encode call in progress returns a non-nil error, and the bytes the writer had accepted by then are a prefix of the full encoding; when no write fails the call returns nil for every encodable value.",
["inputs","fault_sequences"],"every value of the catalogue types within the shape bounds, every index of the failing write, the three encodings and every typed writer",
"Tests only write to in-memory buffers that never fail.",
["encoder.go","encoder_bin.go","encoder_borsh.go","encoder_compact-u16.go"],[("error propagation","encoder*.go")])
p("C21","Type IDs convert losslessly and variants dispatch to the right type",
"Converting an integer or an up-to-8-byte discriminator to a type ID and back is lossless; decoding a variant reads the ID in the definition's encoding, instantiates exactly the type registered under that ID and decodes the rest into it, and reports an error for an unregistered ID or short input; reading and peeking a discriminator return the next 8 bytes; Obtain returns what Assign stored.",
["inputs","configurations"],"every uint8/uint32/8-byte ID, every payload value, all five ID encodings",
"Tests use small consecutive IDs.",
["variant.go","decoder.go"],[("TypeIDFrom*/UnmarshalBinaryVariant","variant.go")])
p("C22","Sighash is the first 8 bytes of SHA-256 of namespace:name",
"For every namespace and name the sighash equals the first eight bytes of the SHA-256 of the namespace, a colon and the name; instruction sighashes use the global namespace with the snake-cased name, account sighashes the account namespace with the Pascal-cased name, and the type-ID form carries the same eight bytes.",
["inputs"],"every namespace and name string up to the stated lengths (SHA-256 itself is uninterpreted)",
"Tests check fixed names.",
["sighash.go","variant.go"],[("Sighash*","sighash.go")])
p("C23","Case conversion preserves letters and word boundaries",
"For every identifier, snake-casing yields its letters and digits lower-cased and in order, joined by single underscores placed exactly at the reference algorithm's word boundaries (separators, lower-to-upper, acronym end), and Pascal-casing yields the same words capitalised with nothing between them; snake-casing an ASCII snake-cased name changes nothing, and both never panic and never lose or invent a character, ASCII or not.",
["inputs"],"every string up to the stated length over ASCII plus a set of multi-byte letters",
"Boundary rules interact over neighbouring characters; tests list examples.",
["heck.go"],[("ToRustSnakeCase/ToPascalCase","heck.go")])
p("C24","128-bit integers denote the same number in every representation",
"For every 128-bit value, the unsigned and two's-complement signed big-integer views, the big-endian byte view, the decimal/hex text and the JSON text denote the same number, and parsing the JSON text back gives the value, whichever byte order the value is configured with; JSON numbers out of range are refused with an error, never a panic.",
["inputs","configurations"],"all 2^128 values, both byte orders",
"Tests use one number.",
["u128.go","utils.go"],[("Bytes/BigInt/JSON","u128.go")])
p("C25","A decode depends only on the bytes and the target type",
"The outcome of a decode does not depend on earlier operations of the same decoder (after Reset) or of other decoders and encoders, nor on what the target variable held before (apart from fields that take no part in decoding), decoding never modifies the input buffer, distinct types with the same name are decoded by their own fields and tags, and values already decoded are not changed by later operations or by overwriting the input (byte lists, which may be views of it, excepted).",
["histories","inputs"],"every preceding operation sequence up to the stated length, every prior target content and every input within the bounds, three encodings",
"Leftover state shows up only for particular sequences; tests use fresh decoders and variables.",
["decoder.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go"],[("Reset, slice/map/pointer assignment","decoder.go, decoder_*.go")],[("current field option","tag options of the field being decoded","decoder.go Decoder")])
p("C26","Encoding is pure and repeatable",
"Encoding a value never modifies it, and the bytes produced depend only on the value and the encoding (up to map order outside Borsh): encoding twice, through a reused encoder, after other operations, by value or through a pointer, after a failed encode, or interleaved with other encoders and decoders (including from inside a marshal method or the writer) gives the same bytes, and returned bytes stay as they are whatever happens later.",
["histories","inputs"],"every preceding operation sequence up to the stated length and every catalogue value within the bounds, three encodings",
"Leftover state and hidden mutation show up only for particular sequences; tests encode once.",
["encoder.go","encoder_bin.go","encoder_borsh.go","encoder_compact-u16.go"],[("no writes through reflect, per-call options","encoder_*.go")])
p("C27","Tracing does not change behaviour",
"With trace logging enabled every encode and decode gives the same bytes, values and errors as with it disabled, and in particular never panics where it otherwise would not.",
["configurations","inputs"],"tracing on/off crossed with every value and byte string of the catalogue types within the bounds, three encodings",
"Tests run with tracing off (the default), so no trace-only statement is ever executed.",
["logging.go","encoder.go","decoder.go","encoder_bin.go","encoder_borsh.go","encoder_compact-u16.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go"],[("if traceEnabled blocks","all encoder/decoder files")])
p("C28","String and byte-slice reads return exactly the prefixed bytes",
"Reading a string, byte slice or Rust string returns exactly the bytes its length prefix announces and advances past them; the UTF-8-safe read returns the same text with each invalid byte replaced by U+FFFD, hence always valid UTF-8 and unchanged when the input was valid; raw byte reads, peeks and discards return or pass exactly the next n bytes.",
["inputs"],"every byte string up to the stated length, every prefix value, every n, the three encodings",
"Invalid UTF-8 sequences and inconsistent prefixes are barely sampled by tests.",
["decoder.go","types.go"],[("ReadByteSlice, ReadString, SafeReadUTF8String, ReadRustString, ReadNBytes, Peek, Discard","decoder.go")])
p("C29","JSON forms of the wrapper types round-trip",
"Marshalling the 64-bit integer wrappers, hex bytes and bool wrapper to JSON and unmarshalling the result gives the same value for every value; 64-bit integers are emitted as JSON numbers when their magnitude fits 32 bits and as strings otherwise, and both forms are accepted, each exactly within the type's range; the JSON float wrapper accepts a number plain or quoted.",
["inputs"],"every int64, uint64, byte string up to the stated length, bool",
"Thresholds and sign boundaries are not sampled.",
["types.go"],[("MarshalJSON/UnmarshalJSON","types.go")])
p("C30","Custom marshalers are honoured in every position",
"A type with its own marshal/unmarshal methods is encoded and decoded through them wherever it occurs (top level, struct field, pointer, slice or array element, map value, optional, enum variant), sees the byte order tagged on its field, and an error it returns aborts the whole operation and reaches the caller.",
["inputs","programs","fault_sequences"],"every payload value, every position in the catalogue, every failing call, the three encodings",
"Tests place custom types in one or two positions of one encoding.",
["encoder_bin.go","encoder_borsh.go","encoder_compact-u16.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go","decoder.go","types.go","u128.go"],[("BinaryMarshaler/BinaryUnmarshaler dispatch","encode*/decode*, decoder.go indirect")])
p("C31","The write recorder and byte listings show exactly what was written",
"For every sequence of writes the recorder returns their concatenation, in order and as they were at the time of each write, whatever the caller does afterwards with its buffers or with the returned bytes; its listing and the byte-slice and discriminator formats print every byte in decimal, in order, with the right length.",
["inputs","histories"],"every sequence of writes up to the stated number and size, caller buffers reused or not; every byte value",
"Retained buffers only show when the caller reuses one.",
["tools.go"],[("WriteByWrite, FormatByteSlice, FormatDiscriminator","tools.go")],[("recorded writes","copies of the written slices","tools.go WriteByWrite")])
p("C32","All entry points of an encoding agree, and bad targets are refused",
"The package-level functions, the per-encoding constructors, the constructors taking an encoding and a decoder switched with SetEncoding all produce the same bytes and values for the same encoding, item by item if it is switched in between, and the predicates name it; the constructors refuse exactly the unknown encodings; decoding into nil, a non-pointer or a nil pointer returns InvalidDecoderError and consumes nothing.",
["inputs","configurations","histories"],"every encoding value, every field value of a representative struct within the bounds, every switching sequence up to the stated length",
"Tests reach each encoding through one entry point.",
["interface.go","encoder.go","decoder.go","tags-options.go","error.go"],[("Marshal*/Unmarshal*, New*Encoder/Decoder, SetEncoding","interface.go, encoder.go, decoder.go, tags-options.go")],[("decoder encoding","format used by the next operation","decoder.go Decoder")])
p("C33","Kinds without an encoding are refused, never skipped",
"Encoding or decoding a value that contains a kind the format has no encoding for (int, uint, uintptr, complex, channel, function), in any position, returns an error as soon as it is reached instead of silently omitting the value or panicking; Encode, Marshal and the byte counts agree on the refusal.",
["inputs","programs"],"every position in the listed types, every value of the offending element, the three encodings, both directions",
"A silently skipped kind misaligns everything that follows; tests only use supported kinds.",
["encoder_bin.go","encoder_borsh.go","encoder_compact-u16.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go"],[("encode*/decode* kind switches","encoder_*.go, decoder_*.go")])
p("C34","Encodings compose: a composite is its parts, in order",
"The encoding of a composite value (struct, nested struct, slice, array, map, pointer, option, sized slice, enum variant) is exactly its length, flag, key or tag bytes followed by the encodings its parts have on their own, in order, for every element type in every position; decoding consumes exactly those bytes and gives the same value.",
["inputs","programs"],"32 element types in 17-18 positions each, the three encodings, every value of the elements within the bounds",
"A special case for one element type in one position (a fast path, say) is not sampled by tests.",
["encoder_bin.go","encoder_borsh.go","encoder_compact-u16.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go","encoder.go","decoder.go","types.go","u128.go"],[("encode*/decode*","encoder_*.go, decoder_*.go")])
p("C35","Independent encoders and decoders may be used concurrently",
"With tracing off, separate encoders and decoders and the package's functions, each working on its own data, may run at the same time: they touch no shared state without synchronisation (no data race) and under every schedule each gives exactly the bytes, value or error it gives when it runs alone.",
["schedules","inputs"],"every pair of the listed operations (encode and decode of every catalogue type, the helper functions), every preemption point of one by the other, every value within the bounds",
"No test runs two codecs at once; a shared cache or scratch buffer only shows under an unlucky schedule.",
["encoder.go","decoder.go","encoder_bin.go","encoder_borsh.go","encoder_compact-u16.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go","types.go","parse.go","tags-options.go","variant.go","sighash.go","heck.go","u128.go","tools.go"],[("Marshal*/Unmarshal*, Encoder, Decoder and package-level helpers","whole package")],[("package-level variables","everything reachable from them","all files")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x['title'])<=80,x['id']
    print(x['id'],len(x['title']), x['statement'].count('. ')+1)
