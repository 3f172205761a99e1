import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))
B=["binary/binary.go","binary/unsafe.go"]
p("C01","Component codecs use the glTF byte layout and are mutually inverse",
"For every component type (byte, ubyte, short, ushort, uint, float) and every shape (scalar, vec2-4, mat2-4), putting a value into a byte slice that is long enough stores each component little-endian at its glTF position (matrices column-major, every matrix column starting on a 4-byte boundary) and leaves every other byte untouched. Getting the value back from any byte slice returns exactly the components at those positions, so get after put is the identity on all bit patterns (float NaN payloads included). Neither operation panics or touches memory outside the element when the slice holds the whole element.",
["inputs"],"every byte slice content, length and capacity; every bit pattern of every component; all 42 codec pairs",
"The tests put and get one or two hand-written values per codec, most of them symmetric or small, so swapped indices, sign or width slips in single components and stray writes go unnoticed.",
B,[("Ubyte/Ushort/Uint Put*/get methods","binary/binary.go"),("unsafe reinterpretation for signed and float","binary/unsafe.go")])
p("C02","Bulk binary write/read respects stride, layout and bounds",
"Writing a slice of n elements into bytes with a stride (zero meaning tightly packed) stores element i at exactly stride*i in the glTF layout and changes no byte outside those elements; reading fills element i from stride*i. Whenever the bytes are too short for the last element, or the stride is negative or would make the elements overflow, the operation returns io.ErrShortBuffer (an error) instead of panicking and, when writing, changes nothing. Reading back what was written with the same stride (not smaller than the element) yields the original slice for every supported element type, scalars of one byte included.",
["inputs"],"every element type, element count, stride, buffer length and content",
"Tests use two elements and a few strides, mostly packed; interleaved one-byte scalars, short buffers, large or negative strides and untouched gaps between elements are not sampled.",
["binary/encode.go"]+B,[("Read","binary/encode.go"),("Write","binary/encode.go")])
p("C03","Typed slice construction matches its glTF type and is memory safe",
"For every component and accessor type and every non-negative count, making a slice (with or without a backing byte buffer) yields a value of exactly the Go element type associated with that pair and exactly count elements, and asking for the type of any supported slice returns that same pair and its length. A backing buffer of any length, capacity or content never makes the result reach outside the buffer's memory nor changes the length. Unsupported component or accessor types are reported as an error, never as a panic.",
["inputs"],"all component and accessor type values (also invalid ones), all counts, all buffer lengths and capacities",
"Tests pick a handful of type pairs with one count and an empty or tiny buffer; some type pairs are never constructed at all.",
["binary/slice.go"],[("MakeSlice","binary/slice.go"),("MakeSliceBuffer/castSlice/reslice","binary/slice.go"),("Type","binary/slice.go")])
p("C04","Element sizes follow the glTF alignment rules",
"The size of an element is the one the glTF layout prescribes: matrix columns are padded to 4 bytes, and two- and three-component vectors of one- or two-byte components are rounded up to a multiple of 4 bytes so that vertex attributes stay aligned. For every supported pair the size is a multiple of the component size, at least component size times component count, and large enough for the highest byte the codecs touch. Component byte sizes and component counts are those of the glTF tables, and zero for values outside them.",
["inputs"],"all values of the component and accessor type enumerations, valid or not",
"The tests list a few pairs; consistency of the size table with the codecs' actual byte offsets is never checked.",
["gltf.go","const.go"],[("SizeOfElement","gltf.go"),("ByteSize/Components","const.go")])
p("C05","Reading accessors and buffer views never panics on malformed documents",
"For any document, however malformed (negative, huge or dangling indices, offsets, lengths, strides and counts; missing entries; inconsistent types; sparse indices outside the accessor), reading a buffer view or an accessor returns either a result or an error. It never panics and never reads outside the data of the referenced buffer.",
["inputs"],"all documents, accessors, buffer views and scratch buffers, including ones with nil entries and arbitrary integers",
"Tests exercise a few specific malformed documents; the input space is unbounded and the failing corners are integer-overflow and sign cases.",
["modeler/read.go","binary/encode.go","binary/slice.go"],[("ReadAccessor","modeler/read.go"),("ReadBufferView","modeler/read.go")])
p("C06","Accessor reads return exactly the referenced elements",
"A successful accessor read returns exactly count elements where element i is decoded from view offset + accessor offset + i*stride of the referenced buffer (stride zero meaning packed), or is zero when the accessor has no buffer view. A sparse accessor then has the element at each sparse index replaced by the corresponding sparse value and no other element changed. The result depends only on the document, never on the content or size of a scratch buffer supplied by the caller or on earlier reads.",
["inputs","histories"],"all documents, offsets, strides, component/accessor types, sparse index lists, scratch buffers and preceding reads",
"Tests read a few small fixed documents with fresh buffers; stale scratch content, stride/offset combinations and sparse lists over all types are not covered.",
["modeler/read.go"],[("ReadAccessor","modeler/read.go"),("binary.Read","binary/encode.go"),("buffer pools","modeler/read.go")])
p("C07","Typed readers check types, convert exactly and honour count",
"Each typed reader (indices, normal, tangent, texture coordinates, weights, joints, position, colour 8/16 bit, inverse bind matrices) accepts exactly the component and accessor types glTF allows for that attribute and returns an error for all others. On success the result has exactly accessor-count elements, also when the caller passes a larger or smaller buffer, and each element is the accessor's element converted as documented: integer widening is value preserving, normalized integers become v/max, missing alpha is opaque and float colours are encoded like the package's own normalization.",
["inputs"],"all accessors and documents, all component/accessor type pairs, all values, all caller buffers",
"Tests check one short list per type; unchecked pairs, larger caller buffers with count zero, and per-component mix-ups are not covered.",
["modeler/read.go","math.go"],[("ReadIndices, ReadNormal, ... ReadInverseBindMatrices","modeler/read.go"),("makeBufferOf","modeler/read.go")])
p("C08","Reads never modify the document and results stay stable",
"Reading an accessor or a buffer view changes nothing reachable from the document. The slice returned by a typed reader shares memory only with the buffer the caller supplied (or nothing), never with internal recycled memory, so it keeps its content across any later reads.",
["inputs","histories"],"all documents and all later sequences of reads; all caller buffers",
"Tests compare one result immediately; aliasing with pooled scratch memory shows only when a later read reuses that memory.",
["modeler/read.go"],[("uint32Pool/bufPool","modeler/read.go"),("makeBufferOf","modeler/read.go")])
p("C09","Writers only append, in bounds and aligned",
"Writing an accessor, buffer view, image or typed attribute to a document appends to its lists and to the data of its last buffer: existing entries and existing bytes are unchanged, returned indices designate the newly added entries, and the buffer's declared length keeps matching its data length. The new view covers exactly the appended element bytes, lies inside the buffer, and the data of every accessor written starts at a multiple of 4. The new accessor's type and count are those of the data written.",
["inputs","histories"],"all starting documents, all supported element types, lengths and sequences of writes",
"Tests write to one or two fixed documents and compare the whole result; arbitrary prior state, odd prior lengths and shared capacity are not explored.",
["modeler/write.go"],[("WriteAccessor/WriteBufferView","modeler/write.go"),("ensurePadding","modeler/write.go")])
p("C10","What a writer stores, the matching reader returns",
"For every supported element type and every slice of values, writing it as an accessor to any well-formed document and reading the accessor back gives the same elements in the same order, bit for bit. The typed writers and readers of matching types round-trip in the same way, and colour slices come back as the equivalent four-component vectors.",
["inputs"],"all documents, element types, lengths and values",
"Tests never compose writer and reader for most types; layout padding differences between both sides would go unnoticed.",
["modeler/write.go","modeler/read.go","binary/encode.go"],[("WriteAccessor","modeler/write.go"),("ReadAccessor","modeler/read.go")])
p("C11","Interleaved attributes share one view without overlapping",
"Writing several attributes interleaved creates one view whose stride is the sum of the element sizes, one accessor per attribute in order at increasing offsets, and each attribute's accessor reads back exactly its own data. If the slices differ in length an error is returned and the document gains no accessor or view. The primitive-attribute writer returns a map naming exactly the non-empty attributes, each pointing to its accessor, with normalization flags per attribute and position bounds set.",
["inputs"],"all lists of attributes, element types and lengths, all starting documents",
"Tests interleave two or three fixed attributes with 4-byte components; one-byte columns and length mismatches in other positions are not sampled.",
["modeler/write.go"],[("WriteAccessorsInterleaved","modeler/write.go"),("WritePrimitiveAttributes","modeler/write.go")])
p("C12","Position bounds are the exact component-wise extremes",
"For every non-empty list of finite positions the written accessor's minimum and maximum are, per axis, exactly the smallest and largest value present in the data, regardless of sign, magnitude or order.",
["inputs"],"all non-empty lists of finite float32 triples",
"Tests use two or three points; initial bounds, sign handling and per-axis mix-ups need other inputs.",
["modeler/write.go"],[("minMaxFloat32","modeler/write.go"),("WritePosition","modeler/write.go")])
p("C13","Binary output is a well-formed GLB container",
"Encoding a document as binary produces the 12-byte header (magic, version 2, total length equal to the number of bytes written), a JSON chunk padded with spaces to a multiple of 4, and - exactly when the first buffer has no URI - a BIN chunk with that buffer's bytes padded with zeros to a multiple of 4, each chunk length equal to its padded size. Nothing else is written to the stream, and non-binary output is exactly the JSON text. This holds for every JSON length and every buffer length.",
["inputs"],"all documents whose first buffer's declared length equals its data length; all residues of JSON and buffer length modulo 4",
"Tests compare decoded results for some documents; they never inspect framing for all length residues.",
["encode.go","const.go"],[("encodeBinary","encode.go")])
p("C14","Encoding reports every failed write",
"If any write to the output stream, any creation, write or close of an external resource file, or the JSON marshalling fails, encoding returns a non-nil error; it returns nil only if every byte of the output was accepted. Saving to a file likewise reports errors of creating, writing and closing it.",
["fault_sequences","inputs"],"every position at which a write, create or close can fail, for all documents and both formats",
"A test can fail a few chosen writes; the guarantee is over every write the encoder issues.",
["encode.go"],[("Encode/encodeBinary/encodeBuffer/save","encode.go")])
p("C15","GLB decoding honours chunk framing for any read fragmentation",
"Decoding a binary file whose header and chunk lengths are consistent yields the first buffer's bytes exactly as stored in the BIN chunk, independently of how the underlying reader fragments its data and of padding after the JSON text. Wrong chunk types, a JSON chunk larger than the file, a BIN chunk shorter than the declared buffer or truncated data give an error.",
["inputs","schedules"],"all well-formed and malformed containers, all chunk lengths, all ways the reader may split its results",
"Tests decode a few files from readers that return everything at once, so over- or under-consumption between the chunks is invisible.",
["decoder.go"],[("readGLBHeader/decodeDocument","decoder.go"),("decodeBinaryBuffer/chunkHeader","decoder.go")])
p("C16","Decoding never panics on arbitrary input",
"For every byte sequence and every file system content, decoding returns a document or an error and never panics, whatever the JSON declares (null entries, negative or enormous lengths, malformed data URIs) and whatever the binary header says. A decoded buffer never holds more bytes than its declared length when it comes from the binary chunk or a file.",
["inputs"],"all input bytes and file system contents",
"The tests feed a few malformed inputs; the failing ones are specific JSON values and header integers.",
["decoder.go","gltf.go"],[("Decode","decoder.go"),("decodeBuffer/decodeBinaryBuffer","decoder.go"),("marshalData","gltf.go")])
p("C17","JSON round trip preserves the document up to documented defaults",
"Encoding a valid document to JSON and decoding it yields the same document, where unset optional values come back as their glTF defaults; defaults are omitted from the output and every other value - including one that equals zero while the default is not zero - is kept. Property names are those of the glTF 2.0 schema. Encoding is independent of indentation settings apart from white space.",
["inputs"],"all documents built from representable values",
"Tests round-trip one or two documents; each optional value has its own default logic, wrong only for particular values.",
["encode.go","gltf.go","const.go"],[("MarshalJSON/UnmarshalJSON methods","encode.go"),("struct tags","gltf.go")])
p("C18","Enumerations map one-to-one to their glTF codes and names",
"Every enumeration value of the public API serializes to the number or string the glTF 2.0 schema assigns to it and parses back to the same value; printing gives its schema name and never panics, also for values outside the enumeration. Parsing an unknown accessor type is an error.",
["inputs"],"all values of the ten enumeration types, all codes and names",
"Tests sample some values; a swap of two entries in one table passes unless that pair is sampled.",
["const.go","const_strings.go"],[("MarshalJSON/UnmarshalJSON of enums","const.go"),("String methods","const_strings.go")])
p("C19","Default accessors return the value when set and the default otherwise",
"Each OrDefault helper (matrix, rotation, scale, translation, alpha cutoff, normal scale, occlusion strength, metallic, roughness, base colour, and those of the extensions) returns the stored value whenever it is set, including when it is zero for optional ones, and the glTF default exactly when it is unset. They never modify the object.",
["inputs"],"all stored values including zero, NaN and partially zero arrays",
"Tests use one set and one unset value per helper.",
["gltf.go","ext/lightspunctual/lightspunctual.go","ext/texturetransform/transform.go"],[("*OrDefault methods","gltf.go")])
p("C20","External resources never leave the document's directory",
"While decoding or encoding, a file name is handed to the user-supplied file system only if it is a local relative path after percent-decoding and separator normalization: never absolute, never escaping through parent references, whatever encoding the URI uses. Other URIs lead to an error or to no access at all.",
["inputs"],"all buffer URIs, both directions",
"Tests try a few literal traversal strings; percent-encoded and backslash forms are unbounded variants.",
["decoder.go","encode.go"],[("validateBufferURI/sanitizeURI","decoder.go"),("encodeBuffer","encode.go"),("decodeBuffer","decoder.go")])
p("C21","Encoding does not modify the document",
"Encoding a document in either format, with or without external buffers, leaves the document and everything reachable from it unchanged, whether it succeeds or fails.",
["inputs","fault_sequences"],"all documents, both formats, all failure points",
"Tests do not compare the document before and after encoding.",
["encode.go","gltf.go"],[("marshalJSONDoc","encode.go"),("EmbeddedResource","gltf.go")])
p("C22","Embedded data URIs decode to exactly the embedded bytes",
"A buffer or image whose URI carries a supported base64 data prefix is recognised as embedded, and decoding it returns exactly the encoded bytes; malformed or truncated content gives an error or empty data and never a panic. Marking a buffer as embedded and decoding its URI returns the buffer's original bytes, and URIs without the prefix are not treated as embedded.",
["inputs"],"all byte contents and all URI strings",
"Tests use two literal strings.",
["gltf.go"],[("Buffer.EmbeddedResource/marshalData","gltf.go"),("Image.MarshalData","gltf.go")])
p("C23","Extension data is decoded by its registered codec or preserved verbatim",
"When extensions are parsed, each key with a registered decoder that succeeds yields the decoder's value, and every other key (unregistered, or whose decoder fails) keeps its raw JSON unchanged; no key is lost or invented. The registry lookup returns exactly the function most recently registered for a key, and registration and lookup hold the registry lock whenever they touch the table.",
["inputs","histories"],"all extension objects and all registration histories",
"Tests register one extension and parse one object.",
["encode.go","gltf.go"],[("Extensions.UnmarshalJSON","encode.go"),("RegisterExtension/queryExtension","gltf.go")])
p("C24","Bundled extensions round-trip through JSON",
"For each bundled extension (punctual lights, specular-glossiness, texture transform, unlit) marshalling a value and unmarshalling it through the extension's decoder yields an equal value up to its documented defaults, and the output is valid JSON using the schema's property names. Values equal to a default may be omitted, all others are kept unchanged, including arbitrary extras nested inside.",
["inputs"],"all extension values",
"Tests compare literal strings for one or two values per extension.",
["ext/lightspunctual/lightspunctual.go","ext/specular/specular.go","ext/texturetransform/transform.go","ext/unlit/unlit.go"],[("MarshalJSON/UnmarshalJSON/Unmarshal","ext/")])
p("C25","Integer normalization is exact and invertible",
"Denormalizing an integer component gives max(v/limit, -1) (v/limit for unsigned) rounded to the nearest float, always inside [-1,1] or [0,1]; normalizing a float in that range gives the nearest integer, so normalize after denormalize is the identity on every integer except the most negative signed one, which maps to minus the limit.",
["inputs"],"all 8- and 16-bit integers and all floats in the normalized range",
"Tests sample five or six values per function.",
["math.go"],[("Normalize*/Denormalize*","math.go")])
p("C26","Colour conversions stay in range and agree between variants",
"Converting integer colours to linear floats and back returns each channel within one unit (alpha included), for both 8- and 16-bit variants, and channels never influence each other. The RGB and RGBA variants agree on the colour channels, conversion is monotonic per channel, and black and full intensity map to exact end points.",
["inputs"],"all 8- and 16-bit channel values",
"Tests sample a few colours.",
["math.go"],[("NormalizeRGB*/DenormalizeRGB*","math.go")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
