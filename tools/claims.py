CLAIM.update({
 'C03':('proof',PROOF,'MakeSlice, MakeSliceBuffer (with and without backing memory of any length) and Type: dynamic type, length, memory extent, error condition'),
 'C04':('proof',PROOF,'SizeOfElement, ByteSize, Components for every value of the argument types, and the highest byte touched by each codec'),
 'C09':('proof',PROOF,'WriteAccessor over every supported slice type: lists, index, existing entries and bytes, the new accessor, view and buffer length, alignment, frame'),
 'C10':('proof',PROOF,'WriteAccessor stores every element in the glTF layout at the start of its view, for every supported slice type'),
 'C18':('proof',PROOF,'MarshalJSON, UnmarshalJSON and String of every enumeration; json.Marshal and json.Unmarshal of numbers and strings are modelled'),
 'C19':('proof',PROOF,'all OrDefault helpers, those of the extensions included, with frame'),
 'C25':('proof',PROOF+'; IEEE-754 theory (z3, cvc5)','the eight Normalize/Denormalize functions over their whole domains'),
})
BOUNDED='contracts of the real code checked at run time on generated inputs (bounded, not counted as proved)'
BOTH=PROOF+'; '+BOUNDED
CLAIM.update({
 'C05':('proof',BOTH,'ReadAccessor, ReadBufferView, ReadIndices never panic for any document, accessor and buffer, scalar to 2x2 matrix elements proved on every run, larger matrices proved in the thorough tier and bounded in the quick one'),
 'C06':('proof',BOTH,'ReadAccessor returns exactly the elements of the view; the effect of the sparse part element by element is a bounded check; larger matrices as in C05'),
 'C07':('exploration',BOTH,'ReadIndices proved against the contract of ReadAccessor (which C06 proves); the other readers bounded'),
 'C08':('proof',BOTH,'frame of ReadAccessor, ReadBufferView, ReadIndices and the memory their results live in; larger matrices as in C05'),
 'C11':('exploration',BOUNDED,'interleaved and primitive attribute writers'),
 'C12':('exploration',BOUNDED,'WritePosition and WritePrimitiveAttributes'),
 'C13':('exploration',BOUNDED,'Encoder.Encode: header, chunks, padding, content'),
 'C14':('exploration',BOUNDED,'Encoder.Encode and Save with streams and file systems that fail at any point'),
 'C15':('exploration',BOUNDED,'Decoder.Decode over readers that deliver any pieces, faults of every header field'),
 'C16':('exploration',BOUNDED,'Decoder.Decode on mutated files'),
 'C17':('exploration',BOUNDED,'documents through Encode and Decode against a schema table'),
 'C20':('exploration',BOUNDED,'names that reach the file system while decoding, encoding and opening'),
 'C21':('exploration',BOUNDED,'deep copy of the document before and after Encode'),
 'C22':('exploration',BOUNDED,'IsEmbeddedResource, MarshalData, EmbeddedResource for buffers and images'),
 'C23':('exploration',BOUNDED,'Extensions.UnmarshalJSON with registered, failing and unknown decoders'),
 'C24':('exploration',BOUNDED,'the four bundled extensions, marshalled and decoded alone and in an extensions object'),
 'C26':('exploration',BOUNDED,'every 8- and 16-bit channel value in every channel; random linear colours'),
})
