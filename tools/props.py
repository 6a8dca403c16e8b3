"""The properties: id, title, statement, quantifier over, quantifier text,
why tests cannot settle it, files, mechanisms."""

PROPS = [
 ('W01', 'Integers survive encoding',
  'Every 64-bit unsigned integer and every 64-bit signed integer, once encoded, decodes to itself, and the decoder consumes exactly the bytes the encoder wrote. The encoding is the shortest little-endian base-128 form, one to ten bytes long.',
  'inputs', 'all 2^64 values, any bytes behind the integer',
  'the tests encode about twenty chosen values',
  'src/wire.rs', [('base-128 loop', 'encode_u64, decode_u64'), ('ZigZag', 'zigzag, unzigzag')]),
 ('W02', 'Integer decoding is exact, bounded and never wraps',
  'Decoding an integer from any bytes yields the exact mathematical value of the base-128 number, accepts redundant high-order zero groups, and reports an error when the number does not fit in 64 bits, when it runs on for 257 or more bytes, or when the input ends inside it. A value with bits lost or wrapped is never returned.',
  'inputs', 'every byte string in the position of an integer',
  'the tests contain three hand-written overflowing encodings; the bound on denormalised encodings is met with one',
  'src/wire.rs', [('overflow checks on the last group and on padding groups', 'decode_u64')]),
 ('W03', 'Fixed-width integers decode like any other',
  'The fixed-width integer encoding used for lengths filled in later is always exactly ten bytes long and decodes to the value that was encoded, for every 64-bit value.',
  'inputs', 'all 2^64 values', 'no test decodes a fixed-width encoding other than small blob lengths',
  'src/wire.rs', [('ten groups, all but the last continued', 'encode_fixed_u64')]),
 ('W04', 'ZigZag and descriptors are bijections',
  'ZigZag mapping between signed and unsigned 64-bit integers is a bijection in both directions that maps 0, -1, 1, -2, 2, ... to 0, 1, 2, 3, 4, .... Every one of the 256 descriptor bytes parses to a type and tag (or special marker) that converts back to the same byte.',
  'inputs', 'all 2^64 values, all 256 bytes', 'tests sample a few values',
  'src/wire.rs', [('zigzag, unzigzag', 'wire.rs'), ('parse / from', 'Descriptor, ParsedDescriptor')]),

 ('S01', 'The parser accepts exactly the documented grammar, without panicking',
  'On any input bytes whatever, reading element by element terminates without panic or overflow and reports exactly the elements, tags, values, blob lengths, positions and struct depths that the format defines, up to the first point where the input leaves the format or ends, where it reports an error of the right kind. Unmatched end-of-struct markers are reported and leave the depth at zero; reading stops for good at the end-of-document marker. Calls made after an error do not panic either, do not read input twice, and never claim a position behind the input.',
  'inputs', 'every byte string given as input',
  'the tests feed some twenty hand-written documents; malformed ones are three',
  'src/stream.rs src/wire.rs', [('element dispatch', 'Stream::next_element_impl'), ('values', 'Stream::next_value, next_blob')]),
 ('S02', 'Reported positions are exact offsets from the logical position',
  'Whatever the starting logical position, every position reported for the stream, a field or a blob is that start plus the number of bytes of the input before it. Changing the logical position in mid-stream shifts later positions by the change and affects nothing else; a blob left unread is passed over first, and reported as truncated when the input is too short for it.',
  'inputs configurations', 'all 64-bit starting positions, all inputs, all moments of the change',
  'the tests look at positions in two documents, with the default start',
  'src/stream.rs', [('position bookkeeping', 'StreamTracker::read, Stream::set_pos, reset_pos')]),
 ('S03', 'A blob handle exposes exactly its bytes and leaving it resumes behind it',
  'Through a blob or exception handle, any sequence of reads, buffered reads, bounded reads and seeks delivers exactly the blob\'s bytes at the handle\'s position, never a byte outside the blob, and lengths and positions reported by the handle agree with it. However the handle was used and wherever it was left, the next element read is the one directly behind the blob.',
  'inputs histories', 'every sequence of operations on a blob, every blob content',
  'the tests run three fixed operation sequences on a blob',
  'src/stream.rs', [('blob bounds', 'Blob::read, fill_buf, consume, seek'), ('skipping the rest', 'Stream::commit')]),
 ('S04', 'The result of parsing does not depend on the transport',
  'The same bytes give the same fields, values, blob contents, positions, depths and errors whether they come from a slice, an owned buffer, a seekable or a plain reader, buffered or not, and however the reader splits its data or is interrupted. This holds no matter how much of each blob is consumed.',
  'inputs schedules', 'every input, every way a reader may split it into partial and interrupted reads',
  'the tests read almost everything from one slice or cursor; no test has short or interrupted reads',
  'src/stream.rs src/io.rs', [('skip by discarding or seeking', 'Stream::skip_by_discard, skip_by_seek'), ('complete reads', 'wire::read_byte')]),
 ('S05', 'End of input is graceful only where the documents says it may be',
  'Input that ends between elements is a normal end only if graceful ends of input were requested, and otherwise is an error; input that ends inside an element is always an error. The end is sticky: nothing more is read until it is cleared, and clearing it after an explicit end-of-document marker resumes directly behind the marker as a fresh document.',
  'inputs configurations', 'every document cut off at every byte, both modes; every pair of documents',
  'the tests cut two documents at one place each',
  'src/stream.rs', [('graceful flag passed to the first byte of an element only', 'Stream::next_element_impl, StreamTracker')]),
 ('S06', 'Skipping passes over exactly one subtree',
  'Skipping a field passes over exactly that field with everything nested in it, whatever was or was not read of it, so that the next field reported is its next sibling or the end of the enclosing structure. Skipping up to a depth stops directly behind the end-of-struct that reaches that depth; errors inside what is skipped are reported.',
  'inputs histories', 'every nesting of structs and enums, every choice of skipped fields',
  'the tests skip out of two fixed documents',
  'src/stream.rs', [('depth counter', 'Stream::skip_up, struct_depth'), ('Field::skip', 'Field::skip')]),
 ('S07', 'In-band exceptions interrupt but do not derail reading',
  'When reading fields meets an in-band exception it reports an error carrying up to 256 bytes of its message (as text, malformed parts replaced), at any nesting depth and for any message length. Reading can then continue and reports exactly what follows the exception; a message cut off by the end of the input is never followed by invented data.',
  'inputs', 'messages of any length and content, anywhere in a document',
  'one test has one short exception and stops there',
  'src/stream.rs', [('message limit and conversion', 'Stream::next_field'), ('skipping the rest', 'Stream::commit')]),
 ('S08', 'Padding is invisible to field reading',
  'Inserting padding between elements anywhere in a document changes nothing that field-wise reading reports except positions, which still point at the descriptor of the field.',
  'inputs', 'any document, any amount of padding between its elements',
  'one test has three padding bytes in front of one field',
  'src/stream.rs', [('padding loop', 'Stream::next_element_impl')]),
 ('S09', 'Positions never wrap around',
  'At any starting position up to the largest, reading any input and any sequence of writes keeps the logical position equal to the start plus the bytes transferred; an operation that would push it beyond the 64-bit range is refused with an error instead of wrapping or panicking, and such errors only occur within reach of the limit.',
  'inputs configurations', 'all 64-bit starting positions',
  'two tests use one position near the limit each',
  'src/stream.rs', [('check before advancing', 'Stream::check_advance_pos, StreamTracker')]),
 ('S10', 'Seeking and writing never leave the blob',
  'Seeking in a blob of any length to any absolute, relative or end-relative 64-bit position succeeds exactly when the target lies inside the blob or at its end (and is not further away than a device can be moved at once), moves handle and device to the same place, and otherwise fails and moves neither. Writing into an allocated blob accepts at most the bytes left in it.',
  'inputs histories', 'all blob lengths, all 64-bit seek amounts, all sequences of writes',
  'the tests seek by some ten small amounts in one five-byte blob',
  'src/stream.rs', [('bounds arithmetic', 'Blob::seek'), ('write limit', 'Blob::write')]),
 ('S11', 'A truncated blob is never taken for a complete one',
  'If the input ends before the declared length of a blob, then whichever way the blob is consumed, skipped or left alone, the truncation is reported as an error before anything else is reported or an end of input is announced, on every kind of transport; reported counts of missing bytes are exact, and the position is then the end of the input.',
  'inputs', 'all declared lengths, all amounts of data present, all ways of consuming the blob',
  'the tests truncate one blob in memory and slice it',
  'src/stream.rs', [('remaining length checks', 'Stream::skip_by_seek, commit, Blob::read_fully, slice, ext_slice')]),
 ('S12', 'Values convert exactly or are refused',
  'Reading an integer as a narrower or signed type, as a boolean or as null yields exactly the stored number if it is representable and an error otherwise; it is never truncated or reinterpreted. Reading a field as a type other than the one it has is refused with an error that names both types.',
  'inputs', 'all 2^64 values, all target types, all field types',
  'the tests read some ten values',
  'src/stream.rs', [('range checks', 'Value::to_u8 ... to_bool, to_null'), ('type checks', 'Value::to_struct, to_enum, to_blob')]),
 ('S13', 'Device errors surface and everything before them is right',
  'If the underlying reader fails at any point, everything reported before that point is what a sound reader would have given, and the failure is reported with its own kind; it is never swallowed, turned into an end of input or into data.',
  'fault_sequences inputs', 'failure at every byte of every document, several kinds of error',
  'no test has a failing reader',
  'src/stream.rs src/wire.rs', [('error propagation', 'Stream::next_element_impl, commit, wire::read_byte')]),
 ('S14', 'A committed stream stands where it says it stands',
  'After committing a stream over a seekable input, the device is positioned exactly behind the last element read, and the stream can be repositioned through the device to any element boundary and then reads the same elements from there.',
  'inputs histories', 'every document, every boundary, every consumption of the blob before it',
  'one test repositions once',
  'src/stream.rs', [('commit', 'Stream::commit, seek')]),
 ('S15', 'Slices of a blob are its unconsumed bytes, in place',
  'Looking at a blob of an in-memory input through a slice (read-only, mutable, or borrowed for the life of the input) gives exactly the bytes of the blob that have not been read yet, in place and not copied, wherever in the blob the handle stands, and moves nothing: the same data can be read or sliced again, and the element behind is the same. Bytes written through a mutable slice are in the blob and nowhere else. If the input does not hold all of the blob, the number of missing bytes is reported instead.',
  'inputs histories', 'all contents, all positions in the blob, all truncations, every kind of in-memory input',
  'the tests slice a blob from its beginning only',
  'src/stream.rs src/io.rs', [('slicing', 'Blob::slice, slice_mut, ext_slice'), ('views', 'TransparentCursor, AsExtBytes')]),
 ('S16', 'Working on the byte stream directly, with the position set, is seamless',
  'If the user reads from, writes to or moves the underlying byte stream directly at an element boundary (after a commit) or inside a blob, and then tells the stream or the blob the new position, everything goes on as if the stream had done it: positions, blob bounds and remaining lengths are right, the next elements are the ones at the new place, the struct depth is unchanged, and a blob of unknown length gets the length of all that was written to it.',
  'inputs histories', 'all short documents, all boundaries, all splits of a blob between direct and normal access',
  'no test uses get_mut, set_pos, stream_get_mut or stream_set_pos',
  'src/stream.rs', [('explicit positions', 'Stream::set_pos, get_mut; Blob::stream_set_pos, stream_get_mut, stream_get_ref')]),

 ('T01', 'What is written is exactly the documented format and reads back',
  'Every sequence of write operations with any tags and values produces exactly the bytes the format defines for it (descriptor, shortest integer, length and data), independent of the integer width used to write it. Reading the output gives back the same sequence of elements.',
  'inputs histories', 'all sequences of writes, all 63 tags, all 64-bit values',
  'the tests write some fifteen fixed values',
  'src/stream.rs src/wire.rs', [('writers', 'Stream::write_desc, write_u64, write_blob_data, ...')]),
 ('T02', 'An unfinished output blob blocks everything after it',
  'After starting a blob of declared length, any write, commit or padding operation succeeds only if the blob has been filled completely; otherwise it is refused with the exact number of missing bytes and writes nothing.',
  'histories inputs', 'all declared lengths and fill levels, all following operations',
  'one test tries one operation on one unfinished blob',
  'src/stream.rs', [('end of blob check', 'Stream::check_at_end_of_blob')]),
 ('T03', 'Blobs of unknown length get the right length afterwards',
  'A blob started without a known length, filled by any sequence of writes and seeks within it, is completed by the next operation or commit with a header that states exactly the number of bytes in it; content and everything around it are intact and the document parses. Starting one at any position never overflows.',
  'histories inputs', 'all sequences of writes and seeks, all starting positions',
  'one test writes one such blob',
  'src/stream.rs', [('length patched in afterwards', 'Stream::finish_dynamic_blob')]),
 ('T04', 'Alignment padding is exact and minimal',
  'Padding to a power-of-two alignment brings the logical position to a multiple of it with the fewest padding bytes, from any position, and never splits or hides an unfinished blob.',
  'inputs', 'all alignments, all positions', 'one test pads from three positions',
  'src/stream.rs', [('pad_to_align', 'Stream::pad_to_align')]),
 ('T05', 'Copying elements reproduces the document',
  'Copying any document element by element (or field by field) to another stream yields the same document with shortest integers: same elements, tags, values, blob bytes, padding and exceptions. A blob whose data could not be copied completely is never left behind looking complete.',
  'inputs', 'every input document, every mix of element and field copies',
  'the tests do not copy elements except one',
  'src/stream.rs', [('write_element, write_field', 'stream.rs')]),
 ('T06', 'Output does not depend on how the device accepts it',
  'With a device that accepts only part of what it is offered at a time or reports interruptions, the output is the same as with a perfect device. If the device fails or stops accepting data, that error is reported, and what it holds is a prefix of the right output.',
  'schedules fault_sequences', 'every pattern of partial writes, interruption and failure',
  'all tests write to memory',
  'src/stream.rs src/wire.rs', [('complete writes', 'write_all uses'), ('position only after success', 'StreamTracker::write')]),
 ('T07', 'Editing a document in place changes exactly the edited bytes',
  'On a device that can be read, written and positioned, bytes written into a blob while reading a document replace the bytes of the blob at the current position and never reach beyond its end; reading, seeking and reading back inside the blob agree; reading the rest of the document then goes on as if nothing had been written. A field overwritten with one of the same size, after seeking back to it and restoring the depth, is the only thing that differs, and reading on from it reports it and then the rest.',
  'inputs histories', 'all short documents, all interleavings of reads, writes and seeks in their blobs, all fields',
  'no test writes to a stream it reads from',
  'src/stream.rs', [('blob window', 'Blob: Read, Write, Seek'), ('repositioning', 'Stream::seek, set_struct_depth')]),
 ('A01', 'In-memory cursors expose exactly the unconsumed bytes',
  'For an in-memory input at any position, including positions beyond its end, the contiguous views (read-only, mutable and borrowed) are exactly the bytes from the position to the end of the buffer, and reading, writing and seeking through the wrapper behave as on the plain cursor.',
  'inputs', 'all buffers, all 64-bit positions',
  'no test positions a cursor past its end',
  'src/io.rs', [('views', 'TransparentCursor::as_ref, as_mut, AsExtBytes')]),

 ('D01', 'Scalars, strings and byte arrays survive serialisation everywhere',
  'Every value of every built-in scalar type, string, byte vector and byte array serialises to exactly the documented bytes - the same bytes through every serialisation entry point - and deserialises, with unknown fields forbidden, to an equal value, whether it is the document itself, a field of a tuple or an element of a collection.',
  'inputs configurations', 'all values of all scalar types, all short strings and byte strings, every kind of context',
  'the tests round-trip a handful of values per type and never compare bytes for most types',
  'src/ser.rs src/de.rs', [('contexts', 'Serialize::serialize_body / serialize_field / serialize_element'), ('the way back', 'Deserialize, des_unary! and the primitive impls')]),
 ('D02', 'Collections, options, arrays, maps and tuples survive serialisation',
  'Options, vectors, arrays, lists, deques, sets, heaps, maps and tuples, nested in one another in any way, serialise to exactly the documented representation (repeated fields, wrapped in a struct only where they are elements themselves) and deserialise to an equal value in every kind of context, including empty ones and byte vectors, whose representation is a blob.',
  'inputs configurations', 'all small collections of all values, every nesting tested in every context',
  'the tests try a few values, mostly as a whole document',
  'src/ser.rs src/de.rs', [('collection impls', 'ser.rs, de.rs'), ('byte specialisation', 'Serialize::SerializeAs, serialize_slice / deserialize_slice')]),
 ('D03', 'User-defined structures and enums survive serialisation',
  'Structures and enums defined with the retrofit macro - with plain fields, delegation, recursion, unknown fields kept, catch-all variants - serialise every value to exactly the bytes their definition prescribes (fields in order with their tags, discriminants, delegated representation unchanged) and deserialise to an equal value in every kind of context.',
  'inputs configurations', 'all small values, every kind of definition and context',
  'the tests serialise one or two values of each kind of definition',
  'src/sugar.rs src/unknown.rs', [('generated code', 'fourleaf_retrofit!'), ('unknown fields', 'UnknownFields, UnknownField')]),
 ('D04', 'Decoding any bytes as any type gives the defined answer, never a panic',
  'Whatever the bytes, decoding them as any type terminates without panic or overflow, and yields exactly the value the format and the type define, or an error of the kind the first deviation calls for. It leaves the stream directly behind the value, so that further values decode from there.',
  'inputs', 'every short byte string, every type, unknown fields ignored or not',
  'the tests decode well-formed documents and about a dozen broken ones',
  'src/de.rs src/sugar.rs src/unknown.rs src/stream.rs', [('entry points', 'de::from_slice_copy, from_stream_copy'), ('field loops', 'des_struct_body!, fourleaf_retrofit!')]),
 ('D05', 'A type that keeps unknown fields keeps all of them',
  'Any document decoded as UnknownFields and serialised again contains element for element the same data: the same fields in the same order with the same tags, values, discriminants, nesting and bytes, differing only in integers being shortest and padding being gone.',
  'inputs', 'every document, however malformed (if it is accepted)',
  'the tests re-serialise one document',
  'src/unknown.rs', [('capture', 'UnknownFields::deserialize_field, UnknownField::deserialize_element'), ('output', 'Serialize for UnknownField(s)')]),
 ('D06', 'Fields occur as often as their type allows',
  'A document is accepted only if each field occurs a number of times its type allows: exactly once for a plain field, at most once for an option, any number for collections, exactly the length for arrays. Too few, too many or none are reported as such, repeated fields may be interleaved with others, and a map keeps the last value of a key.',
  'inputs', 'all documents of a few elements with any tags, for all kinds of collections, tuples and structures',
  'the tests repeat and omit a field in four documents',
  'src/de.rs src/sugar.rs', [('accumulators', 'Deserialize::Accum, deserialize_field, finish'), ('generated code', 'des_unary!, fourleaf_retrofit!')]),
 ('D07', 'Limits on collected items and copied bytes bind and only bind there',
  'A document is refused for its size exactly when the collection items in it, or the bytes copied out of blobs, summed over the whole value, exceed the configured limit; every kind of collection, map and set of unknown fields counts each item once, and data that is not collected or copied does not count. No limit value makes decoding overflow, including where a nested part of the value is decoded with limits of its own.',
  'inputs configurations', 'all 64-bit limits, all documents of a few elements',
  'the tests set two limits on one document each',
  'src/de.rs src/unknown.rs', [('accounting', 'Context::collect, Context::blob'), ('uses', 'collection impls, read_blob, UnknownFields')]),
 ('D08', 'The recursion limit bounds nesting exactly',
  'Decoding is refused with the recursion error exactly when nested values go deeper than the configured limit, for every type, including recursive structures, nested collections, delegating types and kept unknown fields; below the limit nesting never matters.',
  'inputs configurations', 'all 64-bit limits, all documents of a few elements, all types',
  'one test exceeds the limit with one type',
  'src/de.rs src/sugar.rs src/unknown.rs', [('depth', 'Context::push, push_tag'), ('uses', 'every field loop')]),
 ('D09', 'Unknown fields are skipped whole or refused, as configured',
  'With unknown fields ignored, a document with additional fields of any type and depth decodes to exactly what it would without them. With unknown fields refused, a document decodes exactly if it has none, and otherwise the error names tag and position of the first.',
  'inputs configurations', 'all documents of a few elements, known and unknown tags mixed',
  'the tests have one unknown integer field',
  'src/de.rs src/sugar.rs src/stream.rs', [('decision', 'Context::unknown_field'), ('skipping', 'Field::skip')]),
 ('D10', 'Borrowed values are the input, and owned ones are the same',
  'Decoding without copying gives the same values and the same errors as decoding with copying, except that borrowed data does not count towards the limit on copied bytes. Every borrowed slice, text or kept unknown field is part of the input buffer itself; what is declared to be copied is copied and counted.',
  'inputs configurations', 'every short byte string and document, twelve combinations of borrowed and owned types, several limits',
  'the tests decode about ten documents in this way and never compare addresses',
  'src/de.rs src/adapt.rs src/unknown.rs src/stream.rs', [('borrowing', 'Deserialize<R, style::ZeroCopy>, Blob::ext_slice'), ('forced copies', 'adapt::Copied')]),
 ('D11', 'Decoded scalars are valid or the document is refused',
  'Strings decode exactly if their bytes are UTF-8 and are then those bytes; characters exactly if the number is a Unicode scalar value; integers, booleans and unit-like values exactly if the number fits, whatever 64-bit number is stored. Nothing is truncated, wrapped or replaced.',
  'inputs', 'every 64-bit number and every short byte string, for every scalar type',
  'the tests try one invalid string and some six numbers out of range',
  'src/de.rs src/stream.rs', [('conversions', 'Deserialize for char, str, String and the integer types'), ('range checks', 'Value::to_*')]),
 ('D12', 'Old software can edit new documents without losing anything',
  'A program that knows only some fields and variants of a type, and keeps unknown ones, can read a document written by a newer program, change what it knows and write it back; the newer program then finds exactly its own value with only that change.',
  'inputs histories', 'all values of the newer type, all edits',
  'one test does this with one document',
  'src/unknown.rs src/sugar.rs', [('kept fields and variants', '(?) and (=) fields in fourleaf_retrofit!'), ('UnknownFields', 'unknown.rs')]),
 ('D13', 'Enum variants are told apart by their whole discriminant',
  'A discriminant selects exactly the variant it is assigned to, with no two 64-bit discriminants confused. An unassigned one is reported with its value, or goes with its fields to the catch-all variant if there is one. Each variant decodes by its own definition.',
  'inputs', 'all 64-bit discriminants, all bodies of a few elements',
  'the tests try three unknown discriminants',
  'src/sugar.rs src/de.rs src/unknown.rs', [('variant dispatch', 'fourleaf_retrofit! enum'), ('UnknownField::Enum', 'unknown.rs')]),
 ('D14', 'Documented changes of a type keep old documents readable',
  'The changes documented as compatible are: widening and narrowing integers, making a field optional, repeated or single, changing the collection, strings to bytes and back, maps to lists of pairs, boxing, adding and deleting fields and variants. After each, every old document decodes to the corresponding new value, or to an error exactly if it is not representable.',
  'inputs', 'all old values (up to two items per collection), 38 changes of type',
  'the tests cover none of these changes systematically',
  'src/de.rs src/ser.rs src/sugar.rs', [('equal representations', 'ser.rs, de.rs'), ('tolerant fields', 'Deserialize::finish')]),
 ('D15', 'Values written one after the other read back one by one',
  'Any values serialised one after the other to one writer or stream can be deserialised one after the other from one stream, or by separate calls on one reader; each call consumes exactly its value, whatever its type and however the reader splits the data.',
  'inputs schedules', 'all small values of seven types, all ways of splitting reads',
  'two tests read two fixed values in a row',
  'src/de.rs src/ser.rs', [('entry points', 'from_reader, from_stream_copy, to_writer, to_stream')]),
 ('D16', 'Decoding from a reader equals decoding from memory',
  'Decoding from a reader that splits its data in any way or is interrupted gives the same value or error as from a slice, and consumes no byte behind the value. If the reader fails, decoding reports that failure unless it was complete or already wrong before.',
  'inputs schedules fault_sequences', 'all short documents and byte strings, all partial reads, failure at any byte',
  'one test decodes one value from a cursor',
  'src/de.rs src/stream.rs', [('reading blobs', 'deserialisation of Vec<u8>, String, arrays'), ('from_reader', 'de.rs')]),
 ('D17', 'Standard-library types survive serialisation and reject bad values',
  'IP and socket addresses, durations and results serialise to exactly the documented representation, in network byte order, and deserialise to an equal value in every kind of context. Documents that are not a valid value of the type (wrong lengths, nanoseconds out of range, ports out of range, missing parts) are refused without panic.',
  'inputs configurations', 'every address, port, flow label, scope and duration; all short documents',
  'the tests have one value of each type',
  'src/retrofit.rs src/sugar.rs', [('definitions', 'retrofit.rs')]),
 ('D18', 'Errors say where they happened',
  'The text of a deserialisation error names every enclosing field from the outside in, each with the position of its descriptor (or of the end of the structure for a missing one); for unknown fields also their tag and position.',
  'inputs', 'all documents of a few elements that are refused',
  'one test looks at one location',
  'src/de.rs src/sugar.rs', [('Display for Context', 'de.rs'), ('push with name and position', 'Context::push, push_tag')]),
 ('D19', 'Wrappers are transparent',
  'A value behind a box, reference counter, cow, forced-copy adapter or delegating type has exactly the representation of the value itself, in every kind of context, and decodes from exactly the same documents to the same value or error; only delegating types count one level of recursion.',
  'inputs configurations', 'all small values, all short documents, all recursion limits',
  'the tests round-trip one boxed value',
  'src/ser.rs src/de.rs src/adapt.rs src/sugar.rs', [('forwarding impls', 'ser.rs, de.rs'), ('delegation', '(*) fields')]),
 ('D20', 'Serialising to a sink is all or an error',
  'Serialising to a writer that accepts data piecemeal or is interrupted delivers exactly the same bytes as serialising to memory. If the writer fails, its error is returned, what it received is a prefix of the right bytes, and success is never reported.',
  'inputs schedules fault_sequences', 'all small values of six types, all patterns of acceptance and failure',
  'all tests write to memory',
  'src/ser.rs src/stream.rs', [('to_writer', 'ser.rs'), ('complete writes', 'stream.rs')]),
 ('D21', 'A declared length alone never makes the reader allocate',
  'Whatever length a blob, string or exception message in the input claims to have, reading it - as a value of any type, as a field that is ignored or refused, or through the bounded read functions of the stream - allocates no more memory than the configured limits and the data actually present account for; lengths beyond the limit are refused before any memory is reserved for them.',
  'inputs configurations', 'all 64-bit lengths, all limits up to 255, every supported kind of type',
  'the tests check that large blobs are refused, not what is allocated on the way',
  'src/de.rs src/stream.rs', [('limits before allocation', 'Blob::read_fully, read_or_trunc'), ('copied strings and byte vectors', 'Deserialize for String, ByteVec'), ('skipped fields', 'Field::skip')]),
 ('D22', 'Typed values fit anywhere in a stream that is handled by hand',
  'A value of any type written as a field, as a single element, or as the body of a structure or enum, under any tag, between other fields of a stream written by hand, is represented by exactly the documented elements and reads back as that value; the neighbouring fields are unaffected. Decoding a field or the inside of one in the middle of a stream read by hand gives exactly the answer defined for what it contains, never consumes elements beyond it, and leaves stream position, depth and end-of-document state so that reading continues right behind it, whatever position the stream started from.',
  'inputs histories', 'all small values, tags, and nearly valid contents of each supported kind of type, at any place',
  'all tests serialise and decode whole documents',
  'src/ser.rs src/de.rs src/sugar.rs src/stream.rs', [('contexts', 'Serialize::serialize_body/field/element, Deserialize::deserialize_body/field/element, finish'), ('entry points', 'to_stream, from_stream_copy, Context::top'), ('nesting', 'Stream::next_field, Field::skip, Value::to_struct, to_enum')]),
]
NA = {}
