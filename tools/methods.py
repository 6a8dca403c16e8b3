"""Per property: what the harness drives and what it is compared with."""
M = {
 'W01': 'encode_u64/encode_i64 on a symbolic value, then decode from the output followed by two symbolic bytes; compared with the value and with a reference encoder (length included).',
 'W02': 'decode_u64 on symbolic bytes against an independent evaluation of the base-128 number in wider arithmetic; runs of continuation bytes place the symbolic part around both limits (64 bits, 257 bytes).',
 'W03': 'encode_fixed_u64, length and decoded value.',
 'W04': 'both directions of ZigZag and of the descriptor mapping against arithmetic definitions.',
 'S01': 'next_element over symbolic bytes, and over symbolic well-shaped elements, against `model.rs` after every element (value, tag, blob bounds, field position and depth, stream position, end flag), in both end-of-input modes; `s01_after`: any calls, also after errors.',
 'S02': 'the same with a symbolic 64-bit start position, and with reset_pos to a symbolic position after any element.',
 'S03': 'symbolic blob content; any sequence of read / fill_buf+consume / read_or_trunc / read_fully / seek with symbolic amounts against a cursor over the content, the handle\'s bookkeeping after each, then the following elements against `model.rs`.',
 'S04': 'symbolic bytes through seven transports (slice, owned, cursor, partial+interrupted reader, seekable, small buffered readers), every blob consumed to any extent, against `model.rs`.',
 'S05': 'symbolic elements cut at every byte, both modes, against `model.rs`; two documents around an end marker, with clear_eof in between.',
 'S06': 'symbolic nesting, any subset of fields skipped, skip_up to a symbolic depth, against skipping in `model.rs`.',
 'S07': 'symbolic message bytes at both ends and around byte 256, complete or cut off; through slices, plain and partial readers; message compared with the lossy conversion of the first 256 bytes, then parsing must go on behind it.',
 'S08': 'relational: the same symbolic document with and without padding, compared field by field.',
 'S09': 'reading and writing at a symbolic 64-bit position: never wraps, equals start plus bytes transferred, errors only near the limit.',
 'S10': 'a device of symbolic size, a blob of symbolic 64-bit length, seeks of symbolic kind and amount: success exactly inside, device and handle agree; writes limited to what is left.',
 'S11': 'symbolic declared length against the bytes present, for every way of consuming; and a 64-bit declared length against a seekable device of 64-bit symbolic size.',
 'S12': 'every Value conversion on a symbolic integer and every accessor on every descriptor against range definitions.',
 'S13': 'the device fails at any read with any kind of error (symbolic); everything reported before equals `model.rs`, the failure keeps its kind.',
 'S14': 'after every commit the device position is compared with the model; repositioning to any boundary re-reads the same elements.',
 'S15': 'blob with a symbolic part of it present, handle moved by reads and seeks; slice contents and address, position, later reads and elements against the document; writes through slice_mut against an edited copy.',
 'S16': 'symbolic document read with the device moved by hand to any boundary met, blobs read partly past the stream; elements, positions and depths against the model; writes in the same way against independently built bytes.',
 'T01': 'any sequence of write operations against bytes built independently; output read back; signed and narrow writers against ZigZag definitions.',
 'T02': 'blobs of symbolic 64-bit length filled partly, then two further operations of any kind: each refused with the exact number missing and nothing written.',
 'T03': 'dynamic blobs filled by writes and seeks, on an empty device or in the middle of existing data, then any next operation: exact bytes, device position, data behind untouched.',
 'T04': 'symbolic position and blob state; pad_to_align against the arithmetic minimum.',
 'T05': 'symbolic documents copied by write_element/write_field; output against canonical re-encoding by the model; partly read blobs must not be left looking complete.',
 'T06': 'any pattern of partial acceptance, interruption and failure (any kind); output compared with the ideal output or required to be its prefix.',
 'T07': 'symbolic document edited while it is read; after each operation position and data against a copy edited by the harness, the following elements against the model, at the end the whole device against the copy.',
 'A01': 'all views of a cursor at a symbolic 64-bit position against slicing of the buffer.',
 'D01': '`d_rt`: symbolic value, bytes against `enc`, all serialisation entry points equal, strict decoding gives the value; `d_arr` for every array length, with any two items (bytes one by one or at once) of a repeated array.',
 'D02': '`d_rt` for collections, options, maps, tuples in body, field and element context; `d_arr` for every array length plus one item too few or many.',
 'D03': '`d_rt` for structures and enums defined by the macro, with symbolic discriminants for kept variants; also as what a structure or variant delegates to.',
 'D04': '`d_bytes`: symbolic bytes decoded as each type, up to three times from one stream, against `Cx::body`; value, error kind, stream position, depth, end flag.',
 'D05': 'symbolic bytes and documents decoded as UnknownFields, re-serialised, re-read by `model.rs` and compared element by element with the input.',
 'D06': '`d_docs`: any document over the known tags with any repetition, against the occurrence rules of `Cx`; `d_near` with two items per collection.',
 'D07': 'the same with symbolic 64-bit limits; `d_context`: any interleaving of collect(n)/blob(n)/push with symbolic n and limits.',
 'D08': 'the same with a symbolic recursion limit.',
 'D09': '`d_docs` lenient and strict; `d_fields`: a known document with unknown fields inserted anywhere must decode to the same value.',
 'D10': 'borrowing types on symbolic bytes and documents against `Cx` with borrowing; addresses of borrowed parts must lie in the input; from_slice_borrow equals from_stream_borrow.',
 'D11': 'each scalar type on any 64-bit integer, any byte string.',
 'D12': 'symbolic value of the newer type, read by the older type, edited symbolically, written, read by the newer type; compared with the edited value.',
 'D13': 'symbolic 64-bit discriminants, enums with and without catch-all, variants whose discriminants share their low 32 bits.',
 'D14': '38 pairs of types: symbolic old value serialised, decoded as the new type, compared with the documented mapping or required to be refused.',
 'D15': 'three values back to back through one stream, or separate from_reader calls on a partial reader; each value and the final position compared.',
 'D16': '`d_reader`: partial and interrupted reads, against `Cx`; `d_fault`: failure at any read with any kind, reported unless the outcome was already determined.',
 'D17': '`d_rt` and `d_docs` for std types; `d_dur` with symbolic 64-bit seconds and nanoseconds in either order.',
 'D18': 'the text of the error of every refused document, searched for the field names and positions the oracle computes, outermost first.',
 'D19': '`d_rt`, `d_docs`, `d_depth` for wrapped types (including wrapped collections as elements); `d_refs` for references and unsized values.',
 'D20': 'symbolic value into a sink with any acceptance pattern and any failure; prefix or all.',
 'D21': 'symbolic declared length; every allocation of the library runs under a limit (`sym_heap`): the engine asks the solver whether the size can exceed what is left, a counterexample is replayed under a counting allocator; results against the oracle as in D04.',
 'D22': '`d_elem`: symbolic value written under a symbolic tag between two integers, bytes against `enc_field`/`enc_elem`/`enc_body`, read back by hand with the matching entry point; `d_inside`: nearly valid content under one field of a document read element by element, the value against `Cx`, everything around it, position and depth against `model.rs`.',
}
