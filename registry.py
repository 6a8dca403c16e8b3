"""What each check runs: harness modules, engine jobs per tier, required
reachability witnesses, and the bounds they amount to."""

ASSUMPTIONS = [
    'target x86_64-unknown-linux-gnu, 64-bit usize; code compiled by the installed stable rustc (debug profile, opt-level 1, overflow and debug assertions on, panic=abort)',
    'memory allocation succeeds',
    'z3 and the LLVM IR produced by rustc are trusted; the interpreter is cross-checked by replaying sampled paths natively on every run',
]

CHECKS = {}


def prop(pid, mod, quick, bounds, thorough=None, covers=None, **kw):
    CHECKS[pid] = dict(mod=mod.split(','), quick=quick.split(), thorough=thorough.split() if thorough else None,
                       bounds=bounds, covers=covers or {}, **kw)


def seq(name, lo, hi):
    return ' '.join('%s:%d' % (name, i) for i in range(lo, hi + 1))


prop('W01', 'wire', 'w01_unsigned w01_signed',
     'all 2^64 values, unsigned and signed; two arbitrary trailing bytes',
     covers={'w01_unsigned': [1, 5, 9, 10]})
prop('W02', 'wire', seq('w02_bytes', 0, 12) + ' w02_long:8,0 w02_long:20,3 w02_long:250,0 w02_long:251,0 w02_long:253,2 w02_long:249,3',
     'every byte string of 0..12 bytes; 2+n+2+m+2 bytes with n,m runs of 0x80 placing the arbitrary bytes around the 64-bit and the 257-byte limits',
     thorough=seq('w02_bytes', 0, 16) + ' ' + ' '.join('w02_long:%d,%d' % (a, b) for a in range(244, 256) for b in range(0, 5)),
     covers={'w02_bytes': [1, 2, 4], 'w02_long': [1, 2, 3, 4]})
prop('W03', 'wire', 'w03_fixed', 'all 2^64 values')
prop('W04', 'wire', 'w04_zigzag w04_desc', 'all 2^64 values and all 256 descriptor bytes', covers={'w04_desc': [1, 2]})

ELEM = ('sequences of k elements, each of any of the 256 descriptors, one-byte integers and discriminants, '
        'blobs and (ASCII) messages of 0..3 arbitrary bytes')

prop('S01', 'parse', seq('s01_bytes', 0, 4) + ' s01_elems:3',
     'every byte string of 0..4 (thorough: 6) bytes, both end-of-file modes, element API over a slice; ' + ELEM + ', k=3 (thorough: 4)',
     thorough=seq('s01_bytes', 0, 6) + ' s01_elems:4', covers={'s01_bytes': [1, 2], 's01_elems': [1, 2]})
prop('S02', 'blob', 's02_base:2 s02_reset:2',
     ELEM + ', k=2 (thorough: 3); every 64-bit starting offset up to 2^64-10001; reset_pos at any element boundary to any such position',
     thorough='s02_base:3 s02_reset:3', covers={'s02_base': [1], 's02_reset': [1]})
prop('S03', 'blob', 's03_blob:2,2,0,0 s03_blob:3,1,1,1 s03_blob:2,2,2,0 s03_blob:3,1,3,0 s03_blob:3,1,0,1',
     'blobs and exception bodies of 2..3 arbitrary bytes; 1..2 (thorough: 3) operations out of read, fill_buf+consume, read_or_trunc, read_fully, and seeks by any 64-bit amount; '
     'slice, non-seeking, and buffered seeking input; followed by three more elements',
     thorough='s03_blob:2,2,0,0 s03_blob:3,2,1,1 s03_blob:2,2,2,0 s03_blob:3,2,3,0 s03_blob:3,2,0,1 s03_blob:2,3,1,0',
     covers={'s03_blob': [1, 2, 3]})
prop('S04', 'parse', ' '.join('s04_transport:%d,%d' % (4 if i < 5 else 3, i) for i in range(7)),
     'every byte string of 4 bytes (3 for the buffered readers; thorough: 5 and 4) through a slice, seeking cursor, a reader returning any partial amounts and interruptions, '
     'a seekable reader, an owned buffer, and buffered readers with 2- and 3-byte buffers; every blob consumed to any extent',
     thorough=' '.join('s04_transport:%d,%d' % (5 if i < 5 and i != 2 else 4, i) for i in range(7)))
prop('S05', 'parse', 's05_eof:2 s05_resume:1,2', ELEM + ', k=2 (thorough: 3), cut off at any byte; 1+2 (thorough: 2+2) elements around an explicit end of document',
     thorough='s05_eof:3 s05_resume:2,2', covers={'s05_eof': [1, 2, 3], 's05_resume': [1]})
prop('S06', 'parse', 's06_skip:4 s06_skipup:4', ELEM + ', k=4 (thorough: 5), any subset of fields skipped; skip_up to any depth from any element',
     thorough='s06_skip:5 s06_skipup:5', covers={'s06_skip': [1, 2], 's06_skipup': [1, 2]})
prop('S07', 'parse', 's07_exception:3,0 s07_exception:256,0 s07_exception:300,0 s07_exception:300,1',
     'messages of 3, 256 and 300 bytes with arbitrary bytes at the ends and around byte 256, ASCII in between; complete or cut off; inside and outside a struct; seekable and not',
     thorough=seq('s07_exception', 0, 4).replace(' ', ',0 ') + ',0 ' + ' '.join('s07_exception:%d,%d' % (n, c) for n in (255, 256, 257, 300) for c in (0, 1, 2)),
     covers={'s07_exception': [1, 2, 3]})
prop('S08', 'parse', 's08_padding:2', ELEM + ', k=2 (thorough: 3), with 0..2 padding bytes before each and 0..1 at the end',
     thorough='s08_padding:3', covers={'s08_padding': [1]})
prop('S09', 'blob,write', 's09_read:3 s09_write:2 t03_limit',
     'every byte string of 3 (thorough: 4) bytes and every sequence of 2 (thorough: 3) writes, and the start of a blob of unknown length, at every 64-bit starting offset',
     thorough='s09_read:4 s09_write:3 t03_limit', covers={'s09_read': [1, 2], 's09_write': [1, 2]})
prop('S10', 'blob', 's10_seek:1,0 s10_write:3,3 s03_blob:3,1,0,1 s11_far:1,0 s11_far:3,0',
     'blobs of every 64-bit length, 1 (thorough: 2) seeks of every kind by every 64-bit amount; writes and seeks (3 operations) in an allocated blob of 3 bytes; reads as in S03; leaving a blob of any length as in S11',
     thorough='s10_seek:1,0 s10_seek:2,0 s10_seek:1,1 s10_write:2,3 s10_write:3,4 s03_blob:3,2,0,1 s11_far:1,0 s11_far:2,0 s11_far:3,0',
     covers={'s10_seek': [1, 2, 3], 's10_write': [1]})
prop('S11', 'parse,blob', ' '.join('s11_trunc:%d,%d' % (h, a) for h in (0, 1, 3) for a in range(7)) + ' s11_far:0,0 s11_far:1,0 s11_far:3,0',
     'every declared length up to 14 bits against 0, 1 or 3 bytes present; four kinds of transport; seven ways of consuming the blob (ignore, read, read_fully, skip, slice, ...); '
     'every declared 64-bit length (of nonzero 7-bit groups) against every 64-bit size of a seekable input, after reading none or one byte or seeking to the end (thorough: near either end)',
     thorough=' '.join('s11_trunc:%d,%d' % (h, a) for h in (0, 1, 2, 3, 4) for a in range(7)) + ' ' + ' '.join('s11_far:%d,0' % i for i in range(4)),
     covers={'s11_trunc': [1], 's11_far': [1, 2]})
prop('S13', 'parse', 's13_fault:2', ELEM + ', k=2 (thorough: 3); the device fails at any point with any kind of error',
     thorough='s13_fault:3', covers={'s13_fault': [1, 2, 3]})
prop('S14', 'blob', 's14_seek:2', ELEM + ', k=2 (thorough: 3); the device cursor position is compared after every commit',
     thorough='s14_seek:3', covers={'s14_seek': [1]})

prop('S15', 'edit', ' '.join('s15_slice:3,%d' % i for i in range(6)) + ' s15_mut:3',
     'a blob or exception of 3 (thorough: 4) declared bytes of which any number is there, between two fields; in-memory inputs of six kinds; read on, seeked back, sliced at two positions, overwritten with any bytes',
     thorough=' '.join('s15_slice:4,%d' % i for i in range(6)) + ' s15_mut:4', covers={'s15_slice': [1, 2, 3], 's15_mut': [1, 2, 3]})
prop('S16', 'edit', 's16_read:2,1 s16_write:3',
     ELEM + ', k=2 (thorough: 3), one (thorough: two) moves of the device to any element boundary met so far, any part of each blob read past the stream, starting position 0, 2^40 or near the maximum; '
     'three (thorough: four) writes, each blob of 3 bytes written in part past the stream',
     thorough='s16_read:2,2 s16_read:3,1 s16_write:4', covers={'s16_read': [1, 2], 's16_write': [1]})

prop('T01', 'write', 't01_ops:1,1 t01_ops:3,0 t01_roundtrip:0 t01_roundtrip:1 t01_roundtrip:2 ' + seq('t01_signed', 0, 10),
     'every sequence of 3 write operations with 7-bit values, and single operations with every 64-bit value (thorough: 2); all tags; every signed and unsigned width',
     thorough='t01_ops:2,1 t01_ops:4,0 t01_roundtrip:0 t01_roundtrip:1 t01_roundtrip:2 ' + seq('t01_signed', 0, 10),
     covers={'t01_ops': [1], 't01_signed': [1]})
prop('T02', 'write', 't02_incomplete t02_overlong', 'allocated blobs of 0..3 bytes followed by every write operation', covers={'t02_incomplete': [1, 2], 't02_overlong': [1, 2]})
prop('T03', 'write', 't03_dynamic:2 t03_limit', 'blobs of unknown length, 2 (thorough: 3) operations; every starting position',
     thorough='t03_dynamic:3 t03_limit', covers={'t03_dynamic': [1], 't03_limit': [1, 2]})
prop('T04', 'write', seq('t04_align', 0, 4), 'alignments 1..16 (thorough: 64) at every starting offset, with no, a finished or an unfinished blob before',
     thorough=seq('t04_align', 0, 6), covers={'t04_align': [0, 1, 3]})
prop('T05', 'write', 't05_copy:2 t05_copy:0,4 t05_partial', ELEM + ', k=2 (thorough: 3), and every byte string of 4 (thorough: 5) bytes, copied element by element',
     thorough='t05_copy:3 t05_copy:0,5 t05_partial', covers={'t05_copy': [1, 2], 't05_partial': [1]})
prop('T06', 'write', 't06_short:2,2,0 t06_fault:2', 'sequences of 2 (thorough: 3) writes; device accepting any part of what it is offered, interrupting once, or failing at any byte',
     thorough='t06_short:3,2,0 t06_fault:3', covers={'t06_short': [1], 't06_fault': [0, 1]})
prop('S12', 'write', seq('s12_ints', 0, 11) + ' s12_types', 'all 2^64 values, every conversion; all descriptors with a tag, every accessor', covers={'s12_ints': [1, 2, 3, 4]})
prop('T07', 'edit', 't07_blob:1,3,0 t07_blob:1,2,1 t07_blob:1,2,2 t07_blob:2,1,0 t07_blob:2,1,1 t07_field:2',
     ELEM + ', k=1..2 (thorough: 2..3); 1..3 writes, reads and seeks in each blob, of any bytes, and reading on from anywhere in it; one field at any place overwritten; three kinds of device',
     thorough='t07_blob:2,2,0 t07_blob:2,2,1 t07_blob:2,2,2 t07_blob:1,3,0 t07_blob:1,3,1 t07_field:3', covers={'t07_blob': [1], 't07_field': [1]})
prop('A01', 'write', seq('a01_cursor', 0, 3), 'buffers of 0..3 bytes, every 64-bit cursor position', covers={'a01_cursor': [1, 2]})

# ---- the typed layer --------------------------------------------------------

# type numbers (harness/src/schema.rs, pick_owned) by group
GROUPS = {'ga': range(0, 20), 'gb': range(20, 39), 'gt': range(40, 58), 'gw': list(range(60, 72)) + list(range(100, 110)), 'gk': range(72, 76),
          'gs': range(80, 90), 'gu': range(90, 100)}


LENS = list(range(33)) + [64, 128, 256]


def over(name, types, rest):
    return ' '.join('%s:%d,%s' % (name, i, rest) for i in types)


def types(*groups, without=()):
    return [i for g in groups for i in GROUPS[g] if i not in without]


def short(*groups, without=()):
    """Without the tuples that differ in length only."""
    return types(*groups, without=tuple(range(46, 55)) + tuple(without))


DOCS = ('documents of k elements (all descriptors over the tags the type knows and one it does not; known discriminants and an unknown one; one-byte integers; '
        'blobs of 0..1 arbitrary bytes) followed by end-of-struct markers')
ANY3 = 'every byte string of 3 (thorough: 4) bytes'

prop('D01', 'ser,ga,arr8', over('d_rt', types('ga'), '1,0') + ' ' + over('d_rt', types('ga'), '1,1') + ' ' + over('d_rt', types('ga'), '1,2') + ' ' + over('d_arr', LENS + [512, 1024], '1'),
     'every value of every integer type, bool, char, unit, and of strings and byte vectors of up to 1 (thorough: 2) bytes and byte arrays of 0, 4, 32, 64; as a body, a field, a collection element' + '; byte arrays of every supported length',
     thorough=' '.join(over('d_rt', types('ga'), '2,%d' % c) for c in range(3)) + ' ' + over('d_arr', LENS + [512, 1024], '1'), covers={'d_arr': [1], 'd_rt': [1]})
prop('D02', 'ser,gb,gt,arr16', ' '.join(over('d_rt', short('gb', 'gt'), '%d,%d' % (n, c)) for n, c in ((2, 0), (1, 1), (1, 2))) + ' ' + over('d_rt', range(46, 58), '1,0') + ' ' + over('d_arr', LENS, '0'),
     'options, vectors, arrays, lists, sets, heaps and maps of up to 2 items with any values (nested: up to 2 each), tuples of 1 to 16; in each context' + '; arrays of every supported length, and with one item more or less',
     thorough=' '.join(over('d_rt', types('gb', 'gt'), '2,%d' % c) for c in range(3)) + ' ' + over('d_arr', LENS, '0'), covers={'d_arr': [1], 'd_rt': [1]})
prop('D03', 'ser,gk,gu', over('d_rt', (72, 73, 74, 75, 90, 91, 92, 94, 95, 96, 97, 98, 99), '1,0') + ' ' + over('d_rt', (73, 90, 91, 92, 94, 95, 98, 99), '1,1') + ' ' + over('d_rt', (73, 90, 91, 92, 98, 99), '1,2'),
     'user-defined structures and enums (plain, recursive, delegating, with unknown fields and variants kept) with up to 1 item per collection',
     thorough=' '.join(over('d_rt', types('gk', 'gu', without=(72, 93)), '1,%d' % c) for c in range(3)) + ' ' + over('d_rt', (72, 73, 90, 92), '2,0'), covers={'d_rt': [1]})
prop('D04', 'de,ga,gb,gt,gw,gk,gs,gu', over('d_bytes', short(*GROUPS), '3,3'),
     ANY3 + ', unknown fields ignored or not, decoded as each of 91 types, up to three times from one stream',
     thorough=over('d_bytes', short(*GROUPS), '4,2'), covers={'d_bytes': [1, 2]})
prop('D05', 'typed', 'd_keep:0,4 d_keep:1,3',
     'every byte string of 4 (thorough: 5) bytes; ' + DOCS + ', k=3 (thorough: 4)',
     thorough='d_keep:0,5 d_keep:1,4', covers={'d_keep': [1]})
prop('D06', 'de,gb,gt,gu', over('d_docs', short('gb', 'gt', 'gu'), '2,2') + ' ' + over('d_docs', short('gb', 'gt', 'gu'), '3,0'),
     DOCS + ', k=2 with markers, k=3 (thorough: 4)',
     thorough=over('d_docs', types('gb', 'gt', 'gu'), '3,2') + ' ' + over('d_docs', short('gb', 'gt', 'gu'), '4,0'), covers={'d_docs': [1, 2]})
prop('D07', 'de,ga,gb,gk,gs,gu,misc', over('d_limits', short('ga', 'gb', 'gk', 'gs', 'gu'), '2,0') + ' ' + over('d_limits', (14, 15, 22, 25, 34, 38, 72, 73, 75, 90, 92, 94), '3,0') + ' ' + 'd_context:2',
     'every 64-bit limit on collection items and copied bytes; ' + DOCS + ', k=2, k=3 for some types (thorough: for all)' + '; two (thorough: three) uses of either limit at any depth, limits and amounts within 255 of 0 or of the maximum',
     thorough=over('d_limits', types('ga', 'gb', 'gk', 'gs', 'gu'), '3,0') + ' ' + 'd_context:3', covers={'d_context': [1, 2, 3, 4, 5, 6], 'd_limits': [1, 2]})
prop('D08', 'de,ga,gb,gt,gw,gk,gs,gu,misc', over('d_depth', short(*GROUPS), '2,0') + ' ' + over('d_depth', (24, 37, 68, 72, 75, 91, 92), '3,0') + ' ' + 'd_context:2',
     'every 64-bit recursion limit; ' + DOCS + ', k=2, k=3 for some types (thorough: for all)' + '; two (thorough: three) nested or sequential uses of a context, recursion limit within 255 of 0 or of the maximum',
     thorough=over('d_depth', types(*GROUPS), '3,0') + ' ' + 'd_context:3', covers={'d_context': [1, 2, 3, 4, 5, 6], 'd_depth': [1, 2]})
prop('D09', 'de,typed,ga,gu', over('d_docs', types('ga'), '2,2') + ' ' + over('d_docs', (90, 91, 92, 98, 99), '3,0') + ' d_fields:1,0 d_fields:1,1 d_fields:1,2',
     DOCS + ', k=2 with markers, k=3 (thorough: also all k=3) for structures and enums, read leniently and strictly',
     thorough=over('d_docs', types('ga', 'gu'), '3,0') + ' d_fields:2,0 d_fields:1,1 d_fields:2,2', covers={'d_docs': [1, 2], 'd_fields': [1, 2]})
prop('D10', 'typed', ' '.join('d_borrow:%d,0,4,0,9 d_borrow:%d,1,2,0,9' % (i, i) for i in range(12)) + ' ' + ' '.join('d_borrow:%d,1,2,0,1' % i for i in range(12)),
     'every byte string of 4 (thorough: 5) bytes, ' + DOCS + ', k=2 (thorough: 3), decoded as each of 12 borrowing types, with a limit on copied bytes of 9 and 1',
     thorough=' '.join('d_borrow:%d,0,5,0,9 d_borrow:%d,1,3,0,1' % (i, i) for i in range(12)), covers={'d_borrow': [1, 2]})
prop('D11', 'de,ga', over('d_docs', types('ga'), '1,1') + ' ' + over('d_bytes', (14, 15), '5,1'),
     'one element of each kind holding any 64-bit integer or one byte, as each scalar type; every byte string of 5 (thorough: 6) bytes as a string',
     thorough=over('d_docs', types('ga'), '1,3') + ' ' + over('d_bytes', (14, 15), '6,1'), covers={'d_docs': [1, 2], 'd_bytes': [1, 2]})
prop('D12', 'typed', 'd_edit:1', 'every value of a structure with a flag, list, option, sub-structure and an enum of four variants, edited to any value by a reader that knows two of its fields; up to 1 (thorough: 2) items per collection',
     thorough='d_edit:2', covers={'d_edit': [1]})
prop('D13', 'de,typed,gu', 'd_variants:0 d_variants:1 ' + over('d_docs', (91, 95, 97, 99), '3,0') + ' ' + over('d_docs', (91, 95, 97, 99), '1,1'),
     'every value of two versions of an enum; ' + DOCS + ', k=3 (thorough: 4), and any 64-bit discriminant known or not',
     thorough='d_variants:0 d_variants:1 ' + over('d_docs', (91, 95, 97, 99), '4,0'), covers={'d_variants': [1, 2], 'd_docs': [1, 2]})
prop('D14', 'typed', seq('d_evolve', 0, 37).replace(' ', ',2 ') + ',2 d_evolve:33,4 d_evolve:32,3',
     '38 changes of a field\'s type, every old value (collections and strings of up to 2 items; thorough: 3)',
     thorough=seq('d_evolve', 0, 37).replace(' ', ',3 ') + ',3 d_evolve:33,4', covers={'d_evolve': [1, 2]})
prop('D15', 'typed', ' '.join('d_seq:%d,1,%d' % (i, m) for i in range(7) for m in (0, 1) if (i, m) != (2, 1)),
     'three values of seven types (up to 1 item per collection), read back one by one from a slice and through a reader returning any partial amounts and an interruption',
     thorough=' '.join('d_seq:%d,1,%d' % (i, m) for i in range(7) for m in (0, 1)), covers={'d_seq': [1]})
prop('D16', 'typed', ' '.join('d_reader:%d,1,2 d_reader:%d,0,3' % (i, i) for i in range(7)) + ' ' + ' '.join('d_fault:%d,2,4,0' % i for i in range(6)),
     DOCS + ', k=2 (thorough: 3), and every byte string of 3 (thorough: 4) bytes, through a reader returning any partial amounts and an interruption, or failing at any of the first bytes with any kind of error',
     thorough=' '.join('d_reader:%d,1,3 d_reader:%d,0,4' % (i, i) for i in range(7)) + ' ' + ' '.join('d_fault:%d,3,5,0' % i for i in range(6)), covers={'d_reader': [1, 2], 'd_fault': [1, 2]})
prop('D17', 'ser,de,gs', ' '.join(over('d_rt', types('gs'), '1,%d' % c) for c in range(3)) + ' ' + over('d_docs', types('gs'), '2,2') + ' ' + over('d_docs', (86, 87), '3,0') + ' d_dur',
     'every IP and socket address, duration, and Result of small values; ' + DOCS + ', k=2 (thorough: 3)',
     thorough=' '.join(over('d_rt', types('gs', without=(89,)), '2,%d' % c) for c in range(3)) + ' ' + over('d_docs', types('gs'), '3,0') + ' d_dur', covers={'d_rt': [1], 'd_docs': [1, 2], 'd_dur': [1, 2]})
prop('D18', 'typed,misc', 'd_text:2,0,0,0 d_text:3,0,0,1 d_text:3,0,1,0 d_text:3,0,2,0 d_tagname', DOCS + ', k=2..3 (thorough: 4), read as a structure with nested structures, one with enums, delegates and kept unknown fields, one with a map, from position 0 or one of 12 digits; every tag as a name',
     thorough='d_text:4,0,0,0 d_text:4,0,1,0 d_text:4,0,2,1 d_tagname', covers={'d_tagname': [1], 'd_text': [1, 2]})
prop('D19', 'ser,de,gw,misc', ' '.join(over('d_rt', types('gw'), '1,%d' % c) for c in range(3)) + ' ' + over('d_docs', types('gw'), '2,2') + ' ' + over('d_depth', types('gw'), '2,0') + ' ' + 'd_refs',
     'every value (up to 1 item per collection; thorough: 2) of twelve wrapped types in each context; ' + DOCS + ', k=2 (thorough: 3)' + '; references, slices and strings of up to 2 items',
     thorough=' '.join(over('d_rt', types('gw', without=(69,)), '2,%d' % c) for c in range(3)) + ' ' + over('d_docs', types('gw'), '3,0') + ' ' + over('d_depth', types('gw'), '3,0') + ' ' + 'd_refs', covers={'d_refs': [1], 'd_rt': [1], 'd_docs': [1, 2]})
prop('D20', 'typed', ' '.join('d_sink:%d,1' % i for i in range(6)),
     'every value of six types (up to 1 item per collection; thorough: 2 for three of them), into a sink accepting any part of up to 3 bytes at a time, interrupting once, and failing at any byte',
     thorough=' '.join('d_sink:%d,1' % i for i in range(6)) + ' ' + ' '.join('d_sink:%d,2' % i for i in (0, 1, 2)), covers={'d_sink': [1, 2]})
prop('D21', 'de,blob,ga,gb,gk,gs,gu', 'm_stream:0 m_stream:1 ' + over('d_memory', short('ga', 'gb', 'gk', 'gs', 'gu'), '1'),
     'a blob or exception that declares any 64-bit length, first or after one element, in a document decoded as each of 59 types with any limit up to 255 (heap limited to 16 KiB), or read by read_fully or read_or_trunc with limits of 0..9 from a device of any size (8 KiB)',
     thorough='m_stream:0 m_stream:1 ' + over('d_memory', types('ga', 'gb', 'gk', 'gs', 'gu'), '2'), covers={'d_memory': [1, 2], 'm_stream': [1, 2, 3]})

# ---- inputs of realistic size -------------------------------------------------


def more(pid, mod, quick, bounds, thorough=None, covers=None):
    c = CHECKS[pid]
    c['mod'] += [m for m in mod.split(',') if m not in c['mod']]
    c['quick'] += quick.split()
    if c['thorough']:
        c['thorough'] += (thorough or quick).split()
    c['bounds'] += '; ' + bounds
    c['covers'].update(covers or {})


def grid(name, a, b):
    return ' '.join('%s:%d,%d' % (name, x, y) for x in a for y in b)


SIZES = (1, 127, 128, 255, 256, 257, 300, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 32768, 65535, 65536, 70000)
FEW = (128, 256, 300, 8192, 9000, 70000)

more('S01', 'big', 'l_deep:300', 'an element under 300 structures', 'l_deep:300 l_deep:70000', {'l_deep': [1]})
more('S03', 'big', grid('l_blob', FEW, (0, 3)), 'blobs of up to 70,000 bytes (a few of them arbitrary) read in pieces, with limits next to their length',
     grid('l_blob', SIZES, (0, 3)), {'l_blob': [1, 2, 3]})
more('S04', 'big', grid('l_blob', FEW, range(5)), 'blobs of up to 70,000 bytes through five kinds of transport', grid('l_blob', SIZES, range(5)), {'l_blob': [1, 2, 3]})
more('S06', 'big', grid('l_blob', (300, 9000, 70000), (0, 1, 2)) + ' l_deep:300 l_deep:70000', 'blobs of up to 70,000 bytes, 70,000 structures inside each other',
     grid('l_blob', SIZES, (0, 1, 2)) + ' l_deep:300 l_deep:70000', {'l_blob': [1, 2, 3], 'l_deep': [1]})
more('S11', 'big', grid('l_trunc', FEW, range(4)), 'blobs of up to 70,000 bytes cut off at five places', grid('l_trunc', SIZES[1:], range(4)), {'l_trunc': [1]})
more('T01', 'big', ' '.join('l_write:%d' % n for n in FEW), 'blobs of up to 70,000 bytes, written at once or in pieces', ' '.join('l_write:%d' % n for n in SIZES), {'l_write': [1]})
more('T03', 'big', ' '.join('l_write:%d' % n for n in FEW), 'blobs of up to 70,000 bytes', ' '.join('l_write:%d' % n for n in SIZES), {'l_write': [1]})
more('T05', 'big', grid('l_blob', FEW, (1, 4)) + ' ' + grid('l_trunc', (300, 9000), (1,)), 'blobs of up to 70,000 bytes', grid('l_blob', SIZES, (1, 4)) + ' ' + grid('l_trunc', SIZES[1:], (1,)),
     {'l_blob': [1, 2, 3], 'l_trunc': [1]})
more('D01', 'bigt', grid('l_bytes', FEW, (0, 1, 2)), 'strings and byte vectors of up to 70,000 bytes', grid('l_bytes', SIZES, range(3)), {'l_bytes': [1, 2]})
more('D02', 'bigt', 'l_many:260,0 l_many:300,3 l_many:260,5', 'collections of up to 300 items', 'l_many:300,0 l_many:300,1 l_many:300,2 l_many:300,3 l_many:300,4 l_many:300,5 l_many:300,7', {'l_many': [1, 2]})
more('D05', 'bigt', grid('l_bytes', FEW, (3,)) + ' l_many:260,6', 'unknown blobs of up to 70,000 bytes, 260 unknown fields', grid('l_bytes', SIZES, (3,)) + ' l_many:300,6', {'l_bytes': [1, 2], 'l_many': [1, 2]})
more('D07', 'bigt', grid('l_bytes', (300, 70000), (0, 1, 3)) + ' ' + grid('l_many', (260,), (0, 3, 5, 6, 8)) + ' l_count:5,300 l_count:3,70000', 'up to 300 items or 200,000 copied bytes against any 64-bit limit',
     grid('l_bytes', SIZES, range(4)) + ' ' + grid('l_many', (300,), range(9)) + ' l_count:5,300 l_count:300,300 l_count:3,70000', {'l_bytes': [1, 2], 'l_many': [1, 2], 'l_count': [1, 2]})
more('D08', 'bigt', 'l_nest:40,0 l_nest:40,1 l_nest:300,0', 'values nested up to 300 levels deep against any 64-bit limit', 'l_nest:40,0 l_nest:40,1 l_nest:300,0 l_nest:300,1', {'l_nest': [1, 2]})
more('D09', 'bigt', 'l_fields:300', 'a structure with 300 fields in pieces', 'l_fields:300 l_fields:1000', {'l_fields': [1, 2]})
more('D16', 'bigt', grid('l_bytes', FEW, (0, 1)), 'strings of up to 70,000 bytes through a reader', grid('l_bytes', SIZES, range(4)), {'l_bytes': [1, 2]})
more('S08', 'big', 'l_pad:300', 'runs of 300 (thorough: 5000) padding bytes', 'l_pad:300 l_pad:5000', {'l_pad': [1]})
more('T04', 'big', 'l_align:8 l_align:12 l_align:16', 'alignments to 256, 4096 and 65536 at five offsets', 'l_align:8 l_align:12 l_align:16 l_align:17', {'l_align': [1]})
ONE = lambda name, a: ' '.join('%s:%d' % (name, x) for x in a)
more('S13', 'big', ONE('l_err', FEW), 'a device failing at eleven places in and around a blob of up to 70,000 bytes', ONE('l_err', SIZES[1:]), {'l_err': [1, 2]})
more('T06', 'big', ONE('l_wdev', FEW), 'a device taking at most 5000 bytes at a time and failing or full at nine places in and around a blob of up to 70,000 bytes', ONE('l_wdev', SIZES[1:]), {'l_wdev': [1, 2]})
more('D15', 'bigt', 'l_seq:300,0 l_seq:300,1', '300 values in a row, each just within the limits', 'l_seq:300,0 l_seq:300,1 l_seq:5000,0 l_seq:5000,1', {'l_seq': [1]})
more('D20', 'bigt', ONE('l_sink', FEW), 'values of up to 70,000 bytes and devices failing at nine places', ONE('l_sink', SIZES[1:]), {'l_sink': [1, 2]})
more('D16', 'bigt', ONE('l_sink', FEW), 'devices failing at nine places in a value of up to 70,000 bytes', ONE('l_sink', SIZES[1:]), {'l_sink': [1, 2]})
more('D09', 'bigt', grid('l_skip', (300,), range(5)) + ' ' + grid('l_skip', (70000,), (0, 1)), 'unknown fields of 70,000 bytes or 70,000 levels, or in 300 pieces', grid('l_skip', (300, 9000), range(5)) + ' ' + grid('l_skip', (70000,), (0, 1, 2)), {'l_skip': [1, 2]})
more('D10', 'bigt', grid('l_borrow', FEW, range(7)), 'borrowed values of up to 70,000 bytes against any 64-bit limit', grid('l_borrow', SIZES, range(7)), {'l_borrow': [1]})
more('D12', 'bigt', grid('l_old', (300,), range(4)) + ' l_old:9000,1 l_old:70000,1', 'documents with 300 unknown fields or levels, or unknown blobs of up to 70,000 bytes', grid('l_old', (300, 400), range(4)) + ' ' + grid('l_old', SIZES, (1,)), {'l_old': [1]})

LONG = 'histories of 300 (thorough: up to 2000) elements of all kinds, a few of their values arbitrary'


def long(pid, quick, thorough=None):
    names = set(j.split(':')[0] for j in quick.split())
    more(pid, 'big,long', quick, LONG, (quick + ' ' + (thorough or '')).strip(), {n: [1] for n in names})


for _i in ('S01', 'S02', 'S03', 'S07', 'S08'):
    long(_i, 'h_read:300,0 h_read:300,1', 'h_read:2000,1')
long('S04', grid('h_read', (300,), range(4)), 'h_read:2000,1 h_read:2000,3')
long('S05', 'h_docs:200 l_pad:300', 'h_docs:1000')
long('S06', 'h_read:300,0')
long('S14', 'h_seek:150', 'h_seek:1000')
for _i in ('T01', 'T02', 'T03', 'T04', 'S16'):
    long(_i, 'h_write:2000')
long('T05', 'h_copy:300', 'h_copy:2000')
long('T07', 'h_edit:300', 'h_edit:2000')

# ---- documents that are nearly a value of the type ----------------------------

NEAR = ('documents holding a value of the type (up to %s in each collection, fields in either order, map keys and set items repeated or not), changed in one place: '
        'an element taken out, put in or replaced, a field copied or moved to any other place, or the document cut off at any byte')
WIDE = (28, 51, 52, 53, 54)


def near(pid, groups, mode='0', quick=None, keep=(), without=(), n=1):
    ts = [i for i in types(*groups.split(','), without=tuple(WIDE) + tuple(without)) if not keep or i in keep]
    jobs = over('d_near', ts, '%d,127,%s,2' % (n, mode))
    deep = [i for i in ts if i not in (92, 93) and not 44 <= i <= 55]
    more(pid, 'de,' + groups, jobs, NEAR % ('1 item' if n == 1 else '2 items') + {'0': '', '1': ', with any limits on items and bytes', '2': ', with any limit on depth'}[mode],
         jobs + ' ' + over('d_near', deep, '2,63,%s,2' % mode) + ('' if mode != '0' else ' ' + over('d_near', [i for i in types(*groups.split(',')) if i in (51, 52, 53, 54)], '1,55,0,2')), {'d_near': [1, 2]})


near('D02', 'gb,gt')
near('D03', 'gk,gu')
near('D04', 'ga,gb,gt,gw,gk,gs,gu', without=range(46, 55))
near('D04', 'gb,gu', keep=(21, 25, 31, 32, 33, 34, 35, 38, 42, 91), n=2)
near('D02', 'gb', keep=(21, 25, 31, 32, 33, 34, 35, 38), n=2)
near('D06', 'gb,gu', keep=(20, 22, 26, 29, 30, 31, 32, 33, 34, 35, 36, 37), n=2)
near('D07', 'ga,gb,gk,gs,gu', '1')
near('D08', 'ga,gb,gt,gw,gk,gs,gu', '2', without=range(46, 55))
near('D09', 'ga,gu')
near('D11', 'ga')
near('D13', 'gu', keep=(91, 95, 97, 99))
near('D17', 'gs')
near('D19', 'gw')
N1 = NEAR % '1 item'
more('D05', 'de,typed', 'd_keep:8,1', N1, 'd_keep:8,1')
more('D10', 'de,typed', ' '.join('d_borrow:%d,1,1,8,9 d_borrow:%d,1,1,8,1' % (i, i) for i in range(12)), N1)
more('D16', 'de,typed', ' '.join('d_reader:%d,8,1 d_fault:%d,1,12,8' % (i, i) for i in range(6)) + ' d_reader:6,8,1', N1)
more('D18', 'de,typed', 'd_text:0,8,0,0 d_text:1,40,0,1 d_text:1,136,0,0 d_text:0,8,1,1 d_text:1,40,1,0 d_text:1,8,2,0 d_text:1,1032,0,0 d_text:1,1032,1,1 d_text:1,1032,2,0', N1, 'd_text:1,8,0,0 d_text:1,520,1,0 d_text:1,200,1,1 d_text:1,1032,1,1 d_text:1,8,2,1')
# ---- what stands in for a structure, or is all of a variant ---------------------
for _p, _t in (('D01', types('ga', without=(13,))), ('D02', short('gb', 'gt')), ('D03', (72, 73, 74, 75, 90, 91, 92, 94, 95, 96, 97, 98, 99)),
               ('D17', types('gs', without=(88,))), ('D19', types('gw'))):
    more(_p, 'ser', over('d_rt', _t, '1,3') + ' ' + over('d_rt', _t, '1,4'), 'as what a structure or a variant delegates to')

# ---- values in the middle of a stream driven by hand ----------------------------
_all = short(*GROUPS, without=(28, 45, 72, 88, 93))
_heavy = (42, 43, 44, 67, 69, 71, 74, 84, 85, 89, 90, 91, 92, 94, 95, 96, 98, 99, 106, 108)
prop('D22', 'ser,de,ga,gb,gt,gw,gk,gs,gu', over('d_elem', _all, '1,0') + ' ' + over('d_elem', _all, '1,1') + ' ' + over('d_elem', [i for i in _all if i != 13], '1,2') + ' ' +
     over('d_elem', (1, 14, 15, 20, 21, 22, 34, 41, 73, 81, 85, 87, 90, 91, 92, 98), '1,3') + ' ' + over('d_inside', _all, '1,127,1,0,0') + ' ' + over('d_inside', (1, 15, 25, 34, 91, 94, 97, 98), '1,127,1,0,1') + ' ' +
     over('d_inside', [i for i in _all if i not in _heavy], '1,127,1,1,1') + ' ' + over('d_inside', (42, 43, 44, 67, 84, 85, 90, 99), '1,40,1,1,0'),
     'every value with up to 1 item per collection of each of 86 types, written under any tag between other fields: as a field, an element, or the body of a structure or enum; ' +
     (NEAR % '1 item') + ', read between other fields, from position 0 or close to the maximum',
     thorough=over('d_elem', [i for i in _all if i not in (89, 92, 96)], '2,0') + ' ' + ' '.join(over('d_elem', [i for i in _all if i != 13 or c < 2], '1,%d' % c) for c in (1, 2, 3)) + ' ' +
     over('d_inside', types(*GROUPS, without=(28, 72, 51, 52, 53, 54, 55)), '1,127,2,0,1') + ' ' + over('d_inside', short(*GROUPS, without=(28, 72)), '1,127,1,1,0'), covers={'d_elem': [1], 'd_inside': [1, 2]})
more('S01', 'parse', 's01_after:2,3 s01_after:3,2', 'every byte string of 2..3 bytes and 2..3 (thorough: up to 4) calls of any kind, also after an error, from position 0 or close to the maximum',
     's01_after:2,4 s01_after:3,3 s01_after:4,3', {'s01_after': [1, 2]})
for _i in ('S01', 'S06', 'D09'):
    CHECKS[_i]['steps'] = 80000000
