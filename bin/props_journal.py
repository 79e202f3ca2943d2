def define(prop, run):
    S = 'src/joedb/journal/'
    small = {'rec_bits': 12, 'max_table': 31, 'max_field': 31}
    prop('J01', title='Typed values survive the buffered file layer unchanged',
         statement='Any sequence of integers, compact integers, references, strings and blobs written through the buffered file layer is read back with exactly the same values and positions, wherever each value falls relative to internal buffer boundaries and even when the underlying file returns fewer bytes than asked. Reading past the end is an error, never a silent value.',
         over=['inputs', 'configurations'], qtext='all values of every encodable kind, all alignments around a buffer boundary, all short-read positions among first byte/half/last byte',
         why='Tests write a few literal values at small offsets; boundary alignments times encodings times short reads are never enumerated.',
         files=[S + 'File_Buffer.h', S + 'File_Buffer.cpp', S + 'Buffer.h', S + 'File_Iterator.h'],
         mech=[('compact integer encoding', S + 'Buffer.h'), ('boundary handling of reads and writes', S + 'File_Buffer.h')],
         note='all paths for 2 items (1 with short reads) around the 4096-byte boundary; 61-bit compact values',
         runs=[run('j_buffer.cpp', params={'items': 2, 'span': 10}, time=60, thorough={'params': {'items': 2, 'span': 24}, 'time': 300}, what='write then read'),
               run('j_buffer.cpp', params={'items': 1, 'cuts': 1}, time=40, thorough={'params': {'items': 2, 'cuts': 2, 'span': 12}, 'time': 300}, what='with short reads')])
    prop('J02', title='Replaying a journal reproduces exactly the operations written to it',
         statement='Whatever sequence of schema, data, blob and information operations is written to a journal and checkpointed, a reader that replays it receives the same operations, with the same arguments, in the same order. The replay ends exactly at the checkpoint.',
         over=['inputs', 'histories'], qtext='all pairs of operations of all kinds and value types with symbolic arguments, and all triples of data operations whose compact encodings depend on their predecessors',
         why='The compressed encodings (append, update-last, update-next, vectors) depend on the previous operation; tests exercise a handful of sequences with fixed values.',
         files=[S + 'Writable_Journal.cpp', S + 'Readonly_Journal.cpp', S + 'Readonly_Journal.h'],
         mech=[('context-dependent operation encoding', S + 'Writable_Journal.cpp: generic_update, insert_into'), ('decoding', S + 'Readonly_Journal.cpp: one_step')],
         note='sequences of 2 (all kinds) or 3 (data operations) operations; record ids below 2^12 in quick runs, 2^60 in thorough runs',
         runs=[run('j_replay.cpp', params=dict(small, kinds=17, rec_bits=4), time=60, thorough={'params': dict(small), 'time': 200}, what='two operations of any kind'),
               run('j_replay.cpp', params=dict(small, kinds=4, third=1, rec_bits=4), time=40, thorough={'params': {'kinds': 4, 'third': 1, 'rec_bits': 14}, 'time': 300}, what='three data operations')])
    prop('J04', title='Stepwise, partial and repeated replay deliver the same history as one replay',
         statement='Pulling and replaying a growing journal in any number of steps, stopping at any operation boundary, rewinding, or skipping what a listener already has, delivers each operation exactly once in order, as a single replay would. A journal that is reopened and appended to keeps its earlier operations and decodes the new ones correctly.',
         over=['histories', 'schedules'], qtext='all interleavings of 3 symbolic data operations with soft/hard checkpoints, pulls, partial replays and reopenings',
         why='Compact encodings carry context across reads; tests replay mostly in one go.',
         files=[S + 'Readonly_Journal.cpp', S + 'Writable_Journal.cpp'],
         mech=[('pull and play_until', S + 'Readonly_Journal.cpp'), ('skipping to the listener position', S + 'Readonly_Journal.cpp: play_until')],
         note='3 operations, every placement of checkpoints and pulls',
         runs=[run('j_replay.cpp', 'pieces', params=dict(small, kinds=4, rec_bits=4), time=60, thorough={'params': dict(small, kinds=17), 'time': 300}),
               run('j_replay.cpp', 'reopen', params=dict(small, min_table=1, max_table=2, max_field=2, rec_bits=4, more=2), time=40, thorough={'params': {'min_table': 1, 'rec_bits': 20}, 'time': 200})])
    prop('J06', title='Copying, multiplexing and filtering a journal deliver the same operations',
         statement='A journal that was written by a process that replayed it first, replayed into a new journal at once or in several times, gives a journal with the same operations, the same bytes and the same checkpoint, in which every blob reads back at its position. A multiplexer delivers every operation to each of its listeners, and a filter delivers exactly the operations of the selected categories, unchanged and in order.',
         over=['histories', 'inputs'], qtext='all sequences of two (four for data operations) operations of any kind with symbolic arguments, over two sessions, followed by a blob; all three ways of copying, all seven filters',
         why='The position of a blob depends on how each operation before it is encoded; tests copy a few fixed files.',
         files=[S + 'Readonly_Journal.cpp', S + 'Writable_Journal.cpp', 'src/joedb/Multiplexer.cpp', 'src/joedb/Selective_Writable.cpp', 'src/joedb/Writable.cpp'],
         mech=[('copying blobs', S + 'Readonly_Journal.cpp: one_step'), ('resuming a copy', S + 'Readonly_Journal.cpp: play_until')],
         note='record ids below 4 in quick runs',
         runs=[run('j_copy.cpp', 'copy', params={'min_table': 1, 'max_table': 2, 'max_field': 1, 'rec_bits': 2}, time=40, reach=['end', 'two times', 'multiplexer'], thorough={'params': {'rec_bits': 20}, 'time': 200}),
               run('j_copy.cpp', 'copy', params={'min_table': 1, 'max_table': 2, 'max_field': 1, 'rec_bits': 2, 'kinds': 3, 'ops': 2}, time=60, reach=['end', 'two times', 'multiplexer'], thorough={'params': {'min_table': 1, 'max_table': 2, 'max_field': 1, 'rec_bits': 2, 'kinds': 4, 'ops': 2, 'type': 1}, 'time': 300}, what='data operations'),
               run('j_copy.cpp', 'filter', params={'min_table': 1, 'max_table': 2, 'max_field': 1, 'rec_bits': 2}, time=40, thorough={'params': {'rec_bits': 20}, 'time': 200})])
    prop('J05', title='A damaged journal is refused or read safely, whatever its bytes',
         statement='Whatever bytes a journal file holds, in its header or after its last valid operation, opening it with the interpreted or the compiled database either raises an error or yields a readable, consistent database. It never reads or writes outside memory, never overflows a signed integer, never loops forever, and never destroys what had been committed.',
         over=['inputs'], qtext='every 41-byte header of a short journal; every tail of 4 arbitrary bytes (3 with compiled databases), and longer tails that start with the vector or update operations, after a prefix with or without holes in the tables',
         why='A file format must cope with 256^n files; tests and stored fuzz corpora hold a few.',
         files=[S + 'Readonly_Journal.cpp', S + 'Header.h', 'src/joedb/interpreted/Database.cpp', 'src/joedb/interpreted/Table.cpp', 'src/joedb/compiler/generator/Database_h.cpp', 'src/joedb/compiler/generator/Database_Writable_h.cpp'],
         mech=[('decoding of operations', S + 'Readonly_Journal.cpp'), ('validation of records and sizes', 'src/joedb/interpreted/Table.cpp'), ('generated validation', 'src/joedb/compiler/generator/Database_h.cpp')],
         note='arbitrary header; tails of 3 to 6 bytes (4 to 7 in thorough runs); limits of record ids set by the opener',
         runs=[run('j_any.cpp', 'header', time=30, thorough={'time': 60}, what='any header'),
               run('j_any.cpp', 'tail', params={'size': 4, 'columns': 6}, time=90, thorough={'params': {'size': 5, 'columns': 6}, 'time': 300}, what='any tail, interpreted'),
               run('j_any.cpp', 'tail', params={'size': 6, 'columns': 6, 'first': 1}, time=60, thorough={'params': {'size': 7, 'columns': 6, 'first': 1}, 'time': 200}, what='tail starting with updates of vectors'),
               run('j_any.cpp', 'tail', params={'size': 5, 'columns': 6, 'first': 2}, time=60, thorough={'params': {'size': 6, 'columns': 6, 'first': 2}, 'time': 200}, what='tail starting with vectors'),
               run('d_any.cpp', 'tail', params={'size': 3}, time=90, thorough={'params': {'size': 4}, 'time': 300}, what='any tail, compiled'),
               run('d_any.cpp', 'tail', params={'size': 5, 'first': 1}, time=60, thorough={'params': {'size': 6, 'first': 1}, 'time': 200}, what='compiled, tail starting with updates of vectors'),
               run('d_any.cpp', 'tail', params={'size': 4, 'first': 2, 'small': 4}, time=90, thorough={'params': {'size': 5, 'first': 2, 'small': 4}, 'time': 300}, what='compiled, tail starting with vectors'),
               run('d_any.cpp', 'tail', params={'size': 4, 'first': 3}, time=60, thorough={'params': {'size': 5, 'first': 3}, 'time': 200}, what='compiled, tail starting with updates')])
