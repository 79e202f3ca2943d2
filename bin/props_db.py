def define(prop, run):
    S = 'src/joedb/'
    I = S + 'interpreted/'
    prop('D01', title='Record allocation behaves as a set, in dense and sparse tables alike',
         statement='After any sequence of insertions, deletions and vector insertions and deletions, the record keeper knows exactly which records are used, counts them, and iterates forwards and backwards over each used and each free record exactly once. Deleted records are reused before the table grows, and queries about any id, valid or not, are answered without error.',
         over=['histories', 'inputs'], qtext='all sequences of record and vector insertions and deletions within the bound, queries about all 64-bit ids and vector sizes',
         why='The keeper switches from a compact to a linked-list representation at the first hole; tests cover a few sequences.',
         files=[S + 'Freedom_Keeper.h'], mech=[('dense and linked representations', S + 'Freedom_Keeper.h')],
         note='5 (6) operations, tables of a few records, all 64-bit query arguments',
         runs=[run('d_freedom.cpp', params={'steps': 5}, time=60, thorough={'params': {'steps': 6}, 'time': 400})])
    prop('D02', title='A database accepts valid operations, rejects invalid ones unchanged',
         statement='The interpreted database applies every valid operation exactly (schema, record and value), and refuses every invalid one (unknown table, field or record, wrong type, used or free record, existing name, excessive id) with an error that leaves the database exactly as it was. A value that was written is read back until it is overwritten or its record is deleted.',
         over=['histories', 'inputs'], qtext='all sequences of data operations with symbolic ids (valid or not), types and values, and all sequences of schema changes within the bounds, against a reference model',
         why='Tests check a few erroneous calls; every operation with every invalid argument in every state cannot be listed.',
         files=[I + 'Database.cpp', I + 'Database.h', I + 'Table.h', I + 'Database_Schema.cpp'],
         mech=[('checks before changes', I + 'Database.cpp'), ('column storage', I + 'Table.h')],
         note='2 data operations after a fixed schema and 2 (3) schema changes; 3 (10) value types',
         runs=[run('d_db.cpp', 'data', params={'types': 3, 'steps': 2, 'few': 1}, time=60, reach=['end', 'rejected'], thorough={'params': {'types': 10, 'steps': 2}, 'time': 400}),
               run('d_db.cpp', 'data', params={'types': 1, 'steps': 2, 'few': 1, 'limit': 0}, time=60, reach=['end', 'rejected'], thorough={'params': {'types': 3, 'steps': 2, 'limit': 0}, 'time': 300}, what='without a limit on ids'),
               run('d_db.cpp', 'schema_changes', params={'all_types': 0, 'steps': 2}, time=40, reach=['end', 'rejected'], thorough={'params': {'all_types': 0, 'steps': 3, 'after': 0}, 'time': 300})])

    G = S + 'compiler/generator/'
    GEN = [G + 'Database_h.cpp', G + 'Database_Writable_h.cpp', G + 'Database_Writable_cpp.cpp']
    GENM = [('generated tables and indexes', G + 'Database_h.cpp'), ('generated journalled writers', G + 'Database_Writable_cpp.cpp')]
    def idx(mask, steps, compiled=0, **k):
        return run('d_compiled.cpp', 'indexes', params={'steps': steps, 'ops': mask, 'compiled': compiled}, reach=['end'], **k)
    def deep(mask, steps=3, compiled=0, time=200): return {'params': {'steps': steps, 'ops': mask, 'compiled': compiled}, 'time': time}
    CITY, PERSON, MIXED = 1 + 2 + 32, 8 + 16 + 64 + 256, 4 + 8 + 64
    prop('D03', title='Indexes of a compiled database always agree with its records',
         statement='In a database compiled by joedbc, after any sequence of insertions, updates, vector updates and deletions, each index (unique or not, on one or several columns) holds exactly the existing records whose indexed value was set, under their current value, in sorted order. Searches, next and previous return exactly the right records.',
         over=['histories', 'inputs'], qtext='all sequences of operations with arbitrary 32-bit codes and string bytes within the bound, and all searched values',
         why='Index maintenance is generated code; tests use a few values, and errors depend on coincidences between old and new values.',
         files=GEN + [S + 'compiler/joedbc.cpp'], mech=GENM,
         note='1 operation of any of 9 kinds (2 within groups) after two records; thorough: 2 of any kind, 3 within groups; code generated from a schema of 5 tables',
         runs=[run('d_compiled.cpp', 'indexes', params={'steps': 1, 'compiled': 0}, time=60, reach=['end', 'duplicate'], thorough={'params': {'steps': 2, 'compiled': 0}, 'time': 350}),
               idx(CITY, 2, time=40, thorough=deep(CITY)),
               idx(PERSON, 2, time=60, thorough=deep(16 + 64 + 256))])
    prop('D04', title='Compiled and interpreted databases give the same contents for a file',
         statement='Whatever operations a program performs through the code generated by joedbc, the file it leaves gives exactly the state of the live database when it is read by the interpreter, by the compiled read-only database, or reopened for writing, including index contents. Reopening an up-to-date file writes nothing.',
         over=['histories', 'inputs'], qtext='all sequences of generated insertions, updates, vector operations, deletions, reopenings with arbitrary values within the bound',
         why='Two implementations of each operation (generated and interpreted) must agree on every history, including reuse of deleted ids.',
         files=GEN + [G + 'Readable_h.cpp', G + 'Readonly_Database_h.cpp', I + 'Database.cpp', I + 'Table.cpp'],
         mech=GENM + [('interpretation', I + 'Table.cpp'), ('replay', S + 'journal/Readonly_Journal.cpp')],
         note='1 (2) operations on indexed tables, 3 on plain tables, 2 (3) on a table with a column of each type',
         runs=[idx(511, 1, 1, time=60, thorough=deep(511, 2, 1, 400)),
               idx(8 + 64, 2, 1, time=60, thorough=deep(MIXED, 3, 1)),
               run('d_compiled.cpp', 'values', params={'steps': 3}, time=60, thorough={'params': {'steps': 4}, 'time': 300}),
               run('d_types.cpp', 'types', params={'steps': 2}, time=45, thorough={'params': {'steps': 3}, 'time': 300})])
    prop('D05', title='A unique index never accepts a duplicate, and refusal does not corrupt',
         statement='Setting a column with a unique index to a value that another record already has is refused with an error, whatever the kind of write (record, vector, creation), the refused write does not reach the file or the indexes, and once the record is repaired or deleted the database is consistent. A value that no other record has is always accepted.',
         over=['histories', 'inputs'], qtext='all 32-bit codes and string bytes, in record and vector updates, after two records',
         why='Whether a write is a duplicate depends on the current values of all records, which tests sample.',
         files=GEN, mech=GENM,
         note='2 operations (creation, update, vector, deletion) over 2 to 4 records',
         runs=[run('d_compiled.cpp', 'indexes', params={'steps': 2, 'ops': 1 + 8, 'compiled': 0}, time=60, reach=['end', 'duplicate'], thorough={'params': {'steps': 2, 'ops': 1 + 4 + 8 + 128, 'compiled': 1}, 'time': 400}),
               run('d_compiled.cpp', 'indexes', params={'steps': 1, 'ops': 128, 'compiled': 1}, time=60, reach=['end'])])
    prop('D07', title='Compiled tables store every value of every record and vector exactly',
         statement='In a database compiled by joedbc, a new record or vector never overlaps existing records, each value and string reads back exactly as last written (through single or in-place vector writes), default values are zero or empty, writes to records that do not exist are refused, and closing and reopening changes nothing.',
         over=['histories', 'inputs'], qtext='all sequences of 3 (4) operations with arbitrary values among creation, vectors, updates, in-place vector updates, deletion, clearing, single-row settings and reopening',
         why='Allocation, storage and journalling are generated together; tests cover a few sequences.',
         files=GEN, mech=GENM,
         note='3 (4) operations, records 0 to 3, vectors up to 3, strings up to 2 bytes; 2 (3) operations on columns of every type',
         runs=[run('d_compiled.cpp', 'values', params={'steps': 3}, time=60, thorough={'params': {'steps': 4}, 'time': 400}),
               run('d_types.cpp', 'types', params={'steps': 2}, time=45, thorough={'params': {'steps': 3}, 'time': 300})])
    G = S + 'compiler/generator/'
    prop('D06', title='Opening an older file upgrades it completely, once, keeping its data',
         statement='Code compiled from a schema opens any file whose schema is a beginning of it: all records and values are kept, tables and fields that are new have their default values, each custom function that the file has not seen runs exactly once, indexes agree, and the upgraded history is committed and replays to the same contents. A file with any other schema is refused and left unchanged, and an upgrade interrupted at any write can be resumed without losing or repeating anything.',
         over=['histories', 'inputs', 'crash points'], qtext='every version of a schema of 15 steps (tables, fields, renames, drops, defaults, single rows, a custom function), arbitrary values and holes, every write as the one that kills the program',
         why='Tests upgrade one file from one version to the next.', files=[G + 'Writable_Database_cpp.cpp', G + 'Database_Writable_h.cpp', G + 'Readonly_Database_h.cpp', S + 'compiler/joedbc.cpp'],
         mech=[('prefix check', G + 'Database_Writable_h.cpp: check_schema'), ('replaying the rest of the schema', G + 'Writable_Database_cpp.cpp: auto_upgrade')],
         note='one schema of 15 steps, up to 2 records, strings of 2 bytes; writes torn in the middle or before their last byte',
         runs=[run('d_upgrade.cpp', 'open_old', time=60, reach=['end', 'current'], what='every older version', thorough={'params': {'persons': 3}, 'time': 200}),
               run('d_upgrade.cpp', 'incompatible', time=30, what='schemas that are not a beginning'),
               run('d_upgrade.cpp', 'interrupted', time=60, reach=['end', 'dead'], what='an interrupted upgrade', thorough={'params': {'persons': 3}, 'time': 200})])
