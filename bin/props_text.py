def define(prop, run):
    U = 'src/joedb/ui/'
    tools = lambda entry, first, types=1, t=60, thorough=None, **k: run('u_tools.cpp', entry, params=dict({'first': first, 'types': types}, **k.pop('params', {})), time=t, **dict({'reach': ['end']}, **k), **({'thorough': thorough} if thorough else {}))
    names = ['string', 'reference', 'int8', 'boolean', 'int64', 'float64', 'float32', 'int32', 'int16', 'blob']
    nob = 'numbers are printed and parsed by a concrete model of the conversions of libc; floating-point numbers are taken from lists of 7 or 10 values with at most 6 significant digits'
    prop('U01', title='Text and binary values written as text are read back exactly, and well-formed',
         statement='Any string of bytes that is written as quoted text, base64, a JSON string or an SQL literal is well-formed for its reader, whatever its bytes, gives the same bytes back, and leaves what follows it in place. A string that JSON cannot represent is reported, and reading any text whatsoever is safe.',
         over=['inputs'], qtext='every string of up to 4 bytes, and every text of up to 4 bytes for the readers',
         why='Tests try a few dozen strings; malformed UTF-8, trigraphs, truncated escapes and control characters combine in many more ways.',
         files=[U + 'minimal_runtime_io.cpp', U + 'type_io.cpp', U + 'base64.cpp', U + 'json.cpp'],
         mech=[('quoting', U + 'minimal_runtime_io.cpp: write_string'), ('reading', U + 'type_io.cpp: read_string'), ('base64', U + 'base64.cpp')], assumptions=[],
         note='strings of up to 4 bytes when quoted and in JSON, 3 (4) bytes in base64 and SQL, texts of up to 4 (5) bytes when read',
         runs=[run('u_text.cpp', 'quote', params={'size': 4}, time=60, reach=['end'], what='quoted strings', thorough={'params': {'size': 5}, 'time': 300}),
               run('u_text.cpp', 'json', params={'size': 4}, time=60, reach=['end', 'utf8', 'refused'], what='JSON strings', thorough={'params': {'size': 5}, 'time': 300}),
               run('u_text.cpp', 'binary', params={'size': 3}, time=60, reach=['end'], what='base64 and SQL literals', thorough={'params': {'size': 4}, 'time': 300}),
               run('u_text.cpp', 'read_any', params={'size': 4}, time=60, reach=['end'], what='reading any text', thorough={'params': {'size': 5}, 'time': 300})])
    prop('U02', title='Replaying a textual dump recreates the database, and a log dump the journal',
         statement='Whatever the history of a database, interpreting the commands that a dump of it prints gives a database with the same tables, fields, records and values, and interpreting a log dump writes a journal with the same sequence of operations. This includes the values that are hard to print, from control characters to infinities, up to the number of digits printed.',
         over=['histories', 'inputs'], qtext='every sequence of operations within the bound, for every type of field, with symbolic strings and small integers',
         why='Tests dump a handful of databases and compare the text with a reference, most of them without reading it back.',
         files=[U + 'Command_Interpreter.cpp', U + 'Interpreter_Dump_Writable.cpp', U + 'dump.cpp', U + 'type_io.cpp', U + 'Writable_Command_Processor.cpp'],
         mech=[('commands printed', U + 'Interpreter_Dump_Writable.cpp'), ('commands read', U + 'Writable_Command_Processor.cpp'), ('dump of the contents', U + 'dump.cpp')],
         assumptions=[nob, 'the contents of a database with a field that refers to a dropped table are not dumped as commands (the dump refers to __unknown_table__, which tests expect)'],
         note='1 or 2 operations after the creation of the tables, at most 1 of them on the schema; strings of 1 or 2 bytes',
         runs=[tools('logdump', 0, 10, 60, params={'steps': 1}, what='log dump, all types', thorough={'params': {'steps': 2, 'first': 0, 'types': 10, 'len': 1}, 'time': 600}),
               tools('logdump', 0, params={'len': 1}, t=90, what='log dump, strings'),
               tools('logdump', 1, t=60, what='log dump, references'),
               tools('logdump', 7, t=60, what='log dump, integers'),
               tools('dump_command', 0, params={'len': 1}, what='dump, strings', thorough={'params': {'first': 0, 'types': 1, 'len': 2}, 'time': 200}),
               tools('dump_command', 1, 4, t=90, what='dump, references and small types'),
               tools('dump_command', 5, t=60, what='dump, 64-bit floating point'),
               tools('dump_command', 6, params={'steps': 1}, t=60, what='dump, 32-bit floating point', thorough={'params': {'first': 6, 'types': 1, 'steps': 2}, 'time': 100}),
               tools('dump_command', 7, 3, t=60, what='dump, integers and blobs'),
               run('u_tools.cpp', 'float_digits', time=30, reach=['end'], what='numbers with many digits')])
    prop('U03', title='A dump in SQL is valid and rebuilds the same tables',
         statement='Whatever the history of a database, the statements of its SQL dump are well-formed and refer to tables, columns and rows that exist, and executing them gives the same tables, columns, rows and values, blobs included when they can be read. No comment or name recorded in a database can end its SQL comment or quotes and become a statement.',
         over=['histories', 'inputs'], qtext='every sequence of operations within the bound, for every type of field, with symbolic strings and comments',
         why='Tests compare the text of a few dumps with a reference, and never execute it.',
         files=[U + 'SQL_Dump_Writable.cpp', U + 'SQL_Dump_Writable.h', U + 'type_io.cpp'],
         mech=[('statements', U + 'SQL_Dump_Writable.cpp'), ('comments', U + 'SQL_Dump_Writable.cpp: write_comment')],
         assumptions=[nob, 'NULL stands for a value that was never written; an SQL interpreter of the harness executes the statements'],
         note='2 operations (3 for blobs) after the creation of the tables, at most 1 of them on the schema; comments of up to 3 bytes',
         runs=[run('u_text.cpp', 'sql_comment', params={'size': 3}, time=60, reach=['end'], what='comments'),
               tools('sql_dump', 0, what='strings', thorough={'params': {'first': 0, 'types': 1, 'steps': 3, 'len': 1}, 'time': 300}),
               tools('sql_dump', 1, what='references', thorough={'params': {'first': 1, 'types': 1, 'steps': 3}, 'time': 300}),
               tools('sql_dump', 2, 3, what='small types and 64-bit integers', t=90),
               tools('sql_dump', 7, 2, what='integers', t=60),
               tools('sql_dump', 9, params={'steps': 3}, what='blobs', reach=['end', 'blob']),
               tools('sql_dump', 5, 2, params={'steps': 1}, what='floating point', thorough={'params': {'first': 5, 'types': 2}, 'time': 200}),
               tools('sql_dump', 5, 2, params={'steps': 1, 'infinite': 1}, what='infinities')])
    prop('U04', title='JSON output is valid and shows the contents of the database',
         statement='Whatever the history of a database, its JSON output is well-formed and lists the used records of every table in order, with the value of every field; a reference is the rank of the record it points to, or -1. What JSON cannot represent, invalid UTF-8, infinities and NaN, is reported, and still gives valid JSON.',
         over=['histories', 'inputs'], qtext='every sequence of operations within the bound, for every type of field',
         why='Tests convert one or two databases, without deleted records in the tables that references point to.',
         files=[U + 'json.cpp', U + 'type_io.cpp'], mech=[('references to ranks', U + 'json.cpp: write_json')],
         assumptions=[nob],
         note='2 (3) operations after the creation of the tables',
         runs=[tools('json_dump', 0, params={'len': 1}, what='strings', reach=['end', 'refused']),
               tools('json_dump', 1, params={'steps': 2}, what='references', thorough={'params': {'first': 1, 'types': 1, 'steps': 3}, 'time': 300}),
               tools('json_dump', 2, 3, what='small types and 64-bit integers'),
               tools('json_dump', 5, 2, what='floating point'),
               tools('json_dump', 5, 2, params={'infinite': 1}, what='infinities', reach=['end', 'infnan']),
               tools('json_dump', 7, 3, what='integers and blobs')])
    prop('U05', title='Merging appends a database to another and keeps references consistent',
         statement='Merging a database into another of the same schema leaves the records of the first in place and adds those of the second after them, with the same values, deleted records staying deleted. Every reference of the second keeps pointing to the same record, and null stays null.',
         over=['histories', 'inputs'], qtext='every pair of databases within the bound, with symbolic values and every reference, dangling ones included',
         why='The only test merges two small databases without holes.',
         files=[U + 'merge.cpp', U + 'merge.h'], mech=[('translation of references', U + 'merge.cpp')], assumptions=[],
         note='two tables with references to each other and themselves, 0 to 2 records each with or without a hole',
         runs=[run('u_tools.cpp', 'merge_databases', params={'types': 2}, time=90, reach=['end'], what='strings and references', thorough={'params': {'types': 6}, 'time': 300})])
    prop('U06', title='Packing keeps the contents and drops the history',
         statement='Packing a file gives a file with the same data definitions, table and field identifiers, the same records and the same values, and no trace of deleted or overwritten data. Only files with blobs are refused.',
         over=['histories', 'inputs'], qtext='every sequence of operations within the bound, for every type of field',
         why='Tests pack one file.',
         files=[U + 'dump.cpp', 'src/joedb/Selective_Writable.cpp', 'src/joedb/Selective_Writable.h'] , mech=[('packing', U + 'dump.cpp: pack'), ('filter', 'src/joedb/Selective_Writable.h')], assumptions=[nob],
         note='2 or 3 operations after the creation of the tables',
         runs=[tools('pack_file', 0, params={'steps': 3}, reach=['end', 'refused'], what='strings'),
               tools('pack_file', 1, params={'steps': 3}, t=90, reach=['end', 'refused'], what='references'),
               tools('pack_file', 2, 3, params={'steps': 2}, t=90, reach=['end', 'refused'], what='small types and 64-bit integers'),
               tools('pack_file', 5, 5, params={'steps': 2}, t=90, reach=['end', 'refused'], what='floating point, integers and blobs')])
    line = lambda what, t=60, reach=('end', 'accepted'), thorough=None, **params: run('u_interp.cpp', 'any_line', params=params, time=t, reach=list(reach), what=what, **({'thorough': thorough} if thorough else {}))
    prop('U07', title='The interpreter executes or refuses any command, and stores what was typed',
         statement='Whatever line is typed, whatever its names, record numbers, sizes and values, the interpreter either executes it or reports an error and goes on; a command that is refused changes nothing, and the journal always tells the same as the database. A value typed for a field is the value stored.',
         over=['inputs', 'histories'], qtext='every command with every combination of arguments from lists of valid, limit and malformed names, numbers, sizes and values, and symbolic strings',
         why='Tests run fixed scripts, with few malformed commands.',
         files=[U + 'Command_Interpreter.cpp', U + 'Data_Manipulation_Command_Processor.cpp', U + 'Readable_Writable_Command_Processor.cpp', U + 'Readable_Command_Processor.cpp', U + 'Writable_Command_Processor.cpp', U + 'type_io.cpp'],
         mech=[('main loop', U + 'Command_Interpreter.cpp: main_loop'), ('commands', U + 'Data_Manipulation_Command_Processor.cpp')],
         assumptions=[nob, 'the interpreter and the database have a limit on record numbers; insert_into and add_field with values may have done part of their work when a value is refused'],
         note='1 or 2 lines, arguments from lists of 4 to 24 texts, strings of 2 or 3 symbolic bytes',
         runs=[line('updates, insertions and deletions', kinds=0x3f, lists=31, thorough={'params': {'kinds': 0x3f, 'lists': 31, 'types': 10}, 'time': 400}, reach=('end', 'accepted', 'refused')),
               line('updates, all types', types=10, kinds=0x21, lists=80, reach=('end', 'accepted', 'refused')),
               line('symbolic values', kinds=0x2a003, lists=32, len=3),
               line('printing', types=10, kinds=0xc0, lists=159, reach=('end', 'accepted', 'refused')),
               line('definitions', types=10, kinds=0x7f00, lists=259, reach=('end', 'accepted', 'refused')),
               line('other commands', types=10, kinds=0x1ff8000, lists=31, reach=('end', 'accepted', 'refused')),
               line('two lines', first=1, kinds=0x7fff, lists=0, lines=2, reach=('end', 'accepted', 'refused'), thorough={'params': {'first': 1, 'kinds': 0x7f3f, 'lists': 0, 'lines': 3}, 'time': 400}),
               run('u_interp.cpp', 'typed_value', params={'types': 10}, time=30, reach=['end'], what='values typed')])
