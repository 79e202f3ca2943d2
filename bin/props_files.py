def define(prop, run):
    J = 'src/joedb/journal/'
    prop('F01', title='A memory or stream file behaves as a byte array',
         statement='After any sequence of reads, writes, size queries and syncs, a read returns exactly the bytes last written at its range (zero in gaps of a memory file), never bytes past the end, and something whenever there is something left; the size is the end of the last byte written; a read writes nothing outside its buffer. Stream files work on streams whose read and write positions are independent.',
         over=['histories', 'inputs'], qtext='all sequences of reads, writes, size queries and syncs within the bound, with arbitrary bytes',
         why='Stream files keep a position between calls: whether it is right depends on the order of reads, writes and size queries, which tests sample.',
         files=[J + 'Memory_File.cpp', J + 'Readonly_Memory_File.h', J + 'Stream_File.cpp'], mech=[('position of the stream', J + 'Stream_File.cpp: seek'), ('growth', J + 'Memory_File.cpp: pwrite')],
         note='3 (4) operations, up to 3 bytes each; std::stringbuf as the stream',
         runs=[run('f_files.cpp', 'memory', params={'steps': 3}, time=60),
               run('f_files.cpp', 'stream', params={'steps': 3}, time=60, thorough={'params': {'steps': 4}, 'time': 400})])
    prop('F02', title='An encoded file reads back what was written, across reopening',
         statement='A file encoded into a joedb of blobs behaves as a byte array whatever the codec: reads return the bytes last written, buffered or not, including overwritten ones and writes as large as the write buffer; closing and reopening (for reading or writing) changes nothing, and after a sync the underlying file alone is enough to read everything.',
         over=['histories', 'inputs'], qtext='all sequences of writes, reads, size queries, syncs and reopenings within the bound, with arbitrary bytes, and writes around the size of the write buffer',
         why='The result depends on the interplay of write buffering, overlapping blobs and decoding cache.',
         files=[J + 'Encoded_File.cpp', J + 'Readonly_Encoded_File.cpp', 'src/joedb/db/encoded_file.joedbi'], mech=[('write buffer', J + 'Encoded_File.cpp: pwrite'), ('overlapping blobs in order', J + 'Readonly_Encoded_File.cpp: pread')],
         note='3 operations, up to 3 bytes each, contiguous files; a reversing codec, and the identity codec around 1 MiB',
         runs=[run('f_files.cpp', 'encoded', params={'steps': 3}, time=100, thorough={'params': {'steps': 4}, 'time': 600}),
               run('f_files.cpp', 'encoded_large', time=30)])
    prop('F03', title='A stream buffer over a file reads and writes the right bytes',
         statement='Through the stream buffer that exposes a file as a C++ stream, with separate read and write positions, characters and blocks read are the bytes of the file at the read position, those written land at the write position, going back and seeking work from every base, and after a flush the file has exactly the expected contents, whatever the fragmentation of reads and the position relative to the buffer size.',
         over=['histories', 'inputs'], qtext='all sequences of stream operations within the bound with arbitrary bytes, near the start and near the end of the 8192-byte buffer',
         why='Buffer boundaries, partial reads and character values interact; tests use a few texts.',
         files=[J + 'filebuf.cpp', J + 'filebuf.h'], mech=[('buffer management', J + 'filebuf.cpp')],
         note='3 (4) operations on whole reads, 2 (3) with partial reads; synchronised when turning from reading to writing, as streams require',
         runs=[run('f_files.cpp', 'streambuf', params={'steps': 3, 'short': 0}, time=60, thorough={'params': {'steps': 4, 'short': 0}, 'time': 400}),
               run('f_files.cpp', 'streambuf', params={'steps': 2, 'short': 1}, time=60, thorough={'params': {'steps': 3, 'short': 1}, 'time': 300})])
    prop('F04', title='Copies, comparisons, blobs and readers do not depend on read fragmentation',
         statement='When a file returns fewer bytes than asked (as large reads and network files may), copying, comparing, reading a blob, the asynchronous reader and the iterator still transfer exactly the bytes of the requested range: a comparison is true exactly when the bytes are the same, and going past the end is reported, never filled with garbage.',
         over=['inputs', 'fault schedules'], qtext='all contents, ranges and fragmentations of reads within the bound',
         why='Local files used in tests never fragment small reads.',
         files=[J + 'Abstract_File.cpp', J + 'Async_Reader.cpp', J + 'Async_Writer.h', J + 'File_Iterator.h'], mech=[('loops over partial reads', J + 'Abstract_File.cpp')],
         note='files of 4 (5) bytes, every fragmentation',
         runs=[run('f_files.cpp', 'fragments', params={'size': 4}, time=60, thorough={'params': {'size': 5}, 'time': 300})])
    prop('F05', title='A file hash is SHA-256 of exactly the bytes of the range',
         statement='The hash used to compare local and remote histories is SHA-256 of the bytes in the requested range: it depends on nothing outside of it, and not on how the file fragments reads. For ranges below the sampling size, the fast hash is the full hash.',
         over=['inputs', 'fault schedules'], qtext='all contents of ranges of 1 to 191 bytes with every position of a partial read; agreement with FIPS 180-4 on 19 message lengths around block boundaries',
         why='A hash that depends on read boundaries makes replicas look different (or equal); tests hash whole local files.',
         files=[J + 'File_Hasher.cpp', J + 'SHA_256.h'], mech=[('block loop', J + 'File_Hasher.cpp: get_hash'), ('compression and padding', J + 'SHA_256.h')],
         note='ranges up to 191 bytes, one or two partial reads, all contents; the compression function itself is compared with the standard on fixed contents of 19 lengths (equivalence for all contents is out of reach of the solver)',
         runs=[run('f_hash.cpp', 'ranges', time=60), run('f_hash.cpp', 'sha', time=30)])
    S = J
    P = [S + 'Posix_File.cpp', S + 'Posix_File.h', S + 'Abstract_File.h']
    system = 'the system calls are modelled: atomic transfers that may be cut short (a transfer of at most 41 bytes is complete, as documented), errors, sync that includes everything written before, locks owned by open file descriptions'
    prop('F06', title='A file on a POSIX system obeys its opening mode and reports errors',
         statement='Each opening mode opens, creates, locks or refuses a file exactly as documented, and a refused or failing opening leaves neither a lock nor an open file behind. What is written is what is read back whatever the system transfers in each call, a sync makes it durable, and an error of any system call is reported: a journal on such a file keeps the guarantees of its checkpoints.',
         over=['inputs', 'histories', 'fault schedules'], qtext='all sequences of operations within the bounds, symbolic bytes, every placement of short transfers, a symbolic failing system call, all combinations of opening modes, existing files, permissions and other openers',
         why='Tests run on a real disk, which never fails and never transfers less than was asked.',
         files=P, mech=[('opening and locking', S + 'Posix_File.cpp: Posix_File, Posix_FD'), ('transfers', S + 'Posix_File.cpp: pread, pwrite')], assumptions=[system],
         note='3 operations of at most 3 bytes, 2 short transfers, one failing call; journals of 2 transactions (3 in thorough runs)',
         runs=[run('p_posix.cpp', 'file_io', time=60, reach=['end', 'read', 'sync'], thorough={'params': {'steps': 3, 'cuts': 3}, 'time': 200}),
               run('p_posix.cpp', 'file_io', params={'errors': 1, 'steps': 2}, time=40, reach=['end', 'error'], thorough={'params': {'errors': 1, 'steps': 3}, 'time': 200}, what='with a failing system call'),
               run('p_posix.cpp', 'open_modes', time=20, reach=['end', 'refused', 'exclusive', 'writable', 'available again'], what='opening modes'),
               run('p_posix.cpp', 'open_modes', params={'errors': 1}, time=20, reach=['end', 'refused', 'exclusive'], what='opening modes, with a failing system call'),
               run('p_posix.cpp', 'journal', time=20, thorough={'params': {'steps': 3, 'cuts': 3}, 'time': 200}, what='a journal over short transfers'),
               run('p_posix.cpp', 'journal', params={'errors': 1, 'cuts': 1}, time=30, reach=['end', 'error', 'nothing done'], thorough={'params': {'errors': 1, 'steps': 3}, 'time': 200}, what='a journal with a failing system call')])
    prop('S05', title='Processes that share a POSIX file are serialised by its locks',
         statement='When processes open the same file on a POSIX system, for shared writing or waiting for exclusive access, their transactions are serialised: each sees all those committed before it, none is lost, a reader sees whole committed transactions in order at any time, and when all are done every lock is released.',
         over=['schedules', 'inputs'], qtext='all interleavings of the system calls of two processes within the bound on preemptions, symbolic contents',
         why='Tests lock files in one process and never interleave system calls.',
         files=P + [S + 'Journal_Construction_Lock.cpp', S + 'Writable_Journal.cpp', 'src/joedb/concurrency/Writable_Client.h'], mech=[('ranges and kinds of locks', S + 'Posix_File.cpp: lock, shared_lock, exclusive_lock, unlock')], assumptions=[system],
         note='2 processes, 2 transactions each, 2 preemptions (3 in thorough runs), file already created or not',
         runs=[run('p_posix.cpp', 'two_processes', params={'transactions': 2}, preempt=3, time=40, thorough={'params': {'transactions': 2}, 'preempt': 4, 'time': 300}, what='two writers'),
               run('p_posix.cpp', 'two_processes', params={'transactions': 2, 'create': 0}, preempt=3, time=40, thorough={'params': {'transactions': 2, 'create': 0}, 'preempt': 3, 'time': 300}, what='two writers, one creates the file'),
               run('p_posix.cpp', 'two_processes', params={'transactions': 2, 'reader': 1}, preempt=3, time=40, reach=['end', 'read'], thorough={'params': {'transactions': 2, 'reader': 1}, 'preempt': 4, 'time': 300}, what='a writer and a reader'),
               run('p_posix.cpp', 'locks', preempt=2, time=30, reach=['end', 'locked'], thorough={'preempt': 4, 'time': 200}, what='each lock'),
               run('p_posix.cpp', 'locks', params={'errors': 1}, preempt=1, time=30, reach=['end', 'locked', 'error'], thorough={'params': {'errors': 1}, 'preempt': 3, 'time': 100}, what='each lock, with a failing system call')])
    prop('F07', title='A file in text format works like a binary one',
         statement='A database file written as a joedbi script can be opened for writing or shared writing: it starts with exactly the contents of the script, each transaction is appended as text when it is committed and none of an aborted one is, so that reopening the text gives the same database, every field and type included. A script cut at any point is either loaded up to whole transactions or refused. Writers that share it are serialised, and see whole transactions in order.',
         over=['histories', 'inputs', 'crash points', 'schedules'], qtext='all sequences of transactions of every kind of operation within the bound, all cuts of the text, all interleavings of two writers (or a writer and a reader) within the bound on preemptions',
         why='The text is written through a second interpreter of the binary journal and read back by a third one: tests cover a few fixed scripts.',
         files=[S + 'Interpreted_File.cpp', S + 'Interpreted_File.h', 'src/joedb/ui/Interpreter_Dump_Writable.cpp', 'src/joedb/ui/Command_Interpreter.cpp'], mech=[('text appended at each checkpoint', S + 'Interpreted_File.cpp: pwrite'), ('reading the script', S + 'Interpreted_File.cpp: read_data')],
         note='3 transactions of 1 or 2 operations (4 in thorough runs), one kind of values for each type; 2 processes with 2 transactions each and 2 or 3 preemptions',
         runs=[run('f_text_file.cpp', 'history', params={'transactions': 3, 'ops': 1}, time=40, reach=['end', 'aborted', 'reopened'], thorough={'params': {'transactions': 4, 'ops': 1, 'text': 0}, 'time': 200}, what='histories'),
               run('f_text_file.cpp', 'history', params={'transactions': 3, 'ops': 2, 'text': 0}, time=60, reach=['end', 'aborted', 'reopened'], what='longer transactions'),
               run('f_text_file.cpp', 'history', params={'transactions': 3, 'ops': 1, 'shared': 1, 'text': 0}, time=60, reach=['end', 'aborted'], thorough={'params': {'transactions': 4, 'ops': 1, 'shared': 1, 'text': 0}, 'time': 200}, what='opened for shared writing'),
               run('f_text_file.cpp', 'cut', params={'text': 0}, time=40, reach=['end', 'refused'], thorough={'params': {'transactions': 3, 'kinds': 6, 'text': 0}, 'time': 200}, what='scripts cut at any point'),
               run('f_text_file.cpp', 'share', preempt=3, time=30, reach=['end'], thorough={'params': {'each': 2}, 'preempt': 4, 'time': 200}, what='two writers'),
               run('f_text_file.cpp', 'share', params={'watch': 1}, preempt=3, time=30, reach=['end', 'looked'], thorough={'params': {'watch': 1, 'each': 2}, 'preempt': 4, 'time': 200}, what='a writer and a reader')])
