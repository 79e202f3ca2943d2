def define(prop, run):
    S = 'src/joedb/journal/'
    C = 'src/joedb/concurrency/'
    J = [S + 'Writable_Journal.cpp', S + 'Readonly_Journal.cpp', S + 'Header.h', S + 'Journal_Construction_Lock.cpp']
    prop('C01', title='A hard checkpoint survives any power loss',
         statement='Once a hard checkpoint returns, everything before it is recovered after a power failure at any later moment, whatever subset of the writes issued since the last sync reached the disk, even partially. A database recovered this way opens, contains whole transactions only, ending at a hard checkpoint not older than the last one that returned, and can be written to again with the same guarantee.',
         over=['crash points', 'histories'], qtext='every crash point, every subset and every torn prefix of unsynced writes, over all sequences of writes, soft and hard checkpoints within the bounds, including a second crash after recovery',
         why='Tests only simulate a few hand-written file images; no test cuts power between two writes of a checkpoint.',
         files=J, mech=[('order of writes and syncs in the header', S + 'Writable_Journal.cpp: hard_checkpoint_at'), ('choice of the valid header copy', S + 'Readonly_Journal.cpp: read_checkpoint')],
         assumptions=['the 8-byte header words are written atomically by the disk; other writes may be torn at any byte'],
         note='4 transactions with every mix of checkpoints; or 1 (2 in thorough runs) transactions, crash, recovery, as many again and a second crash',
         runs=[run('j_crash.cpp', 'power_loss', params={'steps': 4}, time=40, thorough={'params': {'steps': 5}, 'time': 400}),
               run('j_crash.cpp', 'power_loss', params={'steps': 1, 'rounds': 2}, time=60, thorough={'params': {'steps': 2, 'rounds': 2}, 'time': 400}, what='two successive power failures')])
    prop('C02', title='A soft checkpoint survives a crash of the process',
         statement='If the process is killed at any moment while the system survives, re-opening the file finds every transaction whose soft or hard checkpoint had returned. It finds nothing but whole transactions.',
         over=['crash points', 'histories'], qtext='every crash point between two file operations over all sequences of writes and checkpoints within the bounds',
         why='Tests never interrupt the process between two writes.',
         files=J, mech=[('soft checkpoint', S + 'Writable_Journal.cpp: soft_checkpoint_at'), ('reading the header', S + 'Readonly_Journal.cpp: read_checkpoint')],
         note='3 (quick) to 5 (thorough) transactions with every mix of checkpoints',
         runs=[run('j_crash.cpp', 'process_crash', params={'steps': 4}, time=40, thorough={'params': {'steps': 6}, 'time': 400})])
    prop('C03', title='A file error during a checkpoint never fakes or loses a commit',
         statement='When a write or sync fails with an error, the operation reports it, what was checkpointed before remains readable, and repeating the checkpoint either reports an error again or really makes the data durable.',
         over=['fault schedules', 'histories'], qtext='every placement of one failing write or sync in all sequences of writes and checkpoints within the bounds',
         why='Tests inject no I/O error in the middle of a checkpoint.',
         files=J, mech=[('state updates around file writes', S + 'Writable_Journal.cpp: soft_checkpoint_at, hard_checkpoint_at')],
         note='3 transactions (4 in thorough runs), one fault',
         runs=[run('j_crash.cpp', 'io_error', params={'steps': 3}, time=40, thorough={'params': {'steps': 4}, 'time': 300})])
    prop('C04', title='Recovery from an aborted transaction keeps committed data and leaves no ghost',
         statement='Opening a file that has an uncheckpointed tail fails by default. With the overwrite option it succeeds, keeps every checkpointed transaction, and whatever is then written and checkpointed replaces the tail: nothing of the aborted transaction reappears.',
         over=['crash points', 'histories'], qtext='every crash point, then recovery and new transactions of any length relative to the aborted tail',
         why='Tests check one or two file images.',
         files=J, mech=[('recovery modes', S + 'Writable_Journal.cpp: Writable_Journal'), ('stale checkpoints', S + 'Readonly_Journal.cpp: read_checkpoint')],
         note='3 transactions before the crash, 2 after',
         runs=[run('j_crash.cpp', 'recovery', params={'steps': 3}, time=40, thorough={'params': {'steps': 4}, 'time': 300})])
    L = [S + 'Writable_Journal.cpp', S + 'Readonly_Journal.cpp', S + 'Journal_Construction_Lock.cpp', C + 'Writable_Client.h', C + 'Readonly_Database_Client.h']
    prop('S01', title='Readers of a shared file see whole transactions, in commit order',
         statement='While another process writes, a process that opens the same file for reading succeeds, and each pull shows exactly a prefix of the committed transactions: never part of one, never going back, never an uncommitted value.',
         over=['schedules', 'inputs'], qtext='all interleavings of the file operations of a writer and a reader with at most 2 preemptions, symbolic transaction contents, soft and hard checkpoints',
         why='Tests run on one thread or rely on whatever interleaving happens.',
         files=L, mech=[('reading the header under lock', S + 'Readonly_Journal.cpp: pull'), ('size and header read when opening', S + 'Journal_Construction_Lock.cpp')],
         note='2 transactions, 2 pulls, 3 preemptions (3 transactions and 4 preemptions in thorough runs)',
         runs=[run('s_share.cpp', 'read_while_writing', preempt=3, time=40, reach=['end', 'read'], thorough={'params': {'transactions': 3, 'pulls': 3}, 'preempt': 4, 'time': 300}),
               run('s_share.cpp', 'counter', params={'watch': 1}, preempt=2, time=40, thorough={'params': {'watch': 1, 'transactions': 3}, 'preempt': 3, 'time': 300}, what='through database clients')])
    prop('S02', title='Concurrent writers of a shared file never lose a transaction',
         statement='When several processes run transactions on one shared file, each transaction sees the effects of all those committed before it, and the final file contains every committed transaction exactly once in commit order. A read-modify-write is never lost, and an operation means the same whatever others wrote before it.',
         over=['schedules', 'inputs'], qtext='all interleavings of two writers with at most 2 preemptions, symbolic contents, soft and hard checkpoints, with or without concurrent creation of the file',
         why='Tests interleave clients by hand at transaction granularity.',
         files=L, mech=[('tail lock around a transaction', C + 'Writable_Client.h: transaction'), ('pulling under the lock', S + 'Writable_Journal.cpp: lock_pull')],
         note='2 writers of 2 transactions each, 2 preemptions (3 in thorough runs)',
         runs=[run('s_share.cpp', 'two_writers', params={'create': 1}, preempt=3, time=40, thorough={'preempt': 3, 'time': 300}),
               run('s_share.cpp', 'counter', preempt=3, time=40, thorough={'preempt': 3, 'time': 300}, what='read-modify-write through database clients'),
               run('s_share.cpp', 'take_turns', params={'turns': 3, 'min_table': 1, 'max_table': 2, 'max_field': 1, 'rec_bits': 2}, time=40, thorough={'params': {'turns': 4, 'ops': 3, 'min_table': 1, 'max_table': 2, 'max_field': 1, 'rec_bits': 2}, 'time': 300}, what='records and values written by turns')])
    prop('S03', title='Concurrent creation of a shared database is safe',
         statement='Several processes may open a shared file that does not exist yet at the same time: exactly one initialises it and no committed transaction is overwritten.',
         over=['schedules'], qtext='all interleavings of two processes that open an empty file and run transactions, with at most 2 preemptions',
         why='A race that tests hit only by luck.',
         files=L, mech=[('locking before looking at the file', S + 'Journal_Construction_Lock.cpp'), ('header creation', S + 'Writable_Journal.cpp: Writable_Journal')],
         note='2 writers, 2 transactions each, 2 preemptions (4 in thorough runs)',
         runs=[run('s_share.cpp', 'two_writers', params={'create': 0}, preempt=2, time=40, thorough={'preempt': 4, 'time': 300}),
               run('s_share.cpp', 'read_while_writing', params={'create': 0}, preempt=2, time=40, reach=['end', 'read', 'nothing to read'], thorough={'preempt': 4, 'time': 300})])
    prop('S04', title='A transaction that throws leaves the shared file intact and unlocked',
         statement='When a transaction on a shared file throws, the exception reaches the caller, no lock stays behind, nothing of the transaction becomes visible to anyone, and neither retrying nor closing the aborted client ever damages transactions that other processes commit meanwhile.',
         over=['schedules', 'fault schedules'], qtext='all interleavings of an aborting process (aborting after any number of operations, flushed or not, retrying or not) and a committing process with at most 2 preemptions',
         why='Tests abort transactions in one process only.',
         files=L + [S + 'File_Buffer.h'], mech=[('unlocking on exceptions', C + 'Writable_Client.h: transaction'), ('data left in the buffer', S + 'Writable_Journal.cpp: ~Writable_Journal')],
         note='2 processes, 2 preemptions (3 in thorough runs)',
         runs=[run('s_share.cpp', 'abort_transaction', preempt=2, time=60, reach=['end', 'refused after abort', 'aborted tail'], thorough={'params': {'ops': 4}, 'preempt': 3, 'time': 400})])
