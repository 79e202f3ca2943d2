def define(prop, run):
    C = 'src/joedb/concurrency/'
    F = [C + 'Client.h', C + 'Writable_Client.h', C + 'Connection.h', C + 'Connection.cpp', C + 'Readonly_Client.h', C + 'Writable_Journal_Client.h']
    off = 'Tests drive a few hand-written scenarios of one or two clients.'
    prop('T01', title='An aborted client transaction leaves no trace and disables the client',
         statement='When a transaction run through a client throws, the exception reaches the caller, nothing of the transaction reaches the server or later transactions, the server lock is released so that other clients can go on, and the client refuses further transactions until it is reopened. Reopening with the recovery option restores the last committed state.',
         over=['histories', 'fault schedules'], qtext='every sequence of connections, disconnections, local and remote transactions, pulls and aborted transactions of two clients of one server within the bound',
         why=off, files=F, mech=[('transaction guard', C + 'Writable_Client.h: transaction'), ('unlocking', C + 'Connection.h')],
         note='2 clients, histories of 4 (5 in thorough runs) actions',
         runs=[run('t_client.cpp', 'sync', params={'steps': 4, 'actions': 7}, time=60, reach=['end', 'diverged', 'recovered', 'nothing to undo'], thorough={'params': {'steps': 5, 'actions': 7}, 'time': 400})])
    prop('T02', title='A transaction through a connection is on the server when it returns',
         statement='A client that runs a transaction through its connection first receives everything other clients committed, and when the transaction returns the server holds it. A pull makes the local copy a prefix of the server history, and every synchronised local copy agrees byte for byte with the server.',
         over=['histories'], qtext='every sequence of connections, disconnections, local and remote transactions and pulls of two clients of one server within the bound',
         why=off, files=F, mech=[('pull, run, push under the server lock', C + 'Writable_Client.h: transaction'), ('pushing', C + 'Client.h: push_if_ahead')],
         note='2 clients, histories of 6 (7 in thorough runs) actions',
         runs=[run('t_client.cpp', 'sync', params={'steps': 6, 'actions': 6}, time=100, reach=['end', 'diverged', 'refused'], thorough={'params': {'steps': 7, 'actions': 6}, 'time': 600})])
    prop('T03', title='Diverging histories are refused, never silently merged',
         statement='The server never loses or rewrites a committed transaction, whatever clients do. A client holding offline changes that conflict with what was committed on the server gets an error when it connects or synchronises: neither copy is mixed with pieces of the other. A client that merely lags behind, or merely leads, synchronises.',
         over=['histories', 'inputs'], qtext='every pair of local and server histories of the bound and every content check mode; every sequence of actions of two clients within the bound',
         why=off, files=F, mech=[('content check', C + 'Client.h'), ('refusing to pull over unpushed changes', C + 'Writable_Client.h: pull_connection'), ('refusing gaps', 'src/joedb/journal/Writable_Journal.cpp: pull_from')],
         note='2 clients, histories of 5 (6) actions; the content check modes on symbolic histories',
         runs=[run('t_client.cpp', 'sync', params={'steps': 5, 'actions': 6}, time=60, reach=['end', 'diverged', 'refused'], thorough={'params': {'steps': 6, 'actions': 7}, 'time': 600}),
               run('t_client.cpp', 'handshake', time=30, what='content check of every pair of histories'),
               run('n_check.cpp', 'network_check', time=30, reach=['end', 'match', 'mismatch'], what='content check over the network, with stand-ins for the hash functions')])
    prop('T04', title='Pushing from a read-only client sends committed data only',
         statement='A read-only client that follows a file written by another process and pushes it to a backup server sends only checkpointed data: after every push the server is a prefix of the committed history of the source, and ends at a transaction boundary.',
         over=['schedules', 'histories'], qtext='every sequence of writes, soft and hard checkpoints by the source and pulls and pushes by the client within the bound',
         why='Tests push a file that does not change.', files=[C + 'Readonly_Client.h', C + 'Client.h', 'src/joedb/journal/Writable_Journal.cpp'],
         mech=[('pushing up to the checkpoint', C + 'Client.h: push_if_ahead')],
         note='5 (6) actions',
         runs=[run('t_client.cpp', 'push_growing', params={'steps': 5}, time=40, reach=['end', 'connected'], thorough={'params': {'steps': 6}, 'time': 300})])
    prop('T05', title='A client never leaves a lock behind, whatever fails',
         statement='After a transaction, a pull or a lock object of a client, neither the server nor the local file is left locked, whatever failed on the way: the function of the user, an access to the local file, a request to the server, or replaying what was received. The failure reaches the caller, and what did not fail is on the server.',
         over=['fault schedules', 'histories'], qtext='every access to the file or the server as the one that fails, every way of writing, every kind of news on the server',
         why='Tests make the transaction function throw, and nothing else.', files=[C + 'Writable_Client.h', C + 'Writable_Journal_Client.h', C + 'Writable_Database_Client.h', 'src/joedb/journal/Writable_Journal.cpp'],
         mech=[('unlocking when a transaction cannot start', C + 'Writable_Client.h: start_transaction'), ('lock objects', C + 'Writable_Client.h: Client_Lock')],
         note='one failure per transaction; journal and database clients; shared and private files',
         runs=[run('t_locks.cpp', 'journal_locks', time=60, reach=['end', 'failed', 'succeeded', 'fault'], what='clients of a journal'),
               run('t_locks.cpp', 'database_locks', time=60, reach=['end', 'failed', 'succeeded', 'fault'], what='clients of a database')])
    G = 'src/joedb/compiler/generator/'
    prop('T06', title='Tables and indexes of compiled clients follow the shared history',
         statement='After any transaction or pull that succeeds, the tables and indexes of a client compiled by joedbc are exactly those of the committed history of the server. A transaction that violates a unique index, throws, or meets a schema that the client was not compiled for leaves the server as it was, a client with half a transaction refuses to go on, and a compiled reader of a shared file shows exactly what was committed when it last pulled.',
         over=['histories', 'inputs'], qtext='every sequence of valid, duplicate and aborted transactions, pulls and foreign schema changes of two compiled clients within the bound, with arbitrary values',
         why='Tests run a few scenarios with fixed values.', files=[G + 'Client_h.cpp', G + 'Readonly_Client_h.cpp', C + 'Writable_Client.h'],
         mech=[('replaying what was pulled', G + 'Client_h.cpp: read_journal'), ('refusing foreign schemas', G + 'Readonly_Client_h.cpp: read_journal')],
         note='2 clients and 3 (4) actions; a writer and a reader and 4 (5) actions; strings of 1 byte',
         runs=[run('d_client.cpp', 'clients', params={'steps': 3}, time=60, reach=['end', 'aborted', 'duplicate', 'upgraded'], what='clients of a server', thorough={'params': {'steps': 4}, 'time': 400}),
               run('d_client.cpp', 'reader', params={'steps': 4}, time=30, reach=['end', 'upgraded'], what='a reader of a shared file', thorough={'params': {'steps': 5}, 'time': 200})])
