def define(prop, run):
    C = 'src/joedb/concurrency/'
    SERVER = [C + 'Server.cpp', C + 'Server.h', 'src/joedb/asio/Server.cpp', 'src/joedb/asio/Server.h']
    CLIENT = [C + 'Server_Connection.cpp', C + 'Server_Client.cpp', C + 'Robust_Connection.cpp', C + 'Keep_Alive_Thread.h', C + 'Channel.h']
    asio = 'boost::asio is replaced by a model: one thread, completions in the order in which operations end, an expired timer may be delivered after its cancellation, log texts not examined'
    prop('N01', title='The server publishes exactly the pushes it accepts, in order, as it answers',
         statement='Whatever several clients send at whatever pace, the history of the server is the sequence of the pushes it accepted, each of them contiguous, unchanged and published once; a push that conflicts with the history, or that its sender never finished, changes nothing. Every reply tells the truth: a pull is answered with committed data only, from the requested position, a read with the right bytes, a check of a hash with the right verdict.',
         over=['schedules', 'histories', 'inputs'], qtext='every sequence of whole, split and interrupted requests of two or three clients within the bound, and every interleaving of the requests with the handlers of the server',
         why='Tests send requests one after another, each of them complete, and wait for every reply.',
         files=SERVER, mech=[('sessions', C + 'Server.cpp')], assumptions=[asio],
         note='2 or 3 clients, histories of 2 to 4 protocol steps against a model of the protocol; 1 or 2 rounds of requests in flight together',
         runs=[run('n_server.cpp', 'protocol', params={'steps': 3, 'kinds': 0x3fff, 'timeout': 1, 'hashes': 1}, time=60, reach=['end'], what='any kind of request', thorough={'params': {'steps': 4, 'kinds': 0x3fff, 'timeout': 1, 'hashes': 1}, 'time': 300}),
               run('n_server.cpp', 'protocol', params={'steps': 2, 'kinds': 0x7fff, 'timeout': 1, 'hashes': 1}, time=30, reach=['end'], what='any kind of request, with disconnection'),
               run('n_server.cpp', 'races', params={'rounds': 2}, time=60, reach=['end', 'push', 'conflict'], what='requests in flight together', thorough={'params': {'rounds': 2, 'clients': 3, 'gap': 2}, 'time': 300})])
    prop('N02', title='The server lock is exclusive and is always handed on',
         statement='At most one client holds the server lock at any time, and waiting clients get it in the order of their requests. It is handed on when its holder unlocks, pushes with unlock, disconnects, even in the middle of a request, or exceeds the timeout, and only then; a client whose lock expired cannot push unless the push does not conflict.',
         over=['schedules', 'histories'], qtext='every sequence of locking, unlocking, pushing, disconnecting and expiring timers of two or three clients within the bound, and every interleaving with the handlers of the server',
         why='Tests have two clients at most compete for the lock, at moments fixed by the test.',
         files=SERVER, mech=[('lock queue', C + 'Server.cpp: lock, unlock'), ('timeout', C + 'Server.cpp: refresh_lock_timeout')], assumptions=[asio],
         note='2 clients and 4 steps, 3 clients and 4 steps, 1 or 2 rounds of requests in flight together with expiring timers',
         runs=[run('n_server.cpp', 'protocol', params={'steps': 4, 'kinds': 4189, 'timeout': 1}, time=100, reach=['end'], what='two clients', thorough={'params': {'steps': 5, 'kinds': 4189, 'timeout': 1}, 'time': 300}),
               run('n_server.cpp', 'protocol', params={'clients': 3, 'steps': 4, 'kinds': 4117, 'timeout': 1}, time=60, reach=['end'], what='three clients', thorough={'params': {'clients': 3, 'steps': 5, 'kinds': 4117, 'timeout': 1}, 'time': 300}),
               run('n_server.cpp', 'races', params={'rounds': 1, 'clients': 3, 'queue': 1}, time=40, reach=['end', 'push'], what='a request that arrives while the lock passes from its holder to a waiting client', thorough={'params': {'rounds': 2, 'clients': 3, 'queue': 1, 'gap': 2}, 'time': 300}),
               run('n_server.cpp', 'races', params={'rounds': 1, 'clients': 3, 'queue': 1, 'timeout': 1}, time=40, reach=['end', 'expired'], what='a request that arrives while the lock passes on, expiring timers'),
               run('n_server.cpp', 'races', params={'rounds': 1, 'clients': 3, 'timeout': 1}, time=60, reach=['end', 'expired'], what='three requests in flight together, expiring timers'),
               run('n_server.cpp', 'races', params={'rounds': 2, 'timeout': 1, 'gap': 2}, time=60, reach=['end', 'expired'], what='two rounds of requests, expiring timers', thorough={'params': {'rounds': 2, 'timeout': 1, 'gap': 3}, 'time': 300})])
    prop('N03', title='A broken or slow link never loses, repeats or tears a transaction',
         statement='Whatever moment a link between a client and the server breaks at, inside or between requests and replies, and however data is fragmented on the way, every transaction that a client completed without error is in the history of the server once and whole, and nothing else is, except possibly the one whose reply was lost. Other clients and new connections go on working, and a connection made to be robust reconnects and completes the work unless someone else has conflicted, and refuses a server that came back with another history.',
         over=['fault schedules', 'histories'], qtext='every position of a break in every sequence of connections, transactions, pulls, pushes and disconnections of two clients within the bound, and every placement of short reads and writes',
         why='Tests break no link in the middle of a message, and local sockets do not fragment.',
         files=CLIENT + SERVER, mech=[('reconnection', C + 'Robust_Connection.cpp'), ('requests', C + 'Server_Connection.cpp'), ('cleaning up after a session', C + 'Server.cpp')], assumptions=[asio],
         note='2 clients, histories of 3 or 4 actions, 1 break and 2 short transfers',
         runs=[run('n_link.cpp', 'broken_link', params={'steps': 4}, time=60, reach=['end', 'cut'], what='broken links', thorough={'params': {'steps': 4, 'faults': 2}, 'time': 300}),
               run('n_link.cpp', 'broken_link', params={'steps': 4, 'symbolic': 1}, time=30, reach=['end', 'cut'], what='broken links, symbolic data'),
               run('n_link.cpp', 'broken_link', params={'steps': 3, 'faults': 0, 'fragments': 2, 'symbolic': 1}, time=30, reach=['end'], what='fragmented transfers'),
               run('n_link.cpp', 'broken_link', params={'steps': 2, 'faults': 1, 'fragments': 2, 'symbolic': 1}, time=30, reach=['end', 'cut'], what='fragmented transfers and broken links'),
               run('n_link.cpp', 'broken_link', params={'steps': 3, 'robust': 1}, time=60, reach=['end', 'cut'], what='robust connections'),
               run('n_link.cpp', 'robust', params={'steps': 2}, time=30, reach=['end', 'cut', 'conflict with another client', 'conflict with its own push'], what='reconnection', thorough={'params': {'steps': 2, 'faults': 2, 'intruders': 2}, 'time': 300}),
               run('n_link.cpp', 'restart', time=30, reach=['end', 'diverged', 'resumed'], what='a server that comes back with the same, a shorter, a longer or a diverging history')])
    prop('N04', title='A peer that sends arbitrary bytes can harm neither server nor client',
         statement='Whatever bytes a client sends to a server, the server reads and writes no memory out of bounds, keeps its committed history intact, leaves the other clients able to work, and publishes nothing but well-formed pushes. Whatever bytes a server sends to a client, the client reports an error or ends with a valid local file that still holds what was committed in it.',
         over=['inputs'], qtext='every greeting and every request header with symbolic content; every reply of up to 54 bytes to every kind of request',
         why='Tests only speak the protocol correctly.',
         files=CLIENT + SERVER, mech=[('decoding of requests', C + 'Server.cpp'), ('decoding of replies', C + 'Server_Client.cpp, ' + C + 'Server_Connection.cpp')], assumptions=[asio],
         note='1 symbolic request (2 in thorough runs) after a symbolic or correct greeting; replies of 54 symbolic bytes',
         runs=[run('n_server.cpp', 'hostile', time=60, reach=['end', 'greeting', 'bad greeting', 'accepted'], what='hostile client', thorough={'params': {'requests': 2}, 'time': 400}),
               run('n_link.cpp', 'liar', time=60, reach=['end', 'believed', 'connected'], what='lying server')])
    prop('N05', title='Keep-alive pings never disturb the requests of the client',
         statement='A connection with a keep-alive interval gives the same results as one without, whatever moments its pings are sent at: reads return the right data, transactions are committed whole, conflicts are found, and closing the connection ends the pings without waiting for ever.',
         over=['schedules'], qtext='every interleaving of the keep-alive thread with connecting, reading, pulling, running a transaction, locking, checking a history and disconnecting, within the bound',
         why='Pings are sent seconds apart, so that tests almost never see one between two requests.',
         files=CLIENT, mech=[('the thread', C + 'Keep_Alive_Thread.h'), ('requests under the channel lock', C + 'Server_Connection.cpp')], assumptions=[asio, 'the keep-alive thread sends a bounded number of pings'],
         note='16 (20) requests in all, pings included, 4 (6) preemptions',
         runs=[run('n_link.cpp', 'keep_alive', params={'requests': 16}, preempt=4, time=60, reach=['end'], what='a client of the server', thorough={'params': {'requests': 20}, 'preempt': 6, 'time': 300})])
    prop('N06', title='A file that stays on the server is read and written like a local copy',
         statement='A client that opens the file of the server directly reads exactly the committed bytes, in and out of transactions, whatever others commit meanwhile and however the link fragments or breaks. What it writes can be read back before and after it is pushed, and is published once and whole, or not at all.',
         over=['histories', 'fault schedules', 'inputs'], qtext='every sequence of opening, transactions, pulls, reads, several pushes under one lock and commits of others within the bound; every placement of a break or of short transfers',
         why='Tests open such a file alone, over a local socket that does not fragment.',
         files=[C + 'Server_File.cpp', C + 'Server_File.h', C + 'Server_Connection.cpp', C + 'Robust_Connection.cpp'], mech=[('head, body and tail', C + 'Server_File.cpp'), ('reading from the server', C + 'Server_Connection.cpp: pread')], assumptions=[asio],
         note='one such client and one ordinary client, 2 or 3 actions, 1 break or 1 short transfer, blobs of 3 bytes',
         runs=[run('n_link.cpp', 'remote_file', params={'steps': 2}, time=60, reach=['end', 'cut'], what='broken links', thorough={'params': {'steps': 3}, 'time': 400}),
               run('n_link.cpp', 'remote_file', params={'steps': 3, 'faults': 0, 'symbolic': 1}, time=60, reach=['end'], what='any data', thorough={'params': {'steps': 4, 'faults': 0, 'symbolic': 1}, 'time': 300}),
               run('n_link.cpp', 'remote_file', params={'steps': 2, 'faults': 0, 'fragments': 1, 'symbolic': 1}, time=60, reach=['end'], what='fragmented transfers', thorough={'params': {'steps': 3, 'faults': 0, 'fragments': 1}, 'time': 300}),
               run('n_link.cpp', 'remote_file', params={'steps': 1, 'faults': 0, 'fragments': 2, 'symbolic': 1}, time=30, reach=['end'], what='transfers in several fragments', thorough={'params': {'steps': 1, 'faults': 0, 'fragments': 3, 'symbolic': 1}, 'time': 200})])
    R = 'src/joedb/rpc/'
    prop('N07', title='A remote procedure call gives what a local call gives',
         statement='A procedure called through joedb::rpc leaves the message, the database of the service and the caller, values or exception, exactly as the same procedure called locally, whatever the sizes of request and reply and however the link fragments them or keep-alive pings fall. A call that fails leaves the message ready to be sent again, a procedure runs once and whole or not at all, and bytes sent by a hostile client or server make neither peer touch memory out of bounds.',
         over=['inputs', 'histories', 'fault schedules'], qtext='every sequence of calls of two clients within the bound with arbitrary values and strings; every break of the link; every request header and every reply of up to 12 bytes',
         why='Tests make a few calls with fixed values over a link that never breaks.',
         files=[R + 'Client.h', R + 'Server.h', R + 'get_hash.cpp', 'src/joedb/compiler/generator/Procedure_h.cpp', 'src/joedb/compiler/generator/RPC_Client_h.cpp', 'src/joedb/asio/Server.cpp'],
         mech=[('calls', R + 'Client.h: call'), ('sessions', R + 'Server.h: Session'), ('generated stubs', 'src/joedb/compiler/generator/RPC_Client_h.cpp')], assumptions=[asio, 'messages and replies of enormous announced size, for which memory runs out, are not explored'],
         note='2 clients, 3 (4) calls; replies around the size of the buffer of the server; 1 break; 1 symbolic header',
         runs=[run('r_rpc.cpp', 'calls', params={'steps': 3}, time=60, reach=['end', 'error', 'returned'], what='calls', thorough={'params': {'steps': 4}, 'time': 300}),
               run('r_rpc.cpp', 'calls', params={'steps': 2, 'fragments': 1}, time=60, reach=['end', 'error', 'returned'], what='fragmented transfers', thorough={'params': {'steps': 2, 'fragments': 2}, 'time': 200}),
               run('r_rpc.cpp', 'calls', params={'steps': 1, 'callers': 1, 'padding': 8170, 'spread': 20, 'items': 1}, time=60, reach=['end', 'error', 'returned'], what='replies around the size of the buffer', thorough={'params': {'steps': 2, 'callers': 1, 'padding': 8000, 'spread': 200, 'items': 1}, 'time': 200}),
               run('r_rpc.cpp', 'calls', params={'steps': 1, 'callers': 1, 'padding': 16350, 'spread': 30, 'items': 1}, time=40, reach=['end', 'error', 'returned'], what='replies around twice the size of the buffer'),
               run('r_rpc.cpp', 'broken_calls', params={'steps': 2}, time=60, reach=['end', 'cut', 'retry'], what='broken links', thorough={'params': {'steps': 3}, 'time': 100}),
               run('r_rpc.cpp', 'pinged_calls', params={'requests': 14}, preempt=6, time=60, reach=['end'], what='keep-alive pings', thorough={'params': {'requests': 18}, 'preempt': 8, 'time': 200}),
               run('r_rpc.cpp', 'hostile_call', params={'byte': 1}, time=100, reach=['end', 'sent', 'answered'], what='hostile client'),
               run('r_rpc.cpp', 'lying_server', params={'budget': 12}, time=60, reach=['end', 'believed', 'refused'], what='lying server', thorough={'params': {'budget': 14}, 'time': 300})])
