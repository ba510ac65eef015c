import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=[],obs=[]):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=state,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)))
pg='pkg/pg/'
msgs=[pg+x for x in ['authentication_request_message.go','backend_key_data_message.go','command_complete_message.go','data_row_message.go','empty_query_response_message.go','error_response_message.go','generic_message.go','negotiate_protocol_version_message.go','notice_response_message.go','parameter_status_message.go','password_message.go','query_message.go','ready_for_query_message.go','row_description_message.go','startup_message.go','terminate_message.go']]
p('C01','Every message serialises to its exact PostgreSQL v3 wire layout',
 'Serialising any protocol message that fits the wire limits (strings without NUL bytes, counts within 16/32 bits, total length within a signed 32-bit integer) yields exactly the byte layout of the PostgreSQL v3 protocol: the right type byte (none for a startup message), a big-endian length that counts itself and the body, then the fields in protocol order, with NUL-terminated strings, big-endian integers, NULL values encoded as length -1, and list terminators where the protocol has them.',
 ['inputs'],'every value of each of the 23 message types, with any number of fields, rows and parameters, and any contents within the wire limits',
 'the tests serialise one golden message per type; field order, length arithmetic and terminators for other counts (0, many), empty and NULL values, and extreme integers are not reached',
 msgs+[pg+'standard_frame.go',pg+'startup_frame.go',pg+'write_buffer.go'],
 [('Frame methods','pkg/pg/*_message.go'),('NewStandardFrame / NewStartupFrame','pkg/pg/standard_frame.go, startup_frame.go')],obs=['bytes of the frame returned by Frame()'])
p('C02','Parsing a serialised message gives back the same message',
 'For every protocol message that fits the wire limits, parsing the frame that the message serialises to succeeds and yields a message equal to the original in every field, including the order and number of rows, fields and parameters and the distinction between NULL and empty values.',
 ['inputs'],'every value of each message type within the wire limits',
 'the tests parse one golden frame per type and never a frame with other counts or edge values; no test checks the composition of the two directions',
 msgs+[pg+'read_buffer.go'],[('Parse functions','pkg/pg/*_message.go'),('ReadBuffer','pkg/pg/read_buffer.go')],obs=['result of Parse*Message'])
p('C03','An accepted frame is reproduced byte for byte',
 'Whenever a parser accepts a frame received from the network, serialising the resulting message yields exactly the bytes of that frame: no byte is dropped, added, reordered or changed. A frame with a message type other than the one the parser is for, with missing bytes, or with bytes left over after its last field is rejected with an error rather than parsed approximately.',
 ['inputs'],'every byte string that can arrive in a frame, for each of the message parsers',
 'the tests feed each parser a single well-formed frame; truncated, padded, mistyped and otherwise odd frames form an unbounded set none of which is tried',
 msgs+[pg+'standard_frame.go',pg+'read_buffer.go'],[('Parse functions and their trailing-bytes checks','pkg/pg/*_message.go')],obs=['result of Parse*Message, bytes of Frame()'])
p('C04','Malformed network input never crashes the proxy or exhausts memory',
 'No sequence of bytes sent by a client or a database can make receiving or parsing a message panic or loop forever without consuming input: malformed input is reported as an error. The memory allocated up front for a message is bounded by a small constant plus a small multiple of the bytes actually received, whatever lengths and counts the input claims.',
 ['inputs'],'every byte string on the wire, including negative, zero and huge length and count fields',
 'tests only contain well-formed packets; a single unlucky length field is enough and the set of inputs is unbounded',
 msgs+[pg+'standard_frame.go',pg+'startup_frame.go',pg+'read_buffer.go',pg+'conn.go'],[('bounds checks','pkg/pg/read_buffer.go ReadBytes'),('length and count validation','pkg/pg/*_frame.go, data_row_message.go, row_description_message.go, negotiate_protocol_version_message.go')],obs=['panics, errors, allocation sizes'])
p('C05','Reading a frame consumes exactly that frame from the stream',
 'Reading a frame from a byte stream returns exactly the header and body announced by its length field and leaves the stream positioned at the first byte after it, so consecutive frames are never merged, split or shifted, however the stream is chunked. A length field below 4 and a stream that ends before the announced end are errors, and no partial frame is ever returned as a success.',
 ['inputs','histories'],'every byte stream, every length field, any number of consecutive frames, any chunking and any truncation point',
 'the tests read one frame of 5 payload bytes from a buffer that holds nothing else',
 [pg+'standard_frame.go',pg+'startup_frame.go',pg+'conn.go'],[('ReadStandardFrame / ReadStartupFrame','pkg/pg/standard_frame.go, startup_frame.go')],obs=['returned frame, remaining stream'])
p('C06','Each received message is interpreted by the right parser for its sender',
 'A well-formed backend message of a type the proxy understands is received as a message of that type with the fields the sender encoded, and every other well-formed message (in particular any client message other than a query or a termination, and authentication requests of unknown kind) is received as an opaque message with its type and body untouched. Sending a message writes exactly its serialised bytes once and reports the write error if there is one.',
 ['inputs'],'every type byte and every well-formed body, for messages received from a client and from a database',
 'the only receive test uses one opaque message of an unused type; no understood type goes through the receive path',
 [pg+'conn.go']+msgs,[('RecvMessage, RecvFrontendMessage, RecvStartupMessage, SendMessage, SendByte','pkg/pg/conn.go')],obs=['dynamic type and fields of the received message; bytes written to the connection'])
p('C07','Buffer reads are exact and all-or-nothing',
 'Every read operation of the protocol read buffer either succeeds, returning the value encoded big-endian (or NUL-terminated) in exactly the next bytes and advancing over exactly those bytes, or fails with an error without advancing at all. It fails exactly when the buffer does not hold enough bytes (or no terminator, or the requested count is negative).',
 ['inputs','histories'],'every buffer content, every requested count, every sequence of reads',
 'tests sample one success and one failure per operation on a fixed buffer',
 [pg+'read_buffer.go'],[('ReadBuffer methods','pkg/pg/read_buffer.go')],obs=['returned value, remaining buffer'])
p('C08','Buffer writes append exactly the encoding and nothing else',
 'Every write operation of the protocol write buffer leaves the bytes already written untouched and appends exactly the protocol encoding of its argument: two\'s complement big-endian integers of the right width, raw bytes, a string followed by a single NUL, or the concatenation of the element encodings for arrays.',
 ['inputs','histories'],'every prior content, every argument, every sequence of writes',
 'tests check a handful of values against an empty or short buffer',
 [pg+'write_buffer.go'],[('WriteBuffer methods','pkg/pg/write_buffer.go')],obs=['buffer contents'])
p('C09','Startup parameters are found by name, first occurrence first',
 'Looking up a startup parameter returns the value of the first parameter with exactly that name, or an empty string when there is none, for any list of parameters with any order and duplicates. Looking up never changes the message.',
 ['inputs'],'every parameter list and every name','the test looks up three names in a list without duplicates',
 [pg+'startup_message.go'],[('GetParameter','pkg/pg/startup_message.go')],obs=['GetParameter result'])
srv='pkg/server/'
p('C10','The proxy relays every message unchanged, in order, to the right party',
 'In an established session, the messages sent to the database are exactly the messages received from the client, each once, in order and byte for byte, and likewise from the database to the client; nothing is ever sent to the party it came from, and one direction never waits for the other. What has been received when a party hangs up is still handed to the other party.',
 ['inputs','schedules','histories'],'every pair of message streams and every interleaving of the session goroutines',
 'no test runs a session between a client and a database at all',
 [srv+'session.go',pg+'conn.go'],[('in pumps, processing, out pumps','pkg/server/session.go')],
 state=[dict(name='clientIn, clientOut, dbIn, dbOut',meaning='queues between session goroutines',where='pkg/server/session.go')],obs=['bytes written to both connections'])
p('C11','A client only reaches the configured database',
 'The proxy opens a connection to the database for a client only after the client sent a startup message with protocol version 3.0 in which every database parameter equals the configured database and there is at least one (an absent one counts as empty). The connection goes to the configured host and port, and the first thing sent over it is the client\'s startup message, unchanged; in every other case no connection is opened and the session ends with an error.',
 ['inputs','histories','configurations'],'every sequence of startup packets from a client and every configuration',
 'no test gets past accepting the client connection',
 [srv+'session.go',pg+'startup_message.go'],[('negotiateSessionParams, establishDBConnection, getDBConnnectionParam','pkg/server/session.go')],obs=['dialled address, bytes sent to the database'])
p('C12','SSL requests are declined with a single N and negotiation goes on',
 'Each SSL request a client sends before its startup message is answered with exactly one byte N, nothing else is ever written to the client before the database connection is established, and negotiation then continues with the next packet. Any number of such requests is handled without growing memory or stack.',
 ['inputs','histories'],'any number of SSL requests followed by any packet, with write and read failures at any point',
 'no test negotiates a session',
 [srv+'session.go',pg+'conn.go'],[('negotiateSessionParams','pkg/server/session.go')],obs=['bytes written to the client'])
p('C13','A session that ends releases everything and never crashes the proxy',
 'When the client or the database hangs up, fails or sends a malformed message, or when the session is closed, both network connections get closed, also one that is being established at that moment, and every goroutine of the session is woken up. No interleaving of closing with message traffic makes the process panic (by sending on or closing a closed channel), and the outcome of the session is reported to its caller as an error.',
 ['schedules','fault_sequences','histories'],'every interleaving of traffic, hang-ups, network errors and closing',
 'no test ends a session other than by closing a server whose client never spoke',
 [srv+'session.go'],[('Close, Start, setDBConn, pumps','pkg/server/session.go')],state=[dict(name='closed',meaning='fired once the session is closed',where='pkg/server/session.go')],obs=['connections closed, goroutines, panics'])
p('C14','Reading the configuration gives the current one',
 'Asking the configuration store for the configuration returns the most recently received one, waiting for the first one if there is none yet, and never returns a value that was not received from the source or no configuration without an error. After the store is closed it returns the closed error.',
 ['schedules','histories'],'every sequence of configuration updates, reads and closing, in any interleaving',
 'one test with two updates (excluded from the stable set because it races)',
 [srv+'config_distributor.go'],[('Get, waitForConfig, monitorConfig','pkg/server/config_distributor.go')],state=[dict(name='lastConfig',meaning='last received configuration',where='pkg/server/config_distributor.go')],obs=['Get result'])
p('C15','Configuration updates reach exactly the interested subscribers',
 'Each update received from the source is sent exactly once to each subscribed channel that has no checks or at least one check that accepts the pair of previous and new configuration, and to no other channel. Subscribing sends the current configuration, if there is one and the checks accept it as a change from nothing, and a channel that is unsubscribed gets nothing any more while the other subscriptions stay as they were.',
 ['inputs','histories','schedules'],'any set of subscriptions with any checks, any sequence of updates, subscriptions and cancellations',
 'the tests use at most two subscriptions, one check and three updates',
 [srv+'config_distributor.go'],[('Subscribe, Unsubscribe, notifySubscribersLocked, shouldSendUpdatedConfig','pkg/server/config_distributor.go')],state=[dict(name='subscriptions',meaning='subscribed channels with their checks',where='pkg/server/config_distributor.go')],obs=['sends to subscribed channels'])
p('C16','A closed configuration store stays closed',
 'Closing the configuration store, which also happens when its source is closed, cancels all subscriptions and makes every later read or subscription fail with the closed error, leaving no subscription behind. Closing it again has no effect, at most one goroutine ever consumes the source, and that goroutine stops once the store is closed.',
 ['histories','schedules'],'every history of subscriptions, updates and repeated closing',
 'tests close a store once and then call one method',
 [srv+'config_distributor.go',srv+'event.go'],[('Close, monitorConfig','pkg/server/config_distributor.go')],obs=['errors, subscriptions, goroutines'])
p('C17','A one-time event fires exactly once and stays fired',
 'Of any number of calls that fire an event, also concurrent ones, exactly one is told that it caused the firing and none panics; once one of them has returned, the event reports having fired for ever and its done channel is closed. Before the first call the event reports that it has not fired and its done channel is open.',
 ['schedules','histories'],'any number of calls in any interleaving',
 'the tests call it twice from a single goroutine',
 [srv+'event.go'],[('Fire, HasFired, Done','pkg/server/event.go')],state=[dict(name='fired, doneChan, fireOnce',meaning='event state',where='pkg/server/event.go')],obs=['results, done channel'])
p('C18','A server starts once and refuses to work after it is closed',
 'Starting a server a second time fails with the already-started error, and starting, serving a listener or serving a connection on a closed server fails with the closed error. A listener or a connection handed to a closed server is closed rather than leaked, and starting a server never returns success: once the server is closed it returns the closed error.',
 ['histories','schedules'],'every history of start, serve and close calls',
 'the tests call each once in a fixed order',
 [srv+'server.go',srv+'run.go'],[('Start, Serve, ServeConn','pkg/server/server.go')],obs=['returned errors, closed listeners and connections'])
p('C19','Closing a server closes its listener and all sessions, whatever races with it',
 'Closing a server closes the current listener and every registered session and waits for the goroutines of the server. A listener or session that arrives concurrently is either closed by this or refused and closed, so that none is left open; closing again does nothing and a session that ended is no longer tracked.',
 ['schedules','histories'],'every interleaving of closing with accepting connections, changing listeners and ending sessions',
 'the tests close a server with one idle session and nothing happening concurrently',
 [srv+'server.go'],[('Close, changeListener, registerSession, removeSession','pkg/server/server.go')],state=[dict(name='listener, sessions',meaning='open resources of the server',where='pkg/server/server.go')],obs=['listener and sessions after Close'])
p('C20','The listener follows the configured address',
 'The server listens on the address of the first configuration, and whenever the configured listen address changes it listens on the new one and closes the previous listener; a change that leaves the address alone does not touch the listener. If it cannot listen on the new address the existing listener keeps serving.',
 ['histories','configurations'],'every sequence of configuration updates',
 'the test makes one successful change of address',
 [srv+'server.go',srv+'config_distributor.go'],[('Start, changeListener','pkg/server/server.go')],obs=['addresses listened on, listeners closed'])
p('C21','Every accepted connection is served, and accepting survives temporary errors',
 'Each connection accepted from a listener is served by its own goroutine exactly once, while accepting goes on. A temporary error from the listener does not stop accepting, and any other error stops it and is returned to the caller.',
 ['histories','fault_sequences'],'every sequence of accepted connections and accept errors',
 'the test accepts a single connection and then closes the listener',
 [srv+'server.go'],[('Serve, do','pkg/server/server.go')],obs=['served connections, result of Serve'])
cli='pkg/cli/'
p('C22','The exit code tells whether the proxy could run',
 'The command exits with 0 without starting the server when help or the version is requested, exits with 1 without starting the server when the arguments are invalid or the configuration cannot be loaded or watched, and otherwise starts the server exactly once with the loaded configuration as the first one available to it, exiting with 1 if the server fails and with 0 if it ends without an error. Every failure is described on the standard error stream.',
 ['inputs','fault_sequences'],'every outcome of argument parsing, configuration loading and running the server',
 'the tests cover five of the combinations',
 [cli+'cli.go',cli+'run.go'],[('Run, prepareConfigChan','pkg/cli/cli.go')],obs=['exit code, stderr, server started'])
p('C23','Only valid configurations are ever applied',
 'Loading a configuration succeeds if and only if the path can be made absolute and the file can be read and decoded and has the mandatory listen address, and it then yields exactly the decoded values. When a watched configuration file is written, the new configuration is delivered exactly once if it loads, and otherwise nothing is delivered and the proxy goes on with the previous one.',
 ['inputs','histories'],'every file content, including intermediate states of a file being rewritten, and every sequence of writes',
 'the tests load one valid file and make one valid change',
 [cli+'read_server_config.go',cli+'watch_server_config.go',cli+'cli.go'],[('readServerConfig, watchServerConfig','pkg/cli')],obs=['configurations delivered'])
p('C24','Database URLs are interpreted by fixed precedence',
 'A database URL is accepted only if it is a valid URL with the postgres or postgresql scheme. In the result, query parameters (the first value of each) take precedence over the components of the URL, which take precedence over the defaults (localhost, 5432, the user running the proxy), the database defaults to the user, a password is present only if the URL has one, and nothing else is added.',
 ['inputs'],'every URL','the test covers eight valid and two invalid URLs',
 [pg+'dsn.go'],[('ParseDatabaseURI, defaultConnectionSettings','pkg/pg/dsn.go')],obs=['returned parameters'])
p('C25','The table mapping is complete or an error',
 'The mapping of object IDs to tables is returned without an error only if every row of the catalogue query was read, and it then has exactly one entry per row with that row\'s schema and table name. Any failure to run the query, decode a row or read on is returned as an error, and the result set and, if connecting fails, the connection are always released.',
 ['inputs','fault_sequences'],'every result set and a failure at any row',
 'the tests need a live database, see two tables and no failures',
 ['pkg/pgmeta/inspector.go'],[('OIDTableMapping, Inspect','pkg/pgmeta/inspector.go')],obs=['returned mapping and error'])
p('C26','File events reach the matching callback only',
 'For each event on a watched file exactly one callback is called, if it is set: the creation callback if the event includes a creation, else the write callback if it includes a write, else the removal callback if it includes a removal, and none for any other event. A failure to set up watching is returned to the caller with nothing left running, and stopping the watcher or an error of the underlying watcher ends the event loop.',
 ['inputs','histories','fault_sequences'],'every sequence of file events and errors, and every combination of callbacks',
 'the test makes one write',
 [cli+'file_watcher.go'],[('Watch','pkg/cli/file_watcher.go')],obs=['callbacks called'])
p('C27','Shared server state is only touched under its lock',
 'The current listener, the set of sessions, the last configuration, the subscriptions, the cached connection parameters and, until a session is established, its database connection are read and written only with the respective lock held, every lock is released on every path, and no lock is acquired twice by the same goroutine. Everything else the goroutines of the proxy share is immutable once shared, atomic, or a channel.',
 ['schedules'],'every interleaving of the goroutines of the server',
 'the race detector only sees the accesses that a few tests happen to make',
 [srv+'server.go',srv+'session.go',srv+'config_distributor.go',srv+'event.go'],[('sync.Mutex and sync.RWMutex fields','pkg/server')],obs=['accesses to guarded fields'])
p('C28','The proxy makes progress',
 'In a session in which both parties keep reading and writing, every message that is sent is eventually delivered, and once a party hangs up the session eventually ends; the configuration store keeps delivering updates as long as its subscribers keep receiving.',
 ['schedules','histories'],'every fair schedule','liveness over infinite histories',
 [srv+'session.go',srv+'config_distributor.go'],[('session goroutines','pkg/server/session.go')])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
