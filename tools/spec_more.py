RPC = 'protosocket-rpc/src/'
T_CLI = "The unit tests drive one or two calls through the reactor with a fixed message order; "
A_CLI = "sound abstract interpretation of the MIR of the reactor, the client and its calls, to a fixpoint over every history of {send unary, send streaming, drop the call, inbound batch, lose the reactor}, with one arbitrary call id tracked; "
TR2 = "Trusts rustc's MIR, the models of std/tokio in sa/m_*.py, the interpreter. "
prop('C09', 'Responses reach the call they belong to, in order, and no other',
     "Every normal inbound message is delivered to the outstanding call with the same message id, in arrival order and exactly once, and to no other call; a Cancel or End closes exactly that call, and no other call is completed, closed or failed by it. Messages for calls that are unknown or already gone are discarded without affecting other calls or the connection.",
     ['histories', 'inputs', 'schedules'], "every interleaving of any number of outstanding calls, batches, ids and control codes",
     T_CLI + "misrouting needs particular id reuse, batch composition and registration timing.",
     [RPC + 'client/reactor/completion_reactor.rs', RPC + 'client/reactor/completion_registry.rs'], [('route by id and control code', 'RpcCompletionReactor::on_inbound_messages'), ('pick up registrations before routing', 'CompletionRegistry::take_new_rpc_lifecycle_actions')],
     A_CLI + "proves that each message for the tracked id is handed to that id's sender before the next is handled, and that nothing else touches it. " + TR2 + "Assumes a client does not reuse the id of a call it still holds.",
     observe=['completion of calls', 'items of streaming calls'])
prop('C10', 'Requests are sent once, registered first, and fail only when closed',
     "Sending a request registers its call before the request can reach the server, so no response however fast can be missed; the request itself is queued exactly once, unchanged, waiting for room rather than being dropped. The caller gets a call exactly when the request was queued, and otherwise the error that the connection is closed.",
     ['schedules', 'histories'], "every interleaving of sends with responses, a full queue, and the loss of the connection",
     T_CLI + "the race between registration and the first response is not exercised.",
     [RPC + 'client/rpc_client.rs', RPC + 'client/reactor/completion_registry.rs'], [('register, then send', 'RpcClient::send_unary, send_streaming')],
     A_CLI + "checks at the send that the completion is reachable from the reactor, that the message is the caller's, and the correspondence of result and send. " + TR2, observe=['outbound queue', 'result of send_unary/send_streaming'])
prop('C11', 'Dropping an unfinished call cancels it, once, and frees its state',
     "Dropping a call that has not completed submits exactly one cancellation for its own id to the connection's queue, and the client forgets the call at the latest when the next responses are handled. Dropping a completed call sends no cancellation.",
     ['histories', 'schedules'], "every point at which a call can be dropped relative to responses, completion and loss",
     T_CLI + "only one drop order per kind of call is tested.",
     [RPC + 'client/reactor/completion_registry.rs', RPC + 'client/reactor/completion_unary.rs', RPC + 'client/reactor/completion_streaming.rs'], [('cancel and mark done on drop', 'CompletionGuard::drop'), ('suppress after completion', 'CompletionGuard::set_closed')],
     A_CLI + "counts cancellations on every drop path and proves the completion is gone after the next reactor round. The submission is best effort (try_send) when the queue is full, as in the code's own comment. " + TR2, observe=['outbound queue', 'registry size'])
prop('C12', 'Losing the connection fails every outstanding call and later sends',
     "When a client's connection goes away for whatever reason, every outstanding call is completed with an error instead of waiting forever, including calls the connection never got round to look at and calls made while it is going away. Every request made afterwards fails at once with the error that the connection is closed, and the client reports that it is not alive.",
     ['schedules', 'crash_points', 'histories'], "every moment of loss relative to registration, sending and responses",
     T_CLI + "no test drops the reactor with calls in flight.",
     [RPC + 'client/reactor/completion_reactor.rs', RPC + 'client/rpc_client.rs', CONN], [('mark dead and release calls', 'Drop for RpcCompletionReactor'), ('queue closes before the reactor is dropped', 'field order of Connection')],
     A_CLI + "then drops the reactor in every reachable state and proves the tracked call's sender is gone, the alive flag is cleared and later sends are refused; separately proves that a dropped Connection closes its queue before it drops its reactor. " + TR2, observe=['outcome of outstanding calls', 'RpcClient::is_alive', 'results of later sends'])
prop('C13', 'Calls report exactly what was received for them, then their end',
     "A unary call completes with the response delivered to it, or with the error that it was cancelled remotely when it was closed without one. A streaming call yields every response delivered to it, in order and exactly once, then reports Finished exactly once, then ends; it never ends early, never sleeps while it holds responses, and never yields anything after Finished.",
     ['schedules', 'histories'], "every number of responses, batch sizes and poll schedules",
     T_CLI + "batching of streamed responses is never exercised at its limits.",
     [RPC + 'client/reactor/completion_unary.rs', RPC + 'client/reactor/completion_streaming.rs'], [('map the oneshot', 'UnaryCompletion::poll'), ('buffer, reverse, pop', 'StreamingCompletion::poll_next')],
     "sound abstract interpretation of the MIR of both poll functions from construction, to a fixpoint over any number of polls, tracking the index of each received item. " + TR2, observe=['Future::poll / Stream::poll_next results'])
T_SRV = "The unit tests drive three RPCs with an outbound queue of 3 and futures that are ready at once or never; "
A_SRV = "sound abstract interpretation of the MIR of the connection server and its abortable wrappers, to a fixpoint over every sequence of polls with any inbound batches, ids, control codes, outbound capacity, and futures and streams making progress in any order; one arbitrary RPC is followed, together with an earlier one with its id or another with a different id. "
TR3 = "Trusts rustc's MIR, the models of std/tokio/futures in sa/, the interpreter. Assumes a client does not reuse the id of a call it still holds."
SRVF = [RPC + 'server/connection_server.rs', RPC + 'server/abortable.rs']
prop('C14', 'Every request starts exactly one RPC, in arrival order',
     "Every normal message received on a connection is handed to the connection's service exactly once, unchanged and in arrival order. Cancel and End messages never start an RPC, and no message is lost, whatever the batch sizes and however many RPCs are outstanding.",
     ['histories', 'inputs', 'schedules'], "every sequence of inbound batches, ids and control codes",
     T_SRV + "lost or reordered requests need batches and limits no test reaches.",
     SRVF[:1], [('take a batch, reverse, pop each', 'RpcConnectionServer::poll_receive_buffer, handle_message_buffer')],
     A_SRV + "Requests carry their arrival index; the rule is checked at every take, new_rpc call, drop and exit. " + TR3, observe=['calls of ConnectionService::new_rpc'])
prop('C15', 'Responses of every RPC are sent once, in order, with one End per stream',
     "The response of each accepted unary RPC is sent exactly once. The responses of each streaming RPC are sent exactly once each and in order, followed by exactly one End message with its id when the stream ends. No response is dropped because the outbound queue is full, and an RPC that was neither cancelled nor finished is never given up, whatever other RPCs on the connection do, including earlier ones that used the same id.",
     ['histories', 'schedules'], "every interleaving of RPC progress, capacity, cancellations of other RPCs and id reuse",
     T_SRV + "a response lost or an RPC given up needs a full queue at a particular moment or an id used again.",
     SRVF, [('reserve, poll, send', 'RpcConnectionServer::poll_advance_unary_rpcs, poll_advance_streaming_rpcs'), ('wrap and identify', 'IdentifiableAbortable')],
     A_SRV + "Outputs of the followed RPC become send obligations discharged only by sending that very value. " + TR3, observe=['outbound queue'])
prop('C16', 'A cancelled RPC stops, and no state is kept for one that is over',
     "Once a Cancel for an RPC's id has been handled, its future or stream is never polled again, nothing more is sent for it, and it is dropped without waiting for it to make progress. The server keeps no state for RPCs that have finished or were cancelled.",
     ['histories', 'schedules'], "every moment at which a Cancel can arrive relative to progress, capacity and other RPCs",
     T_SRV + "cancellation is tested only for RPCs that hang, with room in the queue.",
     SRVF, [('mark and wake', 'IdentifiableAbortHandle::mark_aborted'), ('check before polling', 'IdentifiableAbortable::poll, poll_next'), ('forget the handle', 'RpcConnectionServer::aborts')],
     A_SRV + "The atomic flag and the waker shared by wrapper and handle are followed concretely; reachability from the server is checked at every exit. " + TR3, observe=['polls and drop of the RPC', 'memory held by the connection'])
prop('C17', 'The RPC server never sleeps while it can make progress',
     "When the connection server returns Pending it will be woken by the next inbound message, and by the progress of every outstanding RPC or, while the outbound queue is full, by its capacity. It never sleeps while it holds unhandled requests.",
     ['schedules'], "every poll, with every combination of ready and pending sources",
     "Tests poll by hand with a no-op waker, so a missing wake-up cannot fail them.",
     SRVF, [('re-arm after a batch', 'RpcConnectionServer::poll_receive_buffer'), ('poll to Pending', 'poll_advance_unary_rpcs, poll_advance_streaming_rpcs')],
     A_SRV + "At every Pending exit each source must be registered after its last progress, or the task woken. " + TR3, observe=['wake-ups of the task'])
prop('C18', 'An RPC connection ends exactly when its connection does, and never panics',
     "The connection server completes when the inbound side of its connection has ended or the outbound side is closed, without waiting for outstanding RPCs, and for no other reason. It never sends without a reserved place in the outbound queue and no peer behaviour makes it panic.",
     ['histories', 'fault_sequences', 'inputs'], "every moment at which either side of the connection can end",
     T_SRV + "no test closes either side of the connection.",
     SRVF, [('end of inbound', 'RpcConnectionServer::poll_receive_buffer'), ('closed outbound', 'poll_advance_unary_rpcs, poll_advance_streaming_rpcs')],
     A_SRV + "Every Ready and Pending exit is compared with what the channels reported in that poll; send_item requires a preceding successful poll_reserve. " + TR3, observe=['completion of the connection task'])
LST = ['protosocket-server/src/connection_server.rs', RPC + 'server/socket_server.rs']
prop('C19', 'Servers accept forever and serve every accepted connection',
     "A server, plain or RPC, keeps accepting for as long as it is polled: no failure of accepting or preparing one connection ends it or makes it deaf. Every accepted socket is driven by exactly one spawned connection with the limits configured on the server, on the runtime given to it, wired to its own reactor or RPC server, to the service made for that peer, and to its own outbound queue, never to another connection's.",
     ['fault_sequences', 'schedules', 'histories'], "every sequence of accept results, socket failures and configuration changes",
     "No test opens a listening socket; accept and socket-option failures cannot be produced on demand.",
     LST, [('accept until Pending', 'ProtosocketServer::poll, SocketRpcServer::poll'), ('wire and spawn', 'the same')],
     "sound abstract interpretation of the MIR of new, the setters and any number of polls of both servers, to a fixpoint, with every accept and socket-option outcome; the object graph of each accepted connection (socket, queue ends, reactor, service, limits, runtime) is compared with what it must be. A socket whose options cannot be set may be dropped. " + TR2,
     observe=['accepted connections', 'completion of the server future'])
prop('C20', 'Connecting yields a working client or an error',
     "Connecting a client, by RPC connect or through the prost client registry, succeeds only with a connection to the address that was given, using the limits that were configured, whose outbound queue is fed by the returned client and whose responses reach that client's calls or the given reactor; the registry also drives it on its runtime. It fails exactly when the address, the connection attempt or the socket's set-up failed, and never panics.",
     ['inputs', 'fault_sequences'], "every address, configuration and outcome of each step",
     "No test connects a socket.",
     [RPC + 'client/configuration.rs', 'protosocket-prost/src/prost_client_registry.rs'], [('connect and wire', 'client::connect, ClientRegistry::register_client')],
     "sound abstract interpretation of the MIR of both constructors and their setters over every outcome of every step; the resulting object graph is compared with what it must be. " + TR2,
     observe=['requests and responses of the new client'])
CODEC = ['protosocket-prost/src/prost_serializer.rs', 'protosocket-messagepack/src/lib.rs']
A_COD = "sound abstract interpretation of the MIR of both decoders over a symbolic buffer and frame (any prefix, any announced length, any number of bytes so far), to a fixpoint over calls and decoder states, and of both encoders; the codec libraries are modelled by what they do to a cursor. "
TR4 = "Trusts rustc's MIR, the models of std/bytes/prost/rmp/rmp_serde in sa/, the interpreter. Assumes a contiguous receive buffer and an empty encode buffer (which Connection provides), 64-bit usize, messages under 4 GiB."
prop('C21', 'The bundled codecs frame messages exactly',
     "What a bundled codec (prost or messagepack) encodes is exactly one frame: a length prefix with the exact length of the message, and the message. Decoding produces a message exactly when its whole frame has been received, from exactly the bytes of that frame, and reports exactly the length of that frame as consumed, however the bytes arrive and however often it is asked before; while the frame of a valid message is incomplete it asks for more and never rejects it.",
     ['inputs', 'schedules'], "every message, every frame length, every division of the bytes into arrivals",
     "There is no test of either codec; the failures need a frame cut at particular offsets, or a prefix that is legal but unusual.",
     CODEC, [('prefix, then body', 'ProstSerializer::decode/encode, ProtosocketMessagePackDeserializer::decode, ProtosocketMessagePackSerializer::encode')],
     A_COD + "Every exit is compared with the frame: consumed length, source bytes of the message, completeness. " + TR4,
     state=[('state', 'messagepack: the announced length of the frame being received')], observe=['results of Deserializer::decode', 'bytes written by Serializer::encode'])
prop('C22', 'No bytes from a peer make a bundled codec panic or wait in vain',
     "Whatever bytes a peer sends, the bundled codecs never panic or overflow, whatever length is announced; a prefix that cannot become valid and a frame whose body is not a message are reported as invalid rather than waited for. The unsafe length handling of the encoder never exceeds the buffer's capacity.",
     ['inputs', 'schedules'], "every byte sequence, in every division into arrivals",
     "There is no test of either codec; adversarial prefixes are far outside what examples send.",
     CODEC, [('prefix arithmetic', 'ProstSerializer::decode, ProtosocketMessagePackDeserializer::decode'), ('set_len', 'ProtosocketMessagePackSerializer::encode')],
     A_COD + "Every arithmetic operation, unwrap, expect and set_len in reach is an obligation over the full range of lengths. " + TR4, observe=['results of Deserializer::decode', 'panics'])
prop('C23', 'Client operations never deadlock on the shared state of calls',
     "Sending requests, dropping calls and receiving responses share state behind a lock. No operation takes that lock while it holds it already, waits (is suspended) while holding it, or returns leaving it held, whatever happens to its call meanwhile, including being dropped at any await: no caller, and no connection, can be blocked by another for good.",
     ['schedules', 'histories', 'crash_points'], "every interleaving of sends, drops at any await, responses and loss of the connection",
     T_CLI + "a thread that waits for itself, or a lock held across an await, needs a call dropped or a queue full at a particular moment.",
     [RPC + 'client/reactor/completion_registry.rs', RPC + 'client/rpc_client.rs', RPC + 'client/reactor/completion_reactor.rs'], [('lock, insert, unlock', 'RpcRegistrar::register_completion, deregister'), ('lock, swap, unlock', 'CompletionRegistry::take_new_rpc_lifecycle_actions')],
     A_CLI + "A lockset is kept on every path, through the drop glue of everything that is dropped: acquiring with the lock held, suspending with it held and exiting with it held are violations. " + TR2, observe=['progress of every call and of the connection'])
prop('C24', 'Control codes mean the same on both ends',
     "A control code written to the wire is read back as the same code: 0 is Normal, 1 is Cancel, 2 is End. Any other byte, from a newer or a faulty peer, is read as Cancel, never as a request or an end of a stream, and never panics.",
     ['inputs'], "every byte and every code",
     "No test converts a control code; a peer that sends another byte does not occur in the tests.",
     [RPC + 'message.rs'], [('read', 'ProtosocketControlCode::from_u8'), ('write', 'ProtosocketControlCode::as_u8')],
     "abstract interpretation of the MIR of from_u8 over the partition {0}, {1}, {2}, 3..=255 of the byte values (the last as one symbolic interval), and of as_u8 for each code; compared with the table of the wire format. " + TR2, observe=['control codes of messages'])
prop('C25', 'An idle connection or server rests',
     "A connection, an RPC server or a listener that has nothing to do sleeps: it does not schedule its own wake-up poll after poll when nothing was read, written, decoded, delivered, encoded, accepted, produced or sent since. Waiting for the rest of a message, for a peer to read, or for room in a queue costs nothing until the world changes.",
     ['schedules', 'histories', 'inputs'], "every state in which a task can be waiting: empty, in the middle of a message, with a full write queue, with a full outbound queue, without connections",
     "A task that spins gives correct results, so no test notices.",
     ['protosocket-connection/src/connection.rs', RPC + 'server/connection_server.rs', RPC + 'server/socket_server.rs', 'protosocket-server/src/connection_server.rs'],
     [('wake only after progress', 'Connection::poll_deserialize, poll_serialize_outbound_messages, poll_outbound'), ('wake only after a batch', 'RpcConnectionServer::poll_receive_buffer'), ('accept until Pending', 'ProtosocketServer::poll, SocketRpcServer::poll')],
     "the fixpoints of C05, C17 and C19 with a ghost flag for progress in the current poll: two consecutive Pending exits, each with a wake-up of its own, without progress, and with nothing left to decode, deliver or encode, are a violation. A listener whose accept fails over and over (out of file descriptors) retries at once and is outside this property. " + TR2, observe=['polls of an idle task'])
