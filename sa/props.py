"""Which analysis decides which property, and what its evidence says."""
import conn
import rpcc
import rpcs
import wire
import codec
import codes

LEVEL = {}
TRUST = ["rustc's type checker and MIR construction (nightly), dumped by driver/",
         "the models of std, tokio, futures and log in sa/m_*.py",
         "the abstract interpreter sa/eng.py and its numeric domain sa/lin.py, sa/native/linx.cpp"]


class Result:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []
        self.undecided = []
        self.obl = set()          # obligations: (rule, function, place)
        self.info = {}
        self.assumptions = []
        self.rule = ''

    def coverage(self, bad):
        failed = len({v['key'] for v in self.violations}) + len(self.undecided)
        n = max(len(self.obl), failed)
        return dict({'obligations': n, 'discharged': n - failed, 'checker_cmd': f'python3 check.py {self.pid}', 'trusted_base': TRUST, 'rule': self.rule,
                     'undecided': self.undecided, 'violations': [v['key'] for v in self.violations],
                     'samples': [list(x) for x in sorted(self.obl, key=str)[:12]]}, **self.info)

    def miss(self, key, msg):
        """what the analysis speaks about is not there: no verdict"""
        self.undecided.append({'property': self.pid, 'key': key, 'message': msg})

    def floor(self, key, msg):
        """something that every correct implementation does never happens.  If every call was understood that is a
        violation, otherwise the analysis may have lost sight of it"""
        if self.undecided or self.info.get('unmodelled_calls'):
            self.miss(key, msg)
        else:
            self.violations.append({'property': self.pid, 'key': key, 'message': msg, 'span': None})


def from_engine(res, e, pid):
    res.violations += [v for v in e.violations.values() if v['property'] == pid]
    res.undecided += [v for v in e.undecided.values() if v['property'] == pid]
    res.obl |= e.stats['obl']
    i = res.info
    i['functions'] = i.get('functions', 0) + len(e.stats['functions'])
    i['abstract_states'] = i.get('abstract_states', 0) + e.stats['states']
    i['program_points'] = i.get('program_points', 0) + len(e.points)
    i['blocks_interpreted'] = i.get('blocks_interpreted', 0) + e.stats['blocks']
    i['loop_heads'] = i.get('loop_heads', 0) + len(e.stats['loops'])
    i['unmodelled_calls'] = sorted(set(i.get('unmodelled_calls', [])) | set(e.stats['unmodelled']))[:60]
    i['analysed'] = sorted(set(i.get('analysed', [])) | set(e.stats['functions']))[:80]


# ---------------------------------------------------------------- Connection
CONN_ANY = ['read-eof', 'read-ok', 'read-wouldblock', 'write-ok', 'encode', 'decode', 'react', 'exit-pending', 'exit-ready']
CONN_NEED = {
    'C01': [('encode',), ('write',), ('pop',), ('recv',), ('exit-pending',)],
    'C02': [('read',), ('decode',), ('react',), ('exit-pending',)],
    'C03': [('read',), ('decode',), ('react',), ('exit-ready',)],
    'C04': [('recv',), ('write',), ('exit-ready',)],
    'C05': [('ready-read',), ('ready-write',), ('recv',), ('exit-pending',)],
    'C06': [('read-limit',), ('queue-limit',), ('exit-pending',)],
    'C07': [('read',), ('decode',), ('react',), ('exit-ready',), ('exit-pending',)],
    'C08': [('bounds',)],
    'C25': [('exit-pending',)],
}
CONN_RULE = {
    'C01': "fixpoint over new + any number of polls: each message taken from the queue is encoded once, in order, into a clean buffer; each buffer leaves the write queue in order; bytes written minus bytes dropped from the queue is 0 at every write and every Pending",
    'C02': "fixpoint: bytes are read directly behind the unconsumed ones; the deserializer sees exactly the unconsumed bytes; decoded messages reach the reactor in order, none lost, none twice",
    'C03': "fixpoint: at every Ready exit without a reactor disconnect nothing decoded is undelivered, and at end of stream nothing received is unoffered",
    'C04': "fixpoint: at every Ready exit whose only cause is the closed queue, every accepted message is written",
    'C05': "fixpoint: at every Pending exit the task is woken or registered with every source that can make progress",
    'C06': "fixpoint: no read while max_buffer_length bytes are buffered, no oversized message queued or awaited, queue lengths bounded",
    'C07': "fixpoint: every fatal event leads to Ready in the same poll; every Ready has a cause",
    'C25': "fixpoint: at every Pending exit with a wake-up of its own, the task has done something in this poll that it cannot repeat unless the world changes",
    'C08': "fixpoint: every bounds check, subtraction, unwrap, set_len and slice in reach of Connection is proved",
}


def conn_check(pid, P, tier):
    res = Result(pid)
    res.rule = CONN_RULE[pid]
    res.assumptions = ["configured limits are at least 1", "Serializer/Deserializer/Reactor implementations follow their trait contracts (decode consumes at most what it is given)",
                       "usize additions of lengths do not overflow", "the kernel never reports more bytes than it was given"]
    if not conn.anchors(P):
        res.miss('anchor', "protosocket::Connection with its constructor and Future implementation was not found")
        return res
    want = [pid]
    e, mon, rounds = conn.run(P, want)
    from_engine(res, e, pid)
    res.info['poll_rounds'] = rounds
    res.info['events'] = dict(sorted(mon.count.items()))
    if pid == 'C25':
        parts_check(res, pid, P, [lambda p: rpcs.run(p, 'spin', 2000000)] + MISC_PARTS['C19'], ['bound', 'accept-pending', 'exit-pending', 'recv-pending'], 'the servers')
    for alt in CONN_NEED[pid]:
        if not any(mon.count.get(k) for k in alt):
            res.floor('floor ' + '/'.join(alt), f"no {'/'.join(alt)} event was found in Connection: the rule would hold vacuously")
    return res


# ---------------------------------------------------------------- RPC client
CLI_NEED = {
    'C09': ['inbound', 'delivered', 'closed', 'react-exit', 'deliver-oneshot', 'deliver-unbounded'],
    'C10': ['channel', 'request', 'send_unary', 'send_streaming'],
    'C11': ['cancel', 'dropcall', 'drop-one', 'drop-no'],
    'C12': ['dead', 'dropreactor', 'failed-at-loss', 'afterloss', 'drop-queue', 'drop-reactor'],
    'C13': ['oneshot-ok', 'oneshot-err', 'oneshot-pending', 'recv-items', 'recv-closed', 'recv-pending', 'unary-ready', 'stream-ready'],
    'C23': ['lock', 'unlock', 'react-exit', 'dropcall', 'dropreactor'],
}
CLI_RULE = {
    'C09': "fixpoint over client histories: each inbound message for the tracked id is handed to that id's sender (or closes it) before the next message; nothing else sends to, drops or fails that sender",
    'C10': "fixpoint: at the send of a request its completion is reachable from the reactor; request sent once; Ok iff queued; otherwise ConnectionIsClosed",
    'C11': "fixpoint: every drop of an unfinished call submits one cancellation with its id; finished calls none; the completion is unreachable after the next reactor round",
    'C12': "reactor dropped in every reachable state: the tracked sender is dropped, the alive flag cleared, later sends refused; drop glue of Connection closes the queue before the reactor",
    'C13': "fixpoint over polls of each kind of call: result equals the received item at the next index; Finished once, after the last; Pending only while waiting",
    'C23': "fixpoint over client histories, lockset on every path: no lock while a guard is live, no suspension and no return while a guard is live",
}


def client_check(pid, P, tier):
    res = Result(pid)
    res.rule = CLI_RULE[pid]
    res.assumptions = ["an id is not reused while its call is held", "concurrent actions interleave at critical-section granularity (the registry is only reached through its lock)"]
    parts = []
    if pid != 'C13':
        parts.append(rpcc.run)
    if pid in ('C11', 'C13'):
        parts.append(rpcc.calls)
    if pid == 'C12':
        parts.append(rpcc.drop_order)
    return parts_check(res, pid, P, parts, CLI_NEED[pid], 'the RPC client')


# ---------------------------------------------------------------- RPC server
SRV_ANY = ['taken', 'normal', 'newrpc', 'adopt-Unary', 'adopt-Streaming', 'push-FuturesUnordered', 'push-SelectAll', 'recv-items', 'recv-pending', 'recv-closed', 'exit-pending', 'exit-ok|exit-err']
SRV_NEED = {
    'C14': ['submit-ok', 'submit-err', 'react'],
    'C15': ['inner-ready', 'inner-item', 'inner-none', 'sent-response', 'sent-end', 'reserve-ok', 'removed-done'],
    'C16': ['cancel-alive', 'abort-wake', 'removed-cancelled'],
    'C17': ['reserve-pending', 'poll-FuturesUnordered', 'poll-SelectAll'],
    'C18': ['reserve-err', 'send'],
}
SRV_RULE = {
    'C14': "fixpoint over new + any number of polls: inbound messages are handled by index, each Normal one is passed to new_rpc once and before the next is taken; Cancel and End never; none is dropped, skipped or left",
    'C15': "fixpoint, one arbitrary RPC followed through its wrapper and collection: each output is sent before the next poll of it, End after the last, nothing else with its id; it stays held until it has finished or was cancelled; never polled after its end",
    'C16': "fixpoint: after a Cancel the RPC's future or stream is never polled again, is woken and let go of at the next poll; no handle of a finished RPC is reachable from the server; an earlier RPC with the same id changes nothing for the newer one",
    'C17': "fixpoint: at every Pending exit the task is woken, or registered for inbound messages with none held, and each collection has been polled to Pending or the outbound queue to full",
    'C18': "fixpoint: Ready exactly when the inbound side ended or the outbound side closed; every send_item follows a successful poll_reserve; no reachable panic",
}


def server_check(pid, P, tier):
    res = Result(pid)
    res.rule = SRV_RULE[pid]
    res.assumptions = ["a client does not reuse the id of a call it still holds", "futures::FuturesUnordered and SelectAll poll woken members and register the task (their documented behaviour)",
                       "the service's futures and streams register the waker they are given when they return Pending"]
    parts = [lambda p: rpcs.run(p, 'old', 2000000), lambda p: rpcs.run(p, 'oth', 2000000)]
    if pid == 'C14':
        parts.append(wire.submitter)
    return parts_check(res, pid, P, parts, SRV_ANY + SRV_NEED[pid], 'the RPC server')


# ---------------------------------------------------------------- listeners, clients, codecs
MISC_NEED = {
    'C19': ['bound', 'accept-ok', 'accept-err', 'accept-pending', 'newconn', 'spawn-conn', 'spawn-rpc', 'served', 'exit-pending'],
    'C20': ['connect-ok', 'connect-err', 'newconn', 'spawn-conn', 'ok', 'err'],
    'C21': ['prost-prefix', 'prost-body', 'prost-ok', 'prost-err-IncompleteBuffer', 'prost-encoded', 'prost-encode-exit',
            'messagepack-prefix', 'messagepack-body', 'messagepack-ok', 'messagepack-err-IncompleteBuffer', 'messagepack-encoded', 'messagepack-header', 'messagepack-encode-exit'],
    'C24': ['read', 'written'],
    'C22': ['prost-prefix', 'prost-body', 'prost-err-InvalidBuffer', 'messagepack-prefix', 'messagepack-body', 'messagepack-err-InvalidBuffer'],
}
MISC_RULE = {
    'C19': "fixpoint over polls of both listeners: each accepted socket ends up in a spawned Connection with the configured limits and its own queue, wired to its reactor or RPC server; Pending only after poll_accept was Pending or after a wake; never Ready",
    'C20': "every path of connect and register_client: success only with a Connection on the socket connected to the given address, with the configured limits and queue, wired to the returned client and, for the registry, spawned; failure only after a reported failure",
    'C21': "every path of both decoders, from any decoder state a call can leave, over a symbolic buffer: a message is decoded from exactly the bytes of its frame, the returned length is prefix plus body, IncompleteBuffer exactly when bytes of a valid frame are missing; both encoders write prefix, its exact value, and body",
    'C24': "from_u8 on the classes 0, 1, 2 and 3..=255 of byte values, and as_u8 on each code: read and written values equal the wire table (0 Normal, 1 Cancel, 2 End, anything else read as Cancel)",
    'C22': "every path of both codecs with symbolic lengths and capacity: no reachable panic or arithmetic overflow; a prefix or body that cannot be valid is reported as InvalidBuffer",
}
MISC_PARTS = {
    'C19': [lambda p: wire.listener(p, 'protosocket_server', 'ProtosocketServer', False), lambda p: wire.listener(p, 'protosocket_rpc', 'SocketRpcServer', True)],
    'C20': [wire.rpc_connect, wire.register_client],
    'C21': [lambda p: codec.decode(p, 'protosocket_prost', 'prost'), lambda p: codec.decode(p, 'protosocket_messagepack', 'messagepack'),
            lambda p: codec.encode(p, 'protosocket_prost', 'prost', True), lambda p: codec.encode(p, 'protosocket_messagepack', 'messagepack', False)],
}
MISC_PARTS['C24'] = [codes.run]
MISC_PARTS['C22'] = MISC_PARTS['C21']
MISC_WHAT = {'C19': 'the listeners', 'C20': 'the client constructors', 'C21': 'the codecs', 'C22': 'the codecs', 'C24': 'the control codes'}
MISC_ASSUME = {
    'C24': [],
    'C19': ["a socket whose options cannot be set may be dropped", "configured queue lengths are at least 1 (a tokio channel of length 0 panics)"],
    'C20': ["configured queue lengths are at least 1 (a tokio channel of length 0 panics)"],
    'C21': ["the buffer given to decode is contiguous and encode is given an empty buffer (as Connection does)", "prost, rmp and rmp_serde behave as documented", "usize has 64 bits", "an encoded message is shorter than 4 GiB"],
    'C22': ["the buffer given to decode is contiguous (as Connection does)", "prost, rmp and rmp_serde behave as documented", "usize has 64 bits", "an encoded message is shorter than 4 GiB"],
}


def misc_check(pid, P, tier):
    res = Result(pid)
    res.rule = MISC_RULE[pid]
    res.assumptions = MISC_ASSUME[pid]
    return parts_check(res, pid, P, MISC_PARTS[pid], MISC_NEED[pid], MISC_WHAT[pid])


def parts_check(res, pid, P, parts, need, what):
    count = {}
    for f in parts:
        e, mon, rounds = f(P)
        if e is None:
            res.miss('anchor', f"{rounds} was not found")
            return res
        from_engine(res, e, pid)
        for k, v in mon.count.items():
            count[k] = count.get(k, 0) + v
        res.info['rounds'] = res.info.get('rounds', 0) + (rounds if isinstance(rounds, int) else 0)
    res.info['events'] = dict(sorted(list(res.info.get('events', {}).items()) + list(count.items())))
    for k in need:
        if not any(count.get(x) for x in k.split('|')):
            res.floor('floor ' + k, f"no {k} event was found in {what}: the rule would hold vacuously")
    return res


def decide(pid, P, tier):
    if pid in CONN_RULE:
        return conn_check(pid, P, tier)
    if pid in CLI_RULE:
        return client_check(pid, P, tier)
    if pid in SRV_RULE:
        return server_check(pid, P, tier)
    if pid in MISC_RULE:
        return misc_check(pid, P, tier)
    raise KeyError(pid)
