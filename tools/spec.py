#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONN = 'protosocket-connection/src/connection.rs'
T0 = "The 8 unit tests all live in protosocket-rpc and never construct a Connection or a socket; "
A_CONN = "sound abstract interpretation of the MIR of Connection::new followed by any number of Future::poll calls, to a fixpoint (no bound on polls, messages, lengths or kernel answers); "
TRUST = "Trusts rustc's MIR, the models of std/tokio in sa/m_*.py, the interpreter; assumes limits >= 1, trait implementations honouring their contracts, no usize overflow when adding lengths."
AI = "abstract interpretation of MIR (ownership/typestate monitors + linear invariants)"

P = []


def prop(id, title, statement, over, text, why, files, mech, level_note=None, technique=AI, na=None, level='proof', state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=level_note, technique=technique, na=na, level=level,
                  state=state or [], observe=observe or []))


prop('C01', 'Outbound messages reach the wire once, in order, byte-exact',
     "Every message a connection takes from its outbound queue is encoded exactly once, in queue order, and the bytes put on the socket are exactly the concatenation of those encodings: nothing lost, duplicated, reordered or interleaved. This holds whatever part of a vectored write the kernel accepts at each attempt, and whether buffers are recycled or not.",
     ['schedules', 'histories', 'inputs', 'fault_sequences'], "every sequence of queued messages, sizes, partial writes, WouldBlock/Interrupted results and poll schedules",
     T0 + "partial writes depend on socket buffer state a test cannot enumerate.",
     [CONN], [('take messages from the queue in batches, encode, queue a buffer', 'Connection::poll_serialize_outbound_messages'), ('vectored write and removal of written bytes', 'Connection::writev_buffers, rotate_send_buffers')],
     A_CONN + "proves FIFO encoding, clean buffers, FIFO write queue, and that bytes removed from the queue equal bytes written. " + TRUST,
     state=[('send_buffer', 'encoded messages not yet written'), ('outbound_message_buffer', 'messages taken, not yet encoded')], observe=['socket byte stream', 'Serializer::encode calls'])
prop('C02', 'Inbound bytes become messages once, in order, without loss',
     "The deserializer is always shown exactly the received, not yet consumed bytes, contiguous and in arrival order, and every message it produces is handed to the reactor exactly once in the order produced. This holds however the peer's bytes are cut into reads, however messages straddle buffer rotations, and however many messages fit in one batch.",
     ['schedules', 'inputs', 'histories'], "every segmentation of the byte stream, every message length and skip distance, every batch size and poll schedule",
     T0 + "the interesting cases are particular offsets at which reads, rotations and batch limits meet.",
     [CONN], [('read behind the unconsumed bytes', 'Connection::read_from_stream'), ('consume what the deserializer consumed; rotate', 'Connection::read_inbound_messages_into_read_queue'), ('hand over the batch', 'Connection::poll_react')],
     A_CONN + "proves that reads land at the received end, that decode is offered [consumed, received), and that the batch handed to the reactor is the next undelivered run. " + TRUST,
     state=[('receive_buffer_start_offset/slice_end', 'window of unconsumed bytes'), ('inbound_messages', 'decoded, undelivered messages')], observe=['Deserializer::decode argument', 'MessageReactor::on_inbound_messages argument'])
prop('C03', 'Messages received before the end are still delivered',
     "When a connection ends because the peer closed, the socket failed or the stream turned invalid, every complete message that was received ahead of that point has been handed to the reactor before the connection completes. Only a disconnect requested by the reactor itself may drop messages.",
     ['schedules', 'fault_sequences', 'inputs'], "every arrival pattern of data and end of stream or error, every position of an invalid message within a batch",
     T0 + "the loss needs data and FIN to be seen in one poll.",
     [CONN], [('drain before completing', 'Connection::poll, drain_received_messages')],
     A_CONN + "proves at every Ready exit that nothing decoded is undelivered and, at end of stream, nothing received is unoffered. " + TRUST, observe=['MessageReactor::on_inbound_messages before the future completes'])
prop('C04', 'Dropping all senders flushes what was accepted',
     "When every sender of the outbound queue has been dropped, the connection completes only after all messages accepted by the queue have been encoded and completely written, unless the socket or the reactor ends it first.",
     ['schedules', 'histories'], "every number of queued messages, queue limits, write progress and moment of dropping the senders",
     T0 + "the loss depends on how much is still unsent when the last sender goes.",
     [CONN], [('close only with an empty write queue', 'Connection::poll_serialize_outbound_messages')],
     A_CONN + "proves at every Ready exit whose only cause is the closed queue that all accepted messages are written. " + TRUST, observe=['socket byte stream after senders are dropped'])
prop('C05', 'A connection never goes to sleep on work it could do',
     "Whenever a connection returns Pending it has either scheduled its own wake-up, or it is registered to be woken by every event that can make progress: readable input always, a writable socket whenever bytes are unsent, new outbound messages whenever it could accept some; and it holds no bytes that have not been offered to the deserializer and no undelivered messages. In particular a full receive buffer or full write queue never stalls it for good.",
     ['schedules', 'histories', 'inputs'], "every interleaving of readiness, WouldBlock, queue arrivals, full buffers and batch limits",
     T0 + "a lost wake-up shows only in one interleaving of socket readiness and queue state.",
     [CONN], [('wake when decode, serialize or write made progress or stopped early', 'Connection::poll_deserialize, poll_serialize_outbound_messages, poll_outbound'), ('loop until readiness is Pending', 'Connection::poll_receive, poll_outbound')],
     A_CONN + "tracks waker registrations as typestate and proves the wake condition at every Pending exit. Fairness of the executor is assumed. " + TRUST, observe=['Poll::Pending results with waker registrations'])
prop('C06', 'Buffer and queue limits are enforced',
     "A connection never reads more once its configured buffer limit of unconsumed bytes is held, never queues an encoded message longer than the limit, never waits for an inbound message announced as longer than the limit, and never takes more messages off the outbound queue or holds more encoded messages than its configured queue limit, so a slow peer pushes back on senders.",
     ['inputs', 'schedules', 'histories'], "every message size, announced size, peer speed and limit setting >= 1",
     T0 + "limits interact with buffer growth and batch sizes at runtime.",
     [CONN], [('limit checks', 'Connection::poll_receive, read_inbound_messages_into_read_queue, poll_serialize_outbound_messages, room_in_send_buffer')],
     A_CONN + "proves the bounds as linear invariants. " + TRUST, observe=['reads issued', 'messages taken from the queue', 'write queue length'])
prop('C07', 'Connections end on fatal events, and only on those',
     "End of stream, a fatal socket error, an invalid message, an oversized message or a reactor disconnect makes the connection complete within the poll that sees it. WouldBlock and Interrupted never do, and a connection completes only for one of those causes or because every sender is gone.",
     ['fault_sequences', 'schedules', 'inputs'], "every sequence of socket results, decode results and reactor answers",
     T0 + "fault injection at every call site is needed.",
     [CONN, 'protosocket-connection/src/lib.rs'], [('error classification', 'would_block, interrupted'), ('state to Poll mapping', 'Connection::poll_*')],
     A_CONN + "proves fatal event => Ready in the same poll and Ready => cause. " + TRUST, observe=['completion of the connection future'])
prop('C08', 'Connection buffer handling cannot panic or expose stale memory',
     "No sequence of peer bytes, socket results and queued messages makes a connection panic, index outside a buffer, underflow a length, or expose bytes that were not received; unsafe length changes never exceed the reserved capacity.",
     ['inputs', 'schedules', 'fault_sequences'], "every reachable buffer state",
     T0 + "out-of-range states need specific sequences of partial reads, skips and rotations.",
     [CONN], [('window arithmetic and set_len', 'Connection::read_inbound, read_inbound_messages_into_read_queue, rotate_send_buffers')],
     A_CONN + "proves every bounds check, subtraction, unwrap/assert and set_len in reach. " + TRUST, observe=['panics', 'slices passed to read/decode/write'])

exec(open(os.path.join(HERE, 'tools', 'spec_more.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'spec_more.py')) else None

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        an = {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}
        if p['state']:
            an['state'] = [{'name': a, 'meaning': b, 'where': p['files'][0]} for a, b in p['state']]
        if p['observe']:
            an['observe_at'] = p['observe']
        an['hook_needed'] = None
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': an}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'checks': [{'property': p['id'], 'quick_cmd': f"python3 check.py {p['id']}", 'thorough_cmd': f"VERIF_TIER=thorough python3 check.py {p['id']}", 'evidence_file': f"evidence/{p['id']}.json",
                 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']} for p in P if not p['na']],
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']],
     'notes': 'No hooks in /repo: the analysis reads the compiler\'s MIR of the unmodified sources. /repo carries only fix: commits, listed in known_findings.json.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
assert all(len(p['title']) <= 80 for p in P)
print(len(P), 'properties', len(m['checks']), 'claimed')
