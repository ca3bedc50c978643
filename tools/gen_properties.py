#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe, hook_needed=hook)))

PK='packet/src/'
ALLPK=[PK+f for f in ('packet.rs','packet_type.rs','data.rs','props.rs','connect.rs','connack.rs','publish.rs','puback.rs','pubrec.rs','pubrel.rs','pubcomp.rs','subscribe.rs','suback.rs','unsubscribe.rs','unsuback.rs','ping.rs','disconnect.rs','auth.rs','reason.rs','topic.rs','parsable.rs')]
SL='server-lib/src/'

prop('P01','Decoding never panics, whatever the bytes',
 'For every byte string handed to the packet decoder, contiguous or split into several memory segments, decoding returns either a packet or an error. It never panics, never overflows, and never loops.',
 ['inputs'],'all byte strings (and all ways of splitting them into segments)',
 'The unit tests decode a few dozen hand-written valid frames and a handful of invalid ones; a panic needs a particular malformed length/flag/field combination.',
 ALLPK,[('bounds check of the remaining length before field parsing',PK+'*.rs MqttDeserialize impls'),('unchecked reads allowed only after a length check',PK+'parsable.rs')],['Packet::from_bytes'])
prop('P02','A decoded packet occupies exactly its declared frame',
 'When decoding succeeds, exactly the fixed header plus the number of bytes announced by the remaining-length field have been consumed, and the frame length reported by the packet equals that number (if the frame used one of the short forms that leave out reason code or property length, the length it would have with them). Bytes after the frame never influence the result, so a stream of concatenated frames is always split into the same packets.',
 ['inputs'],'all byte strings that decode successfully, with any bytes following them',
 'The tests only re-decode canonical encodings, where the announced, consumed and re-computed lengths coincide by construction; non-canonical frames are where they differ.',
 ALLPK+[SL+'clients/mqttclient.rs'],[('frame_len',PK+'packet.rs'),('take(length) windows',PK+'*.rs'),('buffer advance by frame_len',SL+'clients/mqttclient.rs')],['Packet::from_bytes','Packet::frame_len'])
prop('P03','Incomplete frames wait, complete frames are decided',
 'For every strict prefix of a well-formed frame the decoder answers that more bytes are needed, never an error or a packet. Once all bytes announced by the fixed header are present the decoder gives a final verdict (a packet or a malformed-packet error) and never asks for more bytes.',
 ['inputs'],'all frames and all cut points',
 'Tests decode whole frames; the cut points of every packet type and the malformed-but-complete frames are not sampled at packet level.',
 ALLPK,[('InsufficientBuffer',PK+'error.rs'),('frame completeness check',PK+'packet.rs')],['Packet::from_bytes'])
prop('P04','Encoding is exact and round-trips',
 'Every complete packet that can be assembled with the builder API encodes to the byte layout the MQTT 5 specification prescribes for its content (properties in any order), writes exactly as many bytes as its reported frame length, and decodes back to a packet with identical content. This includes contents whose lengths sit on every length-encoding boundary.',
 ['inputs'],'all packets assembled from field values including boundary lengths',
 'Each packet type has one or two sample encodings in the tests; lengths >= 128, most properties, flags and reason codes are never encoded.',
 ALLPK,[('MqttSerialize/MqttSize pairs',PK+'*.rs'),('Properties size accounting',PK+'props.rs')],['Packet::to_bytes','Packet::frame_len','Packet::from_bytes'])
prop('P05','Only well-formed MQTT 5 packets are accepted, with their content',
 'A complete frame is accepted exactly when it is well formed under MQTT 5 (packet type and flag bits, protocol name and version, QoS and retain-handling bits, reason codes, UTF-8 and control characters, field layout, list non-emptiness), and every field of the resulting packet equals what the bytes say. Anything else is rejected with an error.',
 ['inputs'],'all complete frames over a byte alphabet that covers every field class',
 'The tests contain about ten negative samples; the accept set of the decoder is a product of many field checks that samples cannot cover.',
 ALLPK,[('fixed header flag check',PK+'packet_type.rs'),('field validation',PK+'*.rs')],['Packet::from_bytes and the packet accessors'])
prop('P06','Properties only where, as and as often as allowed',
 'For every packet type (and the will message) a property is accepted, by the builder and by the decoder alike, exactly when MQTT 5 allows that property there and the value has its type; a property that may occur once is rejected when received twice, and repeatable ones keep all values in order. A refused property leaves the packet unchanged.',
 ['inputs','histories'],'all (packet type, property, value type) triples, all pairs and all short insertion sequences',
 'The tests exercise ReasonString and UserProperty on two owners; the table has 14 owners x 27 properties x 8 value types.',
 [PK+'props.rs']+ALLPK[4:18],[('auxiliary_data table',PK+'props.rs'),('checked_insert / insert / is_valid_for',PK+'props.rs')],['add_prop/get_prop/props_iter of each packet','Packet::from_bytes'])
prop('P07','Builder calls are atomic and last-write-wins',
 'After any sequence of builder calls on a packet, including calls that return an error, the packet carries exactly the values of the successful calls and, once everything the packet type requires has been set (a packet identifier with QoS above 0, at least one entry in a list), still encodes to a well-formed frame that decodes to those values. A call that returns an error has no effect.',
 ['histories'],'all sequences of setter calls with valid and invalid arguments up to a depth',
 'Tests call each setter at most once, and never continue after a failed call.',
 [PK+'connect.rs',PK+'publish.rs',PK+'subscribe.rs',PK+'props.rs'],[('flag bits kept in step with optional fields',PK+'connect.rs'),('packet identifier kept in step with QoS',PK+'publish.rs')],['setters/accessors of Connect, Will, Publish, Subscribe, Unsubscribe, SubAck, acks'])
prop('P08','Topic names and filters follow the wildcard grammar',
 'A topic filter is accepted exactly when "#" occurs only as the whole last level and "+" only as a whole level; a topic name for publishing is accepted exactly when it contains no wildcard character. Builders and decoders agree on this for every string.',
 ['inputs'],'all strings over {letter, /, +, #, $, multi-byte, control} up to a length',
 'The tests try one invalid topic.',
 [PK+'topic.rs',PK+'publish.rs',PK+'subscribe.rs',PK+'unsubscribe.rs'],[('is_valid_topic / is_wildcard',PK+'topic.rs')],['Publish::new, Subscribe::add_topic, Unsubscribe::add_topic, Packet::from_bytes'])
prop('P09','Decoding does not depend on buffer segmentation',
 'Decoding the same bytes gives the same packet or the same kind of error, and consumes the same number of bytes, however the bytes are distributed over the segments of the input buffer.',
 ['inputs'],'all frames and all ways of cutting them into up to four segments',
 'Tests decode only from contiguous buffers, while the decoder is generic over segmented buffers.',
 [PK+'data.rs',PK+'packet.rs'],[('Buf-generic field readers',PK+'data.rs')],['Packet::from_bytes over chained buffers'])
prop('P10','Variable-length integers: minimal, bounded, bijective',
 'Every value from 0 to 268,435,455 is written in the minimal number of bytes and read back as the same value, and values above are refused. Encodings that are longer than four bytes or not minimal are rejected wherever a variable-length integer is read.',
 ['inputs'],'all 2^28 values and all byte sequences of up to five bytes',
 'The tests check seven values; off-by-one errors sit at the boundaries of each length class and non-minimal forms are never tried.',
 [PK+'data.rs'],[('variable byte integer codec',PK+'data.rs')],['remaining length, property length, subscription identifier as seen through Packet encode/decode'])

prop('P11','Decoding costs no more than what has arrived',
 'Decoding a buffer allocates memory, at a time and in total, and reads the buffer, within a fixed multiple of the bytes that are in it. Lengths that a packet announces (remaining length, property length, lengths of strings and data) and that have not arrived cost nothing, and no packet, well-formed or not, however many elements it repeats, costs more than in proportion to its size.',
 ['inputs'],'all frames of the other codec properties, every element kind repeated up to 200,000 times, all announced lengths from a menu at every place with little behind them, all prefixes of long frames',
 'Tests do not observe allocations; a cost that is quadratic or follows an announced length shows for unusual packets only.',
 [PK+'packet.rs',PK+'props.rs',PK+'data.rs',PK+'subscribe.rs',PK+'publish.rs'],[('Packet::deserialize',PK+'packet.rs')],['bytes allocated by Packet::from_bytes','calls of the buffer'])
prop('T01','Topic matching follows the MQTT wildcard rules',
 'After any history of subscriptions and removals, looking up a topic name returns exactly the clients that hold at least one subscription whose filter matches it under MQTT 5: "+" matches one level, "#" the remaining levels including none, empty levels are levels, comparison is case-sensitive, and topics starting with "$" are not matched by filters that start with a wildcard. Each client appears once, with the highest QoS among its matching subscriptions, and is marked no-local only if all its matching subscriptions are.',
 ['histories','inputs'],'all sets of up to a few filters over a small level alphabet against all topics, and all operation sequences up to a depth',
 'There are no tests for the subscription store at all.',
 [SL+'topics.rs'],[('trie walk with + and # branches',SL+'topics.rs collect_subs/visit')],['TopicsTable::get_all_subscribed'],hook='topics module re-exported under cfg(apiformes_mc)')
prop('T02','Removing subscriptions removes exactly what was asked',
 'Unsubscribing a client from a filter removes that subscription only; removing all subscriptions of a client leaves none of them effective and touches no other client. Subscribing again to the same filter replaces the options of the earlier subscription instead of adding a second one.',
 ['histories'],'all sequences of subscribe/unsubscribe/remove-all over 2 clients and a set of overlapping filters up to a depth',
 'No tests exist for the subscription store; the reverse index used for bulk removal can drift from the tree only after particular histories.',
 [SL+'topics.rs'],[('reverse index kept in step with the tree',SL+'topics.rs')],['TopicsTable::{subscribe,unsubscribe,unsubscribe_all,get_all_subscribed}'],
 state=[('reverse index','client -> filters, used for bulk removal',SL+'topics.rs')],hook='topics module re-exported under cfg(apiformes_mc)')
prop('T03','Concurrent subscription changes never lose or resurrect subscriptions',
 'When several tasks subscribe, unsubscribe and look up topics at the same time, every interleaving terminates, and each single subscription behaves as a regular register: a lookup that starts after a subscribe has returned (with no removal since or at the same time) includes it, one that starts after its removals have returned (with no subscribe since or at the same time) does not, and changes to other clients or filters never affect it. A later remove-all still removes every surviving subscription.',
 ['schedules'],'all interleavings (up to a deviation bound) of 2-3 tasks with 1-3 operations on colliding filters',
 'Concurrency is not tested; a lost insert needs two first subscribers of the same level to overlap.',
 [SL+'topics.rs'],[('per-node reader/writer locks',SL+'topics.rs'),('create missing level',SL+'topics.rs')],['TopicsTable operations from concurrent tasks'],hook='topics module re-exported under cfg(apiformes_mc)')

prop('B01','Every publish reaches exactly the matching subscribers, once',
 'A QoS 0 message published by a connected client is delivered exactly once to every connected client that holds an acknowledged matching subscription (its own included), and to nobody else. Topic, payload and forwarded properties arrive unchanged.',
 ['schedules','histories'],'all schedules up to a deviation bound of small client scripts, all subscription/topic combinations of the scripts',
 'The server crates have no tests; loss or duplication depends on task interleaving and subscription overlap.',
 [SL+'dispatcher.rs',SL+'topics.rs',SL+'clients/clientworker.rs',SL+'clients/mod.rs'],[('dispatcher loop',SL+'dispatcher.rs'),('per-client outgoing queue',SL+'clients/clientworker.rs')],['bytes received by simulated clients'])
prop('B02','Messages of one publisher stay in order',
 'All messages a client publishes are received by each subscriber in the order they were sent, without gaps while both stay connected, and the acknowledgement of a subscription precedes every message delivered because of it.',
 ['schedules'],'all schedules up to a deviation bound, including reads split anywhere and back-pressure',
 'No server tests; reordering appears only when queues fill up or tasks are preempted at particular points.',
 [SL+'dispatcher.rs',SL+'clients/clientworker.rs',SL+'clients/mqttclient.rs'],[('single dispatcher queue',SL+'lib.rs'),('FIFO channels',SL+'clients/client.rs')],['bytes received by simulated clients'])
prop('B03','No-local subscriptions never echo',
 'A client is never sent its own message because of a subscription it made with the no-local option, and still gets other clients messages through it. If it also holds a matching subscription without that option it does get its own message.',
 ['schedules','histories'],'all small combinations of overlapping subscriptions with and without the option, all orders',
 'No server tests; needs overlapping filters of the same client in a particular order.',
 [SL+'dispatcher.rs',SL+'topics.rs'],[('NO_LOCAL flag',SL+'dispatcher.rs'),('merging of overlapping subscriptions',SL+'topics.rs')],['bytes received by simulated clients'])
prop('B04','Subscription acknowledgements are truthful and positional',
 'Every SUBSCRIBE gets exactly one SUBACK with the same packet identifier and one reason code per requested filter, in order. A filter reported as granted is effective for every message published after the acknowledgement, and a filter reported as refused has no effect at all. A filter whose options the broker supports (QoS 0, retained messages not requested, not a shared subscription) is granted.',
 ['inputs','histories'],'all SUBSCRIBE packets of up to three filters over all option bytes, followed by probing publishes',
 'No server tests.',
 [SL+'dispatcher.rs'],[('process_subscribe',SL+'dispatcher.rs')],['bytes received by simulated clients'])
prop('B05','No service before a successful CONNECT handshake',
 'The first packet the broker sends on a connection is a CONNACK answering a CONNECT; a connection whose first packet is anything else, malformed, or asks for an unsupported feature (user name, password, will, session resumption, authentication) is closed without ever being registered or affecting other clients, with a failure CONNACK in the unsupported case. A successful CONNACK echoes the negotiated limits, and assigns a fresh unique identifier exactly when the client sent none.',
 ['inputs','schedules'],'all first packets from a menu covering every packet type and CONNECT option, at every schedule up to a deviation bound',
 'No server tests.',
 [SL+'clients/clientworker.rs',SL+'clients/mqttclient.rs',SL+'clients/mod.rs'],[('connect/process_connect',SL+'clients/clientworker.rs')],['bytes received by simulated clients','registered client list'])
prop('B06','No client can take the broker down',
 'Whatever one client sends (any bytes, any packet sequence) and whenever it disconnects, no internal task of the broker dies and the other connected clients keep being served: their subscriptions, publishes and new connections continue to work.',
 ['inputs','schedules','fault_sequences'],'all short packet sequences of an adversarial client, all disconnect points, all schedules up to a deviation bound',
 'No server tests; a crash needs a particular packet to be dispatched after its sender was unregistered.',
 [SL+'dispatcher.rs',SL+'clients/mod.rs',SL+'clients/clientworker.rs'],[('dispatcher error handling',SL+'dispatcher.rs'),('worker isolation by task',SL+'clients/mod.rs')],['probe publish between two well-behaved clients','panics of spawned tasks'])
prop('B07','Disconnected clients are always cleaned up',
 'When a connection ends for any reason (orderly close, reset, protocol error, oversized packet, write failure), the broker stops working for it: its task ends without spinning, its socket is closed and its identifier disappears from the registered clients, at whatever moment the end happens.',
 ['schedules','fault_sequences'],'all disconnect kinds at all points of a session, all schedules up to a deviation bound',
 'No server tests; end-of-stream handling needs real connection teardown at chosen moments.',
 [SL+'clients/mqttclient.rs',SL+'clients/noiseclient.rs',SL+'clients/mod.rs',SL+'clients/clientworker.rs'],[('worker retirement',SL+'clients/mod.rs'),('end-of-stream detection',SL+'clients/mqttclient.rs')],['registered client list','socket state','task liveness'])
prop('B08','A reconnecting client takes over its identifier cleanly',
 'When a second connection presents the identifier of a connected client, the older connection is closed and the newer one stays registered and fully served, in every ordering of the takeover with packets in flight and with the end of the older connection.',
 ['schedules'],'all schedules up to a deviation bound of two connections sharing an identifier plus a publisher',
 'No server tests; the failure needs the old worker to retire after the new one is registered.',
 [SL+'clients/mod.rs',SL+'clients/client.rs'],[('client registry insert/remove',SL+'clients/mod.rs')],['bytes received by the newer connection','registered client list'])
prop('B09','Packet size limits hold in both directions',
 'A packet larger than the configured maximum is never acted on and its sender is disconnected, on plain and encrypted connections alike, while every packet within the limit is accepted however it is segmented. The broker never sends a client a packet larger than the maximum packet size that client announced; such a message is dropped for that client only and its connection stays usable.',
 ['inputs','configurations'],'all packet sizes around the limit, all announced client limits around the message size, all segmentations from a menu',
 'No server tests; boundary sizes and split reads are not sampled.',
 [SL+'clients/mqttclient.rs',SL+'clients/noiseclient.rs',SL+'clients/clientworker.rs',SL+'clients/client.rs'],[('bounded receive buffer',SL+'clients/mqttclient.rs'),('client max_packet_size',SL+'clients/client.rs')],['bytes received by simulated clients'])
prop('B10','Behaviour is independent of TCP segmentation',
 'However the bytes of a client are cut into reads, and however often the broker interrupts reading to send, the broker sees the same packets in the same order and produces the same responses.',
 ['inputs','schedules'],'all single and double cut points of scripted byte streams, byte-by-byte delivery, interleaved outgoing traffic',
 'No server tests; a cut inside a length field or between pipelined packets while a delivery is pending is needed.',
 [SL+'clients/mqttclient.rs',SL+'clients/clientworker.rs'],[('receive buffer and cancel-safe read',SL+'clients/mqttclient.rs')],['bytes received by simulated clients'])
prop('B11','Strict mode never leaks encrypted messages to plain connections',
 'With strict channel permeability, a message published on an encrypted connection is never delivered to an unencrypted one, in any schedule including reconnects and identifier takeover; messages published on plain connections are still delivered to both kinds. With permissive permeability every matching client gets it.',
 ['schedules','configurations'],'all schedules up to a deviation bound with encrypted and plain clients, takeover of the publisher identifier, both modes',
 'No server tests; the leak needs the publisher to be replaced between sending and dispatching.',
 [SL+'dispatcher.rs',SL+'clients/client.rs'],[('encrypted flag and permeability check',SL+'dispatcher.rs')],['bytes received by simulated clients'])
prop('B12','The encrypted transport carries exactly the packets sent',
 'On an encrypted connection the broker acts on exactly the packets the client encrypted: contents are unchanged in both directions and bytes that were not sent never become part of a packet. A frame that is tampered with, replayed, truncated or sent before the handshake completes has no effect and ends that connection only.',
 ['inputs','fault_sequences'],'all handshake and transport frame manipulations from a menu at all positions of a session',
 'No server tests.',
 [SL+'clients/noiseclient.rs'],[('noise handshake and transport',SL+'clients/noiseclient.rs')],['bytes received by simulated clients'])
prop('B13','Idle handshakes time out without disturbing others',
 'A connection that does not complete its handshake within the configured time is closed and leaves no trace, a connection that completes it in time is never closed by that timer, and other clients are unaffected.',
 ['schedules','fault_sequences'],'all stall points of plain and encrypted handshakes, timer firing at any point',
 'No server tests; needs control of time.',
 [SL+'clients/mqttclient.rs',SL+'clients/noiseclient.rs'],[('handshake timer',SL+'clients/mqttclient.rs')],['socket state','registered client list'])
prop('B14','Shutdown always completes',
 'Calling shutdown terminates in every state of the broker: with any number of connected, connecting or disconnecting clients on either listener and any traffic in flight, all broker tasks end and all client connections are closed.',
 ['schedules','configurations'],'all schedules up to a deviation bound of shutdown against sessions in every phase, all listener configurations',
 'No server tests; a hang depends on which task is notified first.',
 [SL+'lib.rs',SL+'clients/mod.rs',SL+'dispatcher.rs',SL+'clients/mqttclient.rs',SL+'clients/noiseclient.rs'],[('shutdown notification',SL+'lib.rs')],['completion of MqttServer::shutdown','socket state','live task count'])
prop('B15','Slow consumers and tiny queues never stall or lose messages',
 'A client that stops reading only delays itself: all other clients keep receiving. With any configured queue size, down to the minimum, no accepted message is lost, duplicated or reordered and the broker never deadlocks.',
 ['schedules','configurations'],'all schedules up to a deviation bound with a stuck reader, queue sizes from zero upwards',
 'No server tests; needs controlled back-pressure.',
 [SL+'lib.rs',SL+'dispatcher.rs',SL+'clients/clientworker.rs'],[('bounded dispatcher queue',SL+'lib.rs'),('unbounded per-client queues',SL+'clients/client.rs')],['bytes received by simulated clients'])
prop('B16','A clean start begins with no subscriptions',
 'A client that connects with a clean start never receives a message because of a subscription made on an earlier connection with the same identifier, however the end of the earlier connection interleaves with its packets in flight.',
 ['schedules','histories'],'all schedules up to a deviation bound of subscribe, disconnect, reconnect, publish',
 'No server tests; needs a reconnect with the same identifier.',
 [SL+'clients/mod.rs',SL+'topics.rs',SL+'dispatcher.rs'],[('subscription removal on retirement',SL+'clients/mod.rs')],['bytes received by the newer connection'])
prop('B17','Unsupported requests are refused and have no side effect',
 'A request the broker does not support (QoS above 0, retained or duplicate publishes, topic aliases, subscription identifiers, message expiry, pings, unsubscribe, authentication) is answered with a DISCONNECT carrying the implementation-specific-error reason, sent to the requester only. It never results in a delivery or a change of subscriptions.',
 ['inputs','histories'],'all unsupported packet forms from a menu, alone and in pairs, between well-behaved traffic',
 'No server tests.',
 [SL+'dispatcher.rs'],[('unimplemented',SL+'dispatcher.rs')],['bytes received by simulated clients'])
prop('B18','Starting a broker is all or nothing, and repeatable',
 'Starting a broker either listens on every configured address and on no other, or, when an address is not available, returns an error and leaves no listener, task or connection behind. After a failed start or a shutdown a broker can be started on the same addresses at once; it serves clients and knows nothing of the clients, subscriptions and messages of an earlier one.',
 ['configurations','fault_sequences','histories','schedules'],'all sets of configured and occupied addresses, several brokers one after the other or starting at the same time, clients connecting meanwhile, all schedules up to a deviation bound',
 'No server tests; needs addresses in use and the tasks that are left.',
 [SL+'lib.rs',SL+'clients/mod.rs'],[('listeners are bound before anything is spawned',SL+'clients/mod.rs'),('MqttServer::new and shutdown',SL+'lib.rs')],['result of MqttServer::new','open listeners','live task count','bytes received by simulated clients'])
prop('B19','Brokers in one process are independent',
 'Several brokers that run in one process on different addresses share nothing: the same identifiers may be connected to each of them, messages and subscriptions stay at the broker they were sent to, each applies its own configuration (keep-alive, packet size, permeability, queue size), and shutting one down leaves the others running.',
 ['configurations','schedules','histories'],'two brokers with different configurations, the same identifiers and filters on both, all schedules up to a deviation bound',
 'No server tests.',
 [SL+'lib.rs',SL+'clients/mod.rs',SL+'topics.rs'],[('all state hangs on MqttServer',SL+'lib.rs')],['bytes received by simulated clients','registered client lists','open listeners'])
prop('B20','The list of connected clients is exact',
 'The list of clients that the broker reports contains each identifier at most once. An identifier is in it from the moment its client has its successful CONNACK, without a gap while a takeover replaces the connection, until the connection ends; once the connection has ended and nothing is in flight, and for connections that were refused, failed or never completed their CONNECT, it is not. Reading the list at any time, or giving up a read, disturbs neither the clients nor the broker.',
 ['schedules','histories'],'all schedules up to a deviation bound of readers of the list against connects, takeovers, refusals and disconnects on both transports',
 'No server tests; a gap or a stale entry lasts for a few scheduling steps only.',
 [SL+'lib.rs',SL+'clients/mod.rs',SL+'dispatcher.rs'],[('clients()',SL+'lib.rs'),('table of clients',SL+'clients/mod.rs')],['MqttServer::clients at every moment'])
prop('B21','Departed clients and past requests leave nothing behind',
 'What the broker holds depends on the clients that are connected, not on those that were or on what was sent: after clients of any kind (subscribing to any filters, publishing, taken over, refused, timed out, cut off in the handshake, leaving with messages in flight) have gone, the memory, tasks and timers they needed are free again, and a client that publishes or repeats subscriptions for any time makes the broker hold no more.',
 ['histories','schedules'],'long histories of each kind of client and of all pairs of kinds, all schedules up to a deviation bound of clients that come and go at the same time',
 'No server tests; a leak shows after thousands of clients or in one schedule only.',
 [SL+'topics.rs',SL+'clients/mod.rs',SL+'dispatcher.rs',SL+'clients/client.rs'],[('blocks of the topics table',SL+'topics.rs'),('removal of clients',SL+'clients/mod.rs')],['bytes allocated by the broker','live task count','pending timers'])
prop('B22','What a connection makes the broker hold is bounded',
 'Whatever a connection sends or announces, before or after it has identified itself, encrypted or not, the broker holds for it no more than a small multiple of the configured maximum packet size (and of the size of an encrypted message), independent of lengths that are announced and do not arrive; messages that wait for the dispatcher are limited by the configured queue, a faster publisher has to wait.',
 ['inputs','configurations','histories'],'all announced lengths from a menu at every stage of both transports, endless packets, floods with every queue size class',
 'No server tests; the memory a request needs is not observed.',
 [SL+'clients/mqttclient.rs',SL+'clients/noiseclient.rs',SL+'lib.rs'],[('receive buffer',SL+'clients/mqttclient.rs'),('frame length limit',SL+'clients/noiseclient.rs'),('dispatcher queue',SL+'lib.rs')],['bytes allocated by the broker'])
prop('B23','The default build gives the same guarantees',
 'A broker built without the encrypted transport (the default feature set) behaves towards its clients as one built with it does towards clients of its unencrypted address: exactly matching subscribers get each message once and in order, no-local subscriptions never echo, acknowledgements are truthful, nobody is served before a successful CONNECT, takeovers, disconnects, size limits, time limits, refusals and shutdown work alike.',
 ['schedules','inputs','histories','configurations'],'the scenarios of the other broker properties that need no encrypted transport, in a build of its own',
 'Code that depends on the feature set is compiled differently; the tests exercise no server behaviour in either build.',
 [SL+'dispatcher.rs',SL+'clients/mod.rs',SL+'clients/clientworker.rs',SL+'config.rs'],[('cfg(feature = "noise")',SL+'dispatcher.rs'),('cfg(feature = "noise")',SL+'clients/mod.rs')],['packets sent to clients','registered clients'])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
