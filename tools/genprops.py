#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code only for readability; the jsonl is what is committed)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mechanism,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mechanism],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

CODEC=["packet/src/packet.rs","packet/src/data.rs","packet/src/props.rs"]
p("C01","Decoding is total: no input panics, hangs, over-reads or over-allocates",
  "Decoding any byte sequence, presented through any buffer type, always returns either a packet or an error: it never panics, never overflows arithmetic, never runs without end. It never consumes bytes beyond the end of the frame the fixed header declares, and the memory it allocates stays proportional to the bytes supplied, whatever lengths the input announces.",
  ["inputs"],"every byte string (valid, mutated, truncated, random) and every buffer segmentation",
  "The unit tests decode about 70 fixed, mostly valid inputs from contiguous buffers; the fuzz target exists but is not part of the tests and has no oracle besides a crash.",
  CODEC+["packet/src/connect.rs","packet/src/publish.rs","packet/src/subscribe.rs","packet/src/unsubscribe.rs","packet/src/parsable.rs"],
  [("bounds checks before unchecked reads","packet/src/parsable.rs, each packet's deserialize"),("length-limited sub-buffers","Buf::take in each deserialize")],
  ["return value / unwinding of Packet::from_bytes","bytes consumed from a counting buffer","allocator counters","thread CPU time"])
p("C02","Encoding then decoding any packet gives back the same packet",
  "For every packet of every type that can be built completely through the public builders (up to MQTT's maximum size of 268,435,455 bytes), encoding it and decoding the result yields a packet with the same type, flags, identifiers, codes, topics, payload and properties (repeatable properties keep their relative order). The advertised frame length equals the number of bytes the encoder produces and the number the decoder consumes.",
  ["inputs"],"all packet types x all property combinations x boundary lengths (127/128, 16383/16384, 2097151/2097152 bytes, 65535-byte strings)",
  "The tests round-trip one small hand-written instance per packet type, comparing bytes only.",
  CODEC+["packet/src/*.rs"],
  [("size bookkeeping of properties","packet/src/props.rs Properties::unchecked_insert"),("partial_size/size per packet","packet/src/*.rs MqttSize impls")],
  ["Packet::to_bytes output","Packet::frame_len","accessors of the decoded packet"])
p("C03","Packets are encoded and decoded in the MQTT 5.0 wire layout",
  "The bytes produced for a packet are exactly the MQTT 5.0 encoding of its contents (fixed header type and flags, minimal remaining length, field order, property identifiers and value encodings, reason code values), and decoding a well-formed MQTT 5.0 frame reports exactly the field values that frame carries, whatever order its properties come in; the typed views of property values and subscription options mean what MQTT assigns to them. Two independent implementations that follow the specification therefore interoperate with this one.",
  ["inputs"],"all well-formed frames of all 15 packet types, all legal properties, all legal reason codes",
  "Symmetric mistakes (the same wrong value written and read) are invisible to round-trip tests; the tests pin a dozen concrete encodings only.",
  CODEC+["packet/src/reason.rs","packet/src/packet_type.rs","packet/src/*.rs"],
  [("property table","packet/src/props.rs Property::auxiliary_data"),("reason code tables","packet/src/reason.rs"),("packet type nibble and fixed flags","packet/src/packet_type.rs")],
  ["bytes from Packet::to_bytes parsed by an independent reference decoder","accessors after decoding bytes from an independent reference encoder"])
p("C04","Malformed frames are always rejected",
  "A complete frame that violates MQTT 5.0 syntax is never accepted: reserved type or header flags, reserved flag bits, QoS 3, unknown, misplaced or illegally repeated properties, illegal reason codes or retain handling, ill-formed or forbidden characters in strings, wrong protocol name or version, wildcards in a topic name or misplaced in a filter, an empty topic or code list, inner lengths that disagree with the enclosing length, trailing bytes, or over-long length encodings. A frame that is complete and well-formed is accepted.",
  ["inputs"],"all complete frames; in particular single mutations of valid frames of every type",
  "The tests contain about ten negative cases; acceptance of malformed input is a statement about all inputs.",
  CODEC+["packet/src/packet_type.rs","packet/src/topic.rs","packet/src/connect.rs","packet/src/subscribe.rs","packet/src/reason.rs"],
  [("flag checks","packet_type.rs check_flags, bitflags from_bits"),("property ownership mask","props.rs is_valid_for"),("duplicate detection","props.rs Properties::insert")],
  ["Packet::from_bytes verdict compared with an independent reference decoder"])
p("C05","A stream splits into frames exactly, and 'need more data' means just that",
  "Decoding from the front of a stream consumes exactly the first frame and leaves the following bytes untouched, so back-to-back frames decode one after the other. Decoding any proper prefix of a well-formed frame reports insufficient data and nothing else, and once all bytes the fixed header announces are present the outcome is never insufficient data.",
  ["inputs"],"all concatenations of frames, all cut points, all complete but internally inconsistent frames",
  "The tests decode isolated complete packets; stream behaviour (which the server and the benchmark client rely on to find packet boundaries) is untested.",
  CODEC+["server-lib/src/clients/mqttclient.rs","bm/src/client.rs"],
  [("remaining-length check","each packet's deserialize"),("InsufficientBuffer error","packet/src/error.rs")],
  ["bytes consumed by Packet::from_bytes","error variant returned for prefixes and complete frames"])
p("C06","Builders refuse invalid values and a refused call changes nothing",
  "Every builder call either succeeds, and then the value is in the encoded packet, or returns an error and leaves the packet exactly as it was, still encodable. Once all mandatory parts are set the encoding (within MQTT's maximum packet size) is a well-formed frame. Values that could not be represented in a well-formed frame (over-long strings or binary data, forbidden characters, a property that does not belong to the packet or has the wrong value type, wildcard topic names, conflicting QoS or retain bits) are refused, and no sequence of builder calls can yield a frame whose contents disagree with what was last set.",
  ["inputs","histories"],"all sequences of builder calls with valid and invalid arguments",
  "Tests exercise single successful calls and a handful of refusals; they never look at a packet again after a refused call or after settings are changed back and forth.",
  ["packet/src/connect.rs","packet/src/publish.rs","packet/src/props.rs","packet/src/subscribe.rs","packet/src/unsubscribe.rs","packet/src/data.rs"],
  [("validating setters","connect.rs set_*, publish.rs set_*, subscribe.rs add_topic"),("checked_insert","packet/src/props.rs")],
  ["builder return values","encoded bytes before and after each call"])
p("C07","Topic names and filters are accepted exactly per the wildcard rules",
  "A topic filter is accepted if and only if every '+' occupies a whole level and '#' occupies a whole level and is the last one; a topic name to publish to is accepted if and only if it contains no wildcard. This holds identically for the builders and for decoding, for every UTF-8 string of legal length and characters.",
  ["inputs"],"all strings; exhaustively all strings up to length 7 over a small alphabet",
  "One negative unit test ('topic/#' for publish) exists.",
  ["packet/src/topic.rs","packet/src/publish.rs","packet/src/subscribe.rs","packet/src/unsubscribe.rs"],
  [("is_valid_topic","packet/src/topic.rs"),("is_wildcard","packet/src/topic.rs")],
  ["verdicts of Publish::new, Subscribe::add_topic, Unsubscribe::add_topic and Packet::from_bytes"])
p("C08","The decoding result does not depend on how the buffer is segmented",
  "Decoding the same bytes from a contiguous buffer, from a chain of segments of any sizes, or from a ring buffer gives the same verdict, the same packet contents and the same number of consumed bytes.",
  ["inputs"],"all frames x all ways of splitting them into segments",
  "Every test decodes from one contiguous buffer.",
  ["packet/src/data.rs","packet/src/publish.rs","packet/src/packet.rs"],
  [("chunk()/copy_to_bytes use","packet/src/data.rs")],
  ["Packet::from_bytes over chained, one-byte-chunk and VecDeque buffers"])

SRV=["server-lib/src/dispatcher.rs","server-lib/src/topics.rs","server-lib/src/clients/mod.rs","server-lib/src/clients/clientworker.rs","server-lib/src/clients/mqttclient.rs"]
p("S01","A publication reaches exactly the matching subscribers, once, unaltered",
  "When a connected client publishes at QoS 0, every connected client holding at least one subscription whose filter matches the topic under the MQTT rules ('+' one level, '#' the parent and everything below, first-level wildcards never match topics starting with '$') receives the message exactly once, however many of its filters match; nobody else receives it. Topic, payload and the forwarded properties (payload format, content type, response topic, correlation data and user properties in order) arrive unchanged.",
  ["histories","inputs"],"all histories of connect, subscribe, re-subscribe, publish and disconnect with arbitrary filters, topics, payloads and properties",
  "There are no server tests at all.",
  ["server-lib/src/topics.rs","server-lib/src/dispatcher.rs"],
  [("topic tree walk","server-lib/src/topics.rs collect_subs"),("fan-out","server-lib/src/dispatcher.rs process_publish")],
  ["packets received on each client's socket, compared with a flat reference matcher"])
p("S02","Per-publisher order, no loss and no duplication under concurrent load",
  "While publisher and subscriber stay connected, each subscriber receives every matching QoS 0 publication of a publisher exactly once and in the order that publisher sent them, across all topics, regardless of how many clients publish at the same time, of task scheduling, and of the configured dispatcher queue size (any value, down to zero).",
  ["schedules","histories","configurations"],"all interleavings of concurrent publishers and subscribers, all queue sizes",
  "No test starts a server; ordering and loss only show under concurrency and back-pressure.",
  ["server-lib/src/dispatcher.rs","server-lib/src/clients/clientworker.rs","server-lib/src/lib.rs","server-lib/src/clients/client.rs"],
  [("bounded dispatcher queue, single dispatcher task","server-lib/src/lib.rs, dispatcher.rs"),("unbounded per-client queue","server-lib/src/clients/clientworker.rs")],
  ["per-(publisher, subscriber) sequence numbers seen on sockets under perturbed scheduling"])
p("S03","Every SUBSCRIBE is acknowledged truthfully",
  "Each accepted SUBSCRIBE is answered by exactly one SUBACK with the same packet identifier and one reason code per requested filter, in order. A filter with a success code is in force for every publication sent after the SUBACK was received; a filter with a failure code leaves the client's existing subscriptions as they were, and requests for what the broker does not provide (QoS above 0, sending retained messages, shared subscriptions, filters of more levels than it supports) are answered with a failure code.",
  ["histories","inputs"],"all SUBSCRIBE packets (any number of filters and option combinations, any identifiers) in any history",
  "No server tests; truthfulness relates acknowledgements to later deliveries.",
  ["server-lib/src/dispatcher.rs","server-lib/src/topics.rs"],
  [("process_subscribe","server-lib/src/dispatcher.rs")],
  ["SUBACK packets and subsequent deliveries on sockets"])
p("S04","No client input can break the broker for others",
  "Whatever bytes or packet sequences a client sends, in whatever state, and however it drops its connection, no server task panics, every other client keeps being served (its publications delivered, its subscriptions and connection intact), and new clients can connect. At worst the offending connection is closed.",
  ["inputs","fault_sequences","schedules"],"all byte streams from hostile clients, abrupt disconnections at any point, on both listeners",
  "No server tests; robustness quantifies over all hostile inputs and all moments of disconnection.",
  SRV+["server-lib/src/clients/noiseclient.rs"],
  [("per-client worker tasks","server-lib/src/clients/clientworker.rs"),("error return closes the connection","clientworker.rs listen_forever")],
  ["panic hook on server threads","end-to-end deliveries between innocent clients during and after the attack"])
p("S05","Only a supported CONNECT opens the gate",
  "Until a connection has sent a well-formed CONNECT as its first packet and been answered with a success CONNACK, nothing it sends has any effect and it receives no publications; any other first packet just closes the connection. A CONNECT asking for what the broker does not support (user name, password, will, resuming a session, extended authentication) is answered with one failure CONNACK and the connection is closed without the client ever being registered.",
  ["inputs","histories"],"all first packets, all CONNECT flag and property combinations, packets pipelined behind the CONNECT",
  "No server tests.",
  ["server-lib/src/clients/clientworker.rs","server-lib/src/clients/mqttclient.rs","server-lib/src/clients/noiseclient.rs","server-lib/src/clients/mod.rs"],
  [("connect / process_connect","server-lib/src/clients/clientworker.rs"),("connect_client","mqttclient.rs, noiseclient.rs")],
  ["bytes on the connecting socket","server.clients()","deliveries to observers"])
p("S06","The CONNACK is truthful and assigned client identifiers are unique",
  "An accepted CONNECT gets exactly one CONNACK before anything else, with no session present, echoing the granted session expiry and receive maximum and announcing the configured keep alive and the broker's real limits (maximum QoS 0, no retained messages, the maximum packet size it accepts on that listener, wildcard subscriptions, no topic aliases, no subscription identifiers, no shared subscriptions). A client that sends an empty identifier, and only such a client, is told a non-empty assigned identifier that no other connection has, and under that identifier it is registered.",
  ["inputs","schedules"],"all accepted CONNECT packets, many clients connecting concurrently, all configurations of keep alive",
  "No server tests; uniqueness is about all concurrent clients.",
  ["server-lib/src/clients/clientworker.rs","server-lib/src/cfg.rs"],
  [("process_connect","server-lib/src/clients/clientworker.rs"),("Uuid::new_v4","clientworker.rs")],
  ["CONNACK bytes","server.clients()"])
p("S07","Packet size limits are honoured in both directions",
  "A packet whose total size is at most the maximum the broker announced in the CONNACK (the configured one, on the encrypted listener at most what fits into one Noise message) is processed normally; one larger than the configured maximum is never processed and gets its sender disconnected, on the plain and on the encrypted listener alike. The broker never sends a client a packet larger than the smaller of the configured maximum and the maximum packet size the client announced; such a message is dropped for that client only, which stays connected and keeps receiving others.",
  ["inputs","configurations"],"all packet sizes around the limits, all configured and announced maxima, both transports",
  "No server tests; limits interact with buffering and segmentation.",
  ["server-lib/src/clients/mqttclient.rs","server-lib/src/clients/noiseclient.rs","server-lib/src/clients/client.rs","server-lib/src/clients/clientworker.rs"],
  [("read limit","mqttclient.rs recv"),("client max_packet_size","clientworker.rs process_connect, client.rs send")],
  ["sizes of received packets, connection state, deliveries"])
p("S08","A closed connection is forgotten completely",
  "After a client's connection ends, in whatever way, the broker within bounded time closes its side, drops the client from its list of clients, discards its subscriptions and spends no further processing on it. A client that later connects under the same identifier starts with no subscriptions and receives nothing it has not subscribed to itself.",
  ["histories","fault_sequences"],"all ways of ending a connection (orderly, half-close, reset, protocol error, mid-packet) at any point of any history",
  "No server tests; leaks show only over histories of connections.",
  ["server-lib/src/clients/mod.rs","server-lib/src/clients/clientworker.rs","server-lib/src/clients/mqttclient.rs","server-lib/src/topics.rs"],
  [("process_retiring_worker","server-lib/src/clients/mod.rs"),("unsubscribe_all","server-lib/src/topics.rs")],
  ["server.clients()","server.get_topics().get_all_subscribed()","socket state","process CPU time while idle"],
  state=[("clients","registry of connected clients","server-lib/src/lib.rs"),("reverse_index","filters per client","server-lib/src/topics.rs")])
p("S09","A client identifier belongs to one live connection, the newest",
  "When a client connects with an identifier that is already in use, the older connection is closed and the newer one takes its place: from its CONNACK on, messages for that identifier go to the newer connection only, and the end of the older connection never unregisters or disturbs the newer one. The newer connection does not inherit the older one's subscriptions.",
  ["histories","schedules"],"all sequences of overlapping connections with equal identifiers, with any delay between take-over and the end of the older connection",
  "No server tests; the damage shows only after the older connection ends.",
  ["server-lib/src/clients/mod.rs","server-lib/src/clients/client.rs","server-lib/src/dispatcher.rs"],
  [("process_new_worker / process_retiring_worker","server-lib/src/clients/mod.rs"),("killme","server-lib/src/clients/client.rs")],
  ["sockets of both connections","server.clients()","deliveries after take-over"])
p("S10","Strict permeability keeps encrypted publications off plain connections",
  "Under strict permeability nothing published over the encrypted listener is ever delivered to a client on the plain listener; under permissive permeability it is delivered to plain and encrypted subscribers alike. Publications from plain clients, and between encrypted clients, are delivered in both modes.",
  ["histories","configurations"],"all mixes of plain and encrypted publishers and subscribers, both modes, any history",
  "No server tests; a confidentiality property is about all deliveries.",
  ["server-lib/src/dispatcher.rs","server-lib/src/config.rs","server-lib/src/clients/client.rs"],
  [("strict_encryption","server-lib/src/dispatcher.rs process_publish"),("encrypted flag","server-lib/src/clients/clientworker.rs Connection::is_encrypted")],
  ["deliveries on plain and encrypted sockets, compared with the model"])
p("S11","Shutdown finishes and closes everything",
  "A shutdown request completes within bounded time whatever the clients are doing (idle, connecting, mid-handshake, flooding, not reading); afterwards every client connection is closed and no new connection is served. Shutting down never panics a server task.",
  ["histories","schedules","configurations"],"all server states at the moment of shutdown; plain, encrypted or both listeners",
  "No server tests; termination depends on what every task is doing at that moment.",
  ["server-lib/src/lib.rs","server-lib/src/clients/mod.rs","server-lib/src/clients/mqttclient.rs","server-lib/src/clients/noiseclient.rs","server-lib/src/dispatcher.rs"],
  [("shutdown Notify","server-lib/src/lib.rs MqttServer::shutdown and the select! in every task")],
  ["completion of MqttServer::shutdown, socket state, panic hook"])
p("S12","An unsupported request is refused whole and its sender disconnected",
  "A request the broker does not implement (QoS 1 or 2, retained or duplicate-flagged publications, topic aliases, message expiry or subscription identifiers, UNSUBSCRIBE, PINGREQ, re-authentication, a second CONNECT, an acknowledgement although the broker sends nothing that is to be acknowledged, or a packet only servers send) has no effect on any other client or on subscriptions. Its sender gets a DISCONNECT with an error reason code as the last packet and the connection is closed.",
  ["inputs","histories"],"all unsupported packets in any history",
  "No server tests.",
  ["server-lib/src/dispatcher.rs","server-lib/src/clients/clientworker.rs"],
  [("unimplemented","server-lib/src/dispatcher.rs")],
  ["packets and end-of-stream on the sender's socket","deliveries to observers","SUBSCRIBE effect"])
p("S13","The encrypted listener only acts on authentic messages",
  "On the encrypted listener only a client that completed the Noise handshake with the configured server key can have any effect, and every MQTT packet acted on is exactly the content of one authentic message in sequence: altered, replayed, reordered, truncated or plaintext data never takes effect and ends the connection. No packet content ever travels in clear on that listener, and an authentic message never yields a packet containing bytes the sender did not put there.",
  ["inputs","fault_sequences"],"all manipulations of handshake and transport frames by an attacker on the path",
  "No server tests.",
  ["server-lib/src/clients/noiseclient.rs","server-lib/src/cfg.rs"],
  [("snow handshake and transport","server-lib/src/clients/noiseclient.rs")],
  ["deliveries to observers, connection state, bytes captured by a man-in-the-middle proxy"])
p("S14","Behaviour does not depend on how the byte stream is segmented",
  "How a client's bytes are cut into TCP segments, and with what pauses, has no influence on what the broker does: the same packet sequence sent in one burst (even pipelined behind the CONNECT), byte by byte, or in random pieces leads to the same acknowledgements and the same deliveries, on both listeners.",
  ["inputs","schedules"],"all segmentations and pauses of all packet sequences",
  "No server tests.",
  ["server-lib/src/clients/mqttclient.rs","server-lib/src/clients/noiseclient.rs","server-lib/src/clients/clientworker.rs"],
  [("recv buffering","mqttclient.rs recv"),("cancel safety under select!","clientworker.rs listen")],
  ["acks and deliveries compared with the model, and across segmentations"])
p("S15","The subscription table is correct under concurrent use",
  "For concurrent subscribe, unsubscribe, unsubscribe-all and lookup operations: a lookup that starts after a subscribe completed and ends before any matching unsubscribe started reports that subscriber; a lookup never reports a client whose matching subscriptions were all removed before it started or never existed; and no operation deadlocks. After all operations finish the table equals the result of some sequential order of them.",
  ["schedules","histories"],"all interleavings of concurrent operations at every lock acquisition",
  "No tests of the table at all; lost updates need specific interleavings.",
  ["server-lib/src/topics.rs"],
  [("fine-grained per-block RwLocks","server-lib/src/topics.rs"),("reverse index","server-lib/src/topics.rs")],
  ["recorded call/return history of TopicsTable operations under a seeded scheduler"],
  hook="cfg(verif_hooks): re-export of the table types")
p("S16","No Local and re-subscription options are applied as last set",
  "A client's own publication is not delivered back to it through a subscription with No Local set, while everyone else, and a client whose matching subscriptions are all without No Local, receives it. Subscribing again to the same filter replaces its options, and the Retain As Published option does not affect delivery of ordinary publications.",
  ["histories","inputs"],"all histories of subscriptions with any option bytes and self-publications",
  "No server tests.",
  ["server-lib/src/dispatcher.rs","server-lib/src/topics.rs"],
  [("NO_LOCAL check","server-lib/src/dispatcher.rs process_publish"),("option replacement","server-lib/src/topics.rs insert")],
  ["deliveries on sockets compared with the model"])
p("S17","A slow or stalled client does not hold up the others",
  "A subscriber that stops reading, reads slowly, or a client that stops half-way through a packet or a handshake does not delay or lose deliveries between other clients, nor the acceptance of new ones. When a slow subscriber resumes reading it receives everything that was due to it, in order.",
  ["schedules","histories"],"all patterns of stalls by any number of clients while others are active",
  "No server tests.",
  ["server-lib/src/clients/clientworker.rs","server-lib/src/clients/client.rs","server-lib/src/dispatcher.rs","server-lib/src/clients/mqttclient.rs"],
  [("unbounded per-client queue","clientworker.rs"),("task per connection","mqttclient.rs connect_client")],
  ["deliveries between fast clients while others are stalled; full catch-up afterwards"])
p("S18","Connections that never finish connecting are closed",
  "A connection that does not complete its handshake and CONNECT, whether it sends nothing, a partial packet, or bytes in a slow trickle, is closed by the broker within a bounded multiple of the configured keep alive time and never registered. Connections that complete in time are not affected by that limit afterwards.",
  ["fault_sequences","configurations"],"all ways of stalling before CONNECT completes, both listeners",
  "No server tests.",
  ["server-lib/src/clients/mqttclient.rs","server-lib/src/clients/noiseclient.rs"],
  [("sleep(keep_alive) in the connect select!","mqttclient.rs, noiseclient.rs _connect_client")],
  ["end of stream on stalled sockets, server.clients()"])
p("M01","No undefined behaviour or data race in any execution",
  "No execution of the codec or the broker, on any input and any thread schedule, performs undefined behaviour, an invalid memory access or a data race; in particular every string the library hands out is valid UTF-8.",
  ["inputs","schedules"],"all inputs to the codec; all concurrent broker executions",
  "Tests run uninstrumented; such errors leave no trace in ordinary runs.",
  ["packet/src/*.rs","server-lib/src/*.rs"],
  [("safe Rust only","whole workspace"),("std::str::from_utf8","packet/src/data.rs")],
  ["Miri on the codec, AddressSanitizer and ThreadSanitizer on the running broker"])
p("R01","What a client cost is given back when it is gone",
  "The memory and the sockets the broker holds depend on what is alive (connections, their subscriptions, messages they are still owed), not on what there has been: however many connections, failed connects and handshakes, takeovers, subscriptions to old or new filters, publications, refused requests and abandoned backlogs came and went, the broker's live heap returns to where it was with the same clients connected and the same subscriptions in force.",
  ["histories","fault_sequences"],"all histories of clients that come and go, however long",
  "Leaks show only over long histories, and no test measures memory.",
  ["server-lib/src/clients/mod.rs","server-lib/src/clients/clientworker.rs","server-lib/src/clients/mqttclient.rs","server-lib/src/clients/noiseclient.rs","server-lib/src/topics.rs","server-lib/src/dispatcher.rs"],
  [("process_retiring_worker","server-lib/src/clients/mod.rs"),("prune","server-lib/src/topics.rs"),("reverse_index","server-lib/src/topics.rs")],
  ["bytes and blocks allocated by the broker's threads and not freed yet","sockets held by the process","server.clients()"],
  state=[("clients","registry of connected clients","server-lib/src/lib.rs"),("root_block","tree of filters","server-lib/src/topics.rs"),("workers","tasks of connections","server-lib/src/clients/mod.rs")])
p("R02","What one connection can make the broker hold is bounded by the packet size limit",
  "Whatever a connection sends (headers that announce huge lengths, packets and handshakes that never end, complete packets made of as many parts as fit), on either listener and at any stage from before the handshake on, the memory the broker holds for it at rest stays within a few times the configured maximum packet size, and the memory needed while dealing with it within a fixed multiple; nothing is reserved for bytes that were only announced. (Subscriptions in force and messages queued for a slow subscriber are not counted.)",
  ["inputs","configurations"],"all byte streams of a connection, all packet size limits, any number of connections",
  "Tests send only small well-formed packets and measure no memory.",
  ["server-lib/src/clients/mqttclient.rs","server-lib/src/clients/noiseclient.rs","packet/src/packet.rs","packet/src/props.rs"],
  [("recv","mqttclient.rs, noiseclient.rs"),("max_frame_length","noiseclient.rs _connect_client"),("with_capacity","mqttclient.rs")],
  ["bytes allocated by the broker's threads: live and peak"])
p("D01","The shipped server program keeps its published configuration and stays up",
  "The apiformes-server program, started as it is shipped, listens on port 1883 (plain) and 8883 (Noise, under the published public key only) of every interface, announces a keep alive of 50 s and a maximum packet size of 65536 bytes and keeps to them (an unfinished connection is closed after the keep alive and not before; packets of the maximum size pass, larger ones do not), keeps messages from encrypted clients away from plain ones, and serves for as long as it is not ended from outside: whatever its clients do, whatever RUST_LOG says and whatever becomes of its output, with one processor or many, after having stood still, after hours of running and after having run out of file descriptors.",
  ["inputs","schedules","fault_sequences","configurations"],"all client behaviours, environments, run times and resource shortages of the process",
  "No test starts the program; tests of the library configure their own server and end within milliseconds.",
  ["server/src/main.rs","server-lib/src/lib.rs","server-lib/src/clients/mqttclient.rs","server-lib/src/clients/noiseclient.rs"],
  [("main","server/src/main.rs"),("listen_forever","mqttclient.rs, noiseclient.rs"),("connect","clientworker.rs")],
  ["packets on sockets of the program, its exit status and error output"])
p("B01","A benchmark run sends, counts and terminates exactly",
  "Run against a conforming broker, the benchmark tool opens the requested numbers of subscribers and publishers, has every subscription acknowledged before the first publication, sends exactly the requested number of messages per publisher to the requested topic with the requested pauses (constant, or uniformly distributed between the minimum and the maximum, in any unit) between them, waits until every subscriber has received all of them before closing publishers, and then exits successfully; this holds however the broker segments or delays its replies. If the broker closes a connection early the tool ends with an error instead of hanging.",
  ["inputs","schedules","fault_sequences"],"all small configurations, all segmentations of broker replies, connection loss at any point",
  "The benchmark tool has no tests.",
  ["bm/src/main.rs","bm/src/client.rs","bm/src/publisher.rs","bm/src/subscriber.rs"],
  [("release_signal","bm/src/main.rs"),("recv loop","bm/src/client.rs")],
  ["traffic recorded by an instrumented broker stand-in, exit status of the tool"])
p("B02","Benchmark figures describe the run that took place",
  "The reported configuration equals the requested one; the reported mean arrival rate per subscriber and mean departure rate per publisher are the averages over subscribers and publishers of messages per second; the trip-time minimum, percentiles and maximum are ordered and agree with the time publications actually took from publisher to subscriber, over all subscribers, for any numbers of publishers and subscribers, any delay option and any duration of the run.",
  ["inputs","configurations"],"all combinations of publisher, subscriber and message counts and delay options",
  "The benchmark tool has no tests.",
  ["bm/src/main.rs","bm/src/subscriber.rs","bm/src/publisher.rs"],
  [("rate computation","bm/src/main.rs"),("str_to_duration","bm/src/main.rs")],
  ["printed report compared with timings controlled and recorded by the broker stand-in"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P),"ok")
