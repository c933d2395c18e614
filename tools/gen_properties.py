#!/usr/bin/env python3
"""Source of truth for properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=state or [], observe_at=observe or [], hook_needed=hook)))
DEC="src/mqtt/transport/packet_decoder.rs"; ENC="src/mqtt/transport/packet_encoder.rs"
STR="src/mqtt/transport/mqtt_bytes_stream.rs"; LIS="src/mqtt/listener.rs"
HAN="src/broker/client_packet_handler.rs"; SVC="src/broker/messaging/messaging_service.rs"
SUB="src/broker/messaging/subscriptions_repository.rs"; SES="src/broker/session/session_entity.rs"
REP="src/broker/session/session_repository.rs"; AUT="src/broker/authentication.rs"; APP="src/application.rs"
SET="src/settings/mod.rs"; PWD="ratelmq-passwd/src/main.rs"

p("C01","Well-formed packets decode exactly",
  "Every well-formed MQTT 3.1.1 packet a client may send (CONNECT with any combination of will, user name and password; PUBLISH at any QoS; PUBACK, PUBREC, PUBREL, PUBCOMP; SUBSCRIBE; UNSUBSCRIBE; PINGREQ; DISCONNECT) is read as a packet of that type whose every field equals what was encoded. Reading it consumes exactly that packet's bytes, so the packets behind it on the same connection are read correctly too.",
  ["inputs"],"all field values and all combinations of optional fields of every client-to-server packet",
  "15 decoder tests use one fixed byte string each; they cannot cover the combinations of flags, lengths and field values, nor two packets back to back.",
  [DEC,STR],[("fixed header, remaining length and per-type decoders",DEC+":read_packet")],["packet returned by the packet reader","bytes left for the next packet"])
p("C02","No byte sequence crashes or hangs the packet reader",
  "For every byte sequence a peer can send, ending anywhere, reading packets from the connection terminates with a packet or an error. It never panics and never loops without consuming input.",
  ["inputs","crash_points"],"all byte sequences (arbitrary first byte, lengths, flags), cut off at every position",
  "Tests only feed valid packets; crashes sit at rare combinations of type, length and flag bytes.",
  [DEC,STR],[("checked length arithmetic and error returns","%s"%DEC),("end-of-stream handling",STR+":wait_for_data")],["return of the packet reader"])
p("C03","Malformed packets are refused",
  "A packet that breaks the MQTT 3.1.1 wire format is answered with an error instead of a packet: reserved or server-only packet types, wrong fixed-header flags, QoS 3, a remaining length of more than four bytes, a body shorter or longer than the remaining length says, text that is not UTF-8, a SUBSCRIBE or UNSUBSCRIBE without topics, a requested QoS above 2, a PUBLISH topic that is empty or contains a wildcard, or a CONNECT with reserved flag, bad will flags, a password without user name or an unknown protocol name. Nothing malformed is ever delivered as a valid packet.",
  ["inputs"],"all byte sequences that violate a listed rule, for every packet type",
  "No test feeds a malformed packet.",
  [DEC,STR],[("validation in each per-type decoder",DEC)],["error returned by the packet reader"])
p("C04","Decoding does not depend on TCP segmentation or buffer size",
  "The packets read from a connection depend only on the bytes received, never on how TCP splits them into reads, on when they arrive, or on the size of the receive buffer. In particular a payload larger than the receive buffer arrives complete and unaltered.",
  ["schedules","inputs","configurations"],"all ways to cut the byte stream into reads, buffer sizes, payloads larger than the buffer",
  "Tests send every packet in a single write over loopback with a buffer larger than the packet.",
  [STR],[("refill loop and chunked copying",STR+":get_bytes, wait_for_data")],["packet returned by the packet reader"])
p("C05","Remaining length covers its whole range",
  "Every remaining length from 0 to 268,435,455 is written in the shortest 1-4 byte form and reads back as the same number. Every 1-4 byte form that arrives is decoded to the value MQTT assigns to it, and a fifth length byte is refused.",
  ["inputs"],"all 2^28 lengths and all 1-5 byte length fields",
  "Tests only use lengths below 128.",
  [DEC,ENC],[("base-128 decoding",DEC+":decode_remaining_length"),("base-128 encoding",ENC+":encode_remaining_length")])
p("C06","Outgoing packets are encoded as MQTT requires",
  "Every packet the broker sends (CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, PINGRESP) is put on the wire with exactly the bytes MQTT 3.1.1 prescribes for its fields: type and flags, remaining length equal to the bytes that follow, identifiers big-endian, return codes in order, topic and payload verbatim.",
  ["inputs"],"all field values of every server-to-client packet",
  "10 encoder tests with one fixed value each.",
  [ENC,STR],[("per-type encoders",ENC+":write_packet")],["bytes written to the socket"])
p("C07","A published message survives encode and decode",
  "For every PUBLISH (with a packet identifier exactly if its QoS is above 0), reading back what was written yields an equal packet: same topic, payload, QoS, retain and dup flags and packet identifier. The bytes written form exactly one packet.",
  ["inputs"],"all topics, payloads, QoS, flags and packet identifiers",
  "Encoder and decoder are only tested separately on a single message.",
  [ENC,DEC,STR],[("write_packet / read_packet",ENC+", "+DEC)])
p("C08","Short socket writes lose nothing",
  "When writing a packet reports success, every byte of it and of all packets written before it has been handed to the socket, in order and exactly once, whatever number of bytes the socket accepts per write, however often it is not ready, and whatever the packet and buffer sizes. A packet is not left waiting in a buffer for later traffic.",
  ["fault_sequences","schedules","inputs","configurations"],"all sequences of partial acceptances by the socket, packet sizes around and above the buffer size",
  "Loopback sockets accept small packets whole, so tests never see a partial write.",
  [STR,ENC],[("buffer flush",STR+":finish_packet, write_buffer_if_too_small, put_bytes")],["bytes accepted by the socket"])
p("C09","Topic matching follows MQTT",
  "A subscription matches a published topic exactly when MQTT 3.1.1 section 4.7 says so: '+' stands for one whole level (also an empty one), a trailing '#' for the parent level and any number of levels below it, everything else compares level by level and case-sensitively, and a wildcard in the first level never matches a topic starting with '$'. (Recorded finding: the parent level of a trailing '#' is not matched, as an existing test demands.)",
  ["inputs"],"all valid topic filters and topic names",
  "A few dozen fixed pairs are tested, none with empty levels, the parent level of '#', or '$'.",
  [SUB],[("subscription tree walk",SUB+":subscribed_clients")],["set of subscribers chosen for a topic"])
p("C10","Subscriptions follow subscribe/unsubscribe history",
  "After any sequence of subscribes, unsubscribes and disconnects by any clients, a client is selected for a topic exactly if it holds a matching subscription it has made and not since removed by an unsubscribe with the identical filter, by disconnecting or by losing its connection. It is then selected at least once and at most once per matching subscription. Repeating an identical subscription replaces it, so it yields one copy and one unsubscribe removes it; no operation of one client touches another client's subscriptions.",
  ["histories"],"all sequences of subscribe, unsubscribe, disconnect and connection loss over several clients and filters",
  "Tests only subscribe and once disconnect; unsubscribing, repeating and interleaving clients are untested.",
  [SUB,SVC],[("tree insert/remove",SUB+":subscribe, unsubscribe, remove_client")],["set of subscribers chosen for a topic"])
p("C11","Invalid topic filters are refused",
  "A subscription to a filter that MQTT does not allow (empty, '#' not last, or '+' or '#' sharing a level with other characters) is answered with the failure code, and it never matches any topic. Every allowed filter is granted.",
  ["inputs"],"all filter strings",
  "No test uses an invalid filter.",
  [SUB],[("filter validation",SUB+":subscribe")],["return code in SUBACK","delivery"])
p("C12","The session registry mirrors who is connected",
  "After any sequence of session inserts, disconnects and connection losses, a session exists for a client exactly if it was inserted and not ended since; the session count equals the number of such clients, and messages are only ever routed to clients with a session, through the connection of their latest session.",
  ["histories"],"all sequences of insert, disconnect and connection loss over several client ids",
  "Two tests check existence in a map prepared by hand.",
  [SVC,REP],[("session map",REP),("session removal",SVC+":disconnect, connection_lost")])
p("C13","Keep-alive expires at one and a half times the interval",
  "A session counts as expired exactly when its keep-alive interval is non-zero and at least one and a half times that interval (in whole seconds, rounded down) has passed since its last activity. With interval zero it never expires; the check never panics for any interval and any reachable time.",
  ["inputs"],"all 65,536 intervals and all activity and current times",
  "No test touches keep-alive.",
  [SES,SVC],[("expiry predicate",SES+":is_keep_alive_expired")])
p("C14","Credentials decide admission",
  "A client that presents a user name is accepted exactly if the credentials file has an entry for that exact, case-sensitive name and the presented password verifies against that entry's hash; otherwise it gets CONNACK 'not authorized' and its connection is closed. No combination of user name and password (including a missing one) stops the broker.",
  ["inputs","configurations"],"all user names, passwords and credentials files",
  "Authentication has no test at all.",
  [AUT,HAN],[("lookup and verification",AUT+":authenticate"),("connect handling",HAN+":on_connect")])
p("C15","Only an accepted connection can act",
  "Until a connection has been accepted, and after it has been refused or has ended, nothing sent on it has any effect on the broker or other clients: no message is delivered, no subscription made or removed, no session created or ended. A connection can act only under the client identifier it was accepted with.",
  ["inputs","histories","schedules"],"all packet sequences on a connection that is not, or no longer, accepted",
  "No test drives the listener or the packet handler.",
  [HAN,LIS,SVC],[("connection ownership check",HAN+":on_packet"),("first packet rule",LIS+":connection_read_loop")])
p("C16","Every request gets its matching response",
  "An accepted connection gets CONNACK first and once; each SUBSCRIBE gets one SUBACK with its packet identifier and one return code per filter in request order; each UNSUBSCRIBE one UNSUBACK with its identifier; each PINGREQ one PINGRESP. Responses come in request order, and nothing is acknowledged before it has taken effect.",
  ["inputs","histories","schedules"],"all request sequences, identifiers and filter lists, all task interleavings within the bound",
  "No test drives the packet handler.",
  [HAN,LIS],[("per-packet handlers",HAN)])
p("C17","A published message reaches exactly its subscribers",
  "A message published by an accepted client is delivered to every connected client with a matching subscription and to no one else, with topic and payload unchanged, as a QoS 0 message (the QoS every subscription is granted) without retain, dup or packet identifier, at least once and at most once per matching subscription. A publisher that subscribed to the topic itself receives it too.",
  ["inputs","histories"],"all topics, payloads, publisher QoS and flags, all sets of subscribers within the bound",
  "No test publishes through the broker.",
  [HAN,SVC,SUB],[("routing",HAN+":on_publish"),("sender lookup",SVC+":senders_to_publish")])
p("C18","No client can take the broker down",
  "Whatever packets a client sends, well-formed or not, and whenever it goes away or stops reading its socket's closing, the broker's tasks keep running: other clients still get their responses and messages, and new clients can connect.",
  ["inputs","fault_sequences","schedules"],"all packet sequences of a misbehaving client within the bound, disconnects at any point",
  "No test runs the broker.",
  [HAN,LIS,DEC],[("no panics on closed channels or odd packets",HAN)])
p("C19","A client identifier belongs to its latest connection",
  "When a client connects with an identifier already in use, the earlier connection is closed and the later one takes over; from then on nothing that happens on the earlier connection (packets, DISCONNECT, connection loss) affects the later one's session, subscriptions or deliveries.",
  ["histories","schedules"],"all interleavings of two connections using one identifier within the bound",
  "No test connects twice.",
  [HAN,LIS,SVC],[("take-over",HAN+":on_connect"),("ownership of sessions",SVC)])
p("C20","A connection starts with one CONNECT and ends at DISCONNECT",
  "If the first packet on a connection is not CONNECT, if a second CONNECT arrives, if a malformed packet arrives, or after DISCONNECT, the broker processes nothing further from that connection and closes it; an unsupported protocol level is answered with CONNACK 1 and an empty client identifier without clean session with CONNACK 2 before closing.",
  ["inputs","histories"],"all packet sequences on one connection within the bound",
  "No test drives the listener.",
  [LIS,HAN,DEC],[("read loop",LIS+":connection_read_loop")])
p("C21","Shutdown completes",
  "After the shutdown signal the broker stops accepting connections and its run finishes, whatever clients are connected and whatever they are doing; it neither hangs nor panics.",
  ["schedules","histories"],"signal at any point of any bounded run",
  "No test runs the broker.",
  [APP,LIS,HAN],[("shutdown broadcast",APP+":run")])
p("C22","Environment variables override the configuration file",
  "Every setting takes the value of its RATELMQ_ environment variable when that is set and otherwise the value in the configuration file; a list in a variable is separated by commas. An absent or ill-typed required setting is an error, never a silent default.",
  ["configurations"],"all setting values in file and environment within the bound",
  "The source says 'todo: tests for envs precedence'.",
  [SET],[("merge order",SET+":new")])
p("C23","The password tool touches only the named user",
  "Setting a user's password changes or adds exactly that user's entry and deleting removes exactly that entry; every other line of the file stays byte for byte as it was, whatever the names, and afterwards the broker admits that user with the new password and no other, even where the file had several entries for the user. A user name the format cannot hold (with a colon or a line break) is refused and the file left alone.",
  ["inputs","configurations"],"all user names, passwords and existing file contents within the bound",
  "The tool has no test.",
  [PWD],[("entry replacement",PWD+":main")])
p("C24","The credentials file is read entry by entry",
  "Loading a credentials file yields exactly its name:hash lines, split at the first colon, with the last of several entries for one name winning; a line without a colon makes loading fail as a whole, and so does an unreadable file.",
  ["configurations"],"all file contents within the bound",
  "No test loads a credentials file.",
  [AUT],[("line parsing",AUT+":FileIdentityManager::new")])
p("C25","Messages of one publisher stay in order",
  "Messages published on one connection reach each subscriber in the order they were published, without loss or duplication, in every interleaving of the broker's tasks.",
  ["schedules","histories"],"all task interleavings within the bound",
  "No test runs the broker; order bugs need particular schedules.",
  [LIS,HAN,SVC],[("channels between connection, handler and messaging tasks",HAN)])
p("C26","A slow subscriber does not stall the others",
  "A subscriber that stops reading delays nobody else: other clients keep getting responses and messages.",
  ["schedules","fault_sequences"],"a subscriber whose socket accepts nothing, any number of messages for it",
  "No test runs the broker with a stalled peer.",
  [HAN,LIS],[("bounded per-client queue",LIS+":handle_connection")])
p("C27","Ended connections leave nothing behind",
  "When a connection ends for any reason (DISCONNECT, end of stream, socket error, protocol violation), its session and subscriptions are gone, its socket is closed, and its client identifier can be used anew without inheriting anything.",
  ["crash_points","histories"],"end of the connection after any prefix of any bounded packet sequence",
  "No test closes a connection.",
  [LIS,HAN,SVC],[("end-of-connection event",LIS+":connection_read_loop"),("cleanup",HAN+":on_connection_lost, on_disconnect")])
p("C28","All listeners serve one broker",
  "The broker accepts connections on every configured address and on no other; clients on different addresses share sessions, identifiers, subscriptions and messages as if they had connected to the same one, and shutdown stops all of them.",
  ["configurations","schedules"],"all lists of addresses and all distributions of clients over them within the bound",
  "No test starts a listener.",
  [APP,LIS],[("one listener task per address",APP+":run")],["accepted connections per address"])
p("C29","Clients without an identifier are distinct",
  "Clients that connect with an empty identifier and clean session are all accepted as different clients: each keeps its own session and subscriptions, receives its own messages, and neither replaces nor influences another.",
  ["histories","schedules"],"any number of clients without identifier within the bound, all orders",
  "No test connects such a client.",
  [HAN,DEC],[("generated identifier",HAN+":on_connect")],["responses and deliveries"])
p("C30","The broker starts completely or not at all",
  "If the configuration cannot be read or lacks a setting, the credentials file cannot be read or has an invalid line, or a configured address cannot be listened on, the broker's run ends with an error instead of going on with part of what was configured; otherwise it serves clients on all configured addresses.",
  ["configurations","fault_sequences"],"each case of unreadable or incomplete configuration, credentials file, or address in use within the bound",
  "No test starts the broker.",
  [APP,SET,AUT,LIS],[("start-up",APP+":run")],["result of the run, accepted connections"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
