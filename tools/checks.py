"""Which harnesses decide which property, within which bounds."""
COMMON = [
    "rustc 1.99.1 with panic=abort, overflow checks on, opt-level 0; the IR is simplified by LLVM's sroa/early-cse/instcombine/simplifycfg/adce before execution",
    "tokio's executor, sockets, timers and signals are the stand-in of shims/tokio (real channels, real I/O traits and select!); HashMap hashing is a constant function; the clock is constant unless a harness moves it",
    "allocation never fails below 64 MiB; logging is disabled (no logger is installed)",
]
BROKER = COMMON + [
    "the broker runs as ratelmq::run starts it; tasks are switched at await points, first come first served except for the stated number of turns out of order (the task overtakes, or those overtaken are held back until nothing else is runnable) and of select! branches; threads running truly in parallel are not modelled",
    "the random number generator yields a fixed sequence",
]
ARGON = ["argon2 is replaced by a cheap injective-on-short-inputs stand-in with the same interface and PHC strings"]
TOOLS = ["the file system and the environment are a model inside the engine (natively: a scratch directory); clap and env_logger are reduced to thin wrappers"]


def h(entry, feature, bounds, covers=(), **k):
    return dict(entry=entry, feature=feature, bounds=bounds, covers=list(covers), **k)


DEEP = ("thorough",)
CHECKS = {
    "C01": dict(assumptions=COMMON, harnesses=[
        h("h_c01_connect", "codec", "every combination of will, user name, password, will QoS/retain, clean session; every keep-alive; texts of 0, 1 or 3 arbitrary ASCII bytes, will payload of up to 6 arbitrary bytes", ["will-user-password"]),
        h("h_c01_connect_text", "codec", "each text field in turn: any UTF-8 of 0..=4 bytes, or 126, 255, 256 or 300 bytes long with arbitrary ends", ["long", "four-byte-character"]),
        h("h_c01_publish", "codec", "every QoS/dup/retain, every identifier, topics of up to 5 arbitrary bytes (any UTF-8 up to 4), payloads of 0, 1, 7, 300 bytes and around the two-byte length, first 8 bytes arbitrary", ["multibyte-topic", "two-byte-length"]),
        h("h_c01_topics", "codec", "SUBSCRIBE and UNSUBSCRIBE with 1..=3 filters of up to 3 bytes, every QoS and identifier", ["three"]),
        h("h_c01_long", "codec", "texts, will payloads of up to 65535 bytes, payloads up to 70001, lists of 10, 40 and 200 filters, arbitrary ends", ["done"]),
        h("h_c01_small", "codec", "PUBACK, PUBREC, PUBREL, PUBCOMP with every identifier, PINGREQ, DISCONNECT", ["done"]),
    ]),
    "C02": dict(assumptions=COMMON, harnesses=[
        h("h_c02_raw", "codec", "every byte sequence of 0..=9 bytes, then end of stream; buffers of 1, 3 and 4096 bytes; declared bodies below 64 MiB", ["ended"], jobs=4),
        h("h_c02_raw_deep", "codec", "every byte sequence of 0..=11 bytes, otherwise as h_c02_raw", ["ended"], jobs=8, max_time=600, tiers=DEEP),
        h("h_c02_connect_raw", "codec", "CONNECT with any remaining length and any 0..=11 bytes after the protocol level, then end of stream", ["ended"], jobs=2),
        h("h_c02_connect_raw_deep", "codec", "as h_c02_connect_raw with up to 14 bytes", ["ended"], jobs=8, max_time=600, tiers=DEEP),
        h("h_c02_long", "codec", "CONNECT, PUBLISH, SUBSCRIBE, UNSUBSCRIBE of up to 20 bytes whose lengths, flags and QoS are arbitrary, cut off at every position; buffers of 2 and 4096 bytes", ["ended"], jobs=2),
    ]),
    "C03": dict(assumptions=COMMON, harnesses=[
        h("h_c03_raw", "codec", "every byte sequence of 0..=7 bytes then end of stream, judged packet by packet by an independent parser", ["valid", "refused"], jobs=2),
        h("h_c03_raw_deep", "codec", "as h_c03_raw, up to 10 bytes", ["valid", "refused"], jobs=8, max_time=600, tiers=DEEP),
        h("h_c03_connect_raw", "codec", "CONNECT with any remaining length and any 0..=8 bytes after the protocol level", ["valid", "refused"], jobs=2),
        h("h_c03_connect_raw_deep", "codec", "as h_c03_connect_raw with up to 12 bytes", ["valid", "refused"], jobs=8, max_time=600, tiers=DEEP),
        h("h_c03_connect", "codec", "CONNECT with any flags byte; any protocol name length/letter, level, first-byte flags; any 2-byte text in will topic, user name; declared length exact, +1, -1, -4", ["valid", "refused"], jobs=2),
        h("h_c03_publish", "codec", "PUBLISH with any flags, declared length 0..=8 or two-byte, any body of up to 6 bytes", ["valid", "refused"]),
        h("h_c03_topics", "codec", "SUBSCRIBE/UNSUBSCRIBE with any flags, two filters with any lengths 0..=4, any text of 3 bytes, any QoS, any declared length 0..=13, cut off anywhere", ["valid", "refused"], jobs=2),
        h("h_c03_small", "codec", "every other packet type with any flags, lengths 0..=4 and up to 3 body bytes, followed by a second packet", ["valid", "refused"]),
    ]),
    "C04": dict(assumptions=COMMON, harnesses=[
        h("h_c04_split", "codec", "two packets (CONNECT, PUBLISH, SUBSCRIBE or PUBACK, then PUBACK), up to 2 arbitrary cuts plus one late arrival anywhere, one spurious not-ready, or one byte per read; buffers of 1, 2, 5, 16, 4096 bytes; texts arbitrary", ["late"], jobs=4),
        h("h_c04_large", "codec", "topics and payloads of 7..=200 arbitrary bytes through buffers of 1..=31 bytes, reads cut once anywhere, 3 bytes at a time or whole; three packets in a row", ["larger-than-buffer"], jobs=2),
        h("h_c04_broker", "codec", "the broker's 4096 bytes and 16384: a packet, one of 4080..=10000 payload bytes and another one, cut at 4094..=4097, around the start or the end of the large one, every 1000 bytes, or in three large parts", ["done"]),
    ]),
    "C05": dict(assumptions=COMMON, harnesses=[
        h("h_c05_decode", "remlen", "all 2^40 values of 5 bytes after the packet type", ["decoded", "refused", "four-bytes"]),
        h("h_c05_roundtrip", "remlen", "all lengths 0..=268435455", ["four-bytes"]),
    ]),
    "C06": dict(assumptions=COMMON, harnesses=[
        h("h_c06_small", "codec", "CONNACK with both session flags and all return codes; PUBACK, PUBREC, PUBREL, PUBCOMP, UNSUBACK with every identifier; PINGRESP", ["done"]),
        h("h_c06_suback", "codec", "SUBACK with every identifier and every list of 1..=3 return codes, and lists of 125, 126 and 300", ["long"]),
        h("h_c06_publish", "codec", "PUBLISH with every QoS, dup, retain, identifier, topics of 1..=3 bytes of any text, payloads of 0..=3 arbitrary bytes and sizes around the steps of the remaining length and of the buffer", ["three-byte-length"]),
    ]),
    "C07": dict(assumptions=COMMON, harnesses=[
        h("h_c07_roundtrip", "codec", "PUBLISH with every QoS, dup, retain, identifier, topics of 1..=3 bytes of any text, payloads of 0..=4 arbitrary bytes", ["done"]),
        h("h_c07_large", "codec", "topics or payloads of 120..=70001 bytes with arbitrary ends; buffers of 16 and 4096 bytes", ["larger-than-buffer"]),
    ]),
    "C08": dict(assumptions=COMMON, harnesses=[
        h("h_c08_writes", "codec", "one or two packets (PUBLISH, PINGRESP, SUBACK), buffers of 2..=16 and 4096 bytes, two arbitrary partial acceptances, one byte per write, two spurious not-readies, a socket that fails", ["written", "failed"]),
        h("h_c08_large", "codec", "payloads of 1..=130 arbitrary bytes through buffers of 8, 32 and 33 bytes, one arbitrary partial acceptance, 1 or 7 bytes per write or whole; payloads of 600..=70001 bytes through the broker's 4096 bytes, 100..=4095 bytes per write, two not-readies", ["larger-than-buffer"]),
    ]),
    "C09": dict(assumptions=COMMON, harnesses=[
        h("h_c09_match", "messaging", "every valid filter and every topic of 1..=4 ASCII bytes, judged by an independent matcher", ["match", "no-match", "parent"]),
        h("h_c09_match_deep", "messaging", "every valid filter and every topic of 1..=5 ASCII bytes", ["match", "no-match", "parent"], jobs=4),
        h("h_c09_levels", "messaging", "filters and topics of 1..=3 levels, each an arbitrary character, a two-letter word, empty, '+' or '#'", ["match", "no-match", "parent"]),
        h("h_c09_levels_deep", "messaging", "as h_c09_levels with up to 4 levels", ["match", "no-match", "parent"], jobs=4),
        h("h_c09_several", "messaging", "any three of eight filters held by three clients at once; topics of 1..=3 one-character levels", ["done"], jobs=2),
        h("h_c09_long", "messaging", "1..=17 levels of 1, 2, 6 or 300 bytes (ASCII, two- and three-byte characters), the first or last ending in an arbitrary character; '+' first or in the middle, '#' behind or instead of the last", ["match", "no-match", "parent"]),
    ]),
    "C10": dict(assumptions=COMMON, harnesses=[
        h("h_c10_history", "messaging", "every history of 4 subscribes, unsubscribes, disconnects and connection losses of two clients; every pattern of equal and different one-character filters and topic", ["selected", "unsubscribe", "disconnect", "lost"], jobs=4),
        h("h_c10_history_deep", "messaging", "histories of 5 steps", ["selected", "unsubscribe", "disconnect", "lost"], jobs=8, max_time=700, tiers=DEEP),
        h("h_c10_wildcards", "messaging", "every history of 3 steps over the filters '+', '#', 'a/+', 'a', 'a/b'", ["selected", "unsubscribe", "disconnect", "lost"], jobs=2),
        h("h_c10_many", "messaging", "5 or 20 clients on two of four filters each; one disconnects, is lost, or unsubscribes from none, some or all at once", ["done"]),
        h("h_c10_tree", "messaging", "two clients over nine filters in a tree of four levels, the first with any subset of them, the second with none, three single ones or all; the first leaves, is lost or unsubscribes", ["done"], jobs=4),
    ]),
    "C11": dict(assumptions=COMMON, harnesses=[
        h("h_c11_filters", "messaging", "every filter of 0..=5 ASCII bytes", ["granted", "refused"]),
        h("h_c11_filters_deep", "messaging", "every filter of 0..=7 ASCII bytes", ["granted", "refused"], jobs=2),
        h("h_c11_pieces", "messaging", "every sequence of 1..=4 of 'a', '/', '+', '#', '$', a two- and a four-byte character", ["granted", "refused"], jobs=2),
        h("h_c11_long", "messaging", "filters of 40..=300 bytes (one level, many empty ones, non-ASCII, many '+') with one arbitrary character in front, in the middle or behind", ["granted", "refused"]),
    ]),
    "C12": dict(assumptions=COMMON, harnesses=[
        h("h_c12_registry", "messaging", "every history of 3 inserts, disconnects and connection losses over three client names that are equal or not", ["disconnected", "lost", "replaced"], jobs=2),
        h("h_c12_registry_deep", "messaging", "histories of 4 steps", ["disconnected", "lost", "replaced"], jobs=4),
        h("h_c12_many", "messaging", "2, 4, 7 or 20 clients; two steps of ending and coming back", ["done"]),
    ]),
    "C13": dict(assumptions=COMMON + ["activity times of 2 (deep: 4) fixed instants at day, month and year ends"], harnesses=[
        h("h_c13_elapsed", "messaging", "keep-alive 0, 1, 60, 999, 32767, 65535; every elapsed time from -1000 s to 199999 s", ["expired", "alive"], jobs=8),
        h("h_c13_elapsed_deep", "messaging", "16 keep-alives, four activity times, every elapsed time from -1000 s to 199999 s", ["expired", "alive"], jobs=8, max_time=800, tiers=DEEP),
        h("h_c13_limit", "messaging", "every keep-alive; elapsed times at the limit, one second and one nanosecond around it", ["expired", "alive"], jobs=4),
        h("h_c13_fraction", "messaging", "five keep-alives, any nanoseconds of the activity and of the present, seconds at the limit and next to it", ["expired", "alive"]),
        h("h_c13_session_list", "messaging", "the list over two sessions, every pair of keep-alives, three elapsed times", ["done"], jobs=4),
    ]),
    "C14": dict(assumptions=BROKER + ARGON, harnesses=[
        h("h_c14_password", "broker", "two users of the file, every password of 0..=5 ASCII bytes or none", ["accepted", "refused", "no-password"], jobs=2),
        h("h_c14_user", "broker", "every user name of 0..=4 ASCII bytes with one user's password", ["accepted", "refused"], jobs=2),
        h("h_c14_entries", "broker", "nine users over entries that are no hash, empty, doubled, cut off, of an unknown algorithm, with an empty name or an empty password; six passwords", ["accepted", "refused"], jobs=2),
        h("h_c14_long", "broker", "user names and passwords of 16..=300 bytes, also of multi-byte characters, that differ in an arbitrary last byte, in length, or not", ["accepted", "refused"]),
    ]),
    "C15": dict(assumptions=BROKER + ARGON, harnesses=[
        h("h_c15_refused", "broker", "16 ways not to be, or no longer to be, accepted (any 3-byte identifier, wrong password, wrong user, unusable entry, any protocol level, bad flags, any protocol name), then 9 kinds of packets, in one segment, two, or before the connection ends", ["done"], jobs=8),
        h("h_c15_refused_schedule", "broker", "as h_c15_refused, with up to 2 tasks running out of turn and one select! taking a later branch", ["done"], jobs=8),
        h("h_c15_ids", "broker", "two accepted clients with any two different identifiers of 1..=2 bytes, five actions of the one", ["done"]),
    ]),
    "C16": dict(assumptions=BROKER, harnesses=[
        h("h_c16_requests", "broker", "any 2 of 6 requests with any identifiers behind CONNECT, together or apart, up to 2 tasks out of turn", ["done"], jobs=4),
        h("h_c16_requests_deep", "broker", "any 3 of 6 requests", ["done"], jobs=8, max_time=300, tiers=DEEP),
        h("h_c16_filters", "broker", "SUBSCRIBE with two arbitrary filters of 1..=2 bytes around a valid one, every QoS and identifier", ["done"], jobs=2),
        h("h_c16_effect", "broker", "a message published after the response is seen; up to 3 tasks out of turn, another client busy", ["done"], jobs=2),
        h("h_c16_effect_deep", "broker", "as h_c16_effect with up to 6 tasks out of turn", ["done"], jobs=4, tiers=DEEP),
        h("h_c16_many", "broker", "31, 33 or 70 requests in one segment, whole or 3-byte writes, one task out of turn", ["done"], jobs=4),
        h("h_c16_long", "broker", "SUBSCRIBE and UNSUBSCRIBE with 40, 130 or 200 filters, valid or not, any identifier and QoS", ["done"]),
    ]),
    "C17": dict(assumptions=BROKER, harnesses=[
        h("h_c17_deliver", "broker", "every topic of 1..=3 bytes, 2 payload bytes, QoS, dup, retain; 8 x 4 x 3 sets of up to two subscriptions of two subscribers and the publisher", ["both", "publisher", "nobody"], jobs=8),
        h("h_c17_fanout", "broker", "four subscribers, one of which leaves by DISCONNECT, end of stream, reset or UNSUBSCRIBE", ["done"], jobs=2),
        h("h_c17_history", "broker", "every history of 4 subscribes, unsubscribes, publications, DISCONNECTs, ends, resets, returns and take-overs of two clients over two filters and two topics", ["done"], jobs=4),
        h("h_c17_history_deep", "broker", "histories of 5 steps over four filters", ["done"], jobs=8, max_time=700, tiers=DEEP),
        h("h_c17_many", "broker", "9, 24 or 40 subscribers of four filters, two messages", ["done"]),
        h("h_c17_payload", "broker", "payloads of 0..=9000 bytes with arbitrary ends, small ones retained or not, topics of 2 arbitrary or 300 bytes, whole or in chunks", ["large"], jobs=2),
    ]),
    "C18": dict(assumptions=BROKER + ARGON, harnesses=[
        h("h_c18_first", "broker", "a new connection that sends any 0..=6 bytes and stays, ends or is reset", ["done"], jobs=4),
        h("h_c18_first_deep", "broker", "any 0..=9 bytes", ["done"], jobs=8, max_time=400, tiers=DEEP),
        h("h_c18_bytes", "broker", "an accepted connection that sends any 0..=6 bytes and stays, ends or is reset", ["done"], jobs=4),
        h("h_c18_bytes_deep", "broker", "any 0..=9 bytes", ["done"], jobs=8, max_time=400, tiers=DEEP),
        h("h_c18_packets", "broker", "one packet of each of the 16 types, three flag values, arbitrary fields, before or after being accepted", ["done"], jobs=8),
        h("h_c18_gone", "broker", "a client that ends, is reset, breaks or stops reading after 0..=23 steps of the broker during four kinds of traffic; 2 tasks out of turn", ["done"], jobs=8),
        h("h_c18_gone_deep", "broker", "as h_c18_gone with 3 tasks out of turn", ["done"], jobs=8, max_time=400, tiers=DEEP),
        h("h_c18_accept", "broker", "up to 2 silent connections, 0, 1, 2 or 20 failing accepts, 2 select! branches out of turn", ["done"], jobs=8),
        h("h_c18_many", "broker", "40 connections that come and go in one of six ways", ["done"]),
        h("h_c18_requests", "broker", "two SUBSCRIBEs, UNSUBSCRIBEs or series of PUBLISHes over nine sets of filters (many, deep, repeated, overlapping, malformed, two arbitrary bytes once); then the client stays or ends", ["done"], jobs=4),
    ]),
    "C19": dict(assumptions=BROKER, harnesses=[
        h("h_c19_takeover", "broker", "any 2-byte identifier; ten things under way on the earlier connection (up to four responses or messages waiting for it, it reads or not), eight troubles afterwards", ["done", "stalled"], jobs=4),
        h("h_c19_takeover_schedule", "broker", "as h_c19_takeover with two of the troubles, 2 tasks and one select! out of turn", ["done"], jobs=8),
        h("h_c19_takeover_schedule_deep", "broker", "as h_c19_takeover with two of the troubles, 3 tasks and one select! out of turn", ["done"], jobs=8, max_time=500, tiers=DEEP),
        h("h_c19_race", "broker", "two or three connections asking for one identifier at once, 2 tasks out of turn", ["done"], jobs=4),
        h("h_c19_ids", "broker", "every pair of identifiers of 1..=2 bytes", ["same", "different"]),
        h("h_c19_long_ids", "broker", "identifiers of 12..=300 bytes with an arbitrary character first, in the middle or last, one possibly longer", ["same", "different"]),
    ]),
    "C20": dict(assumptions=BROKER, harnesses=[
        h("h_c20_first", "broker", "nine kinds of first packets (arbitrary bytes of any type but CONNECT among them), followed by CONNECT and PUBLISH", ["done"], jobs=4),
        h("h_c20_level", "broker", "every protocol level with and without identifier and clean session", ["accepted", "level", "identifier", "no-identifier"]),
        h("h_c20_end", "broker", "nine ways to end a connection, followed by four kinds of packets, in one segment or apart", ["done"], jobs=4),
        h("h_c20_end_schedule", "broker", "as h_c20_end with 3 tasks out of turn", ["done"], jobs=8),
    ]),
    "C21": dict(assumptions=BROKER, harnesses=[
        h("h_c21_shutdown", "broker", "signal after 0..=11 steps of six kinds of traffic, one task and two select! out of turn", ["done"], jobs=4),
        h("h_c21_shutdown_deep", "broker", "two tasks out of turn", ["done"], jobs=8, tiers=DEEP),
        h("h_c21_clients", "broker", "two clients, each in one of eight states (silent, half a CONNECT, refused, subscribed, ended, reset, replaced, not reading)", ["done"], jobs=4),
        h("h_c21_stalled", "broker", "a subscriber that stopped reading with 1, 20, 33, 34 or 50 messages for it", ["done"]),
        h("h_c21_many", "broker", "40 clients: silent, asking, publishing to nobody or gone; signal after 0, 3 or 50 steps or when idle; one select! out of turn", ["done"]),
    ]),
    "C22": dict(assumptions=COMMON + TOOLS, harnesses=[
        h("h_c22_sources", "tools", "every scalar setting in turn in the file, the environment, both or neither, values of 2 arbitrary ASCII bytes, upper- and lower-case prefix", ["read", "refused"], jobs=4),
        h("h_c22_list", "tools", "the list of listeners in the file, the environment, both or neither; 1..=4 addresses", ["four"], jobs=4),
        h("h_c22_file", "tools", "all settings from the file", ["read"]),
        h("h_c22_types", "tools", "values of a wrong type in the file", ["refused"]),
    ]),
    "C23": dict(assumptions=COMMON + TOOLS + ARGON, harnesses=[
        h("h_c23_lines", "tools", "files of an arbitrary 2-byte line, two users and three kinds of entries, two kinds of end; add, change, delete", ["added", "changed", "deleted", "nothing-to-delete"], jobs=4),
        h("h_c23_lines_deep", "tools", "longer arbitrary lines", ["added", "changed", "deleted", "nothing-to-delete"], jobs=8),
        h("h_c23_metacharacters", "tools", "18 user names with every character special to regular expressions, against entries of similar names", ["deleted", "nothing-to-delete"], jobs=4),
        h("h_c23_end", "tools", "files with and without a final newline", [], jobs=4),
        h("h_c23_bytes", "tools", "every file of 0..=5 bytes", [], jobs=8),
        h("h_c23_bytes_deep", "tools", "every file of 0..=7 bytes", [], jobs=8, max_time=800, tiers=DEEP),
        h("h_c23_user", "tools", "every user name of one ASCII character", [], jobs=8),
        h("h_c23_twice", "tools", "several entries of the user", ["changed", "deleted"], jobs=4),
        h("h_c23_password", "tools", "the broker admits the user with the new password and no other, arbitrary passwords", [], jobs=2),
        h("h_c23_refused", "tools", "user names with a colon or a line break are refused and the file stays as it was", ["refused"]),
    ]),
    "C24": dict(assumptions=COMMON + TOOLS + ARGON, harnesses=[
        h("h_c24_names", "tools", "files of arbitrary short names and a user that asks", ["admitted", "refused"], jobs=4),
        h("h_c24_names_deep", "tools", "as h_c24_names with longer names", ["admitted", "refused"], jobs=8, max_time=600, tiers=DEEP),
        h("h_c24_bytes", "tools", "every file of a few arbitrary bytes, a missing file", ["loaded", "missing", "refused"], jobs=2),
        h("h_c24_bytes_deep", "tools", "as h_c24_bytes, longer", ["loaded", "missing", "refused"], jobs=4),
        h("h_c24_many", "tools", "a file of many entries", ["known", "unknown"], jobs=2),
    ]),
    "C25": dict(assumptions=BROKER, harnesses=[
        h("h_c25_order", "broker", "3 numbered messages to two subscribers, arbitrary cuts of reads or writes, one task and one select! out of turn, together or apart", ["done"], jobs=8),
        h("h_c25_order_deep", "broker", "4 messages, 2 tasks out of turn", ["done"], jobs=8, max_time=700, tiers=DEEP),
        h("h_c25_publishers", "broker", "two publishers at once, three messages each, 3 tasks out of turn", ["interleaved"], jobs=4),
        h("h_c25_burst", "broker", "more messages at once than the queues hold", ["done"], jobs=8),
        h("h_c25_sizes", "broker", "five messages of 1..=9000 bytes in four patterns, reads or writes in pieces, one task out of turn, a subscriber that pauses", ["done"]),
    ]),
    "C26": dict(assumptions=BROKER, harnesses=[
        h("h_c26_stalled", "broker", "one or two subscribers that accept nothing, numbers of messages below and above their queues", [], jobs=2),
        h("h_c26_own", "broker", "a client that does not read the responses to its own requests", [], jobs=2),
        h("h_c26_connecting", "broker", "connections stalled while being accepted, refused or replaced", ["done"], jobs=8),
    ]),
    "C27": dict(assumptions=BROKER, harnesses=[
        h("h_c27_ended", "broker", "every kind of end after subscriptions, then the identifier anew", ["done"], jobs=4),
        h("h_c27_ended_schedule", "broker", "as h_c27_ended with tasks out of turn", ["done"], jobs=4),
        h("h_c27_shared", "broker", "0..=3 other clients with the same filters, the one that ends anywhere among them, five ways to end", ["done"], jobs=2),
        h("h_c27_busy", "broker", "two connections that end in one of four ways while 30..=80 packets of one or two other clients are waiting", ["done"], jobs=4),
        h("h_c27_everyone", "broker", "one or two clients, each ends in one of five ways in any order until nobody is left, then the identifiers return", ["done"], jobs=2),
        h("h_c27_prefix", "broker", "end of stream or reset after any prefix of CONNECT, SUBSCRIBE, PUBLISH", ["done"], jobs=4),
    ]),
    "C28": dict(assumptions=BROKER, harnesses=[
        h("h_c28_listeners", "broker", "up to three configured listeners, clients on any of them, one failing accept, shutdown", ["across", "done"], jobs=4),
    ]),
    "C29": dict(assumptions=BROKER, harnesses=[
        h("h_c29_no_id", "broker", "up to three clients without identifier and what they do to each other", ["done"], jobs=8),
        h("h_c29_many", "broker", "12 or 40 clients without identifier", ["done"]),
        h("h_c29_chosen", "broker", "two clients without identifier and one with any identifier of up to 12 characters, before or after them", ["done"]),
    ]),
    "C30": dict(assumptions=BROKER + ARGON + ["a panic of the task of run is an error of run; one in another task is not"], harnesses=[
        h("h_c30_startup", "broker", "1..=3 listeners; no trouble, or one of: configuration missing, without a setting, not TOML, each without or with all settings in the environment; credentials missing, with a line without colon anywhere, not UTF-8; any one address that cannot be bound", ["serves", "refused"]),
    ]),
}
NOT_APPLICABLE = {}
