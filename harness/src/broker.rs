//! C14-C20: the broker end to end.
use crate::net::*;
use crate::sym;
use crate::topics::*;
use crate::wire;
use tokio::sym as world;

crate::harnesses! {
    h_smoke => smoke;
    h_c14_password => c14_password;
    h_c14_user => c14_user;
    h_c14_entries => c14_entries;
    h_c14_long => c14_long;
    h_c15_refused => c15_refused;
    h_c15_refused_schedule => c15_refused_schedule;
    h_c15_ids => c15_ids;
    h_c16_requests => c16_requests;
    h_c16_requests_deep => c16_requests_deep;
    h_c16_filters => c16_filters;
    h_c16_effect => c16_effect;
    h_c16_effect_deep => c16_effect_deep;
    h_c16_many => c16_many;
    h_c16_long => c16_long;
    h_c17_deliver => c17_deliver;
    h_c17_fanout => c17_fanout;
    h_c17_many => c17_many;
    h_c17_history => c17_history;
    h_c17_history_deep => c17_history_deep;
    h_c17_payload => c17_payload;
    h_c18_first => c18_first;
    h_c18_first_deep => c18_first_deep;
    h_c18_bytes => c18_bytes;
    h_c18_bytes_deep => c18_bytes_deep;
    h_c18_packets => c18_packets;
    h_c18_gone => c18_gone;
    h_c18_gone_deep => c18_gone_deep;
    h_c18_accept => c18_accept;
    h_c18_many => c18_many;
    h_c18_requests => c18_requests;
    h_c19_takeover => c19_takeover;
    h_c19_takeover_schedule => c19_takeover_schedule;
    h_c19_takeover_schedule_deep => c19_takeover_schedule_deep;
    h_c19_race => c19_race;
    h_c19_ids => c19_ids;
    h_c19_long_ids => c19_long_ids;
    h_c20_first => c20_first;
    h_c20_level => c20_level;
    h_c20_end => c20_end;
    h_c20_end_schedule => c20_end_schedule;
}
/// bytes of text without NUL
fn text(tag: &str, n: usize) -> Vec<u8> {
    let v = sym::vec(tag, n);
    for c in &v { sym::assume(*c != 0 && *c < 128); }
    v
}
fn topic(tag: &str, n: usize) -> Vec<u8> {
    let v = text(tag, n);
    for c in &v { sym::assume(*c != b'+' && *c != b'#'); }
    v
}
fn connect_as(id: &[u8], user: Option<&[u8]>, password: Option<&[u8]>) -> Vec<u8> {
    let c = wire::connect(&wire::Connect { client_id: id, clean: true, keep_alive: 60, user, password, ..Default::default() });
    if id.is_empty() { c } else { any_session(c) }
}

/// from here on first come, first served
fn fifo() { world::free_schedule(0); world::free_select(0); }

pub fn smoke() {
    let _b = start();
    let a = client("a");
    subscribed(a, b"t/#");
    let c = client("c");
    let x = sym::byte("x");
    send(c, &wire::publish0(b"t/1", &[x]));
    got(a, &wire::publish0(b"t/1", &[x]), "delivered");
    alive("broker-alive");
    sym::cover("done");
}

// ---- C14
fn admitted(c: usize, want: bool) {
    if want {
        got(c, &wire::connack(0), "c14-accepted");
        responds(c, "c14-accepted-serves");
        sym::cover("accepted");
    } else {
        got(c, &wire::connack(5), "c14-refused");
        sym::check(closed(c), "c14-refused-closed");
        send(c, &wire::PINGREQ);
        got(c, &[], "c14-refused-silent");
        sym::cover("refused");
    }
    alive("c14-alive");
}
fn bobs() -> Vec<u8> {
    let mut f = entry("bob", b"pw1");
    f.extend(entry("Bo", b"other"));
    f.extend(entry("eve", b"a:b"));
    f
}
/// known users with any password
pub fn c14_password() {
    let _b = start_with(CONFIG, &bobs());
    let (user, pw): (&[u8], &[u8]) = [(&b"bob"[..], &b"pw1"[..]), (b"eve", b"a:b")][sym::choice(2, "user")];
    let c = open();
    if sym::choice(2, "with-password") == 0 {
        send(c, &connect_as(b"x", Some(user), None));
        admitted(c, false);
        sym::cover("no-password");
    } else {
        let p = text("password", sym::choice(6, "length"));
        send(c, &connect_as(b"x", Some(user), Some(&p)));
        admitted(c, sym::same(&p, pw));
    }
}
/// any user name with bob's password
pub fn c14_user() {
    let _b = start_with(CONFIG, &bobs());
    let c = open();
    let u = text("user", sym::choice(5, "length"));
    send(c, &connect_as(b"x", Some(&u), Some(b"pw1")));
    admitted(c, sym::same(&u, b"bob"));
}
/// long names and passwords, equal up to their last byte
pub fn c14_long() {
    let n = [16, 31, 80, 300][sym::choice(4, "size")];
    let long = |tag: &str, last: u8, k: usize| -> Vec<u8> { let mut v: Vec<u8> = tag.bytes().cycle().take(k - 1).collect(); v.push(last); v };
    let name = ["bob-", "\u{e9}\u{20ac}"][sym::choice(2, "name")];
    let (user, pw) = (long(name, b'z', n - n % name.len() + 1), long("pass", b'z', n));
    let mut f = entry(std::str::from_utf8(&user).unwrap(), &pw);
    f.extend(entry("bob", b"pw1"));
    let _b = start_with(CONFIG, &f);
    let c = open();
    let x = sym::byte("last");
    sym::assume(x != 0 && x < 128);
    let (mut u, mut p) = (user.clone(), pw.clone());
    match sym::choice(4, "differs") {
        0 => { *u.last_mut().unwrap() = x; }
        1 => { *p.last_mut().unwrap() = x; }
        2 => { p.push(x); }
        _ => { p.pop(); if sym::choice(2, "both") == 1 { p.push(x); u.push(x); } }
    }
    send(c, &connect_as(b"x", Some(&u), Some(&p)));
    admitted(c, sym::same(&u, &user) && sym::same(&p, &pw));
}
/// odd entries in the file
pub fn c14_entries() {
    let mut f = b"garbage:not a hash\nempty:\n".to_vec();
    f.extend(entry("dup", b"one"));
    f.extend(entry("dup", b"two"));
    f.extend(entry("nopw", b""));
    f.extend(entry("", b"anon"));
    f.extend(b"cut:$argon2id$v=19$m=4096,t=3,p=1$c2FsdHNhbHQ\nalg:$argon9$v=19$m=4096,t=3,p=1$c2FsdHNhbHQ$");
    let _b = start_with(CONFIG, &f);
    let n = sym::choice(9, "user");
    let (user, pw): (&[u8], Option<&[u8]>) = [(&b"garbage"[..], None), (b"empty", None), (b"dup", Some(&b"two"[..])), (b"nopw", Some(b"")), (b"", Some(b"anon")), (b"cut", None), (b"alg", None), (b"absent", None), (b"du", None)][n];
    let p: Option<&[u8]> = [None, Some(&b""[..]), Some(b"one"), Some(b"two"), Some(b"anon"), Some(b"not a hash")][sym::choice(6, "password")];
    let c = open();
    send(c, &connect_as(b"x", Some(user), p));
    // a user whose password is empty may leave it out
    let want = match (p, pw) { (Some(p), Some(q)) => p == q, (None, Some(q)) => q.is_empty(), _ => false };
    admitted(c, want);
}

// ---- C15
const ACTIONS: usize = 9;
/// something a connection without rights might send
fn action(k: usize, x: u8) -> Vec<u8> {
    match k {
        0 => wire::publish0(&[b's', b'/', some_text(x)], &[x]),
        1 => wire::publish(b"s/1", &[x], 1, false, true, 7),
        2 => wire::subscribe(7, &[(&[b's', b'/', some_text(x)], 0), (b"s/#", 0)]),
        3 => wire::unsubscribe(7, &[b"s/#", &[some_text(x)]]),
        4 => wire::DISCONNECT.to_vec(),
        5 => wire::PINGREQ.to_vec(),
        6 => wire::hello("vic"),
        7 => vec![0xff, 0],
        _ => vec![],
    }
}
/// a character that is allowed in a topic
fn some_text(x: u8) -> u8 { let c = x & 127; if c < 32 || c == b'+' || c == b'#' { c / 2 + 64 } else { c } }
struct Scene { vic: usize, obs: usize, p: usize }
fn scene() -> Scene {
    let vic = client("vic");
    subscribed(vic, b"s/#");
    let obs = client("obs");
    subscribed(obs, b"#");
    Scene { vic, obs, p: client("pub") }
}
/// nothing happened to the others
fn untouched(s: &Scene, x: usize, id: &str) {
    got(s.vic, &[], id);
    got(s.obs, &[], id);
    got(s.p, &[], id);
    sym::check(!closed(s.vic) && !closed(s.obs) && !closed(s.p), id);
    let _ = take(x);
    let m = wire::publish0(b"s/1", b"later");
    send(s.p, &m);
    got(s.vic, &m, id);
    got(s.obs, &m, id);
    got(x, &[], id);
    responds(s.vic, id);
    responds(s.p, id);
}
fn refused(k: usize, id: &[u8]) -> Vec<u8> {
    match k {
        // not a CONNECT first
        0 => wire::publish0(b"s/1", b"early"),
        1 => wire::subscribe(3, &[(b"s/#", 0)]),
        2 => wire::unsubscribe(3, &[b"s/#"]),
        3 => wire::DISCONNECT.to_vec(),
        4 => wire::PINGREQ.to_vec(),
        // refused CONNECTs
        5 => { let p = text("password", 3); sym::assume(!sym::same(&p, b"pw1")); connect_as(id, Some(b"bob"), Some(&p)) }
        6 => connect_as(id, Some(b"bob"), None),
        7 => { let u = text("user", 3); sym::assume(!sym::same(&u, b"bob")); connect_as(id, Some(&u), Some(b"pw1")) }
        8 => { let mut c = connect_as(id, None, None); c[8] = sym::byte("level"); sym::assume(c[8] != 4); c }
        9 => wire::connect(&wire::Connect { client_id: b"", clean: false, keep_alive: 60, ..Default::default() }),
        // malformed ones
        10 => {
            // reserved bit, or a will QoS or retain without a will, or a password without a user
            let mut c = connect_as(id, None, None);
            let f = sym::byte("flags");
            sym::assume(f & 1 != 0 || f & 0x84 == 0 && f & 0x78 != 0);
            c[9] = f;
            c
        }
        // users whose entry holds no usable hash
        11 => connect_as(id, Some(b"broken"), Some(b"pw1")),
        12 => connect_as(id, Some(b"none"), [None, Some(&b""[..])][sym::choice(2, "password")]),
        _ => {
            let mut c = connect_as(id, None, None);
            let n = text("name", 4);
            sym::assume(!sym::same(&n, b"MQTT"));
            c[4..8].copy_from_slice(&n);
            c
        }
    }
}
fn refused_run(deviations: u32) {
    let mut f = entry("bob", b"pw1");
    f.extend(b"broken:$argon2id$v=19$m=4096,t=3\nnone:\n");
    let _b = start_with(CONFIG, &f);
    let s = scene();
    let x = open();
    let k = sym::choice(16, "what");
    // any identifier, the victim's among them
    let id = if k >= 5 && k < 14 { text("id", 3) } else { vec![] };
    let z = sym::byte("payload");
    let act = sym::choice(ACTIONS, "then");
    let mut bytes;
    if k < 14 {
        bytes = refused(k, &id);
    } else if k == 14 {
        // accepted and gone
        send(x, &wire::hello("new"));
        got(x, &wire::connack(0), "c15-accepted");
        bytes = wire::DISCONNECT.to_vec();
    } else {
        // accepted and superseded
        send(x, &wire::hello("new"));
        got(x, &wire::connack(0), "c15-accepted");
        let y = client("new");
        got(x, &[], "c15-superseded");
        subscribed(y, b"y");
        bytes = vec![];
    }
    let how = sym::choice(3, "arrival");
    if deviations > 0 { world::free_schedule(deviations); world::free_select(1); }
    let a = action(act, z);
    match how {
        0 => { bytes.extend(a); send(x, &bytes); }
        1 => { send(x, &bytes); send(x, &a); }
        // and the connection ends at once
        _ => { bytes.extend(a); world::feed(x, &bytes); world::close(x, sym::choice(2, "reset") == 1); idle(); }
    }
    fifo();
    sym::check(closed(x), "c15-closed");
    untouched(&s, x, "c15-untouched");
    sym::cover("done");
}
pub fn c15_refused() { refused_run(0) }
pub fn c15_refused_schedule() { refused_run(2) }
/// two accepted clients with any identifiers: neither acts for the other
pub fn c15_ids() {
    let _b = start();
    let p = client("pub");
    let (i, j) = (text("id", sym::range(1, 2, "length")), text("id", 2));
    sym::assume(!sym::same(&i, &j));
    let (a, b) = (open(), open());
    send(a, &connect_as(&i, None, None));
    got(a, &wire::connack(0), "c15-ids-accepted");
    send(a, &wire::subscribe(1, &[(b"s/#", 0)]));
    got(a, &wire::suback(1, &[0]), "c15-ids-subscribed");
    send(b, &connect_as(&j, None, None));
    got(b, &wire::connack(0), "c15-ids-accepted");
    match sym::choice(5, "what") {
        0 => { send(b, &wire::unsubscribe(2, &[b"s/#"])); got(b, &wire::unsuback(2), "c15-ids-unsubscribed"); }
        1 => { send(b, &wire::DISCONNECT); sym::check(closed(b), "c15-ids-closed"); }
        2 => { world::close(b, false); idle(); }
        3 => { send(b, &wire::PINGREQ); got(b, &wire::PINGRESP, "c15-ids-ping"); }
        _ => { send(b, &wire::subscribe(2, &[(b"s/#", 0)])); send(b, &wire::unsubscribe(2, &[b"s/#"])); let _ = take(b); }
    }
    let m = wire::publish0(b"s/1", b"m");
    send(p, &m);
    got(a, &m, "c15-ids-untouched");
    got(b, &[], "c15-ids-nothing");
    responds(a, "c15-ids-serves");
    sym::cover("done");
}

// ---- C16
const FILTERS: [&[u8]; 6] = [b"a/b", b"#", b"a/+/c", b"a/#/b", b"a+", b"+/b#"];
/// a request and its response
fn request(k: usize, id: u16) -> (Vec<u8>, Vec<u8>) {
    let code = |f: &[u8]| if valid_filter(f) { 0 } else { 0x80u8 };
    match k {
        0 => (wire::PINGREQ.to_vec(), wire::PINGRESP.to_vec()),
        1 => { let f = FILTERS[sym::choice(6, "filter")]; (wire::subscribe(id, &[(f, 0)]), wire::suback(id, &[code(f)])) }
        2 => { let f = FILTERS[sym::choice(6, "filter")]; (wire::subscribe(id, &[(f, 2), (b"x/#/y", 1), (b"z", 0)]), wire::suback(id, &[code(f), 0x80, 0])) }
        3 => (wire::unsubscribe(id, &[b"a/b"]), wire::unsuback(id).to_vec()),
        4 => (wire::unsubscribe(id, &[b"never", b"#", b"a/b"]), wire::unsuback(id).to_vec()),
        5 => (wire::publish0(b"unheard", b"p"), vec![]),
        _ => (wire::publish0(b"$unheard", b"p"), vec![]),
    }
}
fn requests(n: usize, deviations: u32) {
    let _b = start();
    let c = open();
    let id0 = sym::u16v("packet-id");
    sym::assume(id0 != 0 && id0 < 65000);
    let (mut bytes, mut want) = (wire::hello("req"), wire::connack(0).to_vec());
    let apart = sym::choice(2, "apart") == 1;
    if deviations > 0 { world::free_schedule(deviations); }
    if apart { send(c, &bytes); got(c, &want, "c16-connack"); bytes.clear(); want.clear(); }
    for i in 0..n {
        // "#" would also receive what is published
        let (q, r) = request(sym::choice(6, "request"), id0 + i as u16);
        let q = if q[0] == 0x30 { wire::publish0(b"$unheard", b"p") } else { q };
        if apart { send(c, &q); got(c, &r, "c16-response"); } else { bytes.extend(q); want.extend(r); }
    }
    if !apart { send(c, &bytes); got(c, &want, "c16-responses"); }
    fifo();
    responds(c, "c16-serves");
    sym::cover("done");
}
pub fn c16_requests() { requests(2, 2) }
pub fn c16_requests_deep() { requests(3, 2) }
/// return codes in request order for any filters and QoS
pub fn c16_filters() {
    let _b = start();
    let c = client("req");
    let (a, b) = (text("filter", sym::range(1, 2, "length")), text("filter", 2));
    let q = sym::byte("qos");
    sym::assume(q < 3);
    let id = sym::u16v("packet-id");
    sym::assume(id != 0);
    let code = |f: &[u8]| if valid_filter(f) { 0 } else { 0x80u8 };
    send(c, &wire::subscribe(id, &[(&a, q), (b"ok", 2 - q), (&b, q)]));
    got(c, &wire::suback(id, &[code(&a), 0, code(&b)]), "c16-codes");
    send(c, &wire::unsubscribe(id, &[&a, &b]));
    got(c, &wire::unsuback(id), "c16-unsuback");
    sym::cover("done");
}
fn effect(deviations: u32) {
    let _b = start();
    let p = client("pub");
    let c = client("req");
    let k = sym::choice(3, "what");
    if k == 1 { subscribed(c, b"t"); }
    world::free_schedule(deviations);
    world::free_select(1);
    let (q, r) = match k {
        0 => (wire::subscribe(5, &[(b"x", 0), (b"t", 0)]), wire::suback(5, &[0, 0])),
        1 => (wire::unsubscribe(5, &[b"x", b"t"]), wire::unsuback(5).to_vec()),
        _ => (wire::subscribe(5, &[(b"t", 0)]), wire::suback(5, &[0])),
    };
    // others are busy at the same time
    world::feed(p, &[&wire::publish0(b"elsewhere", b"x")[..], &wire::PINGREQ].concat());
    world::feed(c, &q);
    // until the client has seen the response
    while world::conn(c).output.len() < r.len() { if !world::step() { break; } }
    got(c, &r, "c16-effect-response");
    let m = wire::publish0(b"t", &[sym::byte("payload")]);
    world::feed(p, &m);
    idle();
    let none: &[u8] = &[];
    got(c, if k == 1 { none } else { &m }, "c16-effect-before-ack");
    sym::cover("done");
}
pub fn c16_effect() { effect(3) }
pub fn c16_effect_deep() { effect(6) }
/// more requests at once than any queue holds
pub fn c16_many() {
    let _b = start();
    let c = client("req");
    world::free_schedule(1);
    let n = [31, 33, 70][sym::choice(3, "number")];
    let (mut bytes, mut want) = (vec![], vec![]);
    for i in 0..n {
        match i % 3 {
            0 => { bytes.extend(wire::PINGREQ); want.extend(wire::PINGRESP); }
            1 => { bytes.extend(wire::subscribe(i + 1, &[(b"q", 0)])); want.extend(wire::suback(i + 1, &[0])); }
            _ => { bytes.extend(wire::unsubscribe(i + 1, &[b"q"])); want.extend(wire::unsuback(i + 1)); }
        }
    }
    if sym::choice(2, "small-writes") == 1 { world::conn(c).write_chunk = world::Chunk::Bytes(3); }
    send(c, &bytes);
    got(c, &want, "c16-many");
    sym::cover("done");
}

/// SUBSCRIBE and UNSUBSCRIBE with many filters
pub fn c16_long() {
    let _b = start();
    let c = client("req");
    let n = [40, 130, 200][sym::choice(3, "filters")];
    let q = sym::byte("qos");
    sym::assume(q < 3);
    let k = sym::choice(3, "kind");
    let names: Vec<Vec<u8>> = (0..n).map(|i| { let mut f = format!("f/{}", i).into_bytes(); if i % 7 == 3 || k == 1 && i + 1 == n { f.push(b'#'); } f }).collect();
    let fs: Vec<(&[u8], u8)> = names.iter().map(|f| (&f[..], q)).collect();
    let codes: Vec<u8> = names.iter().map(|f| if valid_filter(f) { 0 } else { 0x80 }).collect();
    let id = sym::u16v("packet-id");
    sym::assume(id != 0);
    let mut bytes = wire::subscribe(id, &fs);
    let mut want = wire::suback(id, &codes);
    if k == 2 { bytes.extend(wire::PINGREQ); want.extend(wire::PINGRESP); }
    send(c, &bytes);
    got(c, &want, "c16-codes");
    send(c, &wire::unsubscribe(id, &names.iter().map(|f| &f[..]).collect::<Vec<_>>()));
    got(c, &wire::unsuback(id), "c16-unsuback");
    let m = wire::publish0(b"f/0", b"m");
    send(c, &m);
    got(c, &[], "c16-unsubscribed");
    sym::cover("done");
}

// ---- C17
/// between one and `k` copies if `k` subscriptions match, else nothing
fn delivered(c: usize, m: &[u8], k: usize, id: &str) {
    let o = take(c);
    match copies(&o, m) {
        Some(n) => sym::check(if k == 0 { n == 0 } else { n >= 1 && n <= k }, id),
        None => sym::check(false, id),
    }
}
const SETS: [&[&[u8]]; 8] = [&[], &[b"a/b"], &[b"a/+", b"#"], &[b"+"], &[b"+/+/#", b"a/b"], &[b"a"], &[b"$a/#"], &[b"/+"]];
pub fn c17_deliver() {
    let _b = start();
    let (a, b, p) = (client("a"), client("b"), client("p"));
    let sets = [SETS[sym::choice(8, "filters")], SETS[sym::choice(4, "filters")], SETS[sym::choice(3, "filters")]];
    for (c, fs) in [a, b, p].iter().zip(sets) { for f in fs { subscribed(*c, f); } }
    let t = topic("topic", sym::range(1, 3, "length"));
    let x = sym::vec("payload", 2);
    let qos = sym::byte("qos");
    sym::assume(qos < 3);
    let q = sym::choice(3, "level") as u8;
    sym::assume(qos == q);
    let (dup, retain) = if q > 0 { (sym::choice(2, "dup") == 1, true) } else { (false, sym::choice(2, "retain") == 1) };
    for fs in sets { for f in fs { sym::assume(matches(f, &t) != M::Parent); } }
    send(p, &wire::publish(&t, &x, q, dup, retain, 77));
    let m = wire::publish0(&t, &x);
    let n = |fs: &[&[u8]]| fs.iter().filter(|f| matches(f, &t) == M::Yes).count();
    delivered(a, &m, n(sets[0]), "c17-delivered");
    delivered(b, &m, n(sets[1]), "c17-delivered");
    // acknowledgements to the publisher are not judged here
    if q == 0 { delivered(p, &m, n(sets[2]), "c17-publisher"); }
    if n(sets[0]) > 0 && n(sets[1]) > 0 { sym::cover("both"); }
    if n(sets[2]) > 0 { sym::cover("publisher"); }
    if n(sets[0]) == 0 { sym::cover("nobody"); }
}
/// several subscribers, each exactly one copy; after some left
pub fn c17_fanout() {
    let _b = start();
    let p = client("p");
    let ids = ["s0", "s1", "s2", "s3"];
    let cs: Vec<usize> = ids.iter().map(|i| client(i)).collect();
    for c in &cs { subscribed(*c, b"t/+"); }
    let x = sym::vec("payload", 1);
    let m = wire::publish0(b"t/1", &x);
    send(p, &m);
    for c in &cs { got(*c, &m, "c17-fanout"); }
    let leaves = sym::choice(4, "leaves");
    let how = sym::choice(4, "how");
    match how {
        0 => send(cs[leaves], &wire::DISCONNECT),
        1 => { world::close(cs[leaves], false); idle(); }
        2 => { world::close(cs[leaves], true); idle(); }
        _ => { send(cs[leaves], &wire::unsubscribe(4, &[b"t/+"])); got(cs[leaves], &wire::unsuback(4), "c17-unsuback"); }
    }
    world::free_schedule(1);
    send(p, &m);
    for (i, c) in cs.iter().enumerate() { if i == leaves { got(*c, &[], "c17-left") } else { got(*c, &m, "c17-fanout-rest") } }
    sym::cover("done");
}
/// any history of two clients that subscribe, unsubscribe, publish, leave and return, followed by publications
fn history(steps: usize, filters: usize) {
    const F: [&[u8]; 4] = [b"a", b"+", b"#", b"+/c"];
    const T: [&[u8]; 2] = [b"a", b"b/c"];
    let _b = start();
    let p = client("p");
    let ids = ["x", "xy"];
    let mut now: [Option<usize>; 2] = [Some(client(ids[0])), Some(client(ids[1]))];
    let mut subs: [Vec<&[u8]>; 2] = [vec![], vec![]];
    let mut old: Vec<usize> = vec![];
    let y = sym::byte("payload");
    let publish = |from: usize, t: &[u8], now: &[Option<usize>; 2], subs: &[Vec<&[u8]>; 2]| {
        let m = wire::publish0(t, &[y]);
        send(from, &m);
        for k in 0..2 { if let Some(c) = now[k] { delivered(c, &m, subs[k].iter().filter(|f| matches(f, t) == M::Yes).count(), "c17-history"); } }
    };
    for n in 0..steps {
        let k = if n == 0 { 0 } else { sym::choice(2, "client") };
        let what = if n == 0 { 0 } else { sym::choice(7, "step") };
        // publications follow anyway
        if what == 2 && n + 1 == steps { return; }
        let Some(c) = now[k] else {
            if what != 0 { return; }
            now[k] = Some(client(ids[k]));
            continue;
        };
        match what {
            0 => { let f = F[sym::choice(filters, "filter")]; subscribed(c, f); if !subs[k].contains(&f) { subs[k].push(f); } }
            1 => { let f = F[sym::choice(filters, "filter")]; send(c, &wire::unsubscribe(2, &[f])); got(c, &wire::unsuback(2), "c17-unsuback"); subs[k].retain(|g| *g != f); }
            2 => publish(c, T[sym::choice(2, "topic")], &now, &subs),
            6 => { let d = client(ids[k]); old.push(c); subs[k].clear(); now[k] = Some(d); }
            e => {
                match e { 3 => send(c, &wire::DISCONNECT), 4 => { world::close(c, false); idle(); } _ => { world::close(c, true); idle(); } }
                old.push(c);
                subs[k].clear();
                now[k] = None;
            }
        }
    }
    for c in &old { sym::check(closed(*c), "c17-history-closed"); let _ = take(*c); }
    for t in T { publish(p, t, &now, &subs); }
    for c in &old { got(*c, &[], "c17-history-gone"); }
    for c in now.iter().flatten() { responds(*c, "c17-history-open"); }
    responds(p, "c17-history-open");
    sym::cover("done");
}
pub fn c17_history() { history(4, 2) }
pub fn c17_history_deep() { history(5, 4) }
/// many subscribers, some with an exact filter, some with wildcards, some with another topic
pub fn c17_many() {
    let _b = start();
    let n = [9, 24, 40][sym::choice(3, "number")];
    let cs: Vec<usize> = (0..n).map(|i| client(&format!("s{}", i))).collect();
    let p = client("p");
    for (i, c) in cs.iter().enumerate() { subscribed(*c, [&b"t/1"[..], b"t/+", b"#", b"t/2"][i % 4]); }
    let m = wire::publish0(b"t/1", &sym::vec("payload", 2));
    for _ in 0..2 {
        send(p, &m);
        for (i, c) in cs.iter().enumerate() { if i % 4 == 3 { got(*c, &[], "c17-many-other") } else { got(*c, &m, "c17-many") } }
    }
    sym::cover("done");
}
/// payloads and topics of any size reach the subscriber unaltered
pub fn c17_payload() {
    let _b = start();
    let (a, p) = (client("a"), client("p"));
    subscribed(a, b"#");
    let n = [0, 1, 5, 125, 128, 4080, 4096, 9000][sym::choice(8, "size")];
    let mut x = vec![7u8; n];
    for i in 0..n { x[i] = (i * 31 % 251) as u8; }
    let e = sym::vec("ends", 4);
    for i in 0..n.min(2) { x[i] = e[i]; }
    if n > 4 { x[n - 1] = e[2]; x[n - 2] = e[3]; }
    let t = [topic("topic", 2), { let mut t = vec![b'l'; 300]; t[0] = b'k'; t }][sym::choice(2, "topic-size")].clone();
    if t.len() == 2 { sym::assume(t[0] != b'$'); }
    if sym::choice(2, "chunks") == 1 { world::conn(p).read_chunk = world::Chunk::Bytes(1000); world::conn(a).write_chunk = world::Chunk::Bytes(999); }
    let retain = n <= 5 && sym::choice(2, "retain") == 1;
    send(p, &wire::publish(&t, &x, 0, false, retain, 0));
    got(a, &wire::publish0(&t, &x), "c17-payload");
    if n > 4096 { sym::cover("large"); }
}

// ---- C18
fn ends(c: usize) {
    match sym::choice(3, "end") { 0 => {} 1 => world::close(c, false), _ => world::close(c, true) }
    idle();
}
fn first_bytes(n: usize) {
    let _b = start();
    let k = client("keeper");
    subscribed(k, b"k");
    let c = open();
    let v = sym::vec("bytes", sym::choice(n + 1, "length"));
    send(c, &v);
    ends(c);
    responds(k, "c18-others");
    alive("c18-alive");
    sym::cover("done");
}
pub fn c18_first() { first_bytes(6) }
pub fn c18_first_deep() { first_bytes(9) }
fn any_bytes(n: usize) {
    let _b = start();
    let k = client("keeper");
    subscribed(k, b"k");
    let c = client("c");
    let v = sym::vec("bytes", sym::choice(n + 1, "length"));
    send(c, &v);
    ends(c);
    let _ = take(k);
    responds(k, "c18-others");
    alive("c18-alive");
    sym::cover("done");
}
pub fn c18_bytes() { any_bytes(6) }
pub fn c18_bytes_deep() { any_bytes(9) }
/// one packet of every kind, also those only a server sends, with arbitrary contents
pub fn c18_packets() {
    let _b = start_bob();
    let k = client("keeper");
    subscribed(k, b"keep");
    let connected = sym::choice(2, "connected") == 1;
    let c = if connected { client("c") } else { open() };
    let x = sym::vec("bytes", 3);
    let first = sym::choice(16, "type") as u8;
    let flags = [0u8, 2, 15][sym::choice(3, "flags")];
    let body: Vec<u8> = match first {
        1 => {
            let mut b = wire::connect(&wire::Connect { client_id: b"keeper", clean: true, keep_alive: 0, user: Some(b"bob"), password: Some(b"pw1"), will: Some((b"w", b"x", 0, false)) })[2..].to_vec();
            b[7] = x[0];
            b
        }
        3 => { let mut b = vec![0, x[0], b'a', x[1], x[2]]; if sym::choice(2, "short") == 1 { b.truncate(3); } b }
        8 | 10 => { let mut b = vec![x[0], 1, 0, 1, x[1]]; if first == 8 { b.push(x[2]); } b }
        2 | 9 | 11 => vec![x[0], x[1]],
        4..=7 => vec![x[0], x[1]],
        _ => x[..sym::choice(3, "n")].to_vec(),
    };
    send(c, &wire::packet(first << 4 | flags, &body));
    ends(c);
    let _ = take(k);
    // it may have taken over the keeper's identifier only with bob's password
    if first != 1 || connected { responds(k, "c18-others"); }
    alive("c18-alive");
    sym::cover("done");
}
/// requests with many, deep, repeated, overlapping, malformed or arbitrary filters, used or not
pub fn c18_requests() {
    let _b = start();
    let k = client("keeper");
    subscribed(k, b"k");
    let c = client("c");
    let any = sym::vec("filter", 2);
    let arbitrary = sym::choice(3, "arbitrary");
    for i in 0..2 {
        let fs: Vec<Vec<u8>> = match if i == arbitrary { 8 } else { sym::choice(8, "filters") } {
            0 => ["p", "q", "r", "s"].iter().map(|f| f.as_bytes().to_vec()).collect(),
            1 => vec![b"p/q/r/s".to_vec(), b"p/q".to_vec()],
            2 => vec![vec![b'/'; 200]],
            3 => (0..40).map(|i| format!("f/{}", i).into_bytes()).collect(),
            4 => vec![b"a".to_vec(); 3],
            5 => vec![b"#".to_vec(), b"+".to_vec(), b"+/#".to_vec(), b"$x/+".to_vec()],
            6 => vec![b"a#".to_vec(), b"#/a".to_vec(), b"".to_vec(), b"++".to_vec()],
            7 => vec![b"k".to_vec()],
            _ => vec![any.clone()],
        };
        let r: Vec<&[u8]> = fs.iter().map(|f| &f[..]).collect();
        match sym::choice(3, "request") {
            0 => send(c, &wire::subscribe(2, &r.iter().map(|f| (*f, 0)).collect::<Vec<_>>())),
            1 => send(c, &wire::unsubscribe(3, &r)),
            _ => for t in &r { send(c, &wire::publish0(t, b"x")); },
        }
    }
    if sym::choice(2, "end") == 1 { world::close(c, false); idle(); }
    let _ = take(k);
    responds(k, "c18-others");
    alive("c18-alive");
    sym::cover("done");
}
/// clients that go away or stop reading at any step while the broker serves them
fn gone(deviations: u32) {
    let _b = start();
    let k = client("keeper");
    subscribed(k, b"t");
    let (a, b) = (client("a"), client("b"));
    subscribed(a, b"t");
    let m = wire::publish0(b"t", &sym::vec("payload", 2));
    match sym::choice(4, "doing") {
        0 => { world::feed(a, &m); world::feed(a, &wire::PINGREQ); }
        1 => { world::feed(b, &m); world::feed(b, &m); }
        2 => { world::feed(a, &wire::subscribe(3, &[(b"u", 0), (b"v", 0)])); world::feed(b, &m); }
        _ => { world::feed(a, &wire::unsubscribe(3, &[b"t"])); world::feed(a, &wire::hello("a")); world::feed(b, &m); }
    }
    let steps = sym::choice(24, "after");
    for _ in 0..steps { if !world::step() { break; } }
    world::free_schedule(deviations);
    match sym::choice(5, "end") {
        0 => world::close(a, false),
        1 => world::close(a, true),
        2 => { world::conn(a).broken = true; }
        3 => { world::stall(a, true); world::close(a, false); }
        _ => { world::feed(a, &wire::DISCONNECT); world::close(a, true); }
    }
    idle();
    fifo();
    let _ = take(k);
    responds(k, "c18-others");
    responds(b, "c18-others");
    send(b, &m);
    got(k, &m, "c18-messages");
    alive("c18-alive");
    sym::cover("done");
}
pub fn c18_gone() { gone(2) }
pub fn c18_gone_deep() { gone(3) }
/// connections that never say anything, and failing accepts
pub fn c18_accept() {
    let _b = start();
    let n = sym::choice(3, "silent");
    let v: Vec<usize> = (0..n).map(|_| open()).collect();
    let settle = sym::choice(3, "settle");
    for i in 0..[0, 1, 2, 20][sym::choice(4, "failures")] { world::accept_fails(0); if settle == 1 || settle == 2 && i == 0 { idle(); } }
    if sym::choice(2, "end") == 1 { for c in &v { world::close(*c, sym::choice(2, "reset") == 1); } }
    world::free_select(2);
    idle();
    alive("c18-alive");
    for c in &v { got(*c, &[], "c18-silent"); }
    sym::cover("done");
}

/// many connections come and go, also half-made ones
pub fn c18_many() {
    let _b = start_bob();
    let k = client("keeper");
    subscribed(k, b"t");
    let n = 40;
    let kind = sym::choice(6, "kind");
    let x = sym::byte("byte");
    for i in 0..n {
        let c = open();
        let id = format!("c{}", if kind == 5 { 0 } else { i });
        match kind {
            0 => { send(c, &wire::hello(&id)); send(c, &wire::DISCONNECT); }
            1 => { send(c, &wire::hello(&id)); send(c, &wire::subscribe(1, &[(b"t", 0)])); world::close(c, i % 2 == 0); idle(); }
            2 => { send(c, &wire::hello(&id)[..(i + 1) % 15]); world::close(c, i % 2 == 0); idle(); }
            3 => { send(c, &connect_as(id.as_bytes(), Some(b"bob"), Some(&[some_text(x)]))); }
            4 => { send(c, &wire::hello(&id)); send(c, &[0xf0 | x & 15, 0]); }
            _ => { send(c, &wire::hello(&id)); send(c, &wire::subscribe(1, &[(b"t", 0)])); }
        }
    }
    responds(k, "c18-others");
    let p = client("p");
    let m = wire::publish0(b"t", &[x]);
    send(p, &m);
    got(k, &m, "c18-messages");
    alive("c18-alive");
    sym::cover("done");
}
// ---- C19
fn later_alone(a: usize, b: usize, p: usize, id: &[u8], troubles: usize) {
    sym::check(closed(a), "c19-earlier-closed");
    let _ = take(a);
    sym::check(!closed(b), "c19-later-open");
    send(b, &wire::subscribe(3, &[(b"t/2", 0)]));
    got(b, &wire::suback(3, &[0]), "c19-later-serves");
    let z = sym::byte("late-payload");
    let (m1, m2) = (wire::publish0(b"t/1", &[z]), wire::publish0(b"t/2", &[z]));
    // the earlier connection makes trouble
    match sym::choice(troubles, "trouble") {
        0 => send(a, &wire::publish0(b"t/2", b"no")),
        1 => { world::close(a, false); idle(); }
        2 => send(a, &wire::unsubscribe(4, &[b"t/2"])),
        3 => send(a, &wire::subscribe(4, &[(b"t/2", 0)])),
        4 => send(a, &wire::DISCONNECT),
        5 => { world::close(a, true); idle(); }
        6 => send(a, &connect_as(id, None, None)),
        _ => send(a, &sym::vec("bytes", 2)),
    }
    got(b, &[], "c19-trouble");
    got(a, &[], "c19-earlier-silent");
    send(p, &m1);
    send(p, &m2);
    got(b, &m2, "c19-later-receives");
    got(a, &[], "c19-earlier-silent");
    responds(b, "c19-later-pings");
}
fn takeover(deviations: u32) {
    let _b = start();
    let p = client("p");
    let id = text("id", 2);
    let a = open();
    send(a, &connect_as(&id, None, None));
    got(a, &wire::connack(0), "c19-accepted");
    subscribed(a, b"t/1");
    let b = open();
    if deviations > 0 { world::free_schedule(deviations); world::free_select(1); }
    // something of the earlier connection is under way
    let pending = sym::choice(10, "pending");
    match pending {
        0 => {}
        1 => world::feed(a, &wire::publish0(b"other", b"x")),
        2 => world::feed(a, &wire::subscribe(2, &[(b"t/1", 0)])),
        3 => world::feed(a, &wire::unsubscribe(2, &[b"t/1"])),
        4 => world::feed(a, &wire::DISCONNECT),
        5 => world::close(a, false),
        6 => world::close(a, true),
        // several things wait to be written to it
        7 => { for _ in 0..4 { world::feed(a, &wire::PINGREQ); } }
        8 => { world::feed(p, &[wire::publish0(b"t/1", b"x"), wire::publish0(b"t/1", b"y")].concat()); world::feed(a, &wire::PINGREQ); }
        // and it does not read for a while
        _ => { world::stall(a, true); send(a, &[wire::PINGREQ; 3].concat()); send(p, &wire::publish0(b"t/1", b"x")); }
    }
    send(b, &connect_as(&id, None, None));
    if pending == 9 {
        got(b, &wire::connack(0), "c19-later-accepted");
        if sym::choice(2, "served") == 1 { responds(b, "c19-later-serves"); }
        world::feed(a, &wire::PINGREQ);
        world::stall(a, false);
        idle();
        fifo();
        later_alone(a, b, p, &id, if deviations > 0 { 2 } else { 8 });
        sym::cover("stalled");
        return;
    }
    fifo();
    got(b, &wire::connack(0), "c19-later-accepted");
    later_alone(a, b, p, &id, if deviations > 0 { 2 } else { 8 });
    sym::cover("done");
}
pub fn c19_takeover() { takeover(0) }
pub fn c19_takeover_schedule() { takeover(2) }
pub fn c19_takeover_schedule_deep() { takeover(3) }
/// several connections ask for the identifier at the same time: one remains
pub fn c19_race() {
    let _b = start();
    let p = client("p");
    let n = 2 + sym::choice(2, "number");
    let cs: Vec<usize> = (0..n).map(|_| world::connect(0)).collect();
    world::free_schedule(2);
    for c in &cs { world::feed(*c, &wire::hello("same")); world::feed(*c, &wire::subscribe(1, &[(b"t", 0)])); }
    idle();
    fifo();
    let open: Vec<usize> = cs.iter().copied().filter(|c| !closed(*c)).collect();
    sym::check(open.len() == 1, "c19-race-one-remains");
    for c in &cs { let _ = take(*c); }
    let m = wire::publish0(b"t", b"m");
    send(p, &m);
    for c in &cs { if *c == open[0] { got(*c, &m, "c19-race-receives") } else { got(*c, &[], "c19-race-silent") } }
    responds(open[0], "c19-race-serves");
    sym::cover("done");
}
/// any two identifiers: the earlier connection is closed exactly if they are the same
pub fn c19_ids() {
    let _b = start();
    let (i, j) = (text("id", sym::range(1, 2, "length")), text("id", sym::range(1, 2, "length")));
    let (a, b) = (open(), open());
    send(a, &connect_as(&i, None, None));
    got(a, &wire::connack(0), "c19-ids-accepted");
    send(b, &connect_as(&j, None, None));
    got(b, &wire::connack(0), "c19-ids-accepted");
    let same = sym::same(&i, &j);
    sym::check(closed(a) == same, "c19-ids");
    responds(b, "c19-ids-later");
    if same { sym::cover("same"); } else { responds(a, "c19-ids-earlier"); sym::cover("different"); }
}
/// long identifiers that differ in one place, or not
pub fn c19_long_ids() {
    let _b = start();
    let n = [12, 23, 24, 64, 256, 300][sym::choice(6, "size")];
    let (x, y) = (text("x", 1)[0], text("y", 1)[0]);
    let at = [0, n / 2, n - 1][sym::choice(3, "place")];
    let make = |z: u8| { let mut v = vec![b'i'; n]; v[at] = z; v };
    let (i, mut j) = (make(x), make(y));
    if sym::choice(2, "longer") == 1 { j.push(b'i'); }
    let (a, b) = (open(), open());
    send(a, &connect_as(&i, None, None));
    got(a, &wire::connack(0), "c19-ids-accepted");
    send(b, &connect_as(&j, None, None));
    got(b, &wire::connack(0), "c19-ids-accepted");
    let same = sym::same(&i, &j);
    sym::check(closed(a) == same, "c19-ids");
    responds(b, "c19-ids-later");
    if same { sym::cover("same"); } else { responds(a, "c19-ids-earlier"); sym::cover("different"); }
}

// ---- C20
/// whatever comes first must be CONNECT
pub fn c20_first() {
    let _b = start();
    let s = scene();
    let x = open();
    let mut b = match sym::choice(9, "first") {
        0 => wire::publish0(b"s/1", b"m"),
        1 => wire::publish(b"s/1", b"m", 1, false, false, 1),
        2 => wire::subscribe(1, &[(b"s/#", 0)]),
        3 => wire::unsubscribe(1, &[b"s/#"]),
        4 => wire::PINGREQ.to_vec(),
        5 => wire::DISCONNECT.to_vec(),
        6 => vec![0x40 + 16 * sym::choice(3, "ack") as u8 * 2 / 2, 2, 0, 1],
        7 => { let v = sym::vec("bytes", 4); sym::assume(v[0] >> 4 != 1); v }
        _ => { let v = sym::vec("bytes", 2); sym::assume(v[0] >> 4 != 1 && v[1] > 0); world::close(x, false); v }
    };
    let together = sym::choice(2, "together") == 1;
    let more = [wire::hello("x"), wire::publish0(b"s/1", b"x")].concat();
    let malformed_wait = b.len() == 4 && b[0] & 0xf0 != 0x40;
    if together { b.extend(&more); send(x, &b); } else { send(x, &b); send(x, &more); }
    if malformed_wait { world::close(x, false); idle(); }
    got(x, &[], "c20-first-silent");
    sym::check(closed(x), "c20-first-closed");
    untouched(&s, x, "c20-first-nothing-processed");
    sym::cover("done");
}
/// every protocol level, with and without an identifier
pub fn c20_level() {
    let _b = start();
    let s = scene();
    let x = open();
    let l = sym::byte("level");
    let (id, clean) = [("x", true), ("", true), ("", false), ("vic", true)][sym::choice(4, "id")];
    let mut b = wire::connect(&wire::Connect { client_id: id.as_bytes(), clean, keep_alive: 1, ..Default::default() });
    b[8] = l;
    let accepted = l == 4 && (clean || !id.is_empty());
    if accepted && id == "vic" { return; }
    let m = wire::publish0(b"s/1", b"m");
    if sym::choice(2, "together") == 1 { send(x, &[&b[..], &m].concat()); } else { send(x, &b); send(x, &m); }
    if accepted {
        got(x, &wire::connack(0), "c20-level-accepted");
        got(s.vic, &m, "c20-level-served");
        responds(x, "c20-level-open");
        sym::cover("accepted");
        if id.is_empty() { sym::cover("no-identifier"); }
    } else {
        got(x, &wire::connack(if l != 4 { 1 } else { 2 }), "c20-level-refused");
        sym::check(closed(x), "c20-level-closed");
        untouched(&s, x, "c20-level-nothing-processed");
        if l != 4 { sym::cover("level"); } else { sym::cover("identifier"); }
    }
}
/// a packet type clients do not send, or flags it must not have
fn bad_header(x: u8) -> bool {
    let (t, f) = (x >> 4, x & 15);
    match t { 0 | 2 | 9 | 11 | 13 | 15 => true, 3 => f & 6 == 6, 6 | 8 | 10 => f != 2, _ => f != 0 }
}
/// what ends a connection ends it at that point
fn end_run(deviations: u32) {
    let _b = start();
    let s = scene();
    let x = client("x");
    let m = wire::publish0(b"s/1", &sym::vec("before", 2));
    let end: Vec<u8> = match sym::choice(9, "end") {
        0 => wire::DISCONNECT.to_vec(),
        1 => wire::hello("x"),
        2 => wire::hello("other"),
        3 => { let v = sym::vec("header", 2); sym::assume(bad_header(v[0])); v }
        4 => vec![0x82, 0],
        5 => vec![[0x40, 0x50, 0x70, 0xc0, 0xe0][sym::choice(5, "type")], [3, 4, 1][sym::choice(3, "length")], 0, 1, 0, 0],
        6 => vec![0x36, 5, 0, 1, b's', 0, 1],
        7 => vec![0x30, 0x80, 0x80, 0x80, 0x80, 1],
        _ => wire::publish0(b"s/#", b"z"),
    };
    let more = match sym::choice(4, "more") {
        0 => wire::publish0(b"s/1", b"after"),
        1 => wire::subscribe(9, &[(b"s/1", 0)]),
        2 => wire::PINGREQ.to_vec(),
        _ => [&wire::unsubscribe(8, &[b"s/#"])[..], &wire::hello("vic")].concat(),
    };
    if deviations > 0 { world::free_schedule(deviations); }
    let how = sym::choice(2, "together");
    let all = [&m[..], &end, &more].concat();
    if how == 1 { send(x, &all); } else { send(x, &m); send(x, &end); send(x, &more); }
    fifo();
    got(s.vic, &m, "c20-before");
    got(s.obs, &m, "c20-before");
    got(x, &[], "c20-silent");
    sym::check(closed(x), "c20-closed");
    untouched(&s, x, "c20-nothing-after");
    sym::cover("done");
}
pub fn c20_end() { end_run(0) }
pub fn c20_end_schedule() { end_run(3) }
