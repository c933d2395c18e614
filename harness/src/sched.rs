//! C21, C25-C29: shutdown, order, slow subscribers, ended connections, listeners, clients without identifier.
use crate::net::*;
use crate::sym;
use crate::wire;
use tokio::sym as world;

crate::harnesses! {
    h_c21_shutdown => c21_shutdown;
    h_c21_shutdown_deep => c21_shutdown_deep;
    h_c21_clients => c21_clients;
    h_c21_stalled => c21_stalled;
    h_c21_many => c21_many;
    h_c25_order => c25_order;
    h_c25_order_deep => c25_order_deep;
    h_c25_publishers => c25_publishers;
    h_c25_burst => c25_burst;
    h_c25_sizes => c25_sizes;
    h_c26_stalled => c26_stalled;
    h_c26_own => c26_own;
    h_c26_connecting => c26_connecting;
    h_c27_ended => c27_ended;
    h_c27_ended_schedule => c27_ended_schedule;
    h_c27_prefix => c27_prefix;
    h_c27_busy => c27_busy;
    h_c27_shared => c27_shared;
    h_c27_everyone => c27_everyone;
    h_c28_listeners => c28_listeners;
    h_c30_startup => c30_startup;
    h_c29_no_id => c29_no_id;
    h_c29_many => c29_many;
    h_c29_chosen => c29_chosen;
}
fn fifo() { world::free_schedule(0); world::free_select(0); }

// ---- C21
fn stopped(b: &Broker) {
    world::raise_ctrl_c();
    idle();
    fifo();
    sym::check(world::task_done(b.main), "c21-finished");
    let c = open();
    send(c, &wire::hello("late"));
    got(c, &[], "c21-late-connection");
}
fn shutdown(deviations: u32) {
    let b = start();
    let (a, p) = (client("a"), client("p"));
    subscribed(a, b"t");
    let m = wire::publish0(b"t", &[sym::byte("payload")]);
    match sym::choice(6, "doing") {
        0 => {}
        1 => { world::feed(p, &m); world::feed(p, &m); }
        2 => { world::feed(a, &wire::subscribe(2, &[(b"u", 0), (b"v", 0)])); world::feed(p, &wire::DISCONNECT); }
        3 => { let c = world::connect(0); world::feed(c, &wire::hello("a")); world::feed(a, &wire::PINGREQ); }
        4 => { let c = world::connect(0); world::feed(c, &wire::hello("n")); world::close(c, true); world::close(a, false); world::feed(p, &m); }
        _ => { world::feed(a, &[0xf0, 0]); world::feed(p, &m); }
    }
    for _ in 0..sym::choice(12, "after") { if !world::step() { break; } }
    world::free_schedule(deviations);
    world::free_select(2);
    stopped(&b);
    sym::cover("done");
}
pub fn c21_shutdown() { shutdown(1) }
pub fn c21_shutdown_deep() { shutdown(2) }
/// connections in every state
pub fn c21_clients() {
    let b = start_bob();
    for i in 0..2 {
        match sym::choice(8, "client") {
            0 => { open(); }
            1 => { let c = open(); send(c, &wire::hello("cut")[..7]); }
            2 => { let c = open(); send(c, &wire::connect(&wire::Connect { client_id: b"x", clean: true, user: Some(b"bob"), password: Some(&[sym::byte("password"), b'x']), ..Default::default() })); }
            3 => { let c = client(["a", "b"][i]); subscribed(c, b"#"); send(c, &wire::publish0(b"t", b"x")[..3]); }
            4 => { let c = client(["a", "b"][i]); world::close(c, false); }
            5 => { let c = client("same"); world::close(c, true); idle(); }
            6 => { client("same"); }
            _ => { let c = client(["a", "b"][i]); world::stall(c, true); send(c, &wire::PINGREQ); }
        }
    }
    world::free_select(2);
    stopped(&b);
    sym::cover("done");
}
/// a client that stopped reading while messages for it pile up
pub fn c21_stalled() {
    let b = start();
    let (a, p) = (client("a"), client("p"));
    subscribed(a, b"t");
    world::stall(a, true);
    let n = [1, 20, 33, 34, 50][sym::choice(5, "messages")];
    for _ in 0..n { world::feed(p, &wire::publish0(b"t", b"m")); }
    idle();
    world::raise_ctrl_c();
    idle();
    sym::check(world::task_done(b.main), if n < 34 { "c21-finished" } else { "c21-stalled-queue-full" });
    sym::cover("done");
}

/// more clients than any queue holds
pub fn c21_many() {
    let b = start();
    let n = 40;
    let kind = sym::choice(4, "kind");
    let cs: Vec<usize> = (0..n).map(|i| if kind == 0 { open() } else { client(&format!("c{}", i)) }).collect();
    if kind > 1 { for c in &cs { subscribed(*c, b"t"); } }
    for c in &cs {
        match kind {
            0 => {}
            1 => world::feed(*c, &wire::PINGREQ),
            2 => world::feed(*c, &wire::publish0(b"u", &[sym::byte("payload")])),
            _ => world::close(*c, false),
        }
    }
    for _ in 0..[0, 3, 50][sym::choice(3, "after")] { if !world::step() { break; } }
    world::free_select(1);
    stopped(&b);
    sym::cover("done");
}

// ---- C25
fn numbered(topic: &[u8], k: u8, x: u8) -> Vec<u8> { wire::publish0(topic, &[k, x]) }
fn order(n: u8, deviations: u32) {
    let _b = start();
    let (a, b, p) = (client("a"), client("b"), client("p"));
    subscribed(a, b"t/#");
    subscribed(b, b"+/1");
    let x = sym::byte("payload");
    match sym::choice(4, "sockets") {
        0 => {}
        1 => world::conn(p).read_chunk = world::Chunk::Any(1),
        2 => world::conn(p).read_chunk = world::Chunk::Bytes(4),
        _ => world::conn(a).write_chunk = world::Chunk::Any(1),
    }
    world::free_schedule(deviations);
    world::free_select(1);
    let (mut all, mut wa, mut wb) = (vec![], vec![], vec![]);
    for i in 0..n {
        let m = numbered([&b"t/1"[..], b"t/2"][i as usize % 2], i, x);
        all.extend(&m);
        wa.extend(&m);
        if i % 2 == 0 { wb.extend(&m); }
    }
    if sym::choice(2, "apart") == 0 { send(p, &all); } else {
        // the second half arrives while the first is being handled
        let h = all.len() / 2;
        world::feed(p, &all[..h]);
        for _ in 0..sym::choice(4, "steps") * 2 { world::step(); }
        send(p, &all[h..]);
    }
    fifo();
    got(a, &wa, "c25-order");
    got(b, &wb, "c25-order-other");
    sym::cover("done");
}
pub fn c25_order() { order(3, 1) }
pub fn c25_order_deep() { order(4, 2) }
/// two publishers: each one's messages keep their order at each subscriber
pub fn c25_publishers() {
    let _b = start();
    let (a, p, q) = (client("a"), client("p"), client("q"));
    subscribed(a, b"t/#");
    let x = sym::byte("payload");
    let seq = |k: u8| (0..3).map(|i| numbered(b"t/1", k + i, x)).collect::<Vec<_>>();
    let (mp, mq) = (seq(0), seq(100));
    world::free_schedule(3);
    world::feed(p, &mp.concat());
    world::feed(q, &mq.concat());
    idle();
    fifo();
    let out = take(a);
    let len = mp[0].len();
    sym::check(out.len() == 6 * len, "c25-publishers-all");
    let (mut i, mut j) = (0, 0);
    for k in 0..6 {
        let m = &out[k * len..(k + 1) * len];
        if i < 3 && sym::same(m, &mp[i]) { i += 1 } else if j < 3 && sym::same(m, &mq[j]) { j += 1 } else { sym::check(false, "c25-publishers-order") }
    }
    sym::check(i == 3 && j == 3, "c25-publishers-complete");
    if !sym::same(&out, &[mp.concat(), mq.concat()].concat()) { sym::cover("interleaved"); }
}
/// more messages than any queue holds, to subscribers that read slowly
pub fn c25_burst() {
    let _b = start();
    let (a, b, p) = (client("a"), client("b"), client("p"));
    subscribed(a, b"t");
    subscribed(b, b"t");
    let n = [33, 70][sym::choice(2, "number")];
    let x = sym::byte("payload");
    let all: Vec<u8> = (0..n).flat_map(|i| numbered(b"t", i, x)).collect();
    match sym::choice(4, "reader") {
        0 => {}
        1 => world::conn(a).write_chunk = world::Chunk::Bytes(1),
        2 => { world::free_schedule(1); }
        // stops reading for a while
        _ => { world::stall(a, true); }
    }
    send(p, &all);
    world::stall(a, false);
    idle();
    fifo();
    got(a, &all, "c25-burst");
    got(b, &all, "c25-burst-other");
    sym::cover("done");
}

/// messages of very different sizes
pub fn c25_sizes() {
    let _b = start();
    let (a, b, p) = (client("a"), client("b"), client("p"));
    subscribed(a, b"t/#");
    subscribed(b, b"t/1");
    let x = sym::byte("payload");
    let sizes: [usize; 5] = [[2, 5000, 1, 4093, 2], [5000, 2, 2, 9000, 1], [100, 127, 128, 2000, 3], [4090, 4091, 4092, 4096, 4097]][sym::choice(4, "sizes")];
    let all: Vec<u8> = sizes.iter().enumerate().flat_map(|(i, n)| { let mut v = vec![b'0' + i as u8; *n]; v[0] = x; wire::publish0(b"t/1", &v) }).collect();
    match sym::choice(5, "sockets") {
        0 => {}
        1 => world::conn(p).read_chunk = world::Chunk::Bytes(1000),
        2 => world::conn(a).write_chunk = world::Chunk::Bytes(700),
        3 => world::free_schedule(1),
        _ => { world::stall(a, true); send(p, &all[..all.len() / 2]); world::stall(a, false); send(p, &all[all.len() / 2..]); got(a, &all, "c25-sizes"); got(b, &all, "c25-sizes-other"); return; }
    }
    send(p, &all);
    fifo();
    got(a, &all, "c25-sizes");
    got(b, &all, "c25-sizes-other");
    sym::cover("done");
}
// ---- C26
/// up to 33 messages (32 queued and one being written) for a subscriber that does not read
fn number() -> (usize, bool) { let n = [1, 5, 32, 33, 34, 40][sym::choice(6, "number")]; (n, n < 34) }
pub fn c26_stalled() {
    let _b = start();
    let (s, r, p, q) = (client("s"), client("r"), client("p"), client("q"));
    subscribed(s, b"t");
    subscribed(r, b"t");
    world::stall(s, true);
    if sym::choice(2, "another") == 1 { let o = client("o"); subscribed(o, b"t"); world::stall(o, true); }
    let x = sym::byte("payload");
    let (n, fits) = number();
    let all: Vec<u8> = (0..n as u8).flat_map(|i| numbered(b"t", i, x)).collect();
    send(p, &all);
    let id = if fits { "c26-others" } else { "c26-queue-full" };
    got(r, &all, id);
    responds(p, id);
    responds(q, id);
    responds(r, id);
    send(q, &wire::publish0(b"u", b"m"));
    let c = client_ok("new", id);
    send(c, &wire::subscribe(1, &[(b"u", 0)]));
    got(c, &wire::suback(1, &[0]), id);
    send(q, &wire::publish0(b"u", b"m"));
    got(c, &wire::publish0(b"u", b"m"), id);
    // and once it reads again it gets everything
    world::stall(s, false);
    idle();
    got(s, &all, "c26-later");
    sym::cover("done");
}
fn client_ok(name: &str, id: &str) -> usize {
    let c = open();
    send(c, &wire::hello(name));
    got(c, &wire::connack(0), id);
    c
}
/// a client that asks but does not read the answers
pub fn c26_own() {
    let _b = start();
    let (s, q) = (client("s"), client("q"));
    world::stall(s, true);
    let (n, fits) = number();
    let k = sym::choice(3, "request");
    for i in 0..n { world::feed(s, &match k { 0 => wire::PINGREQ.to_vec(), 1 => wire::subscribe(1 + i as u16, &[(b"t", 0)]), _ => wire::unsubscribe(1 + i as u16, &[b"t"]) }); }
    idle();
    let id = if fits { "c26-own-others" } else { "c26-queue-full" };
    responds(q, id);
    client_ok("new", id);
    sym::cover("done");
}
/// connections that never read their CONNACK, or never send a whole packet
pub fn c26_connecting() {
    let _b = start_bob();
    let q = client("q");
    let n = 1 + sym::choice(3, "number");
    for i in 0..n {
        let c = open();
        match sym::choice(4, "kind") {
            0 => { world::stall(c, true); send(c, &wire::hello(["x", "y", "z"][i])); }
            1 => send(c, &wire::hello("x")[..sym::choice(14, "cut")]),
            2 => { world::stall(c, true); send(c, &wire::connect(&wire::Connect { client_id: b"x", clean: true, user: Some(b"bob"), password: Some(&[sym::byte("password")]), ..Default::default() })); }
            // the same identifier taken over while its connection is stalled
            _ => { world::stall(c, true); send(c, &wire::hello("same")); }
        }
    }
    responds(q, "c26-connecting");
    alive("c26-connecting-alive");
    sym::cover("done");
}

// ---- C27
fn gone(x: usize, p: usize, id: &[u8]) {
    sym::check(closed(x), "c27-closed");
    let _ = take(x);
    let m = wire::publish0(b"t/1", &[sym::byte("payload")]);
    send(p, &m);
    got(x, &[], "c27-nothing-delivered");
    responds(p, "c27-others");
    // the identifier is free and inherits nothing
    let y = open();
    send(y, &any_session(wire::connect(&wire::Connect { client_id: id, clean: true, keep_alive: 60, ..Default::default() })));
    got(y, &wire::connack(0), "c27-again");
    send(p, &m);
    got(y, &[], "c27-inherits-nothing");
    send(y, &wire::subscribe(6, &[(b"t/#", 0)]));
    got(y, &wire::suback(6, &[0]), "c27-again-subscribes");
    send(p, &m);
    got(y, &m, "c27-one-copy");
}
fn ended(deviations: u32) {
    let _b = start();
    let p = client("p");
    let id = sym::vec("id", 2);
    for c in &id { sym::assume(*c != 0 && *c < 128); }
    let x = open();
    send(x, &any_session(wire::connect(&wire::Connect { client_id: &id, clean: true, keep_alive: 60, ..Default::default() })));
    got(x, &wire::connack(0), "c27-accepted");
    send(x, &wire::subscribe(1, &[(b"t/1", 0), (b"t/+", 0), (b"other", 0)]));
    got(x, &wire::suback(1, &[0, 0, 0]), "c27-subscribed");
    world::free_schedule(deviations);
    world::free_select(1);
    // something may be under way when it ends
    match sym::choice(4, "doing") {
        0 => {}
        1 => world::feed(p, &wire::publish0(b"t/1", b"before")),
        2 => world::feed(x, &wire::subscribe(2, &[(b"t/#", 0)])),
        _ => world::feed(x, &wire::publish0(b"t/1", b"own")),
    }
    match sym::choice(8, "end") {
        0 => world::feed(x, &wire::DISCONNECT),
        1 => world::close(x, false),
        2 => world::close(x, true),
        3 => { let h = sym::byte("header"); sym::assume(h >> 4 == 15 || h >> 4 == 0); world::feed(x, &[h, 0]) }
        4 => world::feed(x, &wire::hello("another")),
        5 => { world::feed(x, &wire::DISCONNECT); world::close(x, true); }
        6 => { world::feed(x, &wire::publish0(b"t/1", b"cut")[..4]); world::close(x, false); }
        _ => { world::feed(x, &wire::publish0(b"t/1", b"last")); world::close(x, false); }
    }
    idle();
    fifo();
    let _ = take(p);
    gone(x, p, &id);
    sym::cover("done");
}
pub fn c27_ended() { ended(1) }
pub fn c27_ended_schedule() { ended(3) }
/// the connection ends after any part of its conversation
pub fn c27_prefix() {
    let _b = start();
    let p = client("p");
    let x = open();
    let all = [&any_session(wire::hello("x"))[..], &wire::subscribe(1, &[(b"t/1", 0)]), &wire::publish0(b"t/1", &[sym::byte("byte")]), &wire::unsubscribe(2, &[b"t/9"]), &wire::PINGREQ].concat();
    let n = sym::choice(all.len() + 1, "cut");
    let together = sym::choice(2, "together") == 1;
    world::feed(x, &all[..n]);
    if !together { idle(); }
    world::close(x, sym::choice(2, "reset") == 1);
    idle();
    gone(x, p, b"x");
    sym::cover("done");
}

/// the client that ends shares its filters with others, which keep theirs
pub fn c27_shared() {
    let _b = start();
    let p = client("p");
    let n = sym::choice(4, "others");
    let at = sym::choice(n + 1, "position");
    const FILTERS: [&[(&[u8], u8)]; 3] = [&[(b"t/1", 0)], &[(b"t/+", 0), (b"t/1", 0)], &[(b"#", 0), (b"t", 0)]];
    let filters = FILTERS[sym::choice(3, "filters")];
    let codes = vec![0; filters.len()];
    let sub = |c: usize| { send(c, &wire::subscribe(1, filters)); got(c, &wire::suback(1, &codes), "c27-subscribed"); };
    let mut others = Vec::new();
    let mut x = 0;
    for i in 0..n + 1 {
        let c = client(if i == at { "x" } else { ["o1", "o2", "o3", "o4"][i] });
        sub(c);
        if i == at { x = c } else { others.push(c) }
    }
    match sym::choice(5, "end") {
        0 => send(x, &wire::DISCONNECT),
        1 => world::close(x, false),
        2 => world::close(x, true),
        3 => { let h = sym::byte("header"); sym::assume(h >> 4 == 15 || h >> 4 == 0); send(x, &[h, 0]) }
        _ => send(x, &wire::hello("x")),
    }
    idle();
    gone(x, p, b"x");
    // three messages of gone
    for o in others {
        let v = take(o);
        let one = wire::publish0(b"t/1", &[0]).len();
        let k = v.len() / one;
        sym::check(v.len() % one == 0 && k >= 3 && k <= 3 * filters.iter().filter(|f| f.0 != b"t").count(), "c27-others-keep-theirs");
        responds(o, "c27-others");
    }
    sym::cover("done");
}
/// connections end while the queues of the broker are full
pub fn c27_busy() {
    let _b = start();
    let (p, q) = (client("p"), client("q"));
    let (x, y) = (client("x"), client("y"));
    for c in [x, y] { send(c, &wire::subscribe(1, &[(b"t/1", 0)])); got(c, &wire::suback(1, &[0]), "c27-subscribed"); }
    let many = [30, 40, 80][sym::choice(3, "number")];
    for _ in 0..many { world::feed(p, &wire::publish0(b"elsewhere", b"m")); }
    if sym::choice(2, "two-busy") == 1 { for _ in 0..many { world::feed(q, &wire::PINGREQ); } }
    for _ in 0..sym::choice(3, "steps") * 2 { world::step(); }
    for c in [x, y] {
        match sym::choice(4, "end") {
            0 => world::feed(c, &wire::DISCONNECT),
            1 => world::close(c, false),
            2 => world::close(c, true),
            _ => world::feed(c, &[0xf0, 0]),
        }
    }
    idle();
    fifo();
    let _ = take(p);
    let _ = take(q);
    sym::check(closed(y), "c27-closed");
    gone(x, p, b"x");
    sym::cover("done");
}
/// nobody is left, then the identifiers return in any order
pub fn c27_everyone() {
    let _b = start();
    let n = 1 + sym::choice(2, "number");
    let ids = ["x", "y"];
    let cs: Vec<usize> = ids[..n].iter().map(|i| client(i)).collect();
    for c in &cs { send(*c, &wire::subscribe(1, &[(b"t/1", 0), (b"#", 0)])); got(*c, &wire::suback(1, &[0, 0]), "c27-subscribed"); }
    let turn = sym::choice(n, "first");
    for k in 0..n {
        let c = cs[(k + turn) % n];
        match sym::choice(5, "end") {
            0 => send(c, &wire::DISCONNECT),
            1 => { world::close(c, false); idle(); }
            2 => { world::close(c, true); idle(); }
            3 => send(c, &[0xf0, 0]),
            _ => { world::feed(c, &wire::unsubscribe(2, &[b"#"])); world::close(c, false); idle(); }
        }
        sym::check(closed(c), "c27-closed");
        let _ = take(c);
    }
    let p_first = sym::choice(2, "publisher-first") == 1;
    let mut p = if p_first { client("p") } else { 0 };
    let ys: Vec<usize> = ids[..n].iter().map(|i| { let c = open(); send(c, &any_session(wire::hello(i))); got(c, &wire::connack(0), "c27-again"); c }).collect();
    if !p_first { p = client("p"); }
    let m = wire::publish0(b"t/1", &[sym::byte("payload")]);
    send(p, &m);
    for c in &ys { got(*c, &[], "c27-inherits-nothing"); }
    for c in &cs { got(*c, &[], "c27-nothing-delivered"); }
    subscribed(ys[0], b"t/1");
    send(p, &m);
    got(ys[0], &m, "c27-one-copy");
    responds(p, "c27-others");
    sym::cover("done");
}

// ---- C28
/// all listeners lead to the same broker
pub fn c28_listeners() {
    let n = sym::choice(4, "listeners");
    let list = ["\"127.0.0.1:1883\"", "\"127.0.0.1:1884\"", "\"10.0.0.1:99\""][..n].join(", ");
    let b = start_with(&format!("[mqtt]\nlisteners_tcp = [{}]\n[authentication]\npassword_file = \"symfs/passwd\"\n", list), b"");
    let w = world::world();
    sym::check(w.listeners.len() == n, "c28-number");
    for a in &["127.0.0.1:1883", "127.0.0.1:1884", "10.0.0.1:99"][..n] { sym::check(w.listeners.iter().filter(|l| l.0 == *a).count() == 1, "c28-addresses"); }
    if n > 0 {
        let (i, j) = (sym::choice(n, "first"), sym::choice(n, "second"));
        let (a, c) = (world::connect(i), world::connect(j));
        world::free_schedule(1);
        world::free_select(1);
        idle();
        send(a, &wire::hello("a"));
        got(a, &wire::connack(0), "c28-accepted");
        send(c, &wire::hello("c"));
        got(c, &wire::connack(0), "c28-accepted");
        subscribed(a, b"t");
        let m = wire::publish0(b"t", &[sym::byte("payload")]);
        send(c, &m);
        got(a, &m, "c28-shared");
        // one identifier across listeners
        let d = world::connect(j);
        idle();
        send(d, &wire::hello("a"));
        got(d, &wire::connack(0), "c28-accepted");
        sym::check(closed(a), "c28-takeover");
        if i != j { sym::cover("across"); }
    }
    fifo();
    world::raise_ctrl_c();
    idle();
    sym::check(world::task_done(b.main), "c28-shutdown");
    for l in 0..n { let c = world::connect(l); send(c, &wire::hello("late")); got(c, &[], "c28-late"); }
    sym::cover("done");
}

// ---- C29
/// clients without an identifier are different clients
pub fn c29_no_id() {
    let _b = start();
    let p = client("p");
    let n = 2 + sym::choice(2, "number");
    let cs: Vec<usize> = (0..n).map(|_| world::connect(0)).collect();
    world::free_schedule(2);
    let k = sym::u16v("keep-alive");
    for c in &cs { world::feed(*c, &wire::connect(&wire::Connect { client_id: b"", clean: true, keep_alive: k, ..Default::default() })); }
    idle();
    for c in &cs { got(*c, &wire::connack(0), "c29-accepted"); }
    for c in &cs { subscribed(*c, b"t"); }
    let x = sym::byte("payload");
    let m = wire::publish0(b"t", &[x]);
    send(p, &m);
    for c in &cs { got(*c, &m, "c29-each-served"); }
    let l = sym::choice(n, "leaves");
    match sym::choice(3, "how") { 0 => send(cs[l], &wire::DISCONNECT), 1 => { world::close(cs[l], false); idle(); } _ => { send(cs[l], &wire::unsubscribe(3, &[b"t"])); got(cs[l], &wire::unsuback(3), "c29-unsuback"); } }
    fifo();
    send(p, &m);
    for (i, c) in cs.iter().enumerate() { if i == l { got(*c, &[], "c29-left") } else { got(*c, &m, "c29-others-stay") } }
    sym::cover("done");
}
/// many of them
pub fn c29_many() {
    let _b = start();
    let p = client("p");
    let n = [12, 40][sym::choice(2, "number")];
    let cs: Vec<usize> = (0..n).map(|_| { let c = open(); send(c, &wire::connect(&wire::Connect { client_id: b"", clean: true, keep_alive: 9, ..Default::default() })); got(c, &wire::connack(0), "c29-accepted"); c }).collect();
    for c in &cs { subscribed(*c, b"t"); }
    let m = wire::publish0(b"t", &[sym::byte("payload")]);
    send(p, &m);
    for c in &cs { got(*c, &m, "c29-each-served"); }
    sym::cover("done");
}
/// an identifier someone chose is nobody else's
pub fn c29_chosen() {
    let _b = start();
    let p = client("p");
    let id = sym::vec("id", [1, 2, 3, 4, 6, 8, 9, 10, 12][sym::choice(9, "length")]);
    for c in &id { sym::assume(*c > 31 && *c < 127); }
    let first = sym::choice(2, "chosen-first") == 1;
    let chosen = || { let c = open(); send(c, &any_session(wire::connect(&wire::Connect { client_id: &id, clean: true, keep_alive: 9, ..Default::default() }))); got(c, &wire::connack(0), "c29-accepted"); subscribed(c, b"t"); c };
    sym::assume(!(id.len() == 1 && id[0] == b'p'));
    let mut cs = vec![];
    if first { cs.push(chosen()); }
    for _ in 0..2 { let c = open(); send(c, &wire::connect(&wire::Connect { client_id: b"", clean: true, keep_alive: 9, ..Default::default() })); got(c, &wire::connack(0), "c29-accepted"); subscribed(c, b"t"); cs.push(c); }
    if !first { cs.push(chosen()); }
    let m = wire::publish0(b"t", &[sym::byte("payload")]);
    send(p, &m);
    for c in &cs { sym::check(!closed(*c), "c29-not-replaced"); got(*c, &m, "c29-each-served"); }
    // the chosen one leaves
    let l = if first { 0 } else { 2 };
    match sym::choice(2, "how") { 0 => send(cs[l], &wire::DISCONNECT), _ => { send(cs[l], &wire::unsubscribe(3, &[b"t"])); got(cs[l], &wire::unsuback(3), "c29-unsuback"); } }
    send(p, &m);
    for (i, c) in cs.iter().enumerate() { if i == l { got(*c, &[], "c29-left") } else { got(*c, &m, "c29-others-stay") } }
    sym::cover("done");
}

// ---- C30
static mut MAIN: usize = usize::MAX;
/// something configured is not to be had: the broker does not go on without it
pub fn c30_startup() {
    let n = 1 + sym::choice(3, "listeners");
    const A: [&str; 3] = ["127.0.0.1:1883", "127.0.0.1:1884", "10.0.0.1:99"];
    let list = A[..n].iter().map(|a| format!("\"{}\"", a)).collect::<Vec<_>>().join(", ");
    let mqtt = format!("[mqtt]\nlisteners_tcp = [{}]\n", list);
    let auth = "[authentication]\npassword_file = \"symfs/passwd\"\n";
    let x = sym::byte("byte");
    let bob = entry("bob", b"pw1");
    let (mut config, mut passwd) = (Some([&mqtt, auth].concat()), Some(bob.clone()));
    let trouble = sym::choice(11, "trouble");
    // what the file lacks may come from the environment, but not the file itself
    let variables = trouble < 6 && sym::choice(2, "variables") == 1;
    if variables {
        std::env::set_var("RATELMQ_MQTT__LISTENERS_TCP", A[..n].join(","));
        std::env::set_var("RATELMQ_AUTHENTICATION__PASSWORD_FILE", "symfs/passwd");
    }
    match trouble {
        0 => {}
        1 => { config = None; }
        2 => { config = Some(mqtt); }
        3 => { config = Some(auth.to_string()); }
        4 => { config = Some(["x = = 3\n", &mqtt, auth].concat()); }
        5 => { config = Some([&mqtt, "[authentication]\nusers = \"symfs/passwd\"\n"].concat()); }
        6 => { passwd = None; }
        // a line without a colon before, between or behind others
        7 | 8 => {
            let (bad, mut p) = ([b'n', b'o', x, b'\n'], bob.clone());
            sym::assume(x < 128 && x != b':' && x != b'\n' && x != b'\r');
            let at = [0, bob.len()][sym::choice(2, "line")];
            p.splice(at..at, bad);
            if trouble == 8 { p.extend(entry("eve", b"pw2")); }
            passwd = Some(p);
        }
        9 => { sym::assume(x >= 128); let mut p = b"x:".to_vec(); p.push(x); p.push(b'\n'); p.extend(&bob); passwd = Some(p); }
        _ => { world::world().unbindable.push(A[sym::choice(n, "unbindable")].to_string()); }
    }
    if let Some(p) = passwd { sym::file_put("symfs/passwd", &p); }
    if let Some(c) = config { sym::file_put("symfs/ratelmq.toml", c.as_bytes()); }
    let complete = trouble == 0 || variables && [2, 3, 5].contains(&trouble);
    if !complete {
        // an error may be reported by a panic of run, which ends the process
        sym::on_exit(|| { sym::check(unsafe { world::world().current == MAIN }, "c30-only-a-part-failed"); sym::cover("refused") });
        sym::panic_ok();
    }
    unsafe { MAIN = world::world().tasks_spawned(); }
    let main = world::spawn_local(async { ratelmq::run("symfs/ratelmq.toml").await });
    idle();
    if !complete { sym::check(world::task_done(main), "c30-runs-with-a-part"); return; }
    for l in 0..n {
        let c = world::connect(l);
        send(c, &wire::connect(&wire::Connect { client_id: b"x", clean: true, user: Some(b"bob"), password: Some(b"pw1"), ..Default::default() }));
        got(c, &wire::connack(0), "c30-serves");
    }
    sym::cover("serves");
}
