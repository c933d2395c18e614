//! C09-C13: topic matching, subscriptions, sessions, on the messaging service itself.
use crate::sym;
use crate::topics::*;
use chrono::{DateTime, Duration, NaiveDateTime, Utc};
use ratelmq::broker::messaging::{MessagingOperation, MessagingService, MessagingTx};
use ratelmq::broker::session::Session;
use ratelmq::mqtt::events::ServerEvent;
use ratelmq::mqtt::packets::suback::SubAckReturnCode;
use ratelmq::mqtt::packets::QoS;
use ratelmq::mqtt::subscription::Subscription;
use tokio::sync::{mpsc, oneshot};
use tokio::sym as world;

crate::harnesses! {
    h_c09_match => c09_match;
    h_c09_match_deep => c09_match_deep;
    h_c09_levels => c09_levels;
    h_c09_levels_deep => c09_levels_deep;
    h_c09_several => c09_several;
    h_c09_long => c09_long;
    h_c10_history => c10_history;
    h_c10_history_deep => c10_history_deep;
    h_c10_wildcards => c10_wildcards;
    h_c10_many => c10_many;
    h_c11_filters => c11_filters;
    h_c11_filters_deep => c11_filters_deep;
    h_c11_pieces => c11_pieces;
    h_c11_long => c11_long;
    h_c12_registry => c12_registry;
    h_c12_registry_deep => c12_registry_deep;
    h_c13_elapsed => c13_elapsed;
    h_c13_elapsed_deep => c13_elapsed_deep;
    h_c13_limit => c13_limit;
    h_c13_fraction => c13_fraction;
    h_c12_many => c12_many;
    h_c10_tree => c10_tree;
    h_c13_session_list => c13_session_list;
}

fn st(v: &[u8]) -> String { unsafe { String::from_utf8_unchecked(v.to_vec()) } }
fn now() -> DateTime<Utc> { at(1_000_000, 0) }
fn at(s: i64, ns: u32) -> DateTime<Utc> { DateTime::<Utc>::from_utc(NaiveDateTime::from_timestamp_opt(s, ns).unwrap(), Utc) }
type Tx = mpsc::Sender<ServerEvent>;
fn channel() -> (Tx, mpsc::Receiver<ServerEvent>) { mpsc::channel(4) }
fn session(id: &str, tx: &Tx) -> Session { Session::new(id.to_string(), std::net::IpAddr::from([127, 0, 0, 1]), sym::byte("persistent") & 1 == 1, tx.clone(), sym::u16v("keep-alive"), now()) }
fn sub(f: &[u8]) -> Subscription { Subscription::new(st(f), QoS::AtMostOnce) }
fn granted(c: &SubAckReturnCode) -> bool { *c != SubAckReturnCode::Failure }
/// how many copies of a message on the topic go to the channel
fn copies(v: &[Tx], tx: &Tx) -> usize { v.iter().filter(|s| s.same_channel(tx)).count() }

fn filter(n: usize) -> Vec<u8> {
    let f = sym::vec("filter", n);
    for c in &f { sym::assume(*c != 0 && *c < 128); }
    sym::assume(valid_filter(&f));
    f
}
fn topic(n: usize) -> Vec<u8> {
    let t = sym::vec("topic", n);
    for c in &t { sym::assume(*c != 0 && *c < 128 && *c != b'+' && *c != b'#'); }
    t
}
fn agree(n: usize, f: &[u8], t: &[u8]) {
    match matches(f, t) {
        M::Yes => { sym::check(n == 1, "c09-match-missed"); sym::cover("match"); }
        M::No => { sym::check(n == 0, "c09-match-without-reason"); sym::cover("no-match"); }
        M::Parent => { sym::cover("parent"); sym::check(n == 1, "c09-hash-includes-parent"); }
    }
}
/// one filter, one topic, any bytes
fn c09_any(a: usize, b: usize) {
    let f = filter(sym::range(1, a, "filter-len"));
    let t = topic(sym::range(1, b, "topic-len"));
    let mut s = MessagingService::new();
    let (tx, _rx) = channel();
    let id = "c".to_string();
    s.session_insert(session("c", &tx));
    s.subscribe(&id, &sub(&f));
    sym::limit(3_000_000);
    let v = s.senders_to_publish(&st(&t));
    agree(copies(&v, &tx), &f, &t);
}
pub fn c09_match() { c09_any(4, 4) }
pub fn c09_match_deep() { c09_any(5, 5) }
/// up to four levels built from short pieces
fn c09_deep(n: usize) {
    let piece = |tag: &str, wild: bool, first: bool, last: bool| -> Vec<u8> {
        // literal levels are one arbitrary byte, two equal bytes or empty
        match sym::choice(if !wild { 3 } else if last { 5 } else { 4 }, tag) {
            0 => { let c = sym::byte("c"); sym::assume(c > 32 && c < 127 && c != b'/' && c != b'+' && c != b'#'); if !first { sym::assume(c != b'$'); } vec![c] }
            1 => b"aa".to_vec(),
            2 => vec![],
            3 => b"+".to_vec(),
            _ => b"#".to_vec(),
        }
    };
    let join = |tag: &str, n: usize, wild: bool| -> Vec<u8> {
        let mut v = Vec::new();
        for i in 0..n { if i > 0 { v.push(b'/'); } v.extend_from_slice(&piece(tag, wild, i == 0, i + 1 == n)); }
        v
    };
    let f = join("filter", sym::range(1, n, "filter-levels"), true);
    let t = join("topic", sym::range(1, n, "topic-levels"), false);
    sym::assume(!f.is_empty() && !t.is_empty());
    let mut s = MessagingService::new();
    let (tx, _rx) = channel();
    s.session_insert(session("c", &tx));
    s.subscribe(&"c".to_string(), &sub(&f));
    sym::limit(3_000_000);
    let v = s.senders_to_publish(&st(&t));
    agree(copies(&v, &tx), &f, &t);
}
pub fn c09_levels() { c09_deep(3) }
pub fn c09_levels_deep() { c09_deep(4) }
/// several filters of several clients in one tree do not disturb each other
pub fn c09_several() {
    const F: [&str; 8] = ["+/b", "a/+", "a/b", "#", "a/+/c", "+/+/+", "a/b/#", "+"];
    let (i, j) = (sym::choice(8, "first"), sym::choice(8, "second"));
    let k = sym::choice(8, "third");
    let lv = sym::range(1, 3, "levels");
    let mut t = Vec::new();
    for n in 0..lv {
        if n > 0 { t.push(b'/'); }
        let c = sym::byte("c");
        sym::assume(c > 32 && c < 127 && c != b'/' && c != b'+' && c != b'#');
        t.push(c);
    }
    let mut s = MessagingService::new();
    let mut txs = Vec::new();
    for (n, id) in ["c", "d", "e"].iter().enumerate() {
        let (tx, rx) = channel();
        std::mem::forget(rx);
        s.session_insert(session(id, &tx));
        txs.push(tx);
        s.subscribe(&id.to_string(), &sub(F[[i, j, k][n]].as_bytes()));
    }
    sym::limit(4_000_000);
    let v = s.senders_to_publish(&st(&t));
    for (n, x) in [i, j, k].iter().enumerate() {
        let m = matches(F[*x].as_bytes(), &t);
        if m == M::Parent { sym::cover("parent"); continue; }
        sym::check(copies(&v, &txs[n]) == (m == M::Yes) as usize, "c09-several");
    }
    sym::cover("done");
}

/// many levels, long levels, levels of more than ASCII
pub fn c09_long() {
    let n = [1, 3, 5, 6, 9, 17][sym::choice(6, "levels")];
    let word = match sym::choice(4, "words") { 0 => b"w".to_vec(), 1 => "\u{e9}".into(), 2 => "\u{65e5}\u{672c}".into(), _ => vec![b'l'; 300] };
    let (x, y) = (sym::byte("x"), sym::byte("y"));
    for c in [x, y] { sym::assume(c > 32 && c < 127 && c != b'/' && c != b'+' && c != b'#' && c != b'$'); }
    // level i of the topic ends with x, that of the filter with y
    let i = sym::choice(2, "place") * (n - 1);
    let make = |z: u8| -> Vec<Vec<u8>> { (0..n).map(|k| { let mut w = word.clone(); if k == i { w.push(z); } w }).collect() };
    let (t, mut f) = (make(x), make(y));
    match sym::choice(5, "wildcard") {
        0 => {}
        1 => { f[0] = b"+".to_vec(); }
        2 => { let k = n / 2; f[k] = b"+".to_vec(); }
        3 => { f.push(b"#".to_vec()); }
        _ => { f[n - 1] = b"#".to_vec(); }
    }
    let (t, f) = (t.join(&b'/'), f.join(&b'/'));
    let mut s = MessagingService::new();
    let (tx, _rx) = channel();
    s.session_insert(session("c", &tx));
    sym::limit(8_000_000);
    sym::check(granted(&s.subscribe(&"c".to_string(), &sub(&f))), "c09-granted");
    let v = s.senders_to_publish(&st(&t));
    agree(copies(&v, &tx), &f, &t);
}

// ---------------------------------------------------------------- C10

struct Model { subs: Vec<(usize, Vec<u8>)>, on: [bool; 2] }
impl Model {
    fn holds(&self, c: usize, f: &[u8]) -> bool { self.subs.iter().any(|(d, g)| *d == c && g == f) }
}
const NAMES: [&str; 2] = ["x", "xy"];
/// steps of two clients; filters are symbolic single levels, so every pattern of equal and different filters is covered
fn c10(steps: usize, wild: bool) {
    let mut s = MessagingService::new();
    let mut m = Model { subs: vec![], on: [true, true] };
    let mut txs = Vec::new();
    for id in NAMES { let (tx, rx) = channel(); std::mem::forget(rx); s.session_insert(session(id, &tx)); txs.push(tx); }
    sym::limit(8_000_000);
    let name = |tag: &str| -> Vec<u8> {
        if wild { return [&b"+"[..], b"#", b"a/+", b"a", b"a/b"][sym::choice(5, tag)].to_vec(); }
        let c = sym::byte(tag);
        sym::assume(c > 32 && c < 127 && c != b'/' && c != b'+' && c != b'#' && c != b'$');
        vec![c]
    };
    for n in 0..steps {
        let c = if n == 0 { 0 } else { sym::choice(2, "client") };
        let kind = if n == 0 { 0 } else { sym::choice(4, "step") };
        let id = NAMES[c].to_string();
        if !m.on[c] {
            // the client comes back
            s.session_insert(session(NAMES[c], &txs[c]));
            m.on[c] = true;
        }
        match kind {
            0 => { let f = name("filter"); s.subscribe(&id, &sub(&f)); if !m.holds(c, &f) { m.subs.push((c, f)); } }
            1 => { let f = name("filter"); s.unsubscribe(&id, &vec![st(&f)]); m.subs.retain(|(d, g)| !(*d == c && *g == f)); sym::cover("unsubscribe"); }
            2 => { s.disconnect(&id); m.subs.retain(|(d, _)| *d != c); m.on[c] = false; sym::cover("disconnect"); }
            _ => { s.connection_lost(&id); m.subs.retain(|(d, _)| *d != c); m.on[c] = false; sym::cover("lost"); }
        }
    }
    for c in 0..2 { if !m.on[c] { s.session_insert(session(NAMES[c], &txs[c])); } }
    let t = if wild { [&b"a"[..], b"a/b", b"b", b"b/b"][sym::choice(4, "topic")].to_vec() } else { name("topic") };
    let v = s.senders_to_publish(&st(&t));
    for c in 0..2 {
        let mut want = 0;
        for (d, f) in &m.subs { if *d == c && matches(f, &t) == M::Yes { want += 1; } }
        let got = copies(&v, &txs[c]);
        sym::check((got > 0) == (want > 0), "c10-selected");
        sym::check(got <= want, "c10-copies");
        if want > 0 { sym::cover("selected"); }
    }
    sym::check(v.len() == copies(&v, &txs[0]) + copies(&v, &txs[1]), "c10-others");
}
pub fn c10_history() { c10(4, false) }
pub fn c10_history_deep() { c10(5, false) }
pub fn c10_wildcards() { c10(3, true) }

/// many clients on few filters; one leaves or unsubscribes from several at once
pub fn c10_many() {
    let mut s = MessagingService::new();
    let n = [5, 20][sym::choice(2, "clients")];
    const F: [&[u8]; 4] = [b"t", b"+", b"t/1", b"#"];
    let mut txs = Vec::new();
    let name = |i: usize| format!("c{}", i);
    let mut subs: Vec<(usize, &[u8])> = Vec::new();
    for i in 0..n {
        let (tx, rx) = channel();
        std::mem::forget(rx);
        s.session_insert(session(&name(i), &tx));
        txs.push(tx);
        for f in [F[0], F[1 + i % 3]] { s.subscribe(&name(i), &sub(f)); subs.push((i, f)); }
    }
    sym::limit(20_000_000);
    let c = [0, 3, n - 1][sym::choice(3, "client")];
    match sym::choice(5, "step") {
        0 => { s.disconnect(&name(c)); subs.retain(|x| x.0 != c); }
        1 => { s.connection_lost(&name(c)); subs.retain(|x| x.0 != c); }
        2 => { s.unsubscribe(&name(c), &F.iter().map(|f| st(f)).collect()); subs.retain(|x| x.0 != c); }
        3 => { let g = [F[sym::choice(4, "filter")], F[sym::choice(4, "filter")]]; s.unsubscribe(&name(c), &vec![st(g[0]), "never".into(), st(g[1])]); subs.retain(|x| x.0 != c || x.1 != g[0] && x.1 != g[1]); }
        _ => { s.unsubscribe(&name(c), &vec![]); s.subscribe(&name(c), &sub(F[0])); }
    }
    for t in [&b"t"[..], b"t/1", b"u"] {
        let v = s.senders_to_publish(&st(t));
        let mut total = 0;
        for i in 0..n {
            let want = subs.iter().filter(|x| x.0 == i && matches(x.1, t) == M::Yes).count();
            let got = copies(&v, &txs[i]);
            sym::check((got > 0) == (want > 0), "c10-selected");
            sym::check(got <= want, "c10-copies");
            total += got;
        }
        sym::check(v.len() == total, "c10-others");
    }
    sym::cover("done");
}

/// two clients with subscriptions all over a tree; one of them leaves
pub fn c10_tree() {
    const F: [&str; 9] = ["a", "a/1", "a/2", "a/3", "a/b/c", "a/b/c/d", "+/x", "#", "b/+/c"];
    const T: [&str; 10] = ["a", "a/1", "a/2", "a/3", "a/b/c", "a/b/c/d", "b/x", "b/y/c", "z", "a/b"];
    let mut s = MessagingService::new();
    let mut txs = Vec::new();
    let ids = ["c".to_string(), "d".to_string()];
    for id in &ids {
        let (tx, rx) = channel();
        std::mem::forget(rx);
        s.session_insert(session(id, &tx));
        txs.push(tx);
    }
    // the first has any of them, the second none, one or all
    let mut has = [[false; 9]; 2];
    for i in 0..9 { has[0][i] = sym::choice(2, "first") == 1; }
    let k = [9, 10, 0, 4, 7][sym::choice(5, "second")];
    for i in 0..9 { has[1][i] = k == 10 || k == i; }
    let order = sym::choice(2, "order");
    sym::limit(30_000_000);
    for c in if order == 0 { [0, 1] } else { [1, 0] } {
        for i in 0..9 { if has[c][i] { sym::check(granted(&s.subscribe(&ids[c], &sub(F[i].as_bytes()))), "c10-granted"); } }
    }
    match sym::choice(3, "step") {
        0 => { s.disconnect(&ids[0]); has[0] = [false; 9]; }
        1 => { s.connection_lost(&ids[0]); has[0] = [false; 9]; }
        _ => { s.unsubscribe(&ids[0], &vec!["a".to_string(), "a/b/c".to_string(), "x".to_string(), "#".to_string()]); for i in [0, 4, 7] { has[0][i] = false; } }
    }
    // a new session of the first client inherits nothing
    let (tx, rx) = channel();
    std::mem::forget(rx);
    s.session_insert(session("c", &tx));
    txs[0] = tx;
    for t in T {
        let v = s.senders_to_publish(&t.to_string());
        for c in 0..2 {
            let want = (0..9).filter(|i| has[c][*i] && matches(F[*i].as_bytes(), t.as_bytes()) == M::Yes).count();
            // the recorded finding about the parent level of '#' does not concern these
            let got = copies(&v, &txs[c]);
            sym::check((got > 0) == (want > 0), "c10-selected");
            sym::check(got <= want, "c10-copies");
        }
    }
    sym::cover("done");
}

// ---------------------------------------------------------------- C11

/// longer filters of more than ASCII
pub fn c11_pieces() {
    const P: [&str; 7] = ["a", "/", "+", "#", "\u{e9}", "\u{1f600}", "$"];
    let mut f = Vec::new();
    for _ in 0..sym::range(1, 4, "pieces") { f.extend_from_slice(P[sym::choice(7, "piece")].as_bytes()); }
    judge_filter(f);
}
/// long filters with one arbitrary character somewhere
pub fn c11_long() {
    let mut f: Vec<u8> = match sym::choice(4, "shape") { 0 => vec![b'a'; 300], 1 => vec![b'/'; 40], 2 => "\u{e9}/\u{65e5}\u{672c}/".repeat(8).into(), _ => b"+/".repeat(30) };
    let c = sym::byte("c");
    sym::assume(c != 0 && c < 128);
    let k = [0, f.len() / 2, f.len()][sym::choice(3, "place")];
    let k = if std::str::from_utf8(&f[..k]).is_ok() { k } else { k + 1 };
    sym::assume(std::str::from_utf8(&f[..k]).is_ok());
    f.insert(k, c);
    judge_filter(f);
}
fn c11(n: usize) {
    let f = sym::vec("filter", sym::range(0, n, "len"));
    for c in &f { sym::assume(*c != 0 && *c < 128); }
    judge_filter(f);
}
fn judge_filter(f: Vec<u8>) {
    let mut s = MessagingService::new();
    let (tx, _rx) = channel();
    s.session_insert(session("c", &tx));
    sym::limit(5_000_000);
    let code = s.subscribe(&"c".to_string(), &sub(&f));
    if valid_filter(&f) {
        sym::check(granted(&code), "c11-valid-filter-refused");
        sym::cover("granted");
    } else {
        sym::check(!granted(&code), "c11-invalid-filter-granted");
        sym::cover("refused");
        for t in ["a", "a/a", "/", "a/", "/a", "aa"] { sym::check(s.senders_to_publish(&t.to_string()).is_empty(), "c11-invalid-filter-matches"); }
    }
}
pub fn c11_filters() { c11(5) }
pub fn c11_filters_deep() { c11(7) }

// ---------------------------------------------------------------- C12

fn ask<T>(tx: &MessagingTx, op: impl FnOnce(oneshot::Sender<T>) -> MessagingOperation) -> T {
    let (a, b) = oneshot::channel();
    let t = tx.clone();
    let op = op(a);
    match world::block_on(async move { t.send(op).await.ok(); b.await }) {
        Some(Ok(v)) => v,
        _ => { sym::check(false, "c12-no-answer"); unreachable!() }
    }
}
/// clients "a" (one symbolic byte each, so equal or not) over the operations of the messaging task
fn c12(steps: usize) {
    let (mtx, mrx) = mpsc::channel(32);
    let task = world::spawn_local(MessagingService::new().run(mrx));
    // client ids are symbolic: two names, equal to each other or not
    let n1 = sym::vec("name", 1);
    let n2 = sym::vec("name", 2);
    let n3 = sym::vec("name", 1);
    for c in n1.iter().chain(&n2).chain(&n3) { sym::assume(*c > 31 && *c < 127); }
    let names = [n1, n2, n3];
    let mut model: Vec<(Vec<u8>, Tx)> = Vec::new();
    let mut all: Vec<(Vec<u8>, Tx)> = Vec::new();
    let get = |m: &Vec<(Vec<u8>, Tx)>, n: &[u8]| m.iter().position(|(k, _)| k == n);
    sym::limit(12_000_000);
    for k in 0..steps {
        let n = &names[if k == 0 { 0 } else { sym::choice(3, "client") }];
        let id = st(n);
        match if k == 0 { 0 } else { sym::choice(3, "step") } {
            0 => {
                let (tx, rx) = channel();
                std::mem::forget(rx);
                ask(&mtx, |resp| MessagingOperation::SessionInsert { session: session(&id, &tx), resp });
                let code = ask(&mtx, |resp| MessagingOperation::Subscribe { client_id: id.clone(), subscription: sub(b"t"), resp });
                sym::check(granted(&code), "c12-subscribe");
                if let Some(p) = get(&model, n) { model.remove(p); sym::cover("replaced"); }
                model.push((n.clone(), tx.clone()));
                all.push((n.clone(), tx));
            }
            1 => {
                let had = ask(&mtx, |resp| MessagingOperation::ConnectionDisconnected { client_id: id.clone(), resp });
                let p = get(&model, n);
                sym::check(had.is_some() == p.is_some(), "c12-ended-session");
                if let (Some(s), Some(p)) = (&had, p) { sym::check(s.sender().same_channel(&model[p].1) && s.client_id().as_bytes() == &n[..], "c12-ended-session"); }
                if let Some(p) = p { model.remove(p); sym::cover("disconnected"); }
            }
            _ => {
                let had = ask(&mtx, |resp| MessagingOperation::ConnectionLost { client_id: id.clone(), resp });
                let p = get(&model, n);
                sym::check(had.is_some() == p.is_some(), "c12-ended-session");
                if let (Some(s), Some(p)) = (&had, p) { sym::check(s.sender().same_channel(&model[p].1) && s.client_id().as_bytes() == &n[..], "c12-ended-session"); }
                if let Some(p) = p { model.remove(p); sym::cover("lost"); }
            }
        }
        let count = ask(&mtx, |resp| MessagingOperation::SessionCount { resp });
        sym::check(count == model.len(), "c12-count");
    }
    for n in &names {
        let id = st(n);
        let p = get(&model, n);
        let e = ask(&mtx, |resp| MessagingOperation::SessionExists { client_id: id.clone(), resp });
        sym::check(e == p.is_some(), "c12-exists");
        for (k, tx) in &all {
            if k != n { continue; }
            let owned = ask(&mtx, |resp| MessagingOperation::SessionOwned { client_id: id.clone(), sender: tx.clone(), resp });
            sym::check(owned == p.map_or(false, |p| model[p].1.same_channel(tx)), "c12-owner");
        }
    }
    let v = ask(&mtx, |resp| MessagingOperation::SendersToPublish { topic: "t".to_string(), resp });
    for (_, tx) in &all {
        let live = model.iter().any(|(_, t)| t.same_channel(tx));
        sym::check(copies(&v, tx) == live as usize, "c12-routed-to-the-latest-connection");
    }
    drop(mtx);
    world::run_until_idle();
    sym::check(world::task_done(task), "c12-task-ends");
}
/// many clients, each subscribed to its own name and to a common topic; some end, some come back
pub fn c12_many() {
    let n = [2, 4, 7, 20][sym::choice(4, "clients")];
    let mut m = MessagingService::new();
    let name = |i: usize| format!("n{}", i);
    let mut live: Vec<Option<Tx>> = Vec::new();
    let add = |m: &mut MessagingService, i: usize| {
        let (tx, rx) = channel();
        std::mem::forget(rx);
        m.session_insert(session(&name(i), &tx));
        tx
    };
    sym::limit(30_000_000);
    for i in 0..n {
        live.push(Some(add(&mut m, i)));
        for f in ["all", &name(i)] { m.subscribe(&name(i), &sub(f.as_bytes())); }
    }
    for _ in 0..2 {
        let i = [0, n / 2, n - 1][sym::choice(3, "client")];
        match sym::choice(4, "step") {
            0 => { sym::check(m.disconnect(&name(i)).is_some() == live[i].is_some(), "c12-ended-session"); live[i] = None; }
            1 => { sym::check(m.connection_lost(&name(i)).is_some() == live[i].is_some(), "c12-ended-session"); live[i] = None; }
            2 => {
                live[i] = Some(add(&mut m, i));
                for f in ["all", &name(i)] { m.subscribe(&name(i), &sub(f.as_bytes())); }
            }
            _ => {}
        }
        sym::check(m.session_count() == live.iter().flatten().count(), "c12-count");
    }
    let v = m.senders_to_publish(&"all".to_string());
    sym::check(v.len() == m.session_count(), "c12-routed-to-the-latest-connection");
    for i in 0..n {
        sym::check(m.session_exists(&name(i)) == live[i].is_some(), "c12-exists");
        let own = m.senders_to_publish(&name(i));
        match &live[i] {
            Some(tx) => sym::check(copies(&v, tx) == 1 && own.len() == 1 && own[0].same_channel(tx), "c12-routed-to-the-latest-connection"),
            None => sym::check(own.is_empty(), "c12-routed-to-the-latest-connection"),
        }
    }
    sym::cover("done");
}
pub fn c12_registry() { c12(3) }
pub fn c12_registry_deep() { c12(4) }

// ---------------------------------------------------------------- C13

fn c13_session(k: u16, last: DateTime<Utc>) -> Session {
    let (tx, _rx) = channel();
    Session::new("c".into(), std::net::IpAddr::from([127, 0, 0, 1]), sym::byte("persistent") & 1 == 1, tx, k, last)
}
/// moments around ends of seconds, days, months and years: (day, second of the day, nanoseconds)
const MOMENTS: [((i32, u32, u32), u32, u32); 4] = [((2020, 9, 13), 44800, 0), ((2000, 2, 28), 86399, 999_999_999), ((1970, 1, 1), 86399, 0), ((2024, 12, 31), 86399, 500_000_000)];
fn moment(day: (i32, u32, u32), plus: i64, secs: u32, ns: u32) -> DateTime<Utc> {
    let d = chrono::NaiveDate::from_ymd_opt(day.0, day.1, day.2).unwrap() + Duration::days(plus);
    DateTime::<Utc>::from_utc(NaiveDateTime::new(d, chrono::NaiveTime::from_num_seconds_from_midnight_opt(secs, ns).unwrap()), Utc)
}
/// any second of a day
fn second() -> u32 {
    let s = sym::u16v("second") as u32 | ((sym::byte("second") & 1) as u32) << 16;
    sym::assume(s < 86400);
    s
}
/// any time that passed, for keep-alives around every size
pub fn c13_elapsed() { elapsed(6, 2) }
pub fn c13_elapsed_deep() { elapsed(16, 4) }
fn elapsed(n: usize, bases: usize) {
    const K: [u16; 16] = [0, 1, 60, 999, 32767, 65535, 2, 3, 10, 11, 59, 255, 256, 4095, 32768, 65534];
    let k = K[sym::choice(n, "keep-alive")];
    let (day, s0, ns) = MOMENTS[sym::choice(bases, "activity")];
    let days = sym::choice(4, "days") as i64 - 1;
    let s1 = second();
    let s = c13_session(k, moment(day, 0, s0, ns));
    let now = moment(day, days, s1, ns);
    sym::limit(3_000_000);
    let got = s.is_keep_alive_expired(&now);
    let limit = (3 * k as i64) / 2;
    sym::check(got == (k != 0 && days * 86400 + s1 as i64 - s0 as i64 >= limit), "c13-expiry");
    if got { sym::cover("expired"); } else { sym::cover("alive"); }
}
/// every keep-alive, around its limit
pub fn c13_limit() {
    let k = sym::u16v("keep-alive");
    let (day, s0, _) = MOMENTS[0];
    let limit = (3 * k as i64) / 2;
    let (off, ns) = [(0, 0), (-1, 0), (1, 0), (-1, 999_999_999), (0, 1)][sym::choice(5, "offset")];
    let days = sym::choice(3, "days") as i64;
    let s1 = second();
    sym::assume(days * 86400 + s1 as i64 - s0 as i64 == limit + off);
    let s = c13_session(k, moment(day, 0, s0, 0));
    let now = moment(day, days, s1, ns);
    sym::limit(3_000_000);
    let got = s.is_keep_alive_expired(&now);
    sym::check(got == (k != 0 && off >= 0), "c13-expiry");
    if got { sym::cover("expired"); } else { sym::cover("alive"); }
}
/// any fractions of a second around the limit
pub fn c13_fraction() {
    let k = [0u16, 1, 10, 999, 65535][sym::choice(5, "keep-alive")];
    let (a, b) = (sym::u32v("activity"), sym::u32v("now"));
    sym::assume(a < 1_000_000_000 && b < 1_000_000_000);
    let (day, s0, _) = MOMENTS[0];
    let limit = (3 * k as i64) / 2;
    let off = sym::choice(3, "offset") as i64 - 1;
    let at = s0 as i64 + limit + off;
    let s = c13_session(k, moment(day, 0, s0, a));
    let now = moment(day, at / 86400, (at % 86400) as u32, b);
    sym::limit(3_000_000);
    let got = s.is_keep_alive_expired(&now);
    sym::check(got == (k != 0 && (off > 0 || off == 0 && b >= a)), "c13-expiry");
    if got { sym::cover("expired"); } else { sym::cover("alive"); }
}
/// the list of expired sessions
pub fn c13_session_list() {
    let mut m = MessagingService::new();
    let now = Utc::now();
    let mut want = Vec::new();
    for id in ["a", "b"] {
        let k = sym::u16v("keep-alive");
        let d = sym::choice(3, "elapsed") as i64 * 40 + 1;
        let (tx, rx) = channel();
        std::mem::forget(rx);
        m.session_insert(Session::new(id.into(), std::net::IpAddr::from([127, 0, 0, 1]), false, tx, k, now - Duration::seconds(d)));
        want.push(k != 0 && d >= (3 * k as i64) / 2);
    }
    sym::limit(3_000_000);
    let v = m.session_get_keep_alive_expired();
    for (i, id) in ["a", "b"].iter().enumerate() { sym::check(v.iter().any(|s| s.client_id() == id) == want[i], "c13-list"); }
    sym::check(v.len() == want.iter().filter(|x| **x).count(), "c13-list");
    sym::cover("done");
}
