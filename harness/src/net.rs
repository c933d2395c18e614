//! The whole broker (`ratelmq::run`) with byte-level clients.
#![allow(dead_code)]
use crate::sym;
use crate::wire;
use tokio::sym as world;

/// the task of `ratelmq::run`
pub struct Broker { pub main: usize }

pub fn start_with(config: &str, passwd: &[u8]) -> Broker {
    sym::file_put("symfs/passwd", passwd);
    sym::file_put("symfs/ratelmq.toml", config.as_bytes());
    let main = world::spawn_local(async { ratelmq::run("symfs/ratelmq.toml").await });
    world::run_until_idle();
    Broker { main }
}
pub const CONFIG: &str = "[mqtt]\nlisteners_tcp = [\"127.0.0.1:1883\"]\n\n[authentication]\npassword_file = \"symfs/passwd\"\n";
pub fn start() -> Broker { start_with(CONFIG, b"") }
/// a line of the credentials file; the hash is the stand-in of shims/argon2
pub fn entry(user: &str, password: &[u8]) -> Vec<u8> {
    use argon2::{password_hash::{PasswordHasher, SaltString}, Argon2};
    let salt = SaltString::new("c2FsdHNhbHQ").unwrap();
    let h = Argon2::default().hash_password(password, &salt).unwrap().to_string();
    let mut v = user.as_bytes().to_vec();
    v.push(b':');
    v.extend_from_slice(h.as_bytes());
    v.push(b'\n');
    v
}
/// bob may enter with "pw1"
pub fn start_bob() -> Broker { start_with(CONFIG, &entry("bob", b"pw1")) }

pub fn idle() { world::run_until_idle() }
/// sends bytes and lets the broker settle
pub fn send(c: usize, b: &[u8]) { world::feed(c, b); idle(); }
/// what the broker wrote since the last call
pub fn take(c: usize) -> Vec<u8> { let v = world::take_output(c); sym::trace(&v); v }
/// the broker wrote exactly this since the last call
pub fn got(c: usize, want: &[u8], id: &str) { sym::check(sym::same(&take(c), want), id) }
pub fn closed(c: usize) -> bool { world::closed_by_broker(c) }
/// a new connection
pub fn open() -> usize { let c = world::connect(0); idle(); c }
/// clean session or not, any keep-alive
pub fn any_session(mut connect: Vec<u8>) -> Vec<u8> {
    let v = sym::vec("session", 3);
    let p = if connect[1] < 128 { 9 } else { 10 };
    connect[p] = connect[p] & 0xfd | v[0] & 2;
    connect[p + 1] = v[1];
    connect[p + 2] = v[2];
    connect
}
/// an accepted client
pub fn client(id: &str) -> usize {
    let c = open();
    send(c, &any_session(wire::hello(id)));
    got(c, &wire::connack(0), "connect-not-accepted");
    c
}
pub fn subscribed(c: usize, filter: &[u8]) {
    send(c, &wire::subscribe(1, &[(filter, 0)]));
    got(c, &wire::suback(1, &[0]), "subscribe-not-granted");
}
/// it still gets its responses
pub fn responds(c: usize, id: &str) {
    sym::check(!closed(c), id);
    send(c, &wire::PINGREQ);
    got(c, &wire::PINGRESP, id);
}
/// the broker still serves: a new client connects, subscribes, gets a message from another and a ping response
pub fn alive(id: &str) {
    let a = open();
    send(a, &wire::hello("alive-a"));
    got(a, &wire::connack(0), id);
    send(a, &wire::subscribe(9, &[(b"alive/check", 0)]));
    got(a, &wire::suback(9, &[0]), id);
    let b = open();
    send(b, &wire::hello("alive-b"));
    got(b, &wire::connack(0), id);
    let m = wire::publish0(b"alive/check", b"x");
    send(b, &m);
    send(b, &wire::PINGREQ);
    got(a, &m, id);
    got(b, &wire::PINGRESP, id);
}
/// how many times `m` is in `out`; None if `out` is anything but copies of it
pub fn copies(out: &[u8], m: &[u8]) -> Option<usize> {
    if out.len() % m.len() != 0 { return None; }
    let n = out.len() / m.len();
    for i in 0..n { if !sym::same(&out[i * m.len()..(i + 1) * m.len()], m) { return None; } }
    Some(n)
}
