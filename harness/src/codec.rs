//! C01-C04, C06-C08: packets on the wire.
use crate::streams::*;
use crate::sym;
use crate::wire;
use bytes::BytesMut;
use ratelmq::mqtt::message::Message;
use ratelmq::mqtt::packets::connack::ConnAckReturnCode;
use ratelmq::mqtt::packets::puback::PubAckPacket;
use ratelmq::mqtt::packets::pubcomp::PubCompPacket;
use ratelmq::mqtt::packets::pubrec::PubRecPacket;
use ratelmq::mqtt::packets::pubrel::PubRelPacket;
use ratelmq::mqtt::packets::suback::{SubAckPacket, SubAckReturnCode};
use ratelmq::mqtt::packets::subscribe::SubscribePacket;
use ratelmq::mqtt::packets::unsuback::UnSubAckPacket;
use ratelmq::mqtt::packets::unsubscribe::UnsubscribePacket;
use ratelmq::mqtt::packets::*;
use ratelmq::mqtt::subscription::Subscription;
use ratelmq::mqtt::transport::mqtt_bytes_stream::MqttBytesReadStream;
use ratelmq::mqtt::transport::packet_decoder::read_packet;
use ratelmq::mqtt::transport::packet_encoder::write_packet;
use tokio::sym as world;
use tokio::sym::Chunk;

crate::harnesses! {
    h_c01_connect => c01_connect;
    h_c01_connect_text => c01_connect_text;
    h_c01_publish => c01_publish;
    h_c01_topics => c01_topics;
    h_c01_small => c01_small;
    h_c01_long => c01_long;
    h_c02_raw => c02_raw;
    h_c02_raw_deep => c02_raw_deep;
    h_c02_connect_raw => c02_connect_raw;
    h_c02_connect_raw_deep => c02_connect_raw_deep;
    h_c03_raw => c03_raw;
    h_c03_raw_deep => c03_raw_deep;
    h_c03_connect_raw => c03_connect_raw;
    h_c03_connect_raw_deep => c03_connect_raw_deep;
    h_c02_long => c02_long;
    h_c03_connect => c03_connect;
    h_c03_publish => c03_publish;
    h_c03_topics => c03_topics;
    h_c03_small => c03_small;
    h_c04_split => c04_split;
    h_c04_large => c04_large;
    h_c04_broker => c04_broker;
    h_c06_small => c06_small;
    h_c06_suback => c06_suback;
    h_c06_publish => c06_publish;
    h_c07_roundtrip => c07_roundtrip;
    h_c07_large => c07_large;
    h_c08_writes => c08_writes;
    h_c08_large => c08_large;
}

const CAP: usize = 4096;

fn read(r: &mut MqttBytesReadStream) -> Option<Result<ControlPacket, tokio::io::Error>> { world::block_on(read_packet(r)) }

/// text of length n whose bytes are arbitrary in 1..=127 except the wildcards
fn plain(tag: &str, n: usize) -> Vec<u8> {
    let v = sym::vec(tag, n);
    for c in &v { sym::assume(*c != 0 && *c < 128 && *c != b'+' && *c != b'#'); }
    v
}
/// any valid UTF-8 text without null, n bytes
fn text(tag: &str, n: usize) -> Vec<u8> {
    let v = sym::vec(tag, n);
    for c in &v { sym::assume(*c != 0); }
    sym::assume(std::str::from_utf8(&v).is_ok());
    v
}
fn st(v: &[u8]) -> String { unsafe { String::from_utf8_unchecked(v.to_vec()) } }
fn flag(tag: &str) -> bool { sym::choice(2, tag) == 1 }

/// the bytes of one packet followed by another packet are read as `want` and then as that packet, then the stream ends
fn expect(bytes: &[u8], want: ControlPacket, id: &str) {
    let (c, mut r) = reader(CAP);
    world::feed(c, bytes);
    world::feed(c, &[0xe0, 0, 0xc0, 0]);
    world::close(c, false);
    sym::limit(6_000_000 + 400 * bytes.len() as u64);
    match read(&mut r) {
        Some(Ok(p)) => sym::check(p == want, id),
        Some(Err(_)) => sym::check(false, "c01-valid-packet-refused"),
        None => sym::check(false, "c01-no-answer"),
    }
    sym::check(matches!(read(&mut r), Some(Ok(ControlPacket::Disconnect(_)))), "c01-packet-behind");
    sym::check(matches!(read(&mut r), Some(Ok(ControlPacket::PingReq))), "c01-packet-behind");
    sym::check(matches!(read(&mut r), Some(Err(_))), "c01-end");
}

fn connect_case(id: &[u8], clean: bool, ka: u16, will: Option<(&[u8], &[u8], u8, bool)>, user: Option<&[u8]>, password: Option<&[u8]>) {
    let b = wire::connect(&wire::Connect { client_id: id, clean, keep_alive: ka, will, user, password });
    let want = ConnectPacket::new(
        ProtocolVersion::Mqtt3, st(id), ka, clean,
        will.map(|(t, p, q, r)| Message { topic: st(t), payload: BytesMut::from(p), qos: QoS::from_bits(q), retain: r }),
        user.map(st), password.map(st),
    );
    expect(&b, ControlPacket::Connect(want), "c01-connect-fields");
}
pub fn c01_connect() {
    let n = [0, 1, 3][sym::choice(3, "shape")];
    let id = plain("client", n);
    let (wt, wp) = (plain("will-topic", n.max(1)), sym::vec("will-payload", 2 * n));
    let will = if flag("will") { Some((&wt[..], &wp[..], sym::choice(3, "will-qos") as u8, flag("will-retain"))) } else { None };
    let (u, p) = (plain("user", n), plain("password", n));
    let user = if flag("has-user") { Some(&u[..]) } else { None };
    let password = if user.is_some() && flag("has-password") { Some(&p[..]) } else { None };
    let clean = flag("clean");
    let ka = sym::u16v("keep-alive");
    if will.is_some() && password.is_some() { sym::cover("will-user-password"); }
    connect_case(&id, clean, ka, will, user, password);
}
pub fn c01_connect_text() {
    // one field at a time is any text, or long
    let which = sym::choice(4, "field");
    let long = flag("long");
    let t = if long { let mut t = plain("ends", 2); let e = t.pop().unwrap(); t.resize(sym_len(), b'x'); t.push(e); t } else { text("text", sym::range(0, 4, "len")) };
    let f = |i: usize| -> &[u8] { if i == which { &t } else { b"ab" } };
    if which == 1 && !long { sym::assume(t.len() > 0 && !t.iter().any(|c| *c == b'+' || *c == b'#')); }
    if long { sym::cover("long"); } else if t.len() == 4 && t[0] >= 0xf0 { sym::cover("four-byte-character"); }
    connect_case(f(0), true, 10, Some((f(1), b"\0\xff", 1, true)), Some(f(2)), Some(f(3)));
}
fn sym_len() -> usize { [126, 255, 256, 300][sym::choice(4, "long-len")] }

pub fn c01_publish() {
    let qos = sym::choice(3, "qos") as u8;
    let (dup, retain) = (flag("dup"), flag("retain"));
    if dup { sym::assume(qos > 0); }
    let id = sym::u16v("id");
    sym::assume(id != 0);
    let any = flag("any-text");
    let topic = if any { let t = text("topic", sym::range(1, 4, "len")); sym::assume(!t.iter().any(|c| *c == b'+' || *c == b'#')); t } else { plain("topic", [1, 2, 5][sym::choice(3, "len")]) };
    // sizes around the steps of the remaining length
    let header = 2 + topic.len() + if qos > 0 { 2 } else { 0 };
    let n = if any { 2 } else { [0, 1, 7, 127 - header, 128 - header, 300][sym::choice(6, "size")] };
    let mut payload = sym::vec("payload", n.min(8));
    payload.resize(n, 0xa5);
    let b = wire::publish(&topic, &payload, qos, dup, retain, id);
    let want = PublishPacket::new(st(&topic), BytesMut::from(&payload[..]), QoS::from_bits(qos), retain, if qos > 0 { Some(id) } else { None }, dup);
    if b.len() > 129 { sym::cover("two-byte-length"); }
    if any && topic[0] >= 0xc2 { sym::cover("multibyte-topic"); }
    expect(&b, ControlPacket::Publish(want), "c01-publish-fields");
}
pub fn c01_topics() {
    // SUBSCRIBE and UNSUBSCRIBE with up to three filters of any text
    let n = sym::range(1, 3, "filters");
    let sub = flag("subscribe");
    let id = sym::u16v("id");
    sym::assume(id != 0);
    let max = if n == 1 { 3 } else { 1 };
    let mut fs = Vec::new();
    for i in 0..n {
        let f = if i == 0 && n == 1 { text("filter", sym::range(1, max, "len")) } else { let v = sym::vec("filter", [1, 2][sym::choice(2, "len")]); for c in &v { sym::assume(*c != 0 && *c < 128); } v };
        fs.push((f, sym::choice(if sub { 3 } else { 1 }, "qos") as u8));
    }
    if n == 3 { sym::cover("three"); }
    if sub {
        let v: Vec<(&[u8], u8)> = fs.iter().map(|(f, q)| (&f[..], *q)).collect();
        let want = SubscribePacket::new(id, fs.iter().map(|(f, q)| Subscription::new(st(f), QoS::from_bits(*q))).collect());
        expect(&wire::subscribe(id, &v), ControlPacket::Subscribe(want), "c01-subscribe-fields");
    } else {
        let v: Vec<&[u8]> = fs.iter().map(|(f, _)| &f[..]).collect();
        let want = UnsubscribePacket::new(id, fs.iter().map(|(f, _)| st(f)).collect());
        expect(&wire::unsubscribe(id, &v), ControlPacket::Unsubscribe(want), "c01-unsubscribe-fields");
    }
}
/// long texts, payloads and lists
pub fn c01_long() {
    let e = plain("ends", 2);
    let long = |n: usize| { let mut v = vec![b'x'; n]; v[0] = e[0]; v[n - 1] = e[1]; v };
    match sym::choice(7, "what") {
        0 => { let t = long([4097, 65535][sym::choice(2, "size")]); connect_case(&t, false, 1, None, Some(b"u"), Some(b"p")); }
        1 => { let t = long([257, 5000, 65535][sym::choice(3, "size")]); connect_case(b"c", true, 1, Some((b"w", &t, 2, false)), Some(b"u"), Some(b"p")); }
        2 => { let t = long([255, 4097, 65535][sym::choice(3, "size")]); let k = sym::choice(3, "field"); connect_case(b"c", true, 1, Some((if k == 0 { &t } else { b"w" }, b"x", 1, false)), Some(if k == 1 { &t } else { b"u" }), Some(if k == 2 { &t } else { b"p" })); }
        3 => {
            let (t, p) = (b"topic", long([4090, 4096, 16384 - 9, 16384 - 8, 20000, 70001][sym::choice(6, "size")]));
            let want = PublishPacket::new(st(t), BytesMut::from(&p[..]), QoS::ExactlyOnce, true, Some(0x8001), true);
            expect(&wire::publish(t, &p, 2, true, true, 0x8001), ControlPacket::Publish(want), "c01-publish-fields");
        }
        4 => {
            let t = long([128, 4094, 4096, 65535][sym::choice(4, "size")]);
            let want = PublishPacket::new(st(&t), BytesMut::from(&b"p"[..]), QoS::AtMostOnce, false, None, false);
            expect(&wire::publish0(&t, b"p"), ControlPacket::Publish(want), "c01-publish-fields");
        }
        k => {
            let n = [10, 40, 200][sym::choice(3, "filters")];
            let fs: Vec<(Vec<u8>, u8)> = (0..n).map(|i| (if i + 1 == n { long(9) } else { format!("f/{}", i).into_bytes() }, (i % 3) as u8)).collect();
            if k == 5 {
                let v: Vec<(&[u8], u8)> = fs.iter().map(|(f, q)| (&f[..], *q)).collect();
                let want = SubscribePacket::new(9, fs.iter().map(|(f, q)| Subscription::new(st(f), QoS::from_bits(*q))).collect());
                expect(&wire::subscribe(9, &v), ControlPacket::Subscribe(want), "c01-subscribe-fields");
            } else {
                let v: Vec<&[u8]> = fs.iter().map(|(f, _)| &f[..]).collect();
                let want = UnsubscribePacket::new(9, fs.iter().map(|(f, _)| st(f)).collect());
                expect(&wire::unsubscribe(9, &v), ControlPacket::Unsubscribe(want), "c01-unsubscribe-fields");
            }
        }
    }
    sym::cover("done");
}
pub fn c01_small() {
    let id = sym::u16v("id");
    sym::assume(id != 0);
    let (h, l) = ((id >> 8) as u8, id as u8);
    match sym::choice(6, "type") {
        0 => expect(&[0x40, 2, h, l], ControlPacket::PubAck(PubAckPacket::new(id)), "c01-puback"),
        1 => expect(&[0x50, 2, h, l], ControlPacket::PubRec(PubRecPacket::new(id)), "c01-pubrec"),
        2 => expect(&[0x62, 2, h, l], ControlPacket::PubRel(PubRelPacket::new(id)), "c01-pubrel"),
        3 => expect(&[0x70, 2, h, l], ControlPacket::PubComp(PubCompPacket::new(id)), "c01-pubcomp"),
        4 => expect(&[0xc0, 0], ControlPacket::PingReq, "c01-pingreq"),
        _ => expect(&[0xe0, 0], ControlPacket::Disconnect(DisconnectPacket::default()), "c01-disconnect"),
    }
    sym::cover("done");
}

// ---------------------------------------------------------------- C02, C03

/// reads until the first error; every answer agrees with the standard
fn agree(b: &[u8], judge: bool, cap: usize) {
    let (c, mut r) = reader(cap);
    world::feed(c, b);
    world::close(c, false);
    sym::limit(6_000_000);
    let mut at = 0;
    for _ in 0..b.len() + 1 {
        let got = read(&mut r);
        sym::check(got.is_some(), "c02-waits-at-end-of-stream");
        let got = got.unwrap();
        if judge {
            match wire::judge(&b[at..]) {
                wire::Verdict::Valid(n) => { sym::check(got.is_ok(), "c03-valid-packet-refused"); at += n; sym::cover("valid"); }
                wire::Verdict::Bad => { sym::check(got.is_err(), "c03-malformed-packet-accepted"); sym::cover("refused"); }
                wire::Verdict::Open => { sym::cover("open"); return; }
            }
        }
        if got.is_err() { return; }
    }
    sym::check(false, "c02-more-packets-than-bytes");
}
/// any bytes
/// a body above 64 MiB is not modelled
fn modest(b: &[u8]) {
    for i in 1..b.len() { if i + 3 < b.len() { sym::assume(b[i] < 128 || b[i + 1] < 128 || b[i + 2] < 128 || b[i + 3] < 32); } }
}
fn raw(max: usize, judge: bool) {
    let n = sym::range(0, max, "bytes");
    let b = sym::vec("b", n);
    modest(&b);
    agree(&b, judge, if judge { CAP } else { [CAP, 1, 3][sym::choice(3, "buffer")] });
    sym::cover("ended");
}
pub fn c02_raw() { raw(9, false) }
pub fn c02_raw_deep() { raw(11, false) }
pub fn c03_raw() { raw(7, true) }
pub fn c03_raw_deep() { raw(10, true) }
/// a CONNECT whose bytes after the protocol level are arbitrary
fn connect_raw(max: usize, judge: bool) {
    let n = sym::range(0, max, "bytes");
    let mut b = vec![0x10, sym::byte("length"), 0, 4, b'M', b'Q', b'T', b'T', 4];
    sym::assume(b[1] < 128);
    b.extend_from_slice(&sym::vec("b", n));
    modest(&b[8..]);
    agree(&b, judge, CAP);
    sym::cover("ended");
}
pub fn c02_connect_raw() { connect_raw(11, false) }
pub fn c03_connect_raw() { connect_raw(8, true) }
pub fn c02_connect_raw_deep() { connect_raw(14, false) }
pub fn c03_connect_raw_deep() { connect_raw(12, true) }
/// longer packets with symbolic structure bytes, cut off anywhere
pub fn c02_long() {
    let kind = sym::choice(3, "kind");
    let mut b = match kind {
        0 => { let mut b = vec![0x10, 18, 0, 4, b'M', b'Q', b'T', b'T', 4, 0, 0, 0, 0, 1, b'c', 0, 1, b'u', 0, 1]; b[9] = sym::byte("flags"); b[1] = sym::byte("length"); b[12] = sym::byte("id-length-high"); b[13] = sym::byte("id-length"); b }
        1 => { let mut b = vec![0x30, 9, 0, 2, b'a', b'/', 0, 1, 7, 8, 9]; b[0] |= sym::byte("flags") & 15; b[1] = sym::byte("length"); b[2] = sym::byte("topic-high"); b[3] = sym::byte("topic-length"); b }
        _ => { let mut b = vec![0x82, 12, 0, 1, 0, 1, b'a', 0, 0, 1, b'b', 1, 0]; if flag("unsubscribe") { b[0] = 0xa2; } b[1] = sym::byte("length"); b[4] = sym::byte("filter-high"); b[5] = sym::byte("filter-length"); b[7] = sym::byte("qos"); b }
    };
    sym::assume(b[1] < 128);
    let cut = sym::range(0, b.len(), "cut");
    b.truncate(cut);
    agree(&b, false, [CAP, 2][sym::choice(2, "buffer")]);
    sym::cover("ended");
}
pub fn c03_connect() {
    // protocol name, level, flags, lengths and text of a CONNECT
    let f = sym::byte("flags");
    let mut b = vec![0x10, 0, 0, 4, b'M', b'Q', b'T', b'T', 4, f, 0, 60];
    match sym::choice(4, "part") {
        0 => { b[0] |= sym::byte("reserved") & 15; b[2] = sym::byte("n0"); b[3] = sym::byte("n1"); b[8] = sym::byte("level"); sym::assume(b[2] == 0 && b[3] < 8); }
        1 => { let k = sym::choice(4, "letter"); b[4 + k] = sym::byte("letter"); }
        2 => {}
        _ => b[10] = sym::byte("ka"),
    }
    let mut body = Vec::new();
    let mode = sym::choice(3, "payload");
    let t = sym::vec("text", 2);
    wire::put_str(&mut body, b"c");
    if f & 4 != 0 { wire::put_str(&mut body, if mode == 1 { &t } else { b"w" }); wire::put_str(&mut body, &t[..1]); }
    if f & 128 != 0 { wire::put_str(&mut body, if mode == 2 { &t } else { b"u" }); }
    if f & 64 != 0 { wire::put_str(&mut body, b"p"); }
    b.extend_from_slice(&body);
    // the declared length may be off
    let d = [0i64, 1, -1, -4][sym::choice(4, "length")];
    b[1] = (b.len() as i64 - 2 + d) as u8;
    b.push(0xc0);
    agree(&b, true, CAP);
}
pub fn c03_publish() {
    let n = sym::range(0, 6, "body");
    let mut b = vec![0x30 | sym::byte("flags") & 15];
    b.push(sym::byte("length"));
    sym::assume(b[1] as usize <= 8 || b[1] == 0x81);
    let s = sym::vec("body", n);
    if n > 0 { sym::assume(b[1] < 128 || s[0] < 128); }
    if n > 1 { sym::assume(s[0] == 0 || s[0] == 0xff); }
    b.extend_from_slice(&s);
    agree(&b, true, CAP);
}
pub fn c03_topics() {
    // SUBSCRIBE / UNSUBSCRIBE with two filters; lengths, QoS, flags, text arbitrary
    let first = [0x80, 0xa0][sym::choice(2, "type")] | sym::byte("flags") & 15;
    let s = sym::vec("s", 4);
    let (l1, l2) = (sym::byte("l1"), sym::byte("l2"));
    sym::assume(l1 < 5 && l2 < 4);
    let mut b = vec![first, 0, 0, sym::byte("id"), 0, l1, s[0], s[1], s[2], 0, l2, b'z', s[3]];
    b.truncate(sym::range(2, 13, "cut"));
    b[1] = sym::byte("length");
    sym::assume(b[1] < 14);
    agree(&b, true, CAP);
}
pub fn c03_small() {
    // every type with every flag, bodies of up to three bytes, and two packets in a row
    let mut b = vec![sym::byte("first")];
    sym::assume(b[0] >> 4 != 3 && b[0] >> 4 != 8 && b[0] >> 4 != 10);
    b.push(sym::byte("length"));
    sym::assume(b[1] < 5);
    b.extend_from_slice(&sym::vec("body", sym::range(0, 3, "n")));
    let second = [0x40, 0xc0, 0xf0, 0x00][sym::choice(4, "second")];
    b.push(second);
    b.push(sym::byte("second-length"));
    sym::assume(b[b.len() - 1] < 4);
    b.extend_from_slice(&[1, 2]);
    agree(&b, true, CAP);
}

// ---------------------------------------------------------------- C04

fn some_packet(kind: usize, s: &[u8]) -> (Vec<u8>, ControlPacket) {
    match kind {
        0 => (wire::publish(&s[..3], &s[3..7], 1, false, false, 0x0102), ControlPacket::Publish(PublishPacket::new(st(&s[..3]), BytesMut::from(&s[3..7]), QoS::AtLeastOnce, false, Some(0x0102), false))),
        1 => (wire::subscribe(7, &[(&s[..2], 1), (&s[2..3], 0)]), ControlPacket::Subscribe(SubscribePacket::new(7, vec![Subscription::new(st(&s[..2]), QoS::AtLeastOnce), Subscription::new(st(&s[2..3]), QoS::AtMostOnce)]))),
        2 => (wire::connect(&wire::Connect { client_id: &s[..3], clean: true, keep_alive: 1, ..Default::default() }), ControlPacket::Connect(ConnectPacket::new(ProtocolVersion::Mqtt3, st(&s[..3]), 1, true, None, None, None))),
        _ => (vec![0x40, 2, 5, 6], ControlPacket::PubAck(PubAckPacket::new(0x0506))),
    }
}
/// two packets, any split into reads (up to three cuts anywhere), any readiness, several buffer sizes
pub fn c04_split() {
    let k = sym::choice(4, "first");
    let s = plain("text", 7);
    let (b1, p1) = some_packet(k, &s);
    let (b2, p2) = some_packet(3, &s);
    let (c, mut r) = reader([CAP, 1, 2, 5, 16][sym::choice(5, "buffer")]);
    world::conn(c).read_chunk = match sym::choice(3, "reads") { 0 => Chunk::Any(2), 1 => Chunk::Bytes(1), _ => Chunk::All };
    world::conn(c).pendings = 1;
    // part of the bytes arrives only later
    let mut all = b1.clone();
    all.extend_from_slice(&b2);
    let late = sym::choice(all.len(), "late");
    world::feed(c, &all[..all.len() - late]);
    let rest = all[all.len() - late..].to_vec();
    world::spawn_local(async move {
        tokio::task::yield_now().await;
        world::feed(c, &rest);
        world::close(c, false);
    });
    sym::limit(8_000_000);
    sym::check(matches!(read(&mut r), Some(Ok(p)) if p == p1), "c04-first-packet");
    sym::check(matches!(read(&mut r), Some(Ok(p)) if p == p2), "c04-second-packet");
    sym::check(matches!(read(&mut r), Some(Err(_))), "c04-end");
    if late > 0 { sym::cover("late"); }
}
/// payloads and texts larger than the buffer, and packets after them
pub fn c04_large() {
    let cap = [1, 4, 8, 9, 31][sym::choice(5, "buffer")];
    let n = [7, 8, 9, 15, 16, 17, 33, 70, 200][sym::choice(9, "size")];
    let long_topic = flag("long-topic");
    let t = plain("topic", if long_topic { n } else { 2 });
    let p = sym::vec("payload", if long_topic { 3 } else { n });
    let b = wire::publish(&t, &p, 0, false, true, 0);
    let (c, mut r) = reader(cap);
    world::conn(c).read_chunk = match sym::choice(3, "reads") { 0 => Chunk::Any(1), 1 => Chunk::Bytes(3), _ => Chunk::All };
    for _ in 0..2 { world::feed(c, &b); }
    world::feed(c, &wire::PINGREQ);
    world::close(c, false);
    sym::limit(8_000_000);
    let want = ControlPacket::Publish(PublishPacket::new(st(&t), BytesMut::from(&p[..]), QoS::AtMostOnce, true, None, false));
    for _ in 0..2 {
        match read(&mut r) {
            Some(Ok(g)) => sym::check(g == want, "c04-large-content"),
            _ => sym::check(false, "c04-large-refused"),
        }
    }
    sym::check(matches!(read(&mut r), Some(Ok(ControlPacket::PingReq))), "c04-behind-large");
    if n > cap { sym::cover("larger-than-buffer"); }
}

/// the broker's buffer: packets around and above its 4096 bytes, cut near its edges
pub fn c04_broker() {
    let n = [4080, 4090, 5000, 8190, 10000][sym::choice(5, "size")];
    let mut p = sym::vec("payload", 2);
    p.resize(n, b'x');
    p[n - 1] = sym::byte("last");
    let s = plain("text", 7);
    let k = sym::choice(3, "before");
    let mut all = vec![];
    let before = some_packet(k, &s);
    all.extend_from_slice(&before.0);
    let big = wire::publish(&s[..2], &p, 1, false, false, 0x0908);
    all.extend_from_slice(&big);
    let after = some_packet(3, &s);
    all.extend_from_slice(&after.0);
    let (c, mut r) = reader([CAP, 16384][sym::choice(2, "buffer")]);
    let cuts: Vec<usize> = match sym::choice(6, "reads") {
        5 => vec![before.0.len() + 5003, before.0.len() + 9001],
        0 => vec![],
        1 => vec![[4094, 4095, 4096, 4097][sym::choice(4, "cut")]],
        2 => vec![before.0.len() + sym::choice(12, "cut")],
        3 => vec![all.len() - 1 - sym::choice(6, "cut")],
        _ => (1..all.len() / 1000 + 1).map(|i| i * 1000).collect(),
    };
    world::spawn_local(async move {
        let mut at = 0;
        for x in cuts { if x < all.len() { world::feed(c, &all[at..x]); at = x; tokio::task::yield_now().await; tokio::task::yield_now().await; } }
        world::feed(c, &all[at..]);
        world::close(c, false);
    });
    sym::limit(20_000_000);
    sym::check(matches!(read(&mut r), Some(Ok(p)) if p == before.1), "c04-before-large");
    let want = ControlPacket::Publish(PublishPacket::new(st(&s[..2]), BytesMut::from(&p[..]), QoS::AtLeastOnce, false, Some(0x0908), false));
    match read(&mut r) {
        Some(Ok(g)) => sym::check(g == want, "c04-large-content"),
        _ => sym::check(false, "c04-large-refused"),
    }
    sym::check(matches!(read(&mut r), Some(Ok(p)) if p == after.1), "c04-behind-large");
    sym::check(matches!(read(&mut r), Some(Err(_))), "c04-end");
    sym::cover("done");
}
// ---------------------------------------------------------------- C06

fn written(p: ControlPacket, want: &[u8], id: &str) {
    let (c, mut w) = writer(CAP);
    sym::limit(8_000_000);
    sym::check(matches!(world::block_on(write_packet(&mut w, p)), Some(Ok(()))), "c06-write-answers");
    let out = world::output(c);
    sym::trace(&out[..out.len().min(64)]);
    sym::check(sym::same(&out, want), id);
}
pub fn c06_small() {
    let id = sym::u16v("id");
    let (h, l) = ((id >> 8) as u8, id as u8);
    match sym::choice(7, "type") {
        0 => {
            use ConnAckReturnCode::*;
            let (n, code) = match sym::choice(6, "code") { 0 => (0, Accepted), 1 => (1, UnacceptableProtocolVersion), 2 => (2, IdentifierRejected), 3 => (3, ServerUnavailable), 4 => (4, BadUserNameOrPassword), _ => (5, NotAuthorized) };
            let sp = flag("session-present");
            written(ControlPacket::ConnAck(ConnAckPacket::new(sp, code)), &[0x20, 2, sp as u8, n], "c06-connack");
        }
        1 => written(ControlPacket::PubAck(PubAckPacket::new(id)), &[0x40, 2, h, l], "c06-puback"),
        2 => written(ControlPacket::PubRec(PubRecPacket::new(id)), &[0x50, 2, h, l], "c06-pubrec"),
        3 => written(ControlPacket::PubRel(PubRelPacket::new(id)), &[0x62, 2, h, l], "c06-pubrel"),
        4 => written(ControlPacket::PubComp(PubCompPacket::new(id)), &[0x70, 2, h, l], "c06-pubcomp"),
        5 => written(ControlPacket::UnsubAck(UnSubAckPacket::new(id)), &[0xb0, 2, h, l], "c06-unsuback"),
        _ => written(ControlPacket::PingResp, &[0xd0, 0], "c06-pingresp"),
    }
    sym::cover("done");
}
fn code(n: usize) -> (SubAckReturnCode, u8) {
    use SubAckReturnCode::*;
    match n { 0 => (SuccessQoS0, 0), 1 => (SuccessQoS1, 1), 2 => (SuccessQoS2, 2), _ => (Failure, 0x80) }
}
pub fn c06_suback() {
    let id = sym::u16v("id");
    let long = flag("long");
    let mut codes = Vec::new();
    if long {
        let n = [125, 126, 300][sym::choice(3, "codes")];
        let k = sym::choice(4, "code");
        for i in 0..n { codes.push(code(if i + 1 == n { k } else { i % 4 })); }
        sym::cover("long");
    } else {
        for _ in 0..sym::range(1, 3, "codes") { codes.push(code(sym::choice(4, "code"))); }
    }
    let want = wire::suback(id, &codes.iter().map(|c| c.1).collect::<Vec<u8>>());
    written(ControlPacket::SubAck(SubAckPacket::new(id, codes.into_iter().map(|c| c.0).collect())), &want, "c06-suback");
}
pub fn c06_publish() {
    let qos = sym::choice(3, "qos") as u8;
    let (dup, retain) = (flag("dup"), flag("retain"));
    let id = sym::u16v("id");
    let large = flag("large");
    let topic = text("topic", if large { 1 } else { sym::range(1, 3, "topic-len") });
    let header = 2 + topic.len() + if qos > 0 { 2 } else { 0 };
    let n = if large { [127 - header, 128 - header, 129, 4090, 4096, 16383 - header, 16384 - header, 20000, 65534, 65536, 70001][sym::choice(11, "size")] } else { sym::range(0, 3, "size") };
    let mut payload = sym::vec("payload", n.min(4));
    payload.resize(n, 0x5a);
    if n > 4 { payload[n - 1] = sym::byte("last"); }
    let want = wire::publish(&topic, &payload, qos, dup, retain, id);
    if n > 16384 { sym::cover("three-byte-length"); }
    let p = PublishPacket::new(st(&topic), BytesMut::from(&payload[..]), QoS::from_bits(qos), retain, if qos > 0 { Some(id) } else { None }, dup);
    written(ControlPacket::Publish(p), &want, "c06-publish");
}

// ---------------------------------------------------------------- C07

fn roundtrip(p: PublishPacket, wcap: usize, rcap: usize) {
    let (c, mut w) = writer(wcap);
    sym::limit(40_000_000);
    sym::check(matches!(world::block_on(write_packet(&mut w, ControlPacket::Publish(p.clone()))), Some(Ok(()))), "c07-write");
    let out = world::output(c);
    sym::trace(&out[..out.len().min(64)]);
    let (d, mut r) = reader(rcap);
    world::feed(d, &out);
    world::close(d, false);
    match read(&mut r) {
        Some(Ok(q)) => sym::check(q == ControlPacket::Publish(p), "c07-roundtrip"),
        _ => sym::check(false, "c07-not-readable"),
    }
    sym::check(matches!(read(&mut r), Some(Err(_))) && world::conn(d).input.is_empty(), "c07-one-packet");
}
pub fn c07_roundtrip() {
    let qos = sym::choice(3, "qos") as u8;
    let dup = flag("dup");
    if dup { sym::assume(qos > 0); }
    let retain = flag("retain");
    let id = sym::u16v("id");
    sym::assume(id != 0);
    let topic = text("topic", sym::range(1, 3, "topic-len"));
    sym::assume(!topic.iter().any(|c| *c == b'+' || *c == b'#'));
    let payload = sym::vec("payload", sym::range(0, 4, "size"));
    sym::cover("done");
    roundtrip(PublishPacket::new(st(&topic), BytesMut::from(&payload[..]), QoS::from_bits(qos), retain, if qos > 0 { Some(id) } else { None }, dup), CAP, CAP);
}
pub fn c07_large() {
    let qos = sym::choice(2, "qos") as u8;
    let n = [120, 127, 128, 4090, 4096, 4097, 9000, 16390, 65535, 70001][sym::choice(10, "size")];
    let long_topic = flag("long-topic");
    let mut topic = plain("topic", 2);
    let mut payload = sym::vec("payload", 3);
    if long_topic { topic.resize(n.min(65535), b't'); } else { payload.resize(n, 9); payload[n - 1] = sym::byte("last"); }
    if n > 4096 { sym::cover("larger-than-buffer"); }
    let (wc, rc) = [(CAP, CAP), (16, 16)][if n < 1000 { sym::choice(2, "buffers") } else { 0 }];
    roundtrip(PublishPacket::new(st(&topic), BytesMut::from(&payload[..]), QoS::from_bits(qos), true, if qos > 0 { Some(0xfffe) } else { None }, false), wc, rc);
}

// ---------------------------------------------------------------- C08

fn out_packet(k: usize, s: &[u8]) -> (ControlPacket, Vec<u8>) {
    match k {
        0 => (ControlPacket::Publish(PublishPacket::new(st(&s[..2]), BytesMut::from(&s[2..]), QoS::AtMostOnce, false, None, false)), wire::publish0(&s[..2], &s[2..])),
        1 => (ControlPacket::PingResp, wire::PINGRESP.to_vec()),
        _ => { let n = s[0] as u16 * 256 + s[1] as u16; (ControlPacket::SubAck(SubAckPacket::new(n, vec![code(0).0, code(3).0, code(0).0])), wire::suback(n, &[0, 0x80, 0])) }
    }
}
/// two packets, every split of the socket's acceptances within the bound, small and large buffers, unreadiness, a socket that fails
pub fn c08_writes() {
    let cap = [2, 3, 5, 8, 16, 4096][sym::choice(6, "buffer")];
    let (c, mut w) = writer(cap);
    match sym::choice(3, "accepts") {
        0 => world::conn(c).write_chunk = Chunk::Any(2),
        1 => world::conn(c).write_chunk = Chunk::Bytes(1),
        _ => world::conn(c).pendings = 2,
    }
    let fail = flag("fails");
    let s = plain("text", 6);
    let mut want = Vec::new();
    sym::limit(8_000_000);
    let n = sym::range(1, 2, "packets");
    for i in 0..n {
        let (p, b) = out_packet(sym::choice(3, "packet"), &s);
        want.extend_from_slice(&b);
        if fail && i + 1 == n { world::conn(c).broken = true; }
        match world::block_on(write_packet(&mut w, p)) {
            Some(Ok(())) => {
                sym::check(sym::same(&world::output(c), &want), "c08-bytes-handed-over");
                sym::cover("written");
            }
            Some(Err(_)) => { sym::check(fail && i + 1 == n, "c08-error-without-cause"); sym::cover("failed"); }
            None => sym::check(false, "c08-write-hangs"),
        }
    }
    let out = world::output(c);
    sym::trace(&out);
    sym::check(out.len() <= want.len() && sym::same(&out, &want[..out.len()]), "c08-order");
}
/// payloads around and above the buffer size, accepted in pieces
pub fn c08_large() {
    let k = sym::choice(4, "buffer");
    let cap = [8, 32, 33, CAP][k];
    let (c, mut w) = writer(cap);
    let (n, p);
    if cap < CAP {
        world::conn(c).write_chunk = match sym::choice(4, "accepts") { 0 => Chunk::Any(1), 1 => Chunk::Bytes(7), 2 => Chunk::Bytes(1), _ => Chunk::All };
        n = [1, 7, 8, 9, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 63, 64, 65, 130][sym::choice(18, "size")];
        p = sym::vec("payload", n);
    } else {
        // the sizes the broker runs with
        world::conn(c).write_chunk = Chunk::Bytes([1000, 3000, 4095, 100][sym::choice(4, "accepts")]);
        n = [600, 2048, 3000, 4080, 4096, 5000, 8192, 12289, 70001][sym::choice(9, "size")];
        world::conn(c).pendings = sym::choice(2, "unready") as u32 * 2;
        let mut v = sym::vec("payload", 3);
        v.resize(n, 7);
        for i in 3..n { v[i] = (i % 251) as u8; }
        v[n - 1] = sym::byte("last");
        p = v;
    }
    let t = plain("topic", 2);
    let mut want = wire::publish0(&t, &p);
    want.extend_from_slice(&wire::PINGRESP);
    sym::limit(20_000_000);
    let a = world::block_on(write_packet(&mut w, ControlPacket::Publish(PublishPacket::new(st(&t), BytesMut::from(&p[..]), QoS::AtMostOnce, false, None, false))));
    sym::check(matches!(a, Some(Ok(()))), "c08-write-hangs");
    sym::check(world::output(c).len() == want.len() - 2, "c08-bytes-handed-over");
    let a = world::block_on(write_packet(&mut w, ControlPacket::PingResp));
    sym::check(matches!(a, Some(Ok(()))), "c08-write-hangs");
    sym::check(sym::same(&world::output(c), &want), "c08-bytes-handed-over");
    if n > cap { sym::cover("larger-than-buffer"); }
}
