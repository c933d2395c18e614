//! MQTT 3.1.1 as the standard lays it out: an independent encoder and parser the harnesses compare with.
#![allow(dead_code)]

pub fn remlen(mut n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        if n > 0 { v.push(b | 128) } else { v.push(b); return v; }
    }
}
pub fn packet(first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![first];
    v.extend_from_slice(&remlen(body.len()));
    v.extend_from_slice(body);
    v
}
pub fn put16(v: &mut Vec<u8>, n: u16) { v.push((n >> 8) as u8); v.push(n as u8); }
pub fn put_str(v: &mut Vec<u8>, s: &[u8]) { put16(v, s.len() as u16); v.extend_from_slice(s); }

#[derive(Clone, Default)]
pub struct Connect<'a> {
    pub client_id: &'a [u8],
    pub clean: bool,
    pub keep_alive: u16,
    /// topic, payload, QoS, retain
    pub will: Option<(&'a [u8], &'a [u8], u8, bool)>,
    pub user: Option<&'a [u8]>,
    pub password: Option<&'a [u8]>,
}
pub fn connect_flags(c: &Connect) -> u8 {
    let mut f = (c.clean as u8) << 1;
    if let Some((_, _, q, r)) = c.will { f |= 4 | q << 3 | (r as u8) << 5; }
    if c.user.is_some() { f |= 128; }
    if c.password.is_some() { f |= 64; }
    f
}
pub fn connect(c: &Connect) -> Vec<u8> {
    let mut b = vec![0, 4, b'M', b'Q', b'T', b'T', 4, connect_flags(c)];
    put16(&mut b, c.keep_alive);
    put_str(&mut b, c.client_id);
    if let Some((t, p, _, _)) = c.will { put_str(&mut b, t); put_str(&mut b, p); }
    if let Some(u) = c.user { put_str(&mut b, u); }
    if let Some(p) = c.password { put_str(&mut b, p); }
    packet(0x10, &b)
}
/// the usual CONNECT of the broker harnesses
pub fn hello(id: &str) -> Vec<u8> { connect(&Connect { client_id: id.as_bytes(), clean: true, keep_alive: 60, ..Default::default() }) }
pub fn publish(topic: &[u8], payload: &[u8], qos: u8, dup: bool, retain: bool, id: u16) -> Vec<u8> {
    let mut b = Vec::new();
    put_str(&mut b, topic);
    if qos > 0 { put16(&mut b, id); }
    b.extend_from_slice(payload);
    packet(0x30 | (dup as u8) << 3 | qos << 1 | retain as u8, &b)
}
pub fn publish0(topic: &[u8], payload: &[u8]) -> Vec<u8> { publish(topic, payload, 0, false, false, 0) }
pub fn subscribe(id: u16, filters: &[(&[u8], u8)]) -> Vec<u8> {
    let mut b = Vec::new();
    put16(&mut b, id);
    for (f, q) in filters { put_str(&mut b, f); b.push(*q); }
    packet(0x82, &b)
}
pub fn unsubscribe(id: u16, filters: &[&[u8]]) -> Vec<u8> {
    let mut b = Vec::new();
    put16(&mut b, id);
    for f in filters { put_str(&mut b, f); }
    packet(0xa2, &b)
}
pub const PINGREQ: [u8; 2] = [0xc0, 0];
pub const PINGRESP: [u8; 2] = [0xd0, 0];
pub const DISCONNECT: [u8; 2] = [0xe0, 0];
pub fn connack(code: u8) -> [u8; 4] { [0x20, 2, 0, code] }
pub fn suback(id: u16, codes: &[u8]) -> Vec<u8> {
    let mut b = Vec::new();
    put16(&mut b, id);
    b.extend_from_slice(codes);
    packet(0x90, &b)
}
pub fn unsuback(id: u16) -> [u8; 4] { [0xb0, 2, (id >> 8) as u8, id as u8] }

/// what the standard says about the bytes at the start of a stream that ends after them
pub enum Verdict {
    /// well-formed, so many bytes long
    Valid(usize),
    /// malformed, or the stream ends inside the packet
    Bad,
    /// the standard or this broker leaves it open (packet identifier 0, DUP with QoS 0, an empty topic filter, an unsupported protocol level)
    Open,
}
struct Cur<'a> { b: &'a [u8], p: usize, end: usize }
impl<'a> Cur<'a> {
    fn u8(&mut self) -> Option<u8> { if self.p < self.end { self.p += 1; Some(self.b[self.p - 1]) } else { None } }
    fn u16(&mut self) -> Option<u16> { let h = self.u8()?; let l = self.u8()?; Some((h as u16) << 8 | l as u16) }
    fn bytes(&mut self) -> Option<&'a [u8]> {
        let n = self.u16()? as usize;
        if n > self.end - self.p { return None; }
        self.p += n;
        Some(&self.b[self.p - n..self.p])
    }
    fn text(&mut self) -> Option<&'a [u8]> {
        let t = self.bytes()?;
        if std::str::from_utf8(t).is_err() || t.iter().any(|c| *c == 0) { return None; }
        Some(t)
    }
    fn left(&self) -> usize { self.end - self.p }
}
pub fn judge(b: &[u8]) -> Verdict { judge_opt(b).unwrap_or(Verdict::Bad) }
fn judge_opt(b: &[u8]) -> Option<Verdict> {
    if b.is_empty() { return None; }
    let mut len = 0usize;
    let mut p = 1;
    loop {
        if p > 4 || p >= b.len() { return None; }
        let x = b[p];
        len += ((x & 127) as usize) << (7 * (p - 1));
        p += 1;
        if x & 128 == 0 { break; }
    }
    let flags = b[0] & 15;
    let kind = b[0] >> 4;
    // rules about the fixed header come before the body; a body cut off is as bad as a malformed one
    match kind {
        3 => if flags & 6 == 6 { return None; },
        6 | 8 | 10 => if flags != 2 { return None; },
        1 | 4 | 5 | 7 | 12 | 14 => if flags != 0 { return None; },
        _ => return None,
    }
    if len > b.len() - p { return None; }
    let mut c = Cur { b, p, end: p + len };
    let mut open = false;
    match kind {
        1 => {
            let name = c.text()?;
            if name != b"MQTT" { return None; }
            if c.u8()? != 4 { return Some(Verdict::Open); }
            let f = c.u8()?;
            c.u16()?;
            if f & 1 != 0 || f & 24 == 24 { return None; }
            if f & 4 == 0 && f & 56 != 0 { return None; }
            if f & 128 == 0 && f & 64 != 0 { return None; }
            c.text()?;
            if f & 4 != 0 {
                let t = c.text()?;
                // the topic of a will is not constrained here
                if t.is_empty() || t.iter().any(|x| *x == b'+' || *x == b'#') { open = true; }
                c.bytes()?;
            }
            if f & 128 != 0 { c.text()?; }
            // a password is binary data; this broker reads it as text
            if f & 64 != 0 { let q = c.bytes()?; if std::str::from_utf8(q).is_err() || q.iter().any(|c| *c == 0) { open = true; } }
        }
        3 => {
            let t = c.text()?;
            if t.is_empty() || t.iter().any(|x| *x == b'+' || *x == b'#') { return None; }
            if flags & 6 != 0 { if c.u16()? == 0 { open = true; } } else if flags & 8 != 0 { open = true; }
            c.p = c.end;
        }
        4 | 5 | 6 | 7 => { if c.u16()? == 0 { open = true; } }
        8 | 10 => {
            if c.u16()? == 0 { open = true; }
            if c.left() == 0 { return None; }
            while c.left() > 0 {
                if c.text()?.is_empty() { open = true; }
                if kind == 8 && c.u8()? > 2 { return None; }
            }
        }
        _ => {}
    }
    if c.left() != 0 { return None; }
    Some(if open { Verdict::Open } else { Verdict::Valid(c.end) })
}
