//! Topic filters as MQTT 3.1.1 section 4.7 defines them.
#![allow(dead_code)]
pub fn levels(s: &[u8]) -> Vec<&[u8]> { s.split(|c| *c == b'/').collect() }
/// MQTT 3.1.1 section 4.7.1
pub fn valid_filter(f: &[u8]) -> bool {
    if f.is_empty() { return false; }
    let l = levels(f);
    for (i, s) in l.iter().enumerate() {
        if s.len() == 1 && s[0] == b'+' { continue; }
        if s.len() == 1 && s[0] == b'#' { if i + 1 != l.len() { return false; } continue; }
        if s.iter().any(|c| *c == b'+' || *c == b'#') { return false; }
    }
    true
}
#[derive(PartialEq, Clone, Copy)]
pub enum M { No, Yes, Parent }
/// section 4.7; Parent: only because '#' includes the parent level
pub fn matches(f: &[u8], t: &[u8]) -> M {
    let (f, t) = (levels(f), levels(t));
    if !t[0].is_empty() && t[0][0] == b'$' && (f[0] == b"+" || f[0] == b"#") { return M::No; }
    let mut i = 0;
    loop {
        if i == f.len() { return if i == t.len() { M::Yes } else { M::No }; }
        if f[i] == b"#" { return if i == t.len() { M::Parent } else { M::Yes }; }
        if i == t.len() { return M::No; }
        if f[i] != b"+" && f[i] != t[i] { return M::No; }
        i += 1;
    }
}
