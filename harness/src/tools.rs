//! C22-C24: settings, the password tool, the credentials file.
use crate::sym;
use argon2::{password_hash::{PasswordHasher, SaltString}, Argon2};
use ratelmq::broker::authentication::{AuthenticationError, FileIdentityManager, IdentityProvider};
use ratelmq::settings::Settings;

crate::harnesses! {
    h_c22_sources => c22_sources;
    h_c22_list => c22_list;
    h_c22_file => c22_file;
    h_c22_types => c22_types;
    h_c23_lines => c23_lines;
    h_c23_lines_deep => c23_lines_deep;
    h_c23_bytes => c23_bytes;
    h_c23_bytes_deep => c23_bytes_deep;
    h_c23_user => c23_user;
    h_c23_end => c23_end;
    h_c23_metacharacters => c23_metacharacters;
    h_c23_twice => c23_twice;
    h_c23_password => c23_password;
    h_c23_refused => c23_refused;
    h_c24_names => c24_names;
    h_c24_names_deep => c24_names_deep;
    h_c24_bytes => c24_bytes;
    h_c24_bytes_deep => c24_bytes_deep;
    h_c24_many => c24_many;
}
const FILE: &str = "symfs/passwd";
fn hash(password: &[u8]) -> String {
    Argon2::default().hash_password(password, &SaltString::new("c2FsdHNhbHQ").unwrap()).unwrap().to_string()
}
/// lines end with "\n" or "\r\n"; the last one may be unterminated
fn lines(b: &[u8]) -> Vec<&[u8]> {
    let mut v: Vec<&[u8]> = b.split(|c| *c == b'\n').collect();
    let open = v.pop().unwrap();
    let mut v: Vec<&[u8]> = v.into_iter().map(|l| if l.last() == Some(&b'\r') { &l[..l.len() - 1] } else { l }).collect();
    if !open.is_empty() { v.push(open); }
    v
}
/// name and hash of every line, or None if a line has no colon
fn entries(b: &[u8]) -> Option<Vec<(Vec<u8>, Vec<u8>)>> {
    let mut v = vec![];
    for l in lines(b) {
        let p = l.iter().position(|c| *c == b':')?;
        v.push((l[..p].to_vec(), l[p + 1..].to_vec()));
    }
    Some(v)
}
fn text(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
fn ascii(tag: &str, n: usize) -> Vec<u8> {
    let v = sym::vec(tag, n);
    for c in &v { sym::assume(*c < 128); }
    v
}

fn names_with(k: usize) {
    let (h1, h2) = (hash(b"one"), hash(b"two"));
    let mut f = ascii("first", k);
    f.push(b':');
    f.extend(h1.as_bytes());
    f.extend(if k > 3 || sym::choice(2, "line-break") == 0 { ascii("between", 1) } else { b"\r\n".to_vec() });
    f.extend(ascii("second", k));
    f.push(b':');
    f.extend(h2.as_bytes());
    f.extend(*&[&b""[..], b"\n", b"\r\n", b"\n\n", b"\nx", b"\nx:"][sym::choice(6, "last")]);
    sym::file_put(FILE, &f);
    let want = entries(&f);
    let got = FileIdentityManager::new(FILE);
    sym::check(got.is_ok() == want.is_some(), "c24-loads");
    let (Ok(m), Some(want)) = (got, want) else { sym::cover("refused"); return };
    let mut names: Vec<Vec<u8>> = want.iter().map(|e| e.0.clone()).collect();
    names.push(ascii("other", 2));
    for n in names {
        let entry = want.iter().rev().find(|e| e.0 == n);
        for (pw, h) in [(&b"one"[..], &h1), (b"two", &h2)] {
            let r = m.authenticate(&text(n.clone()), &text(pw.to_vec()));
            let whole = entry.map_or(false, |e| e.1 == h.as_bytes());
            // an entry whose hash runs on into the following text is left out
            let unsure = entry.map_or(false, |e| e.1.starts_with(h.as_bytes()) && !whole);
            sym::check(r.is_ok() == whole || unsure, "c24-admits");
            sym::check(matches!(r, Err(AuthenticationError::UserNotFound)) == entry.is_none(), "c24-known");
            if whole { sym::cover("admitted"); }
        }
    }
}
pub fn c24_names() { names_with(3) }
pub fn c24_names_deep() { names_with(5) }
fn bytes_upto(n: usize) {
    if sym::choice(8, "missing") == 7 {
        sym::check(FileIdentityManager::new("symfs/none").is_err(), "c24-missing");
        sym::cover("missing");
        return;
    }
    let f = sym::vec("file", sym::choice(n, "size"));
    sym::file_put(FILE, &f);
    let want = if std::str::from_utf8(&f).is_ok() { entries(&f) } else { None };
    let got = FileIdentityManager::new(FILE);
    sym::check(got.is_ok() == want.is_some(), "c24-loads");
    let (Ok(m), Some(want)) = (got, want) else { sym::cover("refused"); return };
    let n = sym::vec("name", sym::choice(3, "name-size"));
    if std::str::from_utf8(&n).is_err() { return; }
    let r = m.authenticate(&text(n.clone()), "x");
    sym::check(r.is_err(), "c24-no-hash");
    sym::check(matches!(r, Err(AuthenticationError::UserNotFound)) == !want.iter().any(|e| e.0 == n), "c24-known");
    sym::cover("loaded");
}
pub fn c24_bytes() { bytes_upto(5) }
pub fn c24_bytes_deep() { bytes_upto(7) }
/// several users, one of them twice
pub fn c24_many() {
    let hs: Vec<String> = [&b"p0"[..], b"p1", b"p2", b"p3"].iter().map(|p| hash(p)).collect();
    let n = sym::range(1, 4, "users");
    let mut f = vec![];
    let mut us = vec![];
    for i in 0..n {
        let u = ascii(&format!("user{}", i), 1);
        sym::assume(u[0] != b':' && u[0] != b'\n' && u[0] != b'\r');
        f.extend(&u);
        f.push(b':');
        f.extend(hs[i].as_bytes());
        f.push(b'\n');
        us.push(u[0]);
    }
    sym::file_put(FILE, &f);
    let m = FileIdentityManager::new(FILE).ok().unwrap();
    let who = ascii("who", 1);
    let last = us.iter().rposition(|u| *u == who[0]);
    for i in 0..4 {
        let r = m.authenticate(&text(who.clone()), &format!("p{}", i));
        sym::check(r.is_ok() == (last == Some(i)), "c24-last-wins");
    }
    sym::cover(if last.is_some() { "known" } else { "unknown" });
}

// ---- settings
const CONF: &str = "symfs/r.toml";
const LISTENERS: &str = "RATELMQ_MQTT__LISTENERS_TCP";
const PASSWORDS: &str = "RATELMQ_AUTHENTICATION__PASSWORD_FILE";
/// text that needs no escaping between quotes in TOML
fn plain(tag: &str, n: usize) -> Vec<u8> {
    let v = ascii(tag, n);
    for c in &v { sym::assume(*c >= 32 && *c < 127 && *c != b'"' && *c != b'\\'); }
    v
}
fn value(tag: &str, n: usize) -> Vec<u8> {
    let v = ascii(tag, n);
    for c in &v { sym::assume(*c != 0); }
    v
}
fn trim(v: &[u8]) -> &[u8] {
    let ws = |c: &u8| (9..=13).contains(c) || *c == 32;
    let a = v.iter().position(|c| !ws(c)).unwrap_or(v.len());
    let b = v.iter().rposition(|c| !ws(c)).map_or(a, |p| p + 1);
    &v[a..b]
}
fn list(v: &[u8]) -> Vec<Vec<u8>> { v.split(|c| *c == b',').map(|p| trim(p).to_vec()).collect() }
fn upper_or_lower(n: &str) -> String { if sym::choice(2, "case") == 0 { n.to_string() } else { n.to_lowercase() } }
fn env(name: &str, v: &[u8]) { std::env::set_var(name, text(v.to_vec())); }
fn same_list(a: &[String], b: &[Vec<u8>]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(a, b)| sym::same(a.as_bytes(), b)) }

/// each setting in the file, the environment, both or neither
pub fn c22_sources() {
    let (l, p) = (sym::choice(4, "listeners-in"), sym::choice(4, "password-file-in"));
    let (lf, le, pf, pe) = (plain("listener", 2), value("listener-variable", 2), plain("password-file", 2), value("password-file-variable", [3, 0][sym::choice(2, "empty")]));
    let mut f = vec![];
    if sym::choice(2, "others") == 1 { f.extend(b"[logging]\nlevel = 3\n"); env("LISTENERS_TCP", b"no"); env("XRATELMQ_MQTT__LISTENERS_TCP", b"no"); env("PASSWORD_FILE", b"no"); }
    if l & 1 == 1 { f.extend(b"[mqtt]\nlisteners_tcp = [\""); f.extend(&lf); f.extend(b"\"]\n"); }
    if p & 1 == 1 { f.extend(b"[authentication]\npassword_file = \""); f.extend(&pf); f.extend(b"\"\n"); }
    sym::file_put(CONF, &f);
    if l & 2 == 2 { env(&upper_or_lower(LISTENERS), &le); }
    if p & 2 == 2 { env(&upper_or_lower(PASSWORDS), &pe); }
    let s = Settings::new(CONF);
    sym::check(s.is_ok() == (l > 0 && p > 0), "c22-required");
    let Ok(s) = s else { sym::cover("refused"); return };
    let wl = if l & 2 == 2 { list(&le) } else { vec![lf] };
    sym::check(same_list(&s.mqtt.listeners_tcp, &wl), "c22-listeners");
    sym::check(sym::same(s.authentication.password_file.as_bytes(), if p & 2 == 2 { &pe } else { &pf }), "c22-password-file");
    sym::cover("read");
}
/// a list in a variable
pub fn c22_list() {
    sym::file_put(CONF, b"[mqtt]\nlisteners_tcp = [\"a:1\", \"b:2\"]\n[authentication]\npassword_file = \"p\"\n");
    let mut v = vec![];
    for i in 0..sym::range(1, 3, "parts") {
        if i > 0 { v.push(b','); }
        v.extend(value("part", 2));
    }
    env(LISTENERS, &v);
    let s = Settings::new(CONF).ok().unwrap();
    sym::check(same_list(&s.mqtt.listeners_tcp, &list(&v)), "c22-listeners");
    sym::check(s.authentication.password_file == "p", "c22-password-file");
    if list(&v).len() > 3 { sym::cover("four"); }
}
/// lists of any length, settings in any order
pub fn c22_file() {
    let n = sym::choice(4, "listeners");
    let ls: Vec<Vec<u8>> = (0..n).map(|_| plain("listener", 2)).collect();
    let pf = plain("password-file", 3);
    let mut m = b"[mqtt]\nlisteners_tcp = [".to_vec();
    for (i, l) in ls.iter().enumerate() { if i > 0 { m.extend(b", "); } m.push(b'"'); m.extend(l); m.push(b'"'); }
    m.extend(b"]\n");
    let mut a = b"[authentication]\npassword_file = \"".to_vec();
    a.extend(&pf);
    a.extend(b"\"\n");
    let mut f = vec![];
    if sym::choice(2, "order") == 0 { f.extend(&m); f.extend(&a); } else { f.extend(&a); f.extend(&m); }
    sym::file_put(CONF, &f);
    let s = Settings::new(CONF).ok().unwrap();
    sym::check(same_list(&s.mqtt.listeners_tcp, &ls), "c22-listeners");
    sym::check(sym::same(s.authentication.password_file.as_bytes(), &pf), "c22-password-file");
    sym::cover("read");
}
/// files that are missing, broken or of the wrong type
pub fn c22_types() {
    const L: &str = "[mqtt]\nlisteners_tcp = [\"a:1\"]\n";
    const A: &str = "[authentication]\npassword_file = \"p\"\n";
    let bad: &[&str] = &["", L, A,
        "[mqtt]\nlisteners_tcp = \"a:1\"\n[authentication]\npassword_file = \"p\"\n",
        "[mqtt]\nlisteners_tcp = 1883\n[authentication]\npassword_file = \"p\"\n",
        "[mqtt]\nlisteners_tcp = [[\"a:1\"]]\n[authentication]\npassword_file = \"p\"\n",
        "[mqtt.listeners_tcp]\na = 1\n[authentication]\npassword_file = \"p\"\n",
        "[mqtt]\nlisteners_tcp = [\"a:1\"]\n[authentication]\npassword_file = [\"p\"]\n",
        "[mqtt]\nlisteners_tcp = [\"a:1\"]\n[authentication.password_file]\nx = 1\n",
        "[mqtt]\nlisteners = [\"a:1\"]\n[authentication]\npassword_file = \"p\"\n",
        "[mqtt]\nlisteners_tcp = [\"a:1\"\n[authentication]\npassword_file = \"p\"\n",
        "[mqtt]\nlisteners_tcp = [\"a:1\"]\n[authentication]\npassword_file = \"p\n",
        "mqtt = 1\nauthentication = 2\n"];
    let i = sym::choice(bad.len() + 1, "file");
    if i < bad.len() { sym::file_put(CONF, bad[i].as_bytes()); }
    sym::check(Settings::new(CONF).is_err(), "c22-refused");
    sym::cover("refused");
}
mod passwd {
    #![allow(dead_code, unused_imports)]
    pub static mut ARGS: Vec<String> = Vec::new();
    mod clap {
        pub use ::clap::*;
        pub struct App<'a>(::clap::App<'a>);
        /// everything is passed on, only the arguments come from ARGS
        macro_rules! pass { ($($f:ident($($t:ty)?);)*) => { $( pub fn $f(self $(, s: $t)?) -> Self { App(self.0.$f($( { let x: $t = s; x } )?)) } )* } }
        #[allow(static_mut_refs)]
        impl<'a> App<'a> {
            pub fn new<S: Into<String>>(s: S) -> App<'a> { App(::clap::App::new(s)) }
            pass! { version(&'a str); about(&'a str); author(&'a str); long_about(&'a str); long_version(&'a str); after_help(&'a str); before_help(&'a str); bin_name(String);
                    setting(AppSettings); global_setting(AppSettings); group(ArgGroup<'a>); }
            pub fn arg<A: Into<Arg<'a>>>(self, a: A) -> Self { App(self.0.arg(a)) }
            pub fn args<I: IntoIterator<Item = T>, T: Into<Arg<'a>>>(self, a: I) -> Self { App(self.0.args(a)) }
            pub fn get_matches(self) -> ArgMatches { self.0.get_matches_from(unsafe { super::ARGS.clone() }) }
            pub fn try_get_matches(self) -> std::result::Result<ArgMatches, Error> { self.0.try_get_matches_from(unsafe { super::ARGS.clone() }) }
            pub fn get_matches_from<I, T>(self, a: I) -> ArgMatches where I: IntoIterator<Item = T>, T: Into<std::ffi::OsString> + Clone { self.0.get_matches_from(a) }
        }
        pub type Command<'a> = App<'a>;
    }
    /// main may run more than once
    mod env_logger {
        pub use ::env_logger::*;
        pub fn init() {}
        pub fn try_init() -> Result<(), ::log::SetLoggerError> { Ok(()) }
    }
    include!("/repo/ratelmq-passwd/src/main.rs");
    pub fn run(args: &[&str]) {
        unsafe { ARGS = args.iter().map(|s| s.to_string()).collect(); }
        let _ = main();
    }
}

/// the lines of a file with their line breaks
fn raw_lines(b: &[u8]) -> Vec<&[u8]> { b.split_inclusive(|c| *c == b'\n').collect() }
fn of_user(line: &[u8], user: &[u8]) -> bool { line.len() > user.len() && line[..user.len()] == *user && line[user.len()] == b':' }
/// what the tool must have done to a file
fn judge(before: &[u8], user: &[u8], new: Option<&[u8]>) {
    let after = sym::file_get(FILE).unwrap();
    let mut rest: Vec<Vec<u8>> = raw_lines(before).into_iter().filter(|l| !of_user(l, user)).map(|l| l.to_vec()).collect();
    let had = rest.len() < raw_lines(before).len();
    if new.is_some() && !had {
        // the new entry follows an unterminated line
        if let Some(l) = rest.last_mut() { if l.last() != Some(&b'\n') { l.push(b'\n'); } }
    }
    let kept: Vec<&[u8]> = raw_lines(&after).into_iter().filter(|l| !of_user(l, user)).collect();
    sym::check(kept.len() == rest.len() && kept.iter().zip(&rest).all(|(a, b)| sym::same(a, b)), "c23-others-unchanged");
    let mine = raw_lines(&after).len() - kept.len();
    // the user's new hash has a random salt
    sym::trace(&kept.concat());
    sym::trace(&[mine as u8]);
    let Some(pw) = new else {
        sym::check(mine == 0, "c23-deleted");
        sym::cover(if had { "deleted" } else { "nothing-to-delete" });
        return;
    };
    sym::check(mine >= 1, "c23-entry");
    let loads = entries(&after).is_some();
    match FileIdentityManager::new(FILE) {
        Err(_) => sym::check(!loads, "c23-loads"),
        Ok(m) => {
            sym::check(m.authenticate(&text(user.to_vec()), &text(pw.to_vec())).is_ok(), "c23-new-password");
            let mut other = pw.to_vec();
            other.push(b'x');
            sym::check(m.authenticate(&text(user.to_vec()), &text(other)).is_err(), "c23-no-other-password");
            if had && pw != b"old" { sym::check(m.authenticate(&text(user.to_vec()), "old").is_err(), "c23-old-password"); }
            sym::cover(if had { "changed" } else { "added" });
        }
    }
    // every entry of the user is the new one
    if mine > 1 { for l in raw_lines(&after) {
        if !of_user(l, user) { continue; }
        let mut h = &l[user.len() + 1..];
        if h.last() == Some(&b'\n') { h = &h[..h.len() - 1]; }
        sym::file_put("symfs/one", &[&b"u:"[..], h].concat());
        let m = FileIdentityManager::new("symfs/one").ok().unwrap();
        sym::check(m.authenticate("u", &text(pw.to_vec())).is_ok(), "c23-every-entry");
    } }
}
fn set_or_delete(f: &[u8], user: &[u8]) {
    sym::file_put(FILE, f);
    let u = text(user.to_vec());
    if sym::choice(2, "delete") == 1 {
        passwd::run(&["ratelmq-passwd", "-f", FILE, "-u", &u, "-d"]);
        judge(f, user, None);
    } else {
        passwd::run(&["ratelmq-passwd", "-f", FILE, "-u", &u, "-p", "new"]);
        judge(f, user, Some(b"new"));
    }
}
const USERS: &[&str] = &["a", "ab", "a.", ".", "a$", "$1", "(", "a+", "*", "^", "[a]", "\\d", "\u{e9}", "a b", "a{2}", "a|b", "?", "#"];
/// whole entries with arbitrary names around an entry of the user
fn lines_with(users: &[&str], before: usize, after: usize, ends: &[&str]) {
    let user = users[sym::choice(users.len(), "user")].as_bytes();
    let mut f = ascii("before", before);
    let old = hash(b"old");
    f.extend([&b":"[..], old.as_bytes(), b"\n"].concat());
    let there = sym::choice(3, "entry");
    if there > 0 {
        f.extend([user, b":", old.as_bytes(), if there == 1 { b"\n" } else { b"\r\n" }].concat());
    }
    f.extend(ascii("after", after));
    f.extend(ends[sym::choice(ends.len(), "end")].as_bytes());
    set_or_delete(&f, user);
}
pub fn c23_lines() { lines_with(&USERS[1..3], 2, 0, &["", "b:x"]) }
pub fn c23_metacharacters() { lines_with(USERS, 1, 0, &["xy"]) }
pub fn c23_end() { lines_with(&USERS[2..3], 0, 1, &["", "\n", ":x", ":x\n"]) }
pub fn c23_lines_deep() { lines_with(USERS, 1, 1, &["", ":x\n"]) }
/// any file
fn bytes_file(n: usize) {
    let user = [&b"a"[..], b"a."][sym::choice(2, "user")];
    let f = ascii("file", sym::choice(n, "size"));
    set_or_delete(&f, user);
}
pub fn c23_bytes() { bytes_file(6) }
pub fn c23_bytes_deep() { bytes_file(8) }
/// any name, in a file with similar ones
fn user_of(n: usize) {
    let user = ascii("user", n);
    for c in &user { sym::assume(*c != 0 && *c != b':' && *c != b'\n'); }
    sym::assume(user[0] != b'-');
    let old = hash(b"old");
    let mut f = vec![];
    let e = |n: &[u8]| [n, b":", old.as_bytes(), b"\n"].concat();
    if sym::choice(2, "entry") == 1 { f.extend(e(&user)); }
    f.extend(e(b"a"));
    f.extend(e(&[b"x", &user[..]].concat()));
    f.extend(e(&[&user[..], b"x"].concat()));
    f.extend(e(b"bc"));
    set_or_delete(&f, &user);
}
pub fn c23_user() { user_of(1) }
/// several entries of the user
pub fn c23_twice() {
    let user = [&b"a."[..], b"$a"][sym::choice(2, "user")];
    let (h1, h2) = (hash(b"old"), hash(b"two"));
    let mut f = vec![];
    f.extend([user, b":", h1.as_bytes(), b"\n"].concat());
    f.extend(ascii("between", sym::choice(2, "size")));
    if sym::choice(2, "own-line") == 1 { f.push(b'\n'); }
    f.extend([user, b":", h2.as_bytes()].concat());
    if sym::choice(2, "terminated") == 1 { f.push(b'\n'); }
    set_or_delete(&f, user);
}
/// any password, given twice in a row
pub fn c23_password() {
    let again = sym::choice(2, "again") == 1;
    let pw = if again { b"pw".to_vec() } else { ascii("password", sym::range(1, 3, "length")) };
    for c in &pw { sym::assume(*c != 0); }
    sym::assume(pw[0] != b'-');
    let f = [&b"b:"[..], hash(b"b").as_bytes(), b"\n"].concat();
    sym::file_put(FILE, &f);
    let p = text(pw.clone());
    passwd::run(&["ratelmq-passwd", "-f", FILE, "-u", "a", "-p", &p]);
    judge(&f, b"a", Some(&pw));
    if again {
        let g = sym::file_get(FILE).unwrap();
        passwd::run(&["ratelmq-passwd", "-f", FILE, "-u", "a", "-p", "old"]);
        judge(&g, b"a", Some(b"old"));
        let g = sym::file_get(FILE).unwrap();
        passwd::run(&["ratelmq-passwd", "-f", FILE, "-u", "a", "-d"]);
        judge(&g, b"a", None);
        sym::check(sym::file_get(FILE).unwrap() == f, "c23-back-to-start");
    }
}
/// names the format cannot hold, and requests that make no sense
pub fn c23_refused() {
    let f = [&b"a:"[..], hash(b"a").as_bytes(), b"\n"].concat();
    sym::file_put(FILE, &f);
    sym::on_exit(|| {
        let f = [&b"a:"[..], hash(b"a").as_bytes(), b"\n"].concat();
        sym::check(sym::file_get(FILE).unwrap() == f, "c23-refused-unchanged");
        sym::cover("refused");
    });
    let mut u = ascii("user", 2);
    sym::assume(u[0] != 0 && u[1] != 0 && u[0] != b'-');
    let bad = u.iter().any(|c| *c == b':' || *c == b'\n');
    match sym::choice(4, "request") {
        0 => { if !bad { return } u.push(b'c'); let u = text(u); passwd::run(&["ratelmq-passwd", "-f", FILE, "-u", &u, "-p", "new"]) }
        1 => { if !bad { return } let u = text(u); passwd::run(&["ratelmq-passwd", "-f", FILE, "-u", &u, "-d"]) }
        2 => passwd::run(&["ratelmq-passwd", "-f", FILE, "-u", "a"]),
        _ => passwd::run(&["ratelmq-passwd", "-f", FILE, "-u", "a", "-d", "-p", "new"]),
    }
    sym::check(false, "c23-refused");
}
