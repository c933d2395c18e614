//! Harnesses executed by /verif/engine and, with a replay file, natively.
#![allow(dead_code)]
pub mod sym;

#[macro_export]
macro_rules! harnesses {
    ($($name:ident => $f:ident;)*) => {
        $( #[no_mangle] #[inline(never)] pub extern "C" fn $name() { $f() } )*
        pub const TABLE: &[(&str, extern "C" fn())] = &[ $( (stringify!($name), $name as extern "C" fn()) ),* ];
    };
}

#[cfg(feature = "remlen")]
mod remlen;
#[cfg(feature = "codec")]
mod codec;
#[cfg(any(feature = "codec", feature = "remlen"))]
mod streams;
#[cfg(feature = "broker")]
mod broker;
#[cfg(feature = "broker")]
mod net;
#[cfg(feature = "broker")]
mod sched;
#[cfg(feature = "messaging")]
mod messaging;
#[cfg(feature = "tools")]
mod tools;
mod wire;
mod topics;

fn table() -> Vec<(&'static str, extern "C" fn())> {
    #[allow(unused_mut)]
    let mut t: Vec<(&'static str, extern "C" fn())> = Vec::new();
    #[cfg(feature = "remlen")]
    t.extend_from_slice(remlen::TABLE);
    #[cfg(feature = "codec")]
    t.extend_from_slice(codec::TABLE);
    #[cfg(feature = "broker")]
    { t.extend_from_slice(broker::TABLE); t.extend_from_slice(sched::TABLE); }
    #[cfg(feature = "messaging")]
    t.extend_from_slice(messaging::TABLE);
    #[cfg(feature = "tools")]
    t.extend_from_slice(tools::TABLE);
    t
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 2 && a[1] == "--list" {
        for (n, _) in table() { println!("{}", n); }
        return;
    }
    let name = &a[1];
    let text = std::fs::read_to_string(&a[2]).expect("replay file");
    let mut inputs = Vec::new();
    for l in text.lines() {
        if l.starts_with('#') || l.is_empty() { continue; }
        let mut it = l.split(' ');
        let t = it.next().unwrap().to_string();
        inputs.push((t, it.filter(|x| !x.is_empty()).map(|x| x.parse::<u64>().unwrap()).collect()));
    }
    extern "C" { fn atexit(f: unsafe extern "C" fn()) -> i32; }
    unsafe { atexit(sym::sym_at_exit); }
    unsafe { sym::REPLAY = sym::Replay { inputs, pos: 0, trace: vec![], active: true }; }
    std::panic::set_hook(Box::new(|i| {
        if sym::panicked() { unsafe { sym::sym_at_exit() } }
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        sym::finish(11, &format!("panic at {}", l))
    }));
    let f = table().into_iter().find(|(n, _)| n == name).expect("harness").1;
    f();
    sym::finish(0, "ok")
}
