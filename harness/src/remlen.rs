//! C05: the remaining-length field.
use crate::streams::*;
use crate::sym;
use ratelmq::mqtt::transport::packet_decoder::decode_remaining_length;
use ratelmq::mqtt::transport::packet_encoder::encode_remaining_length;
use tokio::sym as world;

crate::harnesses! {
    h_c05_decode => decode;
    h_c05_roundtrip => roundtrip;
}

/// any 5 bytes are presented as a remaining length: the decoder's answer is the one of the standard (section 2.2.3)
pub fn decode() {
    let b = sym::vec("len", 5);
    let (c, mut r) = reader(4096);
    world::feed(c, &b);
    world::close(c, false);
    sym::limit(2_000_000);
    let got = world::block_on(decode_remaining_length(&mut r));
    sym::check(got.is_some(), "c05-decode-answers");
    let mut value = 0u64;
    let mut used = 0;
    for i in 0..4 {
        value |= ((b[i] & 127) as u64) << (7 * i);
        used = i + 1;
        if b[i] < 128 { break; }
    }
    let valid = b[used - 1] < 128;
    match got.unwrap() {
        Ok(v) => {
            sym::cover("decoded");
            sym::check(valid, "c05-overlong-length-accepted");
            sym::check(v == value, "c05-decoded-value");
            sym::trace_num(v);
            // exactly the bytes of the field were consumed
            let next = world::block_on(r.get_u8());
            sym::check(matches!(next, Some(Ok(x)) if x == b[used]), "c05-consumed-bytes");
            if used == 4 { sym::cover("four-bytes"); }
        }
        Err(_) => {
            sym::cover("refused");
            sym::check(!valid, "c05-valid-length-refused");
        }
    }
}

/// encoding any length the protocol allows gives the minimal form, which decodes to the same length
pub fn roundtrip() {
    let n = sym::u32v("n") as u64;
    sym::assume(n <= 268_435_455);
    let (c, mut w) = writer(4096);
    let r = world::block_on(async {
        encode_remaining_length(n, &mut w).await?;
        w.finish_packet().await
    });
    sym::check(matches!(r, Some(Ok(()))), "c05-encode-answers");
    let out = world::output(c);
    sym::trace(&out);
    let minimal = if n < 128 { 1 } else if n < 16384 { 2 } else if n < 2097152 { 3 } else { 4 };
    sym::check(out.len() == minimal, "c05-encoding-minimal");
    let mut v = 0u64;
    for (i, x) in out.iter().enumerate() {
        v |= ((x & 127) as u64) << (7 * i);
        sym::check((*x >= 128) == (i + 1 < out.len()), "c05-continuation-bits");
    }
    sym::check(v == n, "c05-encoded-value");
    if minimal == 4 { sym::cover("four-bytes"); }
    let (c2, mut r2) = reader(4096);
    world::feed(c2, &out);
    let back = world::block_on(decode_remaining_length(&mut r2));
    sym::check(matches!(back, Some(Ok(x)) if x == n), "c05-roundtrip");
}
