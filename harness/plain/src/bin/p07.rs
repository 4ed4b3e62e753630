//! P07: the checksum register against a bit-by-bit CRC.
use mc::*;
use ringhopper::primitives::crc32::CRC32;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;

/// One byte through the shift register, bit by bit.
fn bitwise(mut r: u32, b: u8) -> u32 { r ^= b as u32; for _ in 0..8 { r = if r & 1 != 0 { (r >> 1) ^ 0xEDB88320 } else { r >> 1 } } r }
fn model(init: u32, data: &[u8]) -> u32 { data.iter().fold(init, |r, b| bitwise(r, *b)) }
fn real(init: u32, pieces: &[&[u8]]) -> u32 { let mut c = CRC32::init(init); for p in pieces { c.update(p) } c.crc() }
fn test(init: u32, data: &[u8], pieces: &[&[u8]], cx: &mut Cx) {
    cx.step();
    match guard(|| real(init, pieces)) {
        Ok(r) => { let w = model(init, data); cx.check(r == w, "crc", || format!("{} bytes {} from {init:08x} in pieces {:?}: {r:08x} instead of {w:08x}", data.len(), clip(&format!("{data:02x?}")), pieces.iter().map(|p| p.len()).collect::<Vec<_>>())); }
        Err(p) => cx.fail("panic", p),
    }
}
fn stuff(kind: usize, n: usize) -> Vec<u8> {
    (0..n).map(|i| match kind { 0 => 0, 1 => 0xFF, 2 => i as u8, 3 => (i as u32).wrapping_mul(2654435761).to_be_bytes()[0], 4 => if i + 1 == n { 0x80 } else { 0 }, _ => if i == 0 { 1 } else { 0 } }).collect()
}

fn main() {
    let mut ck = Check::new("P07");
    // the register: every single-bit and boundary state x every byte; every byte-aligned state
    ck.family("register", 256, |i| format!("byte {i:02x}"), |i, cx| {
        let mut rs: Vec<u32> = (0..32).flat_map(|b| [1u32 << b, !(1u32 << b)]).chain([0, u32::MAX, 0xEDB88320, 0x12345678]).collect();
        for s in [0, 8, 16, 24] { for v in 0..256u32 { rs.push(v << s); rs.push(!(v << s)) } }
        for r in rs { test(r, &[i as u8], &[&[i as u8]], cx); cx.state(&(r, i)); cx.validated() }
        cx.check(CRC32::new().crc() == u32::MAX, "initial", || format!("{:08x}", CRC32::new().crc()));
    });
    // all data up to 2 (3) bytes
    ck.family("short", 257, |i| format!("{i}"), |i, cx| {
        if i == 256 { test(u32::MAX, &[], &[], cx); test(u32::MAX, &[], &[&[], &[]], cx); return }
        for j in 0..256usize { let d = [i as u8, j as u8]; test(u32::MAX, &d, &[&d], cx); test(u32::MAX, &d, &[&d[..1], &d[1..]], cx); cx.state(&d); cx.validated() }
    });
    if !ck.quick() { ck.family("three", 65536, |i| format!("{i:04x}"), |i, cx| { for j in 0..256usize { let d = [(i >> 8) as u8, i as u8, j as u8]; test(u32::MAX, &d, &[&d], cx); } cx.validated_n(256); cx.state(&i) }) }
    // every composition of n bytes
    let n = ck.pick(14usize, 20);
    ck.family("compositions", (1 << (n - 1)) / 64, |i| format!("{i:x}"), |i, cx| for k in 0..64 {
        let mask = i * 64 + k;
        for kind in [2, 3] {
            let d = stuff(kind, n);
            let mut pieces: Vec<&[u8]> = vec![]; let mut from = 0;
            for c in 1..n { if mask >> (c - 1) & 1 != 0 { pieces.push(&d[from..c]); from = c } }
            pieces.push(&d[from..]);
            test(u32::MAX, &d, &pieces, cx);
        }
        cx.state(&mask); cx.validated();
    });
    // lengths, alignments and three-way splits
    let top = ck.pick(160usize, 600);
    ck.family("lengths", top, |i| format!("{i} bytes"), |n, cx| for kind in 0..6 {
        let d = stuff(kind, n + 16);
        for o in 0..16 { test(u32::MAX, &d[o..o + n], &[&d[o..o + n]], cx); cx.state(&(kind, o)) }
        for c in 0..=n { test(u32::MAX, &d[..n], &[&d[..c], &[], &d[c..n]], cx); }
        cx.validated_n(16 + n as u64 + 1);
    });
    ck.items("long", &[255usize, 256, 257, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 5552, 5553], |n| format!("{n}"), |n, cx| for kind in 0..6 {
        let d = stuff(kind, *n);
        test(u32::MAX, &d, &[&d], cx); test(u32::MAX, &d, &[&d[..1], &d[1..]], cx); test(u32::MAX, &d, &[&d[..n - 1], &d[n - 1..]], cx); test(u32::MAX, &d, &[&d[..n / 2], &d[n / 2..]], cx);
        cx.state(&(n, kind)); cx.validated();
    });
    // tag files: the stored checksum is this function of everything after the header
    let most = ck.pick(600usize, 3000);
    ck.family("tag-files", most, |i| format!("{i} bytes"), |n, cx| for kind in 0..6 {
        let text: String = stuff(kind, n).iter().map(|b| (b'!' + b % 90) as char).collect();
        let mut t = ringhopper::definitions::StringList::default();
        let mut s = ringhopper::definitions::StringListString::default();
        s.string = UTF8Data(&text);
        t.strings.items.push(s);
        cx.step(); cx.state(&(n, kind));
        let f = match TagFile::to_tag_file(&t) { Ok(f) => f, Err(e) => return cx.fail("write", format!("{e}")) };
        let stored = u32::from_be_bytes(f[0x28..0x2C].try_into().unwrap());
        let w = model(u32::MAX, &f[0x40..]);
        cx.check(stored == w, "stored", || format!("{n} bytes: {stored:08x} instead of {w:08x}"));
        // any other checksum but the absent one is refused when strict
        for x in [w ^ 1, !w, w.swap_bytes(), w ^ 0x80000000, 0] {
            let mut g = f.clone(); g[0x28..0x2C].copy_from_slice(&x.to_be_bytes());
            let ok = TagFile::read_tag_from_file_buffer::<ringhopper::definitions::StringList>(&g, ParseStrictness::Strict).is_ok();
            cx.check(ok == (x == w || x == u32::MAX), "strict", || format!("{x:08x} for {w:08x}: {ok}"));
        }
        cx.validated();
    });
    ck.finish();
}
#[allow(non_snake_case)]
fn UTF8Data(s: &str) -> Data { Data { bytes: s.as_bytes().to_vec() } }
