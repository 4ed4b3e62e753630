//! P19: loose images are laid out on a colour plate from which exactly they can be cut again; images are read exactly, and damaged ones refused.
//! needs: invader-mc
use mc::fsmap::{files, snapshot};
use mc::inv::invader;
use mc::*;
use ringhopper::data::bitmap::plate::*;
use ringhopper::data::bitmap::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

type Px = [u8; 4]; // red, green, blue, alpha
#[derive(Clone, PartialEq, Debug)]
struct Pic { w: usize, h: usize, px: Vec<Px> }
type Reader = fn(&[u8]) -> ringhopper::error::RinghopperResult<Image>;
const BLUE: [u8; 3] = [0, 0, 255];
const MAGENTA: [u8; 3] = [255, 0, 255];

fn pic(i: &Image) -> Pic { Pic { w: i.width, h: i.height, px: i.data.iter().map(|c| { let c = c.color; [(c >> 16) as u8, (c >> 8) as u8, c as u8, (c >> 24) as u8] }).collect() } }

// ---------------------------------------------------------------- files, by the book
fn crc(d: &[u8]) -> u32 { util::crc32_raw(u32::MAX, d) ^ u32::MAX }
fn zlib(data: &[u8]) -> Vec<u8> {
    let mut out = vec![0x78, 0x01];
    let n = data.chunks(60_000).count().max(1);
    for i in 0..n { let c = data.chunks(60_000).nth(i).unwrap_or(&[]); out.push((i + 1 == n) as u8); out.extend((c.len() as u16).to_le_bytes()); out.extend((!(c.len() as u16)).to_le_bytes()); out.extend(c); }
    let (mut a, mut b) = (1u32, 0u32);
    for x in data { a = (a + *x as u32) % 65521; b = (b + a) % 65521; }
    out.extend(((b << 16) | a).to_be_bytes());
    out
}
fn chunk(out: &mut Vec<u8>, name: &[u8; 4], data: &[u8]) { out.extend((data.len() as u32).to_be_bytes()); let body = [&name[..], data].concat(); out.extend(&body); out.extend(crc(&body).to_be_bytes()); }
/// Channels per pixel by PNG colour type.
fn channels(ty: u8) -> usize { [1, 0, 3, 1, 2, 0, 4][ty as usize] }
fn samples(p: &Pic, ch: usize, depth: usize) -> Vec<Vec<u8>> {
    (0..p.h).map(|y| {
        let mut row = vec![];
        for x in 0..p.w { let c = p.px[y * p.w + x]; let s: &[u8] = match ch { 1 => &[c[0]], 2 => &[c[0], c[3]], 3 => &[c[0], c[1], c[2]], _ => &c[..4] }; row.extend_from_slice(s) }
        match depth { 16 => row.iter().flat_map(|b| [*b, *b]).collect(), 8 => row, d => row.chunks(8 / d).map(|c| c.iter().enumerate().fold(0, |v, (i, s)| v | (s >> (8 - d)) << (8 - d - i * d))).collect() }
    }).collect()
}
/// A PNG with the given filter on every row (5: each row another).
fn png(p: &Pic, ty: u8, depth: u8, filter: u8, declared: Option<(u32, u32)>) -> Vec<u8> {
    let ch = channels(ty);
    let bpp = (ch * depth as usize / 8).max(1);
    let rows = samples(p, ch, depth as usize);
    let mut raw = vec![];
    for (y, row) in rows.iter().enumerate() {
        let f = if filter == 5 { (y % 5) as u8 } else { filter };
        raw.push(f);
        for (i, v) in row.iter().enumerate() {
            let a = if i >= bpp { row[i - bpp] } else { 0 } as i32;
            let b = if y > 0 { rows[y - 1][i] } else { 0 } as i32;
            let c = if y > 0 && i >= bpp { rows[y - 1][i - bpp] } else { 0 } as i32;
            let pr = match f { 0 => 0, 1 => a, 2 => b, 3 => (a + b) / 2, _ => { let q = a + b - c; let (x, y, z) = ((q - a).abs(), (q - b).abs(), (q - c).abs()); if x <= y && x <= z { a } else if y <= z { b } else { c } } };
            raw.push(v.wrapping_sub(pr as u8));
        }
    }
    let mut out = b"\x89PNG\r\n\x1a\n".to_vec();
    let (w, h) = declared.unwrap_or((p.w as u32, p.h as u32));
    chunk(&mut out, b"IHDR", &[&w.to_be_bytes()[..], &h.to_be_bytes(), &[depth, ty, 0, 0, 0]].concat());
    if ty == 3 { chunk(&mut out, b"PLTE", &[1, 2, 3, 4, 5, 6]); }
    chunk(&mut out, b"IDAT", &zlib(&raw));
    chunk(&mut out, b"IEND", &[]);
    out
}
#[derive(Clone, Copy, Debug)]
struct Tif { big: bool, ch: usize, depth: usize, rows: usize, planar: bool, white_is_zero: bool, declared: Option<(u32, u32)> }
/// A TIFF without compression.
fn tif(p: &Pic, t: Tif) -> Vec<u8> {
    let u16b = |v: u16| if t.big { v.to_be_bytes() } else { v.to_le_bytes() };
    let u32b = |v: u32| if t.big { v.to_be_bytes() } else { v.to_le_bytes() };
    let rows = samples(p, t.ch, t.depth);
    let mut strips: Vec<Vec<u8>> = vec![];
    let bytes = t.depth.div_ceil(8);
    for plane in 0..if t.planar { t.ch } else { 1 } { for r in rows.chunks(t.rows) {
        let r: Vec<u8> = r.concat();
        strips.push(if t.planar { r.chunks(bytes * t.ch).flat_map(|c| c[plane * bytes..(plane + 1) * bytes].to_vec()).collect() } else { r });
    } }
    let mut out = if t.big { b"MM\0*".to_vec() } else { b"II*\0".to_vec() };
    out.extend([0; 4]);
    let mut at = vec![];
    for s in &strips { at.push(out.len() as u32); out.extend(s); if out.len() % 2 == 1 { out.push(0) } }
    let (w, h) = t.declared.unwrap_or((p.w as u32, p.h as u32));
    let mut fields: Vec<(u16, u16, Vec<u32>)> = vec![(256, 4, vec![w]), (257, 4, vec![h]), (258, 3, vec![t.depth as u32; t.ch]), (259, 3, vec![1]), (262, 3, vec![if t.ch > 2 { 2 } else { !t.white_is_zero as u32 }]), (273, 4, at), (277, 3, vec![t.ch as u32]), (278, 4, vec![t.rows as u32]), (279, 4, strips.iter().map(|s| s.len() as u32).collect())];
    if t.planar { fields.push((284, 3, vec![2])) }
    if t.ch % 2 == 0 { fields.push((338, 3, vec![2])) }
    let put = |out: &mut Vec<u8>, ty: u16, v: &[u32]| for x in v { if ty == 3 { out.extend(u16b(*x as u16)) } else { out.extend(u32b(*x)) } };
    let mut entries = vec![];
    for (tag, ty, v) in &fields {
        let mut e = [&u16b(*tag)[..], &u16b(*ty), &u32b(v.len() as u32)].concat();
        let mut value = vec![];
        put(&mut value, *ty, v);
        if value.len() > 4 { let o = out.len() as u32; out.extend(&value); if out.len() % 2 == 1 { out.push(0) } value = u32b(o).to_vec(); }
        value.resize(4, 0);
        e.extend(value);
        entries.push(e);
    }
    let ifd = out.len() as u32;
    out[4..8].copy_from_slice(&u32b(ifd));
    out.extend(u16b(fields.len() as u16));
    for e in entries { out.extend(e) }
    out.extend([0; 4]);
    out
}
/// A lossless JPEG XL: one group, no transforms, no prediction, each sample a nine-bit code.
fn jxl(p: &Pic, ch: usize) -> Vec<u8> {
    struct Bits { out: Vec<u8>, n: usize }
    impl Bits {
        fn put(&mut self, v: u64, n: usize) { for i in 0..n { if self.n % 8 == 0 { self.out.push(0) } *self.out.last_mut().unwrap() |= ((v >> i & 1) as u8) << (self.n % 8); self.n += 1; } }
        fn pad(&mut self) { self.n = self.out.len() * 8; }
        fn side(&mut self, v: usize) { self.put(1, 2); self.put(v as u64 - 1, 13); }
    }
    let mut b = Bits { out: vec![0xFF, 0x0A], n: 16 };
    b.put(0, 1); b.side(p.h); b.put(0, 3); b.side(p.w); // size
    b.put(0, 1); b.put(0, 1); b.put(0, 1); b.put(0, 2); b.put(1, 1); // metadata: eight bits of integers, small buffers
    if ch % 2 == 0 { b.put(1, 2); b.put(1, 1); } else { b.put(0, 2); } // alpha
    b.put(0, 1); // not XYB
    if ch > 2 { b.put(1, 1) } else { b.put(0, 1); b.put(0, 1); b.put(1, 2); b.put(1, 2); b.put(0, 1); b.put(2, 2); b.put(11, 4); b.put(1, 2); } // sRGB, or grey with its white point and transfer function
    b.put(0, 2); b.put(1, 1); // no extensions, usual transform
    b.pad();
    b.put(0, 1); b.put(0, 2); b.put(1, 1); b.put(0, 2); b.put(0, 1); b.put(0, 2); if ch % 2 == 0 { b.put(0, 2) } b.put(1, 2); b.put(0, 2); b.put(0, 1); // a modular frame
    b.put(0, 2); if ch % 2 == 0 { b.put(0, 2) } // blending
    b.put(1, 1); b.put(0, 2); // the last frame, without a name
    b.put(0, 1); b.put(0, 1); b.put(0, 2); b.put(0, 2); b.put(0, 2); // no filters, no extensions
    let mut d = Bits { out: vec![], n: 0 };
    d.put(1, 1); d.put(1, 1); // usual quantisation, a tree:
    d.put(0, 1); d.put(1, 1); d.put(0, 2); d.put(1, 1); d.put(0, 4); d.put(0, 1); // of one cluster with one symbol,
    d.put(0, 1); d.put(1, 1); d.put(9, 4); d.put(0, 4); d.put(0, 4); d.put(1, 1); d.put(8, 4); d.put(255, 8); // samples of 512 symbols
    d.put(0, 2); for s in [1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15] { d.put((s == 9) as u64, 2) } // all nine bits long
    d.put(1, 1); d.put(1, 1); d.put(0, 2); // this tree, no transforms
    for c in 0..ch { for px in &p.px { let v = 2 * match (ch, c) { (1, _) | (2, 0) => px[0], (2, _) => px[3], (_, c) => px[c] } as u64; d.put(v.reverse_bits() >> 55, 9) } }
    b.put(0, 1); b.pad();
    let n = d.out.len() as u64;
    if n < 1024 { b.put(0, 2); b.put(n, 10) } else { b.put(1, 2); b.put(n - 1024, 14) }
    b.pad();
    b.out.extend(d.out);
    b.out
}
fn flat(p: &Pic, ch: usize) -> Pic { Pic { w: p.w, h: p.h, px: p.px.iter().map(|c| match ch { 1 => [c[0], c[0], c[0], 255], 2 => [c[0], c[0], c[0], c[3]], 3 => [c[0], c[1], c[2], 255], _ => *c }).collect() } }
fn save(dir: &Path, name: &str, p: &Pic) { std::fs::write(dir.join(name), png(p, 6, 8, 0, None)).unwrap() }
fn rgb(c: &Px) -> [u8; 3] { [c[0], c[1], c[2]] }

// ---------------------------------------------------------------- the plate
/// Cut a plate by the key in its first row.
fn judge(cx: &mut Cx, plate: &Pic, seqs: &[Vec<Pic>], padding: Option<[u8; 3]>) {
    let used: BTreeSet<[u8; 3]> = seqs.iter().flatten().flat_map(|p| p.px.iter().map(rgb)).collect();
    let (bg, div) = (rgb(&plate.px[0]), rgb(&plate.px[1]));
    if !cx.check(plate.w >= 4 && plate.px.len() == plate.w * plate.h, "size", || format!("{}x{} with {} pixels", plate.w, plate.h, plate.px.len())) { return }
    cx.check(bg != div && Some(bg) != padding && Some(div) != padding, "keys differ", || format!("{bg:?} {div:?} {padding:?}"));
    cx.check(!used.contains(&bg) && !used.contains(&div), "keys are no image's", || format!("{bg:?} {div:?} in {used:?}"));
    if !used.contains(&BLUE) && padding != Some(BLUE) { cx.eq("usual background", bg, BLUE); }
    if !used.contains(&MAGENTA) && padding != Some(MAGENTA) { cx.eq("usual divider", div, MAGENTA); }
    // the first row: background, divider, padding, background
    let b = [bg[0], bg[1], bg[2], 255];
    let d = [div[0], div[1], div[2], 255];
    let mut want = vec![b; plate.w];
    want[1] = d;
    if let Some(p) = padding { want[2] = [p[0], p[1], p[2], 255] }
    cx.check(plate.px[..plate.w] == want[..], "first row", || format!("{:?}", &plate.px[..plate.w.min(8)]));
    // sequences: everything between full rows of the divider
    let row = |y: usize| &plate.px[y * plate.w..(y + 1) * plate.w];
    let dividers: Vec<usize> = (1..plate.h).filter(|y| row(*y).iter().all(|p| *p == d)).collect();
    if !cx.check(dividers.len() == seqs.len() && dividers.first() == Some(&1), "sequences", || format!("dividers {dividers:?} for {} sequences", seqs.len())) { return }
    let mut ends = dividers.clone(); ends.push(plate.h);
    for (s, seq) in seqs.iter().enumerate() {
        let (top, bottom) = (ends[s] + 1, ends[s + 1]);
        // every pixel which is not background belongs to an image; images are apart from each other and from the edges
        let taken = |x: usize, y: usize| rgb(&plate.px[y * plate.w + x]) != bg;
        let mut x = 0;
        let mut found = vec![];
        while x < plate.w {
            if !(top..bottom).any(|y| taken(x, y)) { x += 1; continue }
            let from = x;
            while x < plate.w && (top..bottom).any(|y| taken(x, y)) { x += 1 }
            let ys: Vec<usize> = (top..bottom).filter(|y| (from..x).any(|x| taken(x, *y))).collect();
            let (y0, y1) = (ys[0], *ys.last().unwrap() + 1);
            cx.check(from > 0 && x < plate.w && y0 > top && y1 < bottom, "apart", || format!("image at {from},{y0}..{x},{y1} in {top}..{bottom}"));
            found.push(Pic { w: x - from, h: y1 - y0, px: (y0..y1).flat_map(|y| (from..x).map(move |x| (x, y))).map(|(x, y)| plate.px[y * plate.w + x]).collect() });
        }
        if found != *seq { cx.fail("images", format!("sequence {s}: {} instead of {}", clip(&format!("{found:?}")), clip(&format!("{seq:?}")))) }
    }
}
fn one(cx: &mut Cx, tag: &str, seqs: &[Vec<Pic>], padding: Option<[u8; 3]>) {
    let dir = case_dir(tag);
    for (s, seq) in seqs.iter().enumerate() { for (i, p) in seq.iter().enumerate() { save(&dir, &format!("s{s}_{i}.png"), p) } }
    if let Some(p) = padding { std::fs::write(dir.join("padding.txt"), format!("#{:02x}{:02X}{:02x}\n", p[0], p[1], p[2])).unwrap() }
    cx.step(); cx.validated();
    match guard(|| make_color_plate_from_loose(&dir)) {
        Err(p) => cx.fail("panic", p),
        Ok(Err(e)) => cx.fail("refused", e.to_string()),
        Ok(Ok(i)) => judge(cx, &pic(&i), seqs, padding),
    }
}
fn damage(cx: &mut Cx, what: &str, file: &[u8], want: &Pic, read: Reader) {
    let try_one = |cx: &mut Cx, f: &[u8], how: &dyn Fn() -> String, same: bool| {
        let (r, largest, _) = mc::alloc::track(|| guard(|| read(f)));
        cx.step();
        match r {
            Err(p) => cx.fail("panic", format!("{what} {}: {p}", how())),
            Ok(Err(_)) => { cx.check(!same, "refused", how); }
            Ok(Ok(i)) => { let i = pic(&i); cx.check(i.px.len() == i.w * i.h, "pixels", || format!("{what} {}: {}x{} with {}", how(), i.w, i.h, i.px.len())); if same { cx.check(i == *want, "other pixels", how); } }
        }
        if largest > if what == "png" { 16 << 20 } else { 1 << 30 } { cx.fail("memory", format!("{what} {}: {largest} bytes at once", how())) }
    };
    try_one(cx, file, &|| "whole".into(), true);
    for n in 0..file.len() { try_one(cx, &file[..n], &|| format!("first {n} bytes"), false); }
    for i in 0..file.len() { for v in [file[i] ^ 1, file[i] ^ 0x80, 0, 0xFF, file[i].wrapping_add(1), file[i] ^ 0x20] { if v == file[i] { continue } let mut f = file.to_vec(); f[i] = v; try_one(cx, &f, &|| format!("byte {i} is {v:#x}"), false); } }
}

fn main() {
    let mut ck = Check::new("P19");
    ck.assume("decoding of compressed image data is left to the png, tiff and jxl-oxide crates");
    let tiny = |w: usize, h: usize, seed: u8| Pic { w, h, px: (0..w * h).map(|i| [seed.wrapping_mul(37).wrapping_add(i as u8), seed, (i as u8).wrapping_mul(7), [255, 0, 128, 1][(seed as usize + i) % 4]]).collect() };
    // layouts
    let sizes: Vec<(usize, usize)> = ck.pick(vec![(1, 1), (3, 1), (1, 4)], vec![(1, 1), (2, 1), (1, 3), (5, 2)]);
    let seqs = words(&(0..sizes.len()).collect::<Vec<_>>(), ck.pick(3, 3)).into_iter().filter(|w| !w.is_empty()).collect::<Vec<_>>();
    let per = seqs.len();
    let n = ck.pick(per + per * per, per + per * per);
    ck.family("layouts", n.div_ceil(16), |i| format!("{}..", i * 16), |i, cx| for i in i * 16..(i * 16 + 16).min(n) {
        let which: Vec<usize> = if i < per { vec![i] } else { vec![(i - per) / per, (i - per) % per] };
        let mut k = 0u8;
        let s: Vec<Vec<Pic>> = which.iter().map(|w| seqs[*w].iter().map(|z| { k += 1; tiny(sizes[*z].0, sizes[*z].1, k) }).collect()).collect();
        cx.state(&which);
        one(cx, "p19", &s, None);
    });
    let shapes = words(&[1usize, 2, 3], ck.pick(5, 6)).into_iter().filter(|w| !w.is_empty()).collect::<Vec<_>>();
    ck.items("sequences", &shapes, |w| format!("{w:?}"), |w, cx| for turn in 0..3 {
        let mut k = turn as u8;
        let s: Vec<Vec<Pic>> = w.iter().enumerate().map(|(y, n)| (0..*n).map(|x| { k += 1; tiny(1 + (x + turn) % 3, 1 + (y * 2 + x) % 4, k) }).collect()).collect();
        cx.state((w, turn));
        one(cx, "p19", &s, Some([9, 8, 7]));
    });
    ck.family("many", 3, |i| format!("{i}"), |i, cx| {
        let s: Vec<Vec<Pic>> = match i { 0 => vec![(0..130).map(|k| tiny(1, 1, k as u8)).collect()], 1 => (0..130).map(|k| vec![tiny(1, 2, k as u8)]).collect(), _ => vec![vec![tiny(300, 2, 1), tiny(2, 300, 2)]] };
        cx.state(i); one(cx, "p19", &s, None);
    });
    // colours which are in the way
    let palette: Vec<[u8; 3]> = vec![BLUE, MAGENTA, [255, 255, 255], [255, 255, 254], [0, 0, 0], [0, 0, 1], [0, 0, 254], [255, 255, 253]];
    let paddings: Vec<Option<[u8; 3]>> = std::iter::once(None).chain(palette.iter().map(|p| Some(*p))).chain([Some([1, 2, 3])]).collect();
    ck.family("keys", 1 << palette.len(), |i| format!("{i:08b}"), |i, cx| for p in &paddings { for alpha in [255, 0, 7] {
        let mut px: Vec<Px> = palette.iter().enumerate().filter(|(k, _)| i >> k & 1 == 1).map(|(_, c)| [c[0], c[1], c[2], alpha]).collect();
        px.push([77, 77, 77, 255]);
        cx.state((i, p, alpha));
        let q = Pic { w: px.len(), h: 1, px };
        one(cx, "p19", &[vec![q.clone()], vec![tiny(1, 1, 1), q]], *p);
    } });
    // long runs of taken colours, up to where the other key colour is
    let holes: Vec<Option<u16>> = vec![None, Some(0), Some(1), Some(253), Some(254), Some(255)];
    let runs = [4usize, 4, 2, 2, holes.len(), 6];
    ck.family("runs", runs.iter().product(), |i| format!("{:?}", digits(i, &runs)), |i, cx| {
        let d = digits(i, &runs);
        let mut px: Vec<Px> = vec![];
        // from black: nothing, as far as blue, blue as well, the next green
        for c in 0..[0u16, 255, 256, 512][d[0]] { if Some(c) != holes[d[4]] { px.push([0, (c >> 8) as u8, c as u8, 255]) } }
        // from white: nothing, some, as far as magenta (which takes a while), magenta as well
        if d[1] >= 2 && (d[4] > 1 || d[5] > 2) { return }
        for c in 0..[0u32, 512, 255 * 256, 255 * 256 + 1][d[1]] { if Some(c as u16) != holes[d[4]] { px.push([255, 255 - (c >> 8) as u8, 255 - c as u8, 255]) } }
        if d[2] == 1 { px.push([0, 0, 255, 255]) }
        if d[3] == 1 { px.push([255, 0, 255, 255]) }
        if px.is_empty() { return }
        let padding = [None, Some(BLUE), Some(MAGENTA), Some([255, 253, 255]), Some([0, 0, 254]), Some([255, 1, 0])][d[5]];
        let w = px.len().min(256);
        while px.len() % w != 0 { px.push(px[0]) }
        cx.state(i);
        one(cx, "p19", &[vec![Pic { w, h: px.len() / w, px }]], padding);
    });
    // which files are images of a sequence
    let names = ["s0_0", "s0_1", "s0_2", "s1_0", "s1_1", "s2_0"];
    ck.family("names", 1 << names.len(), |i| format!("{i:06b}"), |i, cx| {
        let dir = case_dir("p19");
        for (k, n) in names.iter().enumerate() { if i >> k & 1 == 1 { save(&dir, &format!("{n}.png"), &tiny(1, 1, k as u8)) } }
        for n in ["s00_0", "s0_00", "s-1_0", "s0", "S1_0x", "s0_0.bak", "s1_0 "] { save(&dir, &format!("{n}.png"), &tiny(2, 2, 99)) }
        let has = |s: usize, b: usize| names.iter().position(|n| *n == format!("s{s}_{b}")).is_some_and(|k| i >> k & 1 == 1);
        let mut want = vec![];
        for s in 0.. { if !has(s, 0) { break } for b in 0.. { if !has(s, b) { break } want.push((s as u16, b as u16)) } }
        let got: Vec<(u16, u16)> = LooseColorPlateIterator::interate_on(&dir).unwrap().take(100).map(|x| (x.1, x.2)).collect();
        cx.eq("found", got, want.clone());
        // once it has ended it stays so
        let mut it = LooseColorPlateIterator::interate_on(&dir).unwrap();
        while it.next().is_some() {}
        cx.check(it.next().is_none() && it.next().is_none(), "ended", || "goes on".into());
        let r = guard(|| make_color_plate_from_loose(&dir).map(|i| pic(&i)));
        cx.steps(2); cx.state(i); cx.validated();
        match r { Err(p) => cx.fail("panic", p), Ok(Err(e)) => { cx.check(want.is_empty(), "refused", || e.to_string()); } Ok(Ok(p)) => if cx.check(!want.is_empty(), "accepted", || format!("{i:06b}")) {
            let mut seqs: Vec<Vec<Pic>> = vec![];
            for (s, b) in want { if b == 0 { seqs.push(vec![]) } seqs[s as usize].push(tiny(1, 1, names.iter().position(|n| *n == format!("s{s}_{b}")).unwrap() as u8)); }
            judge(cx, &p, &seqs, None)
        } }
    });
    let exts = ["jxl", "tif", "tiff", "png", "PNG", "bmp"];
    ck.family("extensions", (1 << exts.len()) * 3, |i| format!("{i}"), |i, cx| {
        let (set, base) = (i / 3, ["s0_0", "a.b", "x.png"][i % 3]);
        let dir = case_dir("p19");
        std::fs::create_dir(dir.join("s0_0.dir")).unwrap();
        for (k, e) in exts.iter().enumerate() { if set >> k & 1 == 1 { std::fs::write(dir.join(format!("{base}.{e}")), b"x").unwrap() } }
        let want = (0..4).find(|k| set >> k & 1 == 1).map(|k| dir.join(format!("{base}.{}", exts[k])));
        cx.step(); cx.state(i); cx.validated();
        cx.eq("extension", autodetect_image_extension(&dir.join(base)), want);
        // a directory is not an image
        let d = case_dir("p19b");
        for e in &exts[..4] { std::fs::create_dir(d.join(format!("{base}.{e}"))).unwrap() }
        cx.eq("directory", autodetect_image_extension(&d.join(base)), None);
        // by its extension, in any case
        for (k, e) in exts.iter().enumerate() { if set >> k & 1 == 1 { cx.check(matches!(guard(|| load_image_from_path(dir.join(format!("{base}.{e}")))), Ok(Err(_))), "load", || format!("{base}.{e}")); } }
        for e in ["PnG", "png", "TIF", "tiff", "Tiff"] { let f = dir.join(format!("load.{e}")); let p = tiny(2, 2, 3); std::fs::write(&f, if e.to_lowercase() == "png" { png(&p, 6, 8, 0, None) } else { tif(&p, Tif { big: false, ch: 4, depth: 8, rows: 9, planar: false, white_is_zero: false, declared: None }) }).unwrap(); cx.eq("loaded", guard(|| load_image_from_path(&f)).ok().and_then(|r| r.ok()).map(|i| pic(&i)), Some(p)); }
        for e in ["gif", ""] { cx.check(matches!(guard(|| load_image_from_path(dir.join(format!("load.{e}")))), Ok(Err(_))), "unknown", || e.into()); }
        cx.check(matches!(guard(|| load_image_from_path(dir.join("load"))), Ok(Err(_))), "none", || "".into());
    });
    // the padding colour
    let tokens = ["#", "F", "a", "0", "g", " ", "\n", "é", "\u{1F600}"];
    let mut texts: Vec<String> = words(&(0..tokens.len()).collect::<Vec<_>>(), ck.pick(4, 5)).iter().map(|w| w.iter().map(|i| tokens[*i]).collect()).collect();
    for w in words(&(0..tokens.len()).collect::<Vec<_>>(), ck.pick(3, 4)) { let t: String = w.iter().map(|i| tokens[*i]).collect(); for a in ["#", "#0", "#12", "#123", "#1234", " #12345", "#abcdef"] { texts.push(format!("{a}{t}")); } }
    ck.family("padding", texts.len().div_ceil(64), |i| format!("{:?}..", texts[i * 64]), |i, cx| for t in texts[i * 64..].iter().take(64) {
        let dir = case_dir("p19");
        let p = tiny(1, 1, 200);
        save(&dir, "s0_0.png", &p);
        std::fs::write(dir.join("padding.txt"), t).unwrap();
        let c: Vec<char> = t.trim().chars().collect();
        let want = (c.first() == Some(&'#') && c[1..].iter().all(|c| c.is_ascii_hexdigit()) && [4, 7].contains(&c.len())).then(|| { let d: Vec<u8> = c[1..].iter().map(|c| c.to_digit(16).unwrap() as u8).collect(); if d.len() == 3 { [d[0] * 17, d[1] * 17, d[2] * 17] } else { [d[0] * 16 + d[1], d[2] * 16 + d[3], d[4] * 16 + d[5]] } });
        cx.step(); cx.state(t); cx.validated();
        match guard(|| make_color_plate_from_loose(&dir)) {
            Err(e) => cx.fail("panic", format!("{t:?}: {e}")),
            Ok(Err(e)) => { cx.check(want.is_none(), "refused", || format!("{t:?}: {e}")); }
            Ok(Ok(i)) => if cx.check(want.is_some(), "accepted", || format!("{t:?}")) { judge(cx, &pic(&i), &[vec![p.clone()]], want) },
        }
    });
    // images
    let big = Pic { w: 16, h: 16, px: (0..256).map(|i| { let i = i as u8; [i, i.wrapping_mul(3).wrapping_add(1), 255 - i, i ^ 0x5A] }).collect() };
    let mut pics: Vec<Pic> = vec![big];
    let m = ck.pick(4, 7);
    for w in 1..=m { for h in 1..=m { pics.push(tiny(w, h, (w * 16 + h) as u8)) } }
    ck.family("png", pics.len(), |i| format!("{}x{}", pics[i].w, pics[i].h), |i, cx| for ty in [0u8, 2, 3, 4, 6] { for depth in [1u8, 2, 4, 8, 16] { for filter in 0..6 {
        if !(ty == 0 || depth >= 8 || ty == 3) || ty == 3 && depth == 16 { continue }
        let p = &pics[i];
        let f = png(p, ty, depth, filter, None);
        cx.step(); cx.state((i, ty, depth, filter)); cx.validated();
        match guard(|| Image::from_png(&f)) {
            Err(e) => cx.fail("panic", e),
            Ok(Err(e)) => { cx.check(depth != 8 || ty == 3, "refused", || format!("type {ty} depth {depth} filter {filter}: {e}")); }
            Ok(Ok(i)) => if cx.check(depth == 8 && ty != 3, "accepted", || format!("type {ty} depth {depth}")) { cx.check(pic(&i) == flat(p, channels(ty)), "pixels", || format!("type {ty} filter {filter}: {}", clip(&format!("{:?}", pic(&i))))); },
        }
    } } });
    ck.family("tiff", pics.len(), |i| format!("{}x{}", pics[i].w, pics[i].h), |i, cx| for big in [false, true] { for ch in 1..=4 { for depth in [1usize, 2, 4, 8, 16] { for rows in [1, 2, 3, 1000] { for planar in [false, true] { for white_is_zero in [false, true] {
        let p = &pics[i];
        if white_is_zero && ch > 2 || planar && depth < 8 { continue }
        let t = Tif { big, ch, depth, rows, planar, white_is_zero, declared: None };
        let f = tif(p, t);
        cx.step(); cx.state((i, big, ch, depth, rows, planar)); cx.validated();
        match guard(|| Image::from_tiff(&f)) {
            Err(e) => cx.fail("panic", format!("{t:?}: {e}")),
            // an alpha of a grey image, planes, and inverted ones need not be understood
            Ok(Err(e)) => { cx.check(depth != 8 || planar || ch == 2 || white_is_zero, "refused", || format!("{t:?}: {e}")); }
            Ok(Ok(i)) => if cx.check(depth == 8, "accepted", || format!("{t:?}")) { let mut want = flat(p, ch); if white_is_zero { for c in &mut want.px { for k in 0..3 { c[k] = 255 - c[k] } } } cx.check(pic(&i) == want, "pixels", || format!("{t:?}: {} instead of {}", clip(&format!("{:?}", pic(&i))), clip(&format!("{want:?}")))); },
        }
    } } } } } });
    ck.family("written", pics.len(), |i| format!("{}x{}", pics[i].w, pics[i].h), |i, cx| {
        let p = &pics[i];
        let image = Image { width: p.w, height: p.h, data: p.px.iter().map(|c| ringhopper::primitives::primitive::ColorARGBInt { color: u32::from_be_bytes([c[3], c[0], c[1], c[2]]) }).collect() };
        cx.step(); cx.state(i); cx.validated();
        cx.eq("tiff", guard(|| Image::from_tiff(&image.to_tiff())).ok().and_then(|r| r.ok()).map(|i| pic(&i)), Some(p.clone()));
    });
    ck.family("jpeg xl", pics.len(), |i| format!("{}x{}", pics[i].w, pics[i].h), |i, cx| for ch in 1..=4 {
        cx.step(); cx.state((i, ch)); cx.validated();
        match guard(|| Image::from_jxl(&jxl(&pics[i], ch))) {
            Ok(Ok(got)) => { let (got, want) = (pic(&got), flat(&pics[i], ch)); cx.check(got == want, "pixels", || format!("{ch} channels: {} instead of {}", clip(&format!("{got:?}")), clip(&format!("{want:?}")))); }
            r => cx.fail("refused", format!("{ch} channels: {:?}", r.map(|r| r.err().map(|e| e.to_string())))),
        }
    });
    // damaged images
    let kinds: Vec<(bool, usize)> = [0usize, 2, 4, 6].iter().map(|t| (true, *t)).chain((1..=4).map(|c| (false, c))).collect();
    let shots = [(1usize, 1usize), (3, 2), (2, 5)];
    ck.family("damaged", kinds.len() * shots.len(), |i| format!("{:?} {:?}", kinds[i / 3], shots[i % 3]), |i, cx| {
        let ((is_png, k), (w, h)) = (kinds[i / 3], shots[i % 3]);
        let p = tiny(w, h, 5);
        cx.state(i); cx.validated();
        if is_png { damage(cx, "png", &png(&p, k as u8, 8, 5, None), &flat(&p, channels(k as u8)), Image::from_png) }
        else if k != 2 { damage(cx, "tiff", &tif(&p, Tif { big: w == 3, ch: k, depth: 8, rows: 2, planar: false, white_is_zero: false, declared: None }), &flat(&p, k), Image::from_tiff) }
    });
    // the beginnings of JPEG XL files
    let tails: [&[u8]; 4] = [&[], &[0], &[0xFF; 8], &[0x88, 0x20, 0x08, 0x10, 0, 0, 0x4B, 0x12, 0, 0, 0, 0]];
    ck.family("jxl", 1 << ck.pick(10, 16), |i| format!("{i:#x}"), |i, cx| for t in tails { for head in [&[0xFFu8, 0x0A][..], &[0, 0, 0, 12, 0x4A, 0x58, 0x4C, 0x20, 13, 10, 0x87, 10]] {
        let f = [head, &(i as u16).to_le_bytes(), t].concat();
        let (r, largest, _) = mc::alloc::track(|| guard(|| Image::from_jxl(&f)));
        cx.step(); cx.state(&f); cx.validated();
        match r { Err(p) => cx.fail("panic", p), Ok(Ok(i)) => { let i = pic(&i); cx.check(i.px.len() == i.w * i.h, "pixels", || format!("{}x{}", i.w, i.h)); } Ok(Err(_)) => () }
        if largest > 1 << 30 { cx.fail("memory", format!("{largest} bytes at once")) }
    } });
    ck.family("damaged jxl", 4 * shots.len(), |i| format!("{} {:?}", i / 3 + 1, shots[i % 3]), |i, cx| {
        let (ch, (w, h)) = (i / 3 + 1, shots[i % 3]);
        let p = tiny(w, h, 5);
        cx.state(i); cx.validated();
        damage(cx, "jxl", &jxl(&p, ch), &flat(&p, ch), Image::from_jxl)
    });
    let dims = [0u32, 1, 2, 3, 4, 5, 0xFF, 0x100, 0xFFFF, 0x10000, 0x7FFF_FFFF, 0x8000_0000, u32::MAX];
    ck.family("declared", dims.len() * dims.len(), |i| format!("{:#x}x{:#x}", dims[i / dims.len()], dims[i % dims.len()]), |i, cx| {
        let d = (dims[i / dims.len()], dims[i % dims.len()]);
        let p = tiny(3, 4, 5);
        for (what, f, read) in [0u8, 2, 4, 6].iter().map(|t| ("png", png(&p, *t, 8, 0, Some(d)), Image::from_png as Reader)).chain([1, 3, 4].iter().flat_map(|c| [2usize, 1000].map(|rows| ("tiff", tif(&p, Tif { big: false, ch: *c, depth: 8, rows, planar: false, white_is_zero: false, declared: Some(d) }), Image::from_tiff as Reader)))) {
            let (r, largest, _) = mc::alloc::track(|| guard(|| read(&f)));
            cx.step(); cx.state((i, what)); cx.validated();
            match r {
                Err(e) => cx.fail("panic", format!("{what}: {e}")),
                Ok(Ok(i)) => { cx.check((i.width as u32, i.height as u32) == d && i.data.len() == i.width * i.height && d.0 > 0 && d.1 > 0, "pixels", || format!("{what}: {}x{} with {}", i.width, i.height, i.data.len())); }
                Ok(Err(e)) => { cx.check(d != (3, 4), "refused", || e.to_string()); }
            }
            if largest > if what == "png" { 16 << 20 } else { 1 << 30 } { cx.fail("memory", format!("{what}: {largest} bytes at once")) }
        }
    });
    // the command
    ck.family("command", 16, |i| format!("{i:04b}"), |i, cx| {
        let dir = case_dir("p19c");
        let (has_dir, has_images, padded, old) = (i & 1 == 1, i & 2 == 2, i & 4 == 4, i & 8 == 8);
        std::fs::create_dir_all(dir.join("tags/a")).unwrap();
        std::fs::create_dir_all(dir.join("data/a")).unwrap();
        std::fs::write(dir.join("tags/a/x.y.bitmap"), ringhopper::primitives::tag::PrimaryTagStructDyn::to_tag_file(&ringhopper::definitions::Bitmap::default()).unwrap()).unwrap();
        if has_dir { std::fs::create_dir(dir.join("data/a/x.y")).unwrap(); }
        let seqs = vec![vec![tiny(2, 1, 1), tiny(1, 3, 2)], vec![tiny(1, 1, 3)]];
        if has_dir && has_images { for (s, q) in seqs.iter().enumerate() { for (b, p) in q.iter().enumerate() { save(&dir.join("data/a/x.y"), &format!("s{s}_{b}.png"), p) } } }
        if has_dir && padded { std::fs::write(dir.join("data/a/x.y/padding.txt"), "#fff").unwrap(); }
        if old { std::fs::write(dir.join("data/a/x.y.tif"), "old").unwrap(); }
        let before = files(&snapshot(&dir));
        let r = invader(&["plate", ["a\\x.y.bitmap", "*"][i / 2 % 2]], &dir, &[("MC_NOSCHED", "1".into())]);
        cx.step(); cx.state(i); cx.validated();
        cx.check(r.ok() && !r.panicked(), "exit", || r.brief());
        let after = files(&snapshot(&dir));
        let rest = |f: &BTreeMap<String, Vec<u8>>| f.iter().filter(|f| f.0 != "data/a/x.y.tif").map(|f| (f.0.clone(), f.1.clone())).collect::<BTreeMap<_, _>>();
        cx.check(rest(&after) == rest(&before), "other files", || r.brief());
        if has_dir && has_images {
            match after.get("data/a/x.y.tif").map(|f| Image::from_tiff(f)) { Some(Ok(i)) => judge(cx, &pic(&i), &seqs, padded.then_some([255; 3])), _ => cx.fail("plate", r.brief()) }
        } else { cx.check(after == before, "files", || r.brief()); }
    });
    ck.finish();
}
