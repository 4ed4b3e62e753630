//! P18: swizzling is the Morton permutation and its inverse; mipmap layouts follow the format's sizes.
use mc::*;
use ringhopper::definitions::{Bitmap, BitmapData, BitmapDataFormat as F, BitmapDataType};
use ringhopper::primitives::primitive::ColorARGBInt;
use ringhopper::tag::bitmap::*;
use std::num::NonZeroUsize;

/// The address of a pixel: the coordinates' bits interleaved from the lowest on, x first, skipping coordinates which have run out of bits.
fn morton(x: usize, y: usize, z: usize, w: u32, h: u32, d: u32) -> usize {
    let (mut out, mut bit) = (0, 0);
    for i in 0..usize::BITS {
        for (c, n) in [(x, w), (y, h), (z, d)] { if i < n { out |= ((c >> i) & 1) << bit; bit += 1; } }
    }
    out
}
/// Distinct pixels, as far as the type allows (`round` selects which bits are shown).
trait Px: Swizzlable + PartialEq + std::fmt::Debug + Send + Sync { fn make(i: usize, round: usize) -> Self; const ROUNDS: usize; }
impl Px for u8 { fn make(i: usize, round: usize) -> u8 { (i >> (8 * round)) as u8 } const ROUNDS: usize = 3; }
impl Px for u16 { fn make(i: usize, round: usize) -> u16 { (i >> (16 * round)) as u16 } const ROUNDS: usize = 2; }
impl Px for ColorARGBInt { fn make(i: usize, _: usize) -> Self { ColorARGBInt { color: i as u32 } } const ROUNDS: usize = 1; }

fn one<P: Px>(w: u32, h: u32, d: u32, cx: &mut Cx) {
    let (nw, nh, nd) = (1usize << w, 1usize << h, 1usize << d);
    let n = nw * nh * nd;
    for round in 0..P::ROUNDS {
        if n >> (std::mem::size_of::<P>() * 8 * round).min(63) == 0 && round > 0 { break }
        let data: Vec<P> = (0..n).map(|i| P::make(i, round)).collect();
        let fill = P::make(0x5a5a5a5a, 0);
        let mut out = vec![fill; n];
        let r = guard(|| swizzle(&data, &mut out, nw, nh, nd, false));
        if !matches!(r, Ok(Ok(()))) { cx.fail("swizzle", format!("{nw}x{nh}x{nd}: {r:?}")); return }
        for z in 0..nd { for y in 0..nh { for x in 0..nw {
            let (a, b) = (out[morton(x, y, z, w, h, d)], data[(z * nh + y) * nw + x]);
            if a != b { cx.fail("address", format!("{nw}x{nh}x{nd}: pixel {x},{y},{z} is {b:?} but {a:?} is at its address")); return }
        } } }
        let mut back = vec![fill; n];
        let r = guard(|| swizzle(&out, &mut back, nw, nh, nd, true));
        if !matches!(r, Ok(Ok(()))) { cx.fail("deswizzle", format!("{nw}x{nh}x{nd}: {r:?}")); return }
        if let Some(i) = (0..n).find(|i| back[*i] != data[*i]) { cx.fail("inverse", format!("{nw}x{nh}x{nd}: pixel {i}")); return }
        // the other way around
        let mut linear = vec![fill; n];
        let _ = swizzle(&data, &mut linear, nw, nh, nd, true);
        let mut again = vec![fill; n];
        let _ = swizzle(&linear, &mut again, nw, nh, nd, false);
        if let Some(i) = (0..n).find(|i| again[*i] != data[*i]) { cx.fail("inverse the other way", format!("{nw}x{nh}x{nd}: pixel {i}")); return }
        cx.steps(4); cx.validated_n(n as u64);
    }
    cx.state((w, h, d, std::mem::size_of::<P>()));
}

#[derive(Clone, Debug, PartialEq)]
struct Level { mip: usize, face: usize, w: usize, h: usize, d: usize, off: usize, bw: usize, bh: usize, n: usize }
/// kind: 0 = 2D, 1 = cube map, otherwise 3D of depth kind - 1.
fn reference(w: usize, h: usize, kind: usize, block: usize, mips: Option<usize>) -> (Vec<Level>, Vec<Level>) {
    let depth = if kind < 2 { 1 } else { kind - 1 };
    let (mut faces, mut textures, mut off, mut level) = (vec![], vec![], 0, 0);
    loop {
        let dim = |v: usize| (v >> level).max(1);
        let (lw, lh, ld) = (dim(w), dim(h), dim(depth));
        let (bw, bh) = (lw.div_ceil(block), lh.div_ceil(block));
        let count = if kind == 1 { 6 } else { ld };
        textures.push(Level { mip: level, face: 0, w: lw, h: lh, d: ld, off, bw, bh, n: bw * bh * count });
        for face in 0..count { faces.push(Level { mip: level, face, w: lw, h: lh, d: ld, off, bw, bh, n: bw * bh }); off += bw * bh; }
        if (lw, lh, ld) == (1, 1, 1) || mips == Some(level) { break }
        level += 1;
    }
    (faces, textures)
}
fn seen(i: impl Iterator<Item = MipmapMetadata>) -> Vec<Level> {
    i.take(100_000).map(|m| Level { mip: m.mipmap_index, face: m.face_index, w: m.width, h: m.height, d: m.depth, off: m.block_offset, bw: m.block_width, bh: m.block_height, n: m.block_count }).collect()
}
fn mtype(kind: usize) -> MipmapType { match kind { 0 => MipmapType::TwoDimensional, 1 => MipmapType::Cubemap, d => MipmapType::ThreeDimensional(NonZeroUsize::new(d - 1).unwrap()) } }
fn nz(n: usize) -> NonZeroUsize { NonZeroUsize::new(n).unwrap() }
fn compare(cx: &mut Cx, what: &str, got: Vec<Level>, want: &[Level]) {
    if got.len() != want.len() { cx.fail(what, format!("{} levels instead of {}", got.len(), want.len())); }
    for (g, w) in got.iter().zip(want) { if g != w { cx.fail(what, format!("{g:?} instead of {w:?}")); return } }
}

fn main() {
    let mut ck = Check::new("P18");
    ck.assume("three-dimensional textures which are not cubes cannot be swizzled (refused)");
    let max = ck.pick(18u32, 22);
    let sizes: Vec<(u32, u32)> = (0..=max).flat_map(|w| (0..=max - w).map(move |h| (w, h))).collect();
    ck.items("flat", &sizes, |(w, h)| format!("{}x{}", 1u64 << w, 1u64 << h), |(w, h), cx| {
        one::<u8>(*w, *h, 0, cx); one::<u16>(*w, *h, 0, cx); one::<ColorARGBInt>(*w, *h, 0, cx);
    });
    let cubes: Vec<u32> = (1..=ck.pick(6, 7)).collect();
    ck.items("cube", &cubes, |w| format!("{0}x{0}x{0}", 1u64 << w), |w, cx| { one::<u8>(*w, *w, *w, cx); one::<u16>(*w, *w, *w, cx); one::<ColorARGBInt>(*w, *w, *w, cx) });
    // sizes which cannot be swizzled
    let odd = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24];
    ck.family("refused", odd.len() * odd.len() * odd.len(), |i| format!("{}x{}x{}", odd[i % odd.len()], odd[i / odd.len() % odd.len()], odd[i / odd.len() / odd.len()]), |i, cx| {
        let (w, h, d) = (odd[i % odd.len()], odd[i / odd.len() % odd.len()], odd[i / odd.len() / odd.len()]);
        let fine = w.is_power_of_two() && h.is_power_of_two() && d.is_power_of_two() && (d == 1 || (w == h && w == d));
        let data: Vec<u8> = (0..w * h * d).map(|i| i as u8).collect();
        for de in [false, true] {
            let mut out = vec![0xeeu8; data.len()];
            match guard(|| swizzle(&data, &mut out, w, h, d, de)) {
                Err(p) => cx.fail("panic", p),
                Ok(r) => { cx.eq("accepted", r.is_ok(), fine); if r.is_err() { cx.check(out.iter().all(|b| *b == 0xee), "untouched", || "written".into()); } }
            }
            cx.step();
        }
        cx.state((w, h, d)); cx.validated();
    });

    // mipmap layouts
    let dims: Vec<usize> = if ck.quick() { (1..=20).chain([31, 32, 33, 63, 64, 100, 128, 256]).collect() } else { (1..=66).chain([100, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 2048, 4095, 4096, 32768, 65535]).collect() };
    let kinds: Vec<usize> = if ck.quick() { (0..=10).chain([17, 18]).collect() } else { (0..=20).chain([32, 33, 34, 65, 129, 257]).collect() };
    ck.family("layout", dims.len() * dims.len(), |i| format!("{}x{}", dims[i % dims.len()], dims[i / dims.len()]), |i, cx| {
        let (w, h) = (dims[i % dims.len()], dims[i / dims.len()]);
        for kind in &kinds { for block in [1, 4] { for mips in std::iter::once(None).chain((0..=13).map(Some)).chain([Some(65535)]) {
            let (faces, textures) = reference(w, h, *kind, block, mips);
            let label = |k| format!("{k} of {w}x{h} kind {kind} block {block} mipmaps {mips:?}");
            let mut f = MipmapFaceIterator::new(nz(w), nz(h), mtype(*kind), nz(block), mips);
            compare(cx, &label("faces"), seen(&mut f), &faces);
            cx.check(f.next().is_none() && f.next().is_none(), "fused", || label("faces"));
            let mut t = MipmapTextureIterator::new(nz(w), nz(h), mtype(*kind), nz(block), mips);
            compare(cx, &label("textures"), seen(&mut t), &textures);
            cx.check(t.next().is_none() && t.next().is_none(), "fused", || label("textures"));
            cx.eq("total", faces.iter().map(|l| l.n).sum::<usize>(), textures.iter().map(|l| l.n).sum::<usize>());
            cx.steps(faces.len() as u64 + textures.len() as u64);
            cx.validated();
            if cx.failed() { return }
        } } }
        cx.state((w, h));
    });

    // from tags: every format and type, with sizes of zero
    let formats: [(F, usize, usize); 14] = [(F::A8, 1, 8), (F::Y8, 1, 8), (F::AY8, 1, 8), (F::A8Y8, 1, 16), (F::R5G6B5, 1, 16), (F::A1R5G5B5, 1, 16), (F::A4R4G4B4, 1, 16), (F::X8R8G8B8, 1, 32), (F::A8R8G8B8, 1, 32), (F::DXT1, 4, 64), (F::DXT3, 4, 128), (F::DXT5, 4, 128), (F::P8, 1, 8), (F::BC7, 4, 128)];
    ck.items("formats", &formats, |f| format!("{:?}", f.0), |(format, len, bits), cx| {
        cx.eq("block length", pixels_per_block_length(*format).get(), *len);
        cx.eq("bytes per block", bytes_per_block(*format).get() * 8, *bits);
        cx.eq("bits per pixel", bits_per_pixel(*format).get() * len * len, *bits);
        cx.eq("compressed", COMPRESSED_BITMAP_DATA_FORMATS.contains(format), *len == 4);
        for ty in [BitmapDataType::_2dTexture, BitmapDataType::_3dTexture, BitmapDataType::CubeMap] {
            for w in [0u16, 1, 2, 3, 4, 5, 8, 9, 16, 64, 65535] { for h in [0u16, 1, 2, 4, 6, 8, 16, 65535] { for d in [0u16, 1, 2, 3, 4, 8] { for m in [0u16, 1, 2, 3, 8, 65535] {
                let data = BitmapData { width: w, height: h, depth: d, _type: ty, format: *format, mipmap_count: m, ..Default::default() };
                let kind = match ty { BitmapDataType::_2dTexture => 0, BitmapDataType::CubeMap => 1, _ => d as usize + 1 };
                let fine = w > 0 && h > 0 && (ty != BitmapDataType::_3dTexture || d > 0);
                cx.step();
                match guard(|| (MipmapFaceIterator::new_from_bitmap_data(&data).map(seen), MipmapTextureIterator::new_from_bitmap_data(&data).map(seen))) {
                    Err(p) => cx.fail("panic", p),
                    Ok((f, t)) => {
                        cx.eq("accepted", (f.is_ok(), t.is_ok()), (fine, fine));
                        if let (Ok(f), Ok(t)) = (f, t) {
                            let (wf, wt) = reference(w as usize, h as usize, kind, *len, Some(m as usize));
                            compare(cx, "faces", f, &wf); compare(cx, "textures", t, &wt);
                            cx.validated();
                        }
                    }
                }
            } } } }
        }
        cx.state(format!("{format:?}"));
    });

    // the source image kept in a bitmap: what was stored comes back, and anything else is an error
    let plates: Vec<(u16, u16)> = [(1, 1), (2, 1), (1, 3), (4, 4), (5, 7), (16, 16), (64, 2)].to_vec();
    ck.items("source", &plates, |(w, h)| format!("{w}x{h}"), |(w, h), cx| {
        let n = *w as usize * *h as usize;
        let raw: Vec<u8> = (0..n * 4).map(|i| (i * 7 + i / 256) as u8).collect();
        let build = |raw: &[u8], said: u32| { let mut v = said.to_be_bytes().to_vec(); v.extend(deflate(raw)); v };
        let make = |bytes: Vec<u8>, w: u16, h: u16| { let mut b = Bitmap::default(); b.color_plate.width = w; b.color_plate.height = h; b.color_plate.compressed_data.bytes = bytes; b };
        let good = build(&raw, raw.len() as u32);
        match guard(|| extract_compressed_color_plate_data(&make(good.clone(), *w, *h))) {
            Ok(Ok(Some(img))) => {
                cx.eq("size", (img.width, img.height, img.data.len()), (*w as usize, *h as usize, n));
                for (i, p) in img.data.iter().enumerate() { if p.color.to_le_bytes() != raw[i * 4..i * 4 + 4] { cx.fail("pixel", format!("{i}: {p:?}")); break } }
            }
            r => cx.fail("source", format!("{:?}", r.map(|r| r.map(|o| o.is_some())))),
        }
        // every truncation, every changed byte, and wrong sizes: an error or, where the data cannot tell, the size stated
        for cut in 0..good.len() { case(cx, make(good[..cut].to_vec(), *w, *h), if cut < 4 { Some(false) } else { None }, cut + 4 < good.len() || cut < 4); }
        for i in 0..good.len() { for b in [0u8, 0xff, good[i] ^ 1, good[i] ^ 0x80] { if b == good[i] { continue } let mut v = good.clone(); v[i] = b; case(cx, make(v, *w, *h), None, i < 4); } }
        for (rw, rh) in [(0, *h), (*w, 0), (0, 0)] { case(cx, make(good.clone(), rw, rh), Some(false), false); }
        for (rw, rh) in [(w + 1, *h), (*w, h + 1), (65535, 65535), (65535, *h)] { case(cx, make(good.clone(), rw, rh), None, true); }
        for said in [0u32, 1, raw.len() as u32 - 1, raw.len() as u32 + 1, u32::MAX] { case(cx, make(build(&raw, said), *w, *h), None, true); }
        // less or more than stated
        case(cx, make(build(&raw[..raw.len() - 1], raw.len() as u32), *w, *h), None, true);
        // an image too large for the data there is must not be allocated
        case(cx, make(build(&raw, 65535 * 16384 * 4), 65535, 16384), None, true);
        cx.state((w, h));
    });
    ck.finish();
}
fn case(cx: &mut Cx, b: Bitmap, none: Option<bool>, must_fail: bool) {
    cx.step();
    let limit = b.color_plate.compressed_data.bytes.len() * 1100 * 3 + 0x20_0000;
    let (r, _, peak) = alloc::track(|| guard(|| extract_compressed_color_plate_data(&b)));
    cx.check(peak <= limit, "memory", || format!("{peak} bytes were allocated for {} bytes of data", b.color_plate.compressed_data.bytes.len()));
    match r {
        Err(p) => cx.fail("panic", p),
        Ok(Ok(None)) => { cx.check(none == Some(false), "nothing", || "no source found".into()); }
        Ok(Ok(Some(i))) => { cx.check(none.is_none() && !must_fail, "accepted", || format!("{}x{} accepted", i.width, i.height)); cx.eq("size", i.data.len(), b.color_plate.width as usize * b.color_plate.height as usize); }
        Ok(Err(_)) => { cx.check(none.is_none(), "refused", || "refused".into()); }
    }
    cx.validated();
}
/// Stored (uncompressed) zlib stream.
fn deflate(data: &[u8]) -> Vec<u8> {
    let mut v = vec![0x78, 0x01];
    let mut chunks = data.chunks(65535).peekable();
    while let Some(c) = chunks.next() { v.push(chunks.peek().is_none() as u8); v.extend((c.len() as u16).to_le_bytes()); v.extend((!(c.len() as u16)).to_le_bytes()); v.extend(c); }
    let (mut a, mut b) = (1u32, 0u32);
    for x in data { a = (a + *x as u32) % 65521; b = (b + a) % 65521; }
    v.extend((b << 16 | a).to_be_bytes());
    v
}
