//! P06: compressed floats and vectors, colours, normalisation - every bit pattern, every step, every grid point.
use mc::*;
use ringhopper::primitives::primitive::*;

/// What a compressed float of `bits` bits stands for: a two's complement fraction whose ends are exactly -1 and 1.
fn model(pattern: u32, bits: u32) -> f64 {
    let half = 1i64 << (bits - 1);
    let p = (pattern as i64) & (half * 2 - 1);
    if p >= half { (p - 2 * half) as f64 / half as f64 } else { p as f64 / (half - 1) as f64 }
}
/// The bit patterns ordered by value.
fn nth(i: u32, bits: u32) -> u32 { (i + (1 << (bits - 1))) & ((1 << bits) - 1) }

fn v3(x: u32, y: u32, z: u32) -> u32 { x | y << 11 | z << 22 }

/// The ways of compressing a single number: (name, bits, compress, decompress).
type Way = (&'static str, u32, fn(f64) -> u32, fn(u32) -> f64);
fn ways() -> Vec<Way> {
    vec![
        ("float", 16, |v| CompressedFloat::from(v).data as u32, |p| f64::from(CompressedFloat { data: p as u16 })),
        ("2d.x", 16, |v| CompressedVector2D::from(Vector2D { x: v, y: 0.0 }).data, |p| Vector2D::from(CompressedVector2D { data: p | 0xABCD0000 }).x),
        ("2d.y", 16, |v| CompressedVector2D::from(Vector2D { x: 0.0, y: v }).data >> 16, |p| Vector2D::from(CompressedVector2D { data: p << 16 | 0xABCD }).y),
        ("3d.x", 11, |v| CompressedVector3D::from(Vector3D { x: v, y: 0.0, z: 0.0 }).data, |p| Vector3D::from(CompressedVector3D { data: v3(p, 0x5A5, 0x2A5) }).x),
        ("3d.y", 11, |v| CompressedVector3D::from(Vector3D { x: 0.0, y: v, z: 0.0 }).data >> 11, |p| Vector3D::from(CompressedVector3D { data: v3(0x5A5, p, 0x2A5) }).y),
        ("3d.z", 10, |v| CompressedVector3D::from(Vector3D { x: 0.0, y: 0.0, z: v }).data >> 22, |p| Vector3D::from(CompressedVector3D { data: v3(0x5A5, 0x25A, p) }).z),
    ]
}

fn same(a: f64, b: f64) -> bool { a == b || (a - b).abs() <= 1e-12 }

fn argb(v: u32) -> ColorARGBIntBytes { ColorARGBIntBytes { alpha: (v >> 24) as u8, red: (v >> 16) as u8, green: (v >> 8) as u8, blue: v as u8 } }
fn float_of(v: u32) -> ColorARGBFloat { let f = |s: u32| (v >> s & 255) as f64 / 255.0; ColorARGBFloat { alpha: f(24), red: f(16), green: f(8), blue: f(0) } }

fn int_colour(v: u32, cx: &mut Cx) {
    let r = guard(|| {
        let b = argb(v);
        let i = ColorARGBInt { color: v };
        let mut bad = Vec::new();
        let mut ck = |ok: bool, what: &str, got: String| if !ok { bad.push(format!("{what}: {got}")) };
        ck(ColorARGBIntBytes::from(v) == b, "from u32", format!("{}", ColorARGBIntBytes::from(v)));
        ck(u32::from(b) == v, "to u32", format!("{:08x}", u32::from(b)));
        ck(ColorARGBInt::from(v) == i && ColorARGBInt::from(b) == i && u32::from(i) == v, "int", format!("{:08x}", ColorARGBInt::from(b).color));
        ck(ColorARGBIntBytes::from(i) == b, "bytes of int", format!("{}", ColorARGBIntBytes::from(i)));
        let f = float_of(v);
        ck(b.rgb_float() == f.rgb_float() && b.alpha_float() == f.alpha && i.rgb_float() == f.rgb_float() && i.alpha_float() == f.alpha, "to float", format!("{:?}", b.rgb_float()));
        ck(ColorARGBIntBytes::from_argb_float(&f) == b, "from float", format!("{}", ColorARGBIntBytes::from_argb_float(&f)));
        ck(ColorARGBInt::from_argb_float(&f) == i, "int from float", format!("{:08x}", ColorARGBInt::from_argb_float(&f).color));
        ck(Color::clamp(&b) == b && Color::clamp(&i) == i, "clamp", String::new());
        // as stored in a tag: single precision
        let g = |x: f64| x as f32 as f64;
        let s = ColorARGBFloat { alpha: g(f.alpha), red: g(f.red), green: g(f.green), blue: g(f.blue) };
        let t = ColorARGBIntBytes::from_argb_float(&s);
        let near = |a: u8, b: u8| a.abs_diff(b) <= 1;
        ck(near(t.alpha, b.alpha) && near(t.red, b.red) && near(t.green, b.green) && near(t.blue, b.blue), "from single float", format!("{t}"));
        bad
    });
    match r { Ok(b) => for m in b { cx.fail("int-colour", format!("{v:08x} {m}")) }, Err(p) => cx.fail("panic", format!("{v:08x}: {p}")) }
    cx.state(&v); cx.steps(10); cx.validated();
}

fn main() {
    let mut ck = Check::new("P06");
    for (name, bits, comp, dec) in ways() {
        let n = 1usize << bits;
        // every pattern: value, round trip, order
        ck.family(&format!("pattern-{name}"), n / 64, |i| format!("{:x}", i * 64), |i, cx| for i in i * 64..i * 64 + 64 {
            let p = nth(i as u32, bits);
            match guard(|| { let v = dec(p); (v, comp(v), comp(v as f32 as f64)) }) {
                Ok((v, back, single)) => {
                    cx.check(same(v, model(p, bits)), "value", || format!("{p:04x} is {v} instead of {}", model(p, bits)));
                    cx.check(back == p, "round-trip", || format!("{p:04x} = {v} becomes {back:04x}"));
                    cx.check(single == p, "single", || format!("{p:04x} = {v} in single precision becomes {single:04x}"));
                    if i > 0 { let w = dec(nth(i as u32 - 1, bits)); cx.check(w < v, "order", || format!("{p:04x} = {v} is not above {w}")); }
                }
                Err(e) => cx.fail("panic", format!("{p:04x}: {e}")),
            }
            cx.state(&p); cx.steps(3); cx.validated();
        });
        // between every two neighbours: the nearer one is chosen
        ck.family(&format!("step-{name}"), (n - 1).div_ceil(64), |i| format!("{:x}", i * 64), |i, cx| for i in i * 64..(i * 64 + 64).min(n - 1) {
            let (a, b) = (model(nth(i as u32, bits), bits), model(nth(i as u32 + 1, bits), bits));
            for k in 0..=16 {
                let mut vs = vec![a + (b - a) * k as f64 / 16.0];
                if k == 0 { vs.push(a.next_up()); vs.push(a + (b - a) * 1e-6) }
                if k == 16 { vs.push(b.next_down()); vs.push(b - (b - a) * 1e-6) }
                if k == 8 { vs.push((a + b) / 2.0 + (b - a) * 1e-6); vs.push((a + b) / 2.0 - (b - a) * 1e-6) }
                for v in vs {
                    match guard(|| comp(v)) {
                        Ok(p) => {
                            let r = model(p, bits);
                            let best = (v - a).abs().min((v - b).abs());
                            cx.check(p < 1 << bits && (r - v).abs() <= best + 1e-12, "nearest", || format!("{v:e} becomes {p:04x} = {r}, {a} or {b} are nearer"));
                            cx.check(r == 0.0 || (r < 0.0) == (v < 0.0), "sign", || format!("{v:e} becomes {p:04x} = {r}"));
                        }
                        Err(e) => cx.fail("panic", format!("{v:e}: {e}")),
                    }
                    cx.step();
                }
            }
            cx.state(&i); cx.validated();
        });
        let odd = [0.0, -0.0, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 5e-324, -5e-324, 1e-300, -1e-300, 1e-9, -1e-9, 1e-6, -1e-6, 1.0, -1.0, 1.0f64.next_up(), (-1.0f64).next_down(), 1.5, -1.5, 2.0, -2.0, 1e9, -1e9, 1e300, -1e300, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY];
        ck.items(&format!("range-{name}"), &odd, |v| format!("{v:e}"), |v, cx| {
            match guard(|| comp(*v)) {
                Ok(p) => { let (r, w) = (model(p, bits), v.clamp(-1.0, 1.0)); cx.check((r - w).abs() <= 0.51 / ((1 << (bits - 1)) - 1) as f64, "clamped", || format!("{v:e} becomes {p:04x} = {r}")); }
                Err(e) => cx.fail("panic", e),
            }
            cx.step(); cx.state(&v.to_bits());
        });
        ck.items(&format!("nan-{name}"), &[f64::NAN, -f64::NAN], |v| format!("{v}"), |v, cx| { cx.step(); if let Err(e) = guard(|| comp(*v)) { cx.fail("panic", e) } });
    }
    // the components together: nothing leaks from one into another
    let b11: Vec<u32> = vec![0, 1, 2, 0x3FF, 0x400, 0x401, 0x555, 0x2AA, 0x7FE, 0x7FF];
    let b10: Vec<u32> = vec![0, 1, 2, 0x1FF, 0x200, 0x201, 0x155, 0x2AA, 0x3FE, 0x3FF];
    let pat3 = |p: u32, cx: &mut Cx| {
        match guard(|| { let v = Vector3D::from(CompressedVector3D { data: p }); (v, CompressedVector3D::from(v).data) }) {
            Ok((v, back)) => {
                let w = [model(p, 11), model(p >> 11, 11), model(p >> 22, 10)];
                cx.check(back == p, "round-trip", || format!("{p:08x} = {v:?} becomes {back:08x}"));
                cx.check(same(v.x, w[0]) && same(v.y, w[1]) && same(v.z, w[2]), "value", || format!("{p:08x} is {v:?} instead of {w:?}"));
            }
            Err(e) => cx.fail("panic", format!("{p:08x}: {e}")),
        }
    };
    let pat2 = |p: u32, cx: &mut Cx| {
        match guard(|| { let v = Vector2D::from(CompressedVector2D { data: p }); (v, CompressedVector2D::from(v).data) }) {
            Ok((v, back)) => {
                let w = [model(p, 16), model(p >> 16, 16)];
                cx.check(back == p, "round-trip", || format!("{p:08x} = {v:?} becomes {back:08x}"));
                cx.check(same(v.x, w[0]) && same(v.y, w[1]), "value", || format!("{p:08x} is {v:?} instead of {w:?}"));
            }
            Err(e) => cx.fail("panic", format!("{p:08x}: {e}")),
        }
    };
    let ystep = ck.pick(37, 1);
    ck.family("3d-xy", 2048, |i| format!("x {i:x}"), |i, cx| for y in (0..2048).step_by(ystep) { for z in [0, 0x1FF, 0x200, 0x3FF] { let p = v3(i as u32, y, z); pat3(p, cx); cx.state(&p); cx.steps(2); cx.validated(); } });
    ck.family("3d-z", 1024, |i| format!("z {i:x}"), |i, cx| for x in &b11 { for y in &b11 { let p = v3(*x, *y, i as u32); pat3(p, cx); cx.state(&p); cx.steps(2); cx.validated(); } });
    ck.family("3d-yz", 2048, |i| format!("y {i:x}"), |i, cx| for x in &b11 { for z in &b10 { let p = v3(*x, i as u32, *z); pat3(p, cx); cx.state(&p); cx.steps(2); cx.validated(); } });
    ck.family("2d", 4096, |i| format!("x {i:x}*"), |i, cx| for l in 0..16u32 { for y in [0u32, 1, 0x7FFF, 0x8000, 0x8001, 0xFFFF] { let x = i as u32 * 16 + l; for p in [x | y << 16, y | x << 16] { pat2(p, cx); cx.state(&p); cx.steps(2); cx.validated(); } } });
    if !ck.quick() {
        // all 2^32 of both
        ck.family("3d-all", 1 << 14, |i| format!("{i:04x}*"), |i, cx| { for l in 0..1u32 << 18 { pat3((i as u32) << 18 | l, cx) } cx.steps(1 << 19); cx.validated_n(1 << 18); cx.state(&i) });
        ck.family("2d-all", 1 << 14, |i| format!("{i:04x}*"), |i, cx| { for l in 0..1u32 << 18 { pat2((i as u32) << 18 | l, cx) } cx.steps(1 << 19); cx.validated_n(1 << 18); cx.state(&i) });
    }

    // integer colours: every pair of channels takes every pair of values
    ck.family("int-colours", 6 * 256, |i| format!("channels {} first {:02x}", i / 256, i % 256), |i, cx| {
        let (s, t) = [(24, 16), (24, 8), (24, 0), (16, 8), (16, 0), (8, 0)][i / 256];
        for b in 0..256u32 { let rest = 0x40C07F01 & !(255 << s) & !(255 << t); int_colour(rest | (i as u32 % 256) << s | b << t, cx) }
    });
    ck.family("y8", 256, |i| format!("{i:02x}"), |i, cx| {
        let c = ColorARGBInt::from_y8(i as u8).color;
        cx.check(c == 0xFF000000 | i as u32 * 0x010101, "y8", || format!("{c:08x}"));
        for y in 0..256u32 { let c = ColorARGBInt::from_a8y8((i as u32 * 256 + y) as u16).color; cx.check(c == (i as u32) << 24 | y * 0x010101, "a8y8", || format!("{i:02x}{y:02x}: {c:08x}")); cx.state(&(i, y)); cx.step(); cx.validated() }
        let luma = Color::luma(&ColorARGBInt::from_y8(i as u8));
        cx.check(luma == i as f64 / 255.0, "luma", || format!("{luma}"));
    });
    // floating-point colours
    let grid = ck.pick(17usize, 49);
    ck.family("float-colours", grid * grid, |i| format!("r {} g {}", i / grid, i % grid), |i, cx| for b in 0..grid {
        let g = |k: usize| (k as f64 * 2.0 / (grid - 1) as f64) - 0.5; // -0.5 ..= 1.5, so out of range values are there too
        let c = ColorRGBFloat { red: g(i / grid), green: g(i % grid), blue: g(b) };
        let cl = |x: f64| x.clamp(0.0, 1.0);
        let k = ColorRGBFloat { red: cl(c.red), green: cl(c.green), blue: cl(c.blue) };
        cx.state(&(i, b)); cx.steps(6);
        let r = guard(|| {
            cx.check(Color::clamp(&c) == k, "clamp", || format!("{c:?}"));
            for a in [0.0, 0.25, 1.0] {
                let f = ColorARGBFloat { alpha: a, red: c.red, green: c.green, blue: c.blue };
                let (up, down) = (f.gamma_compress(), f.gamma_decompress());
                let (x, y) = (up.gamma_decompress(), down.gamma_compress());
                let close = |p: ColorRGBFloat| (p.red - k.red).abs() < 1e-9 && (p.green - k.green).abs() < 1e-9 && (p.blue - k.blue).abs() < 1e-9;
                cx.check(close(x.rgb_float()) && close(y.rgb_float()) && x.alpha == a && y.alpha == a, "gamma", || format!("{f:?}: {x:?} {y:?}"));
                cx.check(same(up.red, k.red.sqrt()) && same(up.green, k.green.sqrt()) && same(up.blue, k.blue.sqrt()), "gamma", || format!("{f:?} compresses to {up:?}"));
                let l = f.luma();
                let (lo, hi) = (k.red.min(k.green).min(k.blue), k.red.max(k.green).max(k.blue));
                cx.check(l >= lo - 1e-12 && l <= hi + 1e-12, "luma", || format!("{f:?}: {l}"));
                cx.check(same(l, k.red * 0.2126 + k.green * 0.7152 + k.blue * 0.0722), "luma", || format!("{f:?}: {l}"));
                let n = f.vector_normalize();
                let d = [k.red - 0.5, k.green - 0.5, k.blue - 0.5];
                let m = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
                let e = [n.red - 0.5, n.green - 0.5, n.blue - 0.5];
                cx.check(n.alpha == a, "vector", || format!("{f:?} normalises to {n:?}"));
                if m > 0.0 { cx.check((0..3).all(|j| (e[j] - d[j] / m / 2.0).abs() < 1e-9), "vector", || format!("{f:?} normalises to {n:?}")); }
                else { cx.check(((e[0] * e[0] + e[1] * e[1] + e[2] * e[2]).sqrt() - 0.5).abs() < 1e-9, "vector", || format!("{f:?} normalises to {n:?}")); }
                let t = ColorARGBIntBytes::from_argb_float(&f);
                let w = |x: f64| (cl(x) * 255.0) as u8;
                cx.check(t == ColorARGBIntBytes { alpha: w(a), red: w(c.red), green: w(c.green), blue: w(c.blue) }, "truncate", || format!("{f:?} becomes {t}"));
                // over an opaque background: a mix, and never outside of the two
                let base = ColorARGBFloat { alpha: 1.0, red: 0.25, green: 0.0, blue: 1.0 };
                let mix = base.alpha_blend(&f);
                let want = [(0.25, k.red), (0.0, k.green), (1.0, k.blue)].map(|(o, n)| o * (1.0 - a) + n * a);
                cx.check(same(mix.alpha, 1.0) && same(mix.red, want[0]) && same(mix.green, want[1]) && same(mix.blue, want[2]), "blend", || format!("{f:?}: {mix:?}"));
            }
        });
        if let Err(p) = r { cx.fail("panic", format!("{c:?}: {p}")) }
        cx.validated();
    });
    // vectors: normalisation and arithmetic
    let vals: Vec<f64> = ck.pick(vec![0.0, 1.0, -1.0, 0.5, -0.25, 1e-3, -3.0, 1e10, 1e-20, 2e-38, -3e38], vec![0.0, -0.0, 1.0, -1.0, 0.5, -0.25, 1e-3, -3.0, 1e10, -1e10, 1e-20, -1e-20, 2e-38, 1e-45, -3e38, 3.4e38, 0.6, 0.8, 0.70710678, 1.000001, 0.99999]);
    let m = vals.len();
    ck.family("normalise", m * m, |i| format!("{} {}", vals[i / m], vals[i % m]), |i, cx| for z in &vals { for w in &vals {
        let (x, y, z, w) = (vals[i / m], vals[i % m], *z, *w);
        fn dir<const N: usize>(v: [f64; N]) -> Option<[f64; N]> { let big = v.iter().fold(0.0f64, |a, b| a.max(b.abs())); if big == 0.0 { return None } let u = v.map(|x| x / big); let l = u.iter().map(|x| x * x).sum::<f64>().sqrt(); Some(u.map(|x| x / l)) }
        cx.state(&[x.to_bits(), y.to_bits(), z.to_bits(), w.to_bits()]); cx.steps(3); cx.validated();
        let r = guard(|| {
            let q = Quaternion { x, y, z, w }.normalize();
            let v = Vector3D { x, y, z }.normalize();
            let u = Vector2D { x, y }.normalize();
            let close = |a: &[f64], b: Option<Vec<f64>>| match b { Some(b) => a.iter().zip(&b).all(|(a, b)| (a - b).abs() < 1e-5), None => (a.iter().map(|x| x * x).sum::<f64>() - 1.0).abs() < 1e-9 };
            cx.check(close(&[q.x, q.y, q.z, q.w], dir([x, y, z, w]).map(|d| d.to_vec())), "quaternion", || format!("{x} {y} {z} {w}: {q:?}"));
            cx.check(close(&[v.x, v.y, v.z], dir([x, y, z]).map(|d| d.to_vec())), "3d", || format!("{x} {y} {z}: {v:?}"));
            cx.check(close(&[u.x, u.y], dir([x, y]).map(|d| d.to_vec())), "2d", || format!("{x} {y}: {u:?}"));
            for len in [0.5, 2.0] {
                let v = Vector3D { x, y, z }.normalize_into(len);
                cx.check(close(&[v.x / len, v.y / len, v.z / len], dir([x, y, z]).map(|d| d.to_vec())), "length", || format!("{x} {y} {z} into {len}: {v:?}"));
            }
            let (a, b) = (Vector3D { x, y, z }, Vector3D { x: w, y: x, z: y });
            let eq = |v: Vector3D, p: [f64; 3]| [v.x, v.y, v.z].iter().zip(p).all(|(a, b)| *a == b || (a.is_nan() && b.is_nan()));
            cx.check(eq(a + b, [x + w, y + x, z + y]) && eq(a - b, [x - w, y - x, z - y]) && eq(a * b, [x * w, y * x, z * y]) && eq(a / b, [x / w, y / x, z / y]) && eq(a * w, [x * w, y * w, z * w]) && eq(-a, [-x, -y, -z]), "ops", || format!("{a:?} {b:?}"));
            let mut t = a; t += b; let mut ok = eq(t, [x + w, y + x, z + y]); t = a; t -= b; ok &= eq(t, [x - w, y - x, z - y]); t = a; t *= b; ok &= eq(t, [x * w, y * x, z * y]); t = a; t /= b; ok &= eq(t, [x / w, y / x, z / y]); t = a; t *= w; ok &= eq(t, [x * w, y * w, z * w]);
            cx.check(ok, "assign", || format!("{a:?} {b:?}"));
            cx.check(a.dot(&b) == x * w + y * x + z * y, "dot", || format!("{a:?} {b:?}: {}", a.dot(&b)));
            let (a, b) = (Vector2D { x, y }, Vector2D { x: z, y: w });
            let eq = |v: Vector2D, p: [f64; 2]| [v.x, v.y].iter().zip(p).all(|(a, b)| *a == b || (a.is_nan() && b.is_nan()));
            cx.check(eq(a + b, [x + z, y + w]) && eq(a - b, [x - z, y - w]) && eq(a * b, [x * z, y * w]) && eq(a / b, [x / z, y / w]) && eq(a * w, [x * w, y * w]) && eq(-a, [-x, -y]), "ops", || format!("{a:?} {b:?}"));
            let (a, b) = (Quaternion { x, y, z, w }, Quaternion { x: y, y: z, z: w, w: x });
            let eq = |v: Quaternion, p: [f64; 4]| [v.x, v.y, v.z, v.w].iter().zip(p).all(|(a, b)| *a == b || (a.is_nan() && b.is_nan()));
            cx.check(eq(a + b, [x + y, y + z, z + w, w + x]) && eq(a - b, [x - y, y - z, z - w, w - x]) && eq(a * b, [x * y, y * z, z * w, w * x]) && eq(a / b, [x / y, y / z, z / w, w / x]) && eq(-a, [-x, -y, -z, -w]), "ops", || format!("{a:?} {b:?}"));
            let p = Plane3D { vector: Vector3D { x: w, y: x, z: y }, d: z };
            let d = Vector3D { x, y, z }.distance_from_plane(&p);
            cx.check(d == x * w + y * x + z * y - z || d.is_nan(), "plane", || format!("{x} {y} {z} from {p:?}: {d}"));
        });
        if let Err(p) = r { cx.fail("panic", format!("{x} {y} {z} {w}: {p}")) }
    } });
    ck.items("normalise-odd", &[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, 1e-300, 5e-324], |v| format!("{v:e}"), |v, cx| {
        let v = *v;
        for (x, y, z) in [(v, 0.0, 0.0), (1.0, v, 0.0), (v, v, v), (0.0, -v, 1.0)] {
            cx.step(); cx.state(&[x.to_bits(), y.to_bits(), z.to_bits()]);
            if let Err(p) = guard(|| { Vector3D { x, y, z }.normalize(); Vector2D { x, y }.normalize(); Quaternion { x, y, z, w: v }.normalize(); ColorRGBFloat { red: x, green: y, blue: z }.vector_normalize(); }) { cx.fail("panic", format!("{x} {y} {z}: {p}")) }
        }
    });
    // angles: every 2^16th single precision pattern, and all around whole degrees
    let step = ck.pick(1usize << 16, 1 << 12);
    ck.family("angles", (1usize << 32) / step / 64, |i| format!("{:08x}", i * step * 64), |i, cx| for k in 0..64 {
        let f = f32::from_bits(((i * 64 + k) * step) as u32);
        cx.state(&f.to_bits()); cx.steps(2);
        let a = Angle::from_degrees(f);
        cx.check(Angle::from_radians(f).to_radians().to_bits() == f.to_bits() && f32::from(Angle::from(f)).to_bits() == f.to_bits(), "radians", || format!("{f}"));
        let t = f as f64 * std::f64::consts::PI / 180.0;
        if f.is_finite() && t.abs() > 1e-37 && t.abs() < 3e38 {
            cx.check(((a.to_radians() as f64 - t) / t).abs() < 4e-7, "degrees", || format!("{f} degrees are {} instead of {t}", a.to_radians()));
            let d = a.to_degrees() as f64;
            cx.check(((d - f as f64) / f as f64).abs() < 4e-7, "degrees", || format!("{f} degrees become {d}"));
        }
    });
    // the rest of the arithmetic: everything is what its components are
    let ops: Vec<f64> = vec![0.0, 1.0, -1.0, 0.5, -3.0, 1e10, 0.6, -0.8];
    let o = ops.len();
    ck.family("arithmetic", o * o, |i| format!("{} {}", ops[i / o], ops[i % o]), |i, cx| for z in &ops { for w in &ops {
        let (x, y, z, w) = (ops[i / o], ops[i % o], *z, *w);
        cx.state(&[x.to_bits(), y.to_bits(), z.to_bits(), w.to_bits()]); cx.steps(60); cx.validated();
        let eq = |a: &[f64], b: &[f64]| a.iter().zip(b).all(|(a, b)| a == b || (a.is_nan() && b.is_nan()));
        let r = guard(|| {
            macro_rules! all { ($v:ty, $a:expr, $b:expr, $get:expr, $p:expr) => {{
                let get: fn($v) -> Vec<f64> = $get; let (a, b): (Vec<f64>, Vec<f64>) = $p; let n = stringify!($v);
                let zip = |f: fn(f64, f64) -> f64| a.iter().zip(&b).map(|(x, y)| f(*x, *y)).collect::<Vec<f64>>();
                let (va, vb): ($v, $v) = ($a, $b);
                let forms: [(&str, Vec<$v>, Vec<f64>); 6] = [
                    ("+", vec![va + vb, { let mut t = va; t += vb; t }], zip(|x, y| x + y)),
                    ("-", vec![va - vb, { let mut t = va; t -= vb; t }], zip(|x, y| x - y)),
                    ("*", vec![va * vb, { let mut t = va; t *= vb; t }], zip(|x, y| x * y)),
                    ("/", vec![va / vb, { let mut t = va; t /= vb; t }], zip(|x, y| x / y)),
                    ("scaled", vec![va * w, va.scale(w), { let mut t = va; t *= w; t }], a.iter().map(|x| x * w).collect()),
                    ("neg", vec![-va], a.iter().map(|x| -x).collect()),
                ];
                for (name, got, want) in forms { for g in got { cx.check(eq(&get(g), &want), "arithmetic", || format!("{n} {a:?} {name} {b:?}: {g:?}")); } }
                let sum = |v: Vec<f64>| v.iter().fold(0.0, |s, x| s + x);
                let near = |p: f64, q: f64| p == q || ((p - q) / q).abs() < 1e-12 || (p - q).abs() < 1e-12;
                let dot = sum(zip(|x, y| x * y)); // positive and negative parts can cancel out
                let room = a.iter().zip(&b).map(|(x, y)| (x * y).abs()).sum::<f64>() * 1e-12;
                cx.check((va.dot(&vb) - dot).abs() <= room, "dot", || format!("{n} {a:?} {b:?}: {}", va.dot(&vb)));
                cx.check(near(va.distance_squared(&vb), sum(zip(|x, y| (x - y) * (x - y)))) && va.distance_squared(&vb) == vb.distance_squared(&va), "distance", || format!("{n} {a:?} {b:?}: {}", va.distance_squared(&vb)));
                let len = a.iter().map(|x| x * x).sum::<f64>();
                cx.check(near(va.magnitude_squared(), len), "magnitude", || format!("{n} {a:?}: {}", va.magnitude_squared()));
                cx.check(va.is_unit_vector() == ((len - 1.0).abs() < 1e-5), "unit", || format!("{n} {a:?}: {}", va.is_unit_vector()));
                cx.check(get(<$v>::zero()).iter().all(|x| *x == 0.0) && <$v>::one().is_unit_vector() && near(get(<$v>::one()).iter().map(|x| x * x).sum::<f64>(), 1.0), "constants", || format!("{n}: {:?} {:?}", <$v>::zero(), <$v>::one()));
            }} }
            all!(Vector2D, Vector2D { x, y }, Vector2D { x: z, y: w }, |v| vec![v.x, v.y], (vec![x, y], vec![z, w]));
            all!(Vector3D, Vector3D { x, y, z }, Vector3D { x: w, y: x, z: y }, |v| vec![v.x, v.y, v.z], (vec![x, y, z], vec![w, x, y]));
            all!(Quaternion, Quaternion { x, y, z, w }, Quaternion { x: y, y: z, z: w, w: x }, |v| vec![v.x, v.y, v.z, v.w], (vec![x, y, z, w], vec![y, z, w, x]));
            let p = Plane2D { vector: Vector2D { x: z, y: w }, d: x };
            let d = Vector2D { x, y }.distance_from_plane(&p);
            cx.check((d - (x * z + y * w - x)).abs() <= 1e-12 * ((x * z).abs() + (y * w).abs() + x.abs()), "plane", || format!("{x} {y} from {p:?}: {d}"));
            let (s, t) = (x as f32, y as f32);
            let (a, b) = (Angle::from_radians(s), Angle::from_radians(t));
            for (name, got, want) in [
                ("+", [a + b, { let mut c = a; c += b; c }], s + t), ("-", [a - b, { let mut c = a; c -= b; c }], s - t),
                ("*", [a * b, { let mut c = a; c *= b; c }], s * t), ("/", [a / b, { let mut c = a; c /= b; c }], s / t),
                ("scaled", [a * t, { let mut c = a; c *= t; c }], s * t), ("neg", [-a, -a], -s)
            ] { for g in got { cx.check(eq(&[g.to_radians() as f64], &[want as f64]), "angle", || format!("{s} {name} {t}: {g:?}")); } }
            let c = ColorARGBFloat::from([x, y, z, w]);
            cx.check(eq(&[c.alpha, c.red, c.green, c.blue], &[x, y, z, w]) && c.alpha_float() == x && c.rgb_float() == ColorRGBFloat::from([y, z, w]), "colour", || format!("{x} {y} {z} {w}: {c:?}"));
            let c = ColorRGBFloat::from([x, y, z]);
            cx.check(eq(&[c.red, c.green, c.blue, c.alpha_float()], &[x, y, z, 1.0]) && c.rgb_float() == c && ColorRGBFloat::from_argb_float(&ColorARGBFloat { alpha: w, red: x, green: y, blue: z }) == c, "colour", || format!("{x} {y} {z}: {c:?}"));
        });
        if let Err(p) = r { cx.fail("panic", format!("{x} {y} {z} {w}: {p}")) }
    } });
    // one colour over another: all mixes of forms, both translucent
    let levels: Vec<f64> = ck.pick(vec![0.0, 0.2, 1.0], vec![0.0, 0.2, 0.6, 1.0]);
    let l = levels.len();
    ck.family("blends", l.pow(4), |i| format!("{:?}", digits(i, &[l, l, l, l]).iter().map(|d| levels[*d]).collect::<Vec<_>>()), |i, cx| {
        let d = digits(i, &[l, l, l, l]);
        let under = ColorARGBFloat { alpha: levels[d[0]], red: levels[d[1]], green: levels[d[2]], blue: levels[d[3]] };
        for j in 0..l.pow(4) {
            let e = digits(j, &[l, l, l, l]);
            let over = ColorARGBFloat { alpha: levels[e[0]], red: levels[e[1]], green: levels[e[2]], blue: levels[e[3]] };
            cx.state(&(i, j)); cx.steps(5); cx.validated();
            let blend = under.alpha * (1.0 - over.alpha);
            let w = [over.alpha + blend, over.red * over.alpha + under.red * blend, over.green * over.alpha + under.green * blend, over.blue * over.alpha + under.blue * blend];
            let r = guard(|| {
                let m = under.alpha_blend(&over);
                cx.check([m.alpha, m.red, m.green, m.blue].iter().zip(w).all(|(a, b)| same(*a, b)), "blend", || format!("{over:?} over {under:?}: {m:?}"));
                // 0, 51, 153 and 255: whole numbers, so that the forms in integers are just as good
                let byte = |c: &ColorARGBFloat| { let f = |x: f64| (x * 255.0).round() as u8; ColorARGBIntBytes { alpha: f(c.alpha), red: f(c.red), green: f(c.green), blue: f(c.blue) } };
                let (u, o) = (byte(&under), byte(&over));
                let close = |m: ColorARGBIntBytes| [m.alpha, m.red, m.green, m.blue].iter().zip(w).all(|(a, b)| (*a as f64 - b * 255.0).abs() <= 1.0);
                let (x, y, z) = (u.alpha_blend(&over), ColorARGBInt::from(u).alpha_blend(&o), u.alpha_blend(&ColorARGBInt::from(o)));
                cx.check(close(x) && close(y.into()) && close(z), "blend", || format!("{o} over {u}: {x} {y} {z}"));
                let s = under.alpha_blend(&over.rgb_float());
                cx.check(s == ColorARGBFloat { alpha: 1.0, ..over }, "opaque", || format!("{over:?} over {under:?}: {s:?}"));
            });
            if let Err(p) = r { cx.fail("panic", format!("{over:?} over {under:?}: {p}")) }
        }
    });
    ck.finish();
}
