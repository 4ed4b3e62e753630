//! P17: a tag extracted from a cache file is the tag which was put there. needs: invader-mc
use mc::mapbuild::*;
use mc::maptool::*;
use mc::refser::*;
use mc::treeval::*;
use mc::vertex::*;
use mc::*;
use ringhopper::primitives::tag::ParseStrictness;
use ringhopper::primitives::dynamic::DynamicEnumImpl;

fn main() {
    let mut ck = Check::new("P17");
    let all: Vec<&str> = { let mut v: Vec<&str> = spec().engines.keys().map(|s| s.as_str()).collect(); v.sort(); v };
    let engines: Vec<&str> = if ck.quick() { vec!["pc-demo", "pc-custom", "mcc-cea", "pc-0268", "xbox", "mac-retail"] } else { all.clone() };
    let kinds = ["pc-retail", "mcc-cea", "pc-0268", "xbox"];

    // ---- every field of every group ----
    let mut cases = vec![];
    for e in &engines { for g in groups() { for count in 0..=ck.pick(2, 3) { for rot in std::iter::once(None).chain((0..ck.pick(5, 17)).map(Some)) { if count == 0 && rot.is_some() { continue } cases.push((*e, g, count, rot)) } } } }
    ck.items("every field", &cases, |c: &(&str, &str, usize, Option<usize>)| format!("{} {} {} {:?}", c.0, c.1, c.2, c.3), |(e, g, count, rot), cx| {
        let t = distinct(g, *count, *rot);
        let p = match *g { "scenario" => SC, "scenario_structure_bsp" => BSP, _ => "a\\tag" };
        let s = rot.unwrap_or(7) + count;
        all_back(cx, e, &[(p, t)], &How::default(), |b| { b.null_zero = s % 2 == 1; b.array_last = s % 3 == 0; b.bsp_below = s % 4 == 1; b.hole = s % 5 != 0; b.spill = s % 3 == 1 });
    });

    // ---- values which are counted in ticks ----
    let mut cases = vec![];
    for g in groups() { let mut t = distinct(g, 2, None); for (p, _) in times(&mut t) { for chunk in 0..ck.pick(8, 40) { cases.push((g, p.clone(), chunk)) } } }
    for chunk in 0..ck.pick(8, 40) { cases.push(("sound", "maximum_bend_rate".into(), chunk)) }
    ck.items("times", &cases, |c: &(&str, String, usize)| format!("{} {} {}", c.0, c.1, c.2), |(g, p, chunk), cx| {
        let decimals: Vec<f32> = (0..32usize).map(|i| { let k = chunk * 32 + i; match k % 4 { 0 => k as f32 / 10.0, 1 => k as f32 / 100.0, 2 => k as f32 * 3.0, _ => (k * 7919 % 1000000) as f32 / 1000.0 } }).collect();
        for x in decimals {
            let mut t = distinct(g, 2, None);
            // rates are roots, so they come back as far as six digits of what was stored tell
            if *g == "sound" { if !(0.1..4.0).contains(&x) { continue } t.set_floats(p, &[x]); let c = (x as f64).powf(1.0 / 30.0) as f32; let mut w = t.clone(); w.set_floats(p, &[six((c as f64).powf(30.0)) as f32]); back(cx, "pc-retail", &t, &w); continue }
            t.set_floats(p, &[x]);
            if p.contains("up_time") || p.contains("fade_in") { let (u, f) = (p.replace("fade_in_time", "up_time"), p.replace("up_time", "fade_in_time")); let x = x.max(1.0).min(500.0); t.set_floats(&u, &[x]); t.set_floats(&f, &[x]); }
            let q = if *g == "scenario" { SC } else { "a\\tag" };
            if !all_back(cx, "xbox", &[(q, t)], &How::default(), |_| ()) { break }
        }
    });

    // ---- patches of the campaign's weapons ----
    let mut cases = vec![];
    for e in kinds { for g in ["weapon", "damage_effect", "continuous_damage_effect", "equipment"] { for p in ["weapons\\pistol\\pistol", "weapons\\plasma rifle\\plasma rifle", "weapons\\pistol\\bullet", "weapons\\pistol\\pistol2", "pistol"] { for kind in ["singleplayer", "multiplayer", "user_interface"] { for off in [false, true] { for n in 0..3 { cases.push((e, g, p, kind, off, n)) } } } } } }
    ck.items("patches", &cases, |c| format!("{c:?}"), |(e, g, p, kind, off, n), cx| {
        let t = distinct(g, *n, None);
        let mut s = scenario();
        s.set_enum("type", kind); s.set_flag("flags", "do_not_apply_bungie_campaign_tag_patches", *off);
        s.set_bytes("script_syntax_data", &table(0, 0));
        let mut w = t.clone();
        let deg = |d: f64| (d * std::f64::consts::PI / 180.0) as f32;
        if *kind == "singleplayer" && !off {
            if *g == "weapon" && *n > 0 {
                let (a, lo, hi) = ("triggers[0].minimum_error", "triggers[0].error_angle.lower", "triggers[0].error_angle.upper");
                if *p == "weapons\\pistol\\pistol" { w.set_floats(a, &[0.0]); w.set_floats(lo, &[deg(0.2)]); w.set_floats(hi, &[deg(2.0)]) }
                if *p == "weapons\\plasma rifle\\plasma rifle" { w.set_floats(lo, &[deg(0.5)]); w.set_floats(hi, &[deg(5.0)]) }
            }
            if *g == "damage_effect" && *p == "weapons\\pistol\\bullet" { w.set_floats("damage.modifiers.elite_energy_shield", &[1.0]) }
        }
        let b = world(e, &[(p, t), (SC, s.clone())], &How::default(), |b| b.scenario_type = match *kind { "singleplayer" => 0, "multiplayer" => 1, _ => 2 });
        cx.state(&b.map);
        match load(&engine(e), &b, ParseStrictness::Strict) { Err(x) => cx.fail("load", x), Ok(m) => { compare(cx, &m, p, &w); compare(cx, &m, SC, &s); } }
    });

    // ---- weights of colours ----
    let steps = ck.pick(10u32, 20);
    let mut cases: Vec<Vec<u32>> = vec![vec![0], vec![3]];
    fn shares(n: usize, left: u32, cur: &mut Vec<u32>, out: &mut Vec<Vec<u32>>) { if n == 1 { cur.push(left); out.push(cur.clone()); cur.pop(); return } for k in 0..=left { cur.push(k); shares(n - 1, left - k, cur, out); cur.pop(); } }
    for n in 2..=ck.pick(4, 5) { shares(n, steps, &mut vec![], &mut cases) }
    ck.items("weights", &cases, |c: &Vec<u32>| format!("{c:?}"), |c, cx| {
        for g in ["projectile", "scenery", "vehicle", "weapon"] {
            let o = object_prefix(g).unwrap();
            let mut t = T::new(g);
            t.grow(&format!("{o}change_colors"), 2);
            let p = format!("{o}change_colors[1].permutations");
            t.grow(&p, c.len());
            let n = c.len();
            let w = |k: usize| c[k] as f32 / steps as f32;
            let mut want = t.clone();
            let equal = (0..n).all(|k| (w(k) as f64 * n as f64 - 1.0).abs() <= 0.001);
            for k in 0..n {
                let q = format!("{p}[{k}]");
                for t in [&mut t, &mut want] { for b in ["lower", "upper"] { t.set_floats(&format!("{q}.color.{b}"), &[k as f32, 0.5, 0.25]) } }
                t.set_floats(&format!("{q}.weight"), &[w(k)]);
                want.set_floats(&format!("{q}.weight"), &[if n == 1 || equal { 1.0 } else { w(k) }]);
            }
            back(cx, "pc-custom", &t, &want);
        }
    });
    // numbers in a map which cannot be partial sums
    let vals = [0.0f32, 0.25, 0.5, 1.0, -0.25, 1.5, f32::NAN, f32::INFINITY, f32::MIN_POSITIVE];
    let n = ck.pick(3, 4);
    ck.family("partial weights", vals.len().pow(n as u32), |i| format!("{:?}", digits(i, &vec![vals.len(); n])), |i, cx| {
        let d = digits(i, &vec![vals.len(); n]);
        for len in 2..=n {
            let v: Vec<f32> = d[..len].iter().map(|k| vals[*k]).collect();
            let ok = v.iter().all(|x| (0.0..=1.0).contains(x)) && v.windows(2).all(|w| w[0] <= w[1]) && v[len - 1] == 1.0;
            let mut b = Builder::new("pc-retail", SC);
            let mut t = T::new("vehicle");
            t.grow("unit.object.change_colors", 1).grow("unit.object.change_colors[0].permutations", len);
            for k in 0..len { t.set_floats(&format!("unit.object.change_colors[0].permutations[{k}].weight"), &[v[k]]) }
            b.add("vehicle", "a\\tag", Body::Tree(t.v)).add("scenario", SC, Body::Tree(scenario().v)).add("scenario_structure_bsp", BSP, Body::Tree(blank("ScenarioStructureBSP")));
            let b = b.build();
            cx.state(&b.map); cx.step(); cx.validated();
            match load(&engine("pc-retail"), &b, ParseStrictness::Strict) { Err(x) => cx.fail("load", x), Ok(m) => { let r = extract(&m, "a\\tag", "vehicle"); cx.check(r.is_ok() == ok, "weights", || format!("{v:?}: {}", if ok { r.unwrap_err() } else { "accepted".into() })); } }
        }
    });

    // ---- bitmaps ----
    #[derive(Clone, Debug)]
    struct Image { w: usize, h: usize, d: usize, cube: bool, mips: usize, f: &'static str }
    let mut images: Vec<Image> = vec![];
    for f in FORMATS { for (w, h) in [(1, 1), (2, 1), (1, 4), (4, 4), (8, 4), (4, 16), (16, 16), (6, 10), (3, 5)] { for (d, cube) in [(1, false), (2, false), (4, false), (1, true)] { for mips in [0usize, 1, 2, 4, 9] { if cube && w != h { continue } images.push(Image { w, h, d, cube, mips, f }) } } } }
    let set = |t: &mut T, l: &[Image], modulo: bool| -> bool {
        let mut pixels = vec![];
        for (i, m) in l.iter().enumerate() {
            t.grow("bitmap_data", 1);
            let p = |f: &str| format!("bitmap_data[{i}].{f}");
            let (_, bl) = format(m.f);
            let mut ls = levels(m.w, m.h, m.d, m.mips, m.f);
            if modulo {
                if m.w % bl != 0 || m.h % bl != 0 { return false }
                if !(m.w.is_power_of_two() && m.h.is_power_of_two()) { return false }
                let keep = ls.iter().take_while(|l| l.0[0] % bl == 0 && l.0[1] % bl == 0).count();
                ls.truncate(keep);
            }
            t.set_int(&p("width"), m.w as u64); t.set_int(&p("height"), m.h as u64); t.set_int(&p("depth"), m.d as u64);
            t.set_int(&p("mipmap_count"), if modulo { ls.len() as u64 - 1 } else { m.mips as u64 });
            t.set_enum(&p("format"), m.f); t.set_enum(&p("type"), if m.cube { "cube_map" } else if m.d > 1 { "3d_texture" } else { "2d_texture" });
            t.set_flag(&p("flags"), "compressed", bl > 1); t.set_flag(&p("flags"), "linear", i == 1);
            t.set_int(&p("pixel_data_offset"), pixels.len() as u64);
            t.set_bytes(&p("signature"), b"bitm");
            let n: usize = ls.iter().map(|l| l.1).sum::<usize>() * if m.cube { 6 } else { 1 };
            for k in 0..n { let k = pixels.len() as u32 + k as u32 * 0; pixels.push((k.wrapping_mul(2654435761) >> 13) as u8 ^ (k >> 8) as u8) }
        }
        t.set_bytes("processed_pixel_data", &pixels);
        true
    };
    let bitmap_engines: Vec<&str> = if ck.quick() { vec!["pc-retail", "xbox"] } else { kinds.to_vec() };
    ck.items("bitmaps", &images, |m: &Image| format!("{m:?}"), |m, cx| {
        for e in &bitmap_engines { for how in 0..8 {
            let eng = engine(e);
            let mut t = T::new("bitmap");
            if !set(&mut t, &[m.clone()], eng.modulo_blocks) { continue }
            let how = How { external: how & 1 == 1, linear: how & 2 == 2, more_mipmaps: if how & 4 == 4 { 3 } else { 0 }, trailing: how >> 2, ..Default::default() };
            if eng.xbox && how.external || !eng.swizzled && (how.linear || how.more_mipmaps > 0) { continue }
            // not known how those would be swizzled
            if eng.swizzled && !how.linear && m.d > 1 && format(m.f).1 == 1 && (m.d != m.w || m.d != m.h) { continue }
            // more levels than there are: only where small ones are left out
            if eng.modulo_blocks && how.more_mipmaps > 0 && format(m.f).1 == 1 && levels(m.w, m.h, m.d, m.mips + 3, m.f).len() != levels(m.w, m.h, m.d, m.mips, m.f).len() { continue }
            if eng.modulo_blocks && how.more_mipmaps > 0 && format(m.f).1 == 4 { let l = levels(m.w, m.h, m.d, t.int("bitmap_data[0].mipmap_count") as usize + 1, m.f); let x = l.last().unwrap().0; if l.len() > t.int("bitmap_data[0].mipmap_count") as usize + 1 && x[0] % 4 == 0 && x[1] % 4 == 0 { continue } }
            if !all_back(cx, e, &[("a\\b", t)], &how, |_| ()) { return }
        } }
    });
    let few: Vec<Image> = images.iter().filter(|m| ["a8", "r5g6b5", "dxt1", "a8r8g8b8"].contains(&m.f) && [(4, 4), (8, 4)].contains(&(m.w, m.h)) && [0, 2].contains(&m.mips)).cloned().collect();
    ck.family("several images", few.len() * few.len(), |i| format!("{:?} {:?}", few[i / few.len()], few[i % few.len()]), |i, cx| {
        for e in &bitmap_engines {
            let mut t = T::new("bitmap");
            let l = [few[i / few.len()].clone(), few[i % few.len()].clone(), few[i * 7 % few.len()].clone()];
            if engine(e).swizzled && l.iter().any(|m| m.d > 1 && format(m.f).1 == 1 && (m.d != m.w || m.d != m.h)) { continue }
            if !set(&mut t, &l[..2 + i % 2], engine(e).modulo_blocks) { continue }
            if !all_back(cx, e, &[("a\\b", t)], &How { external: i % 3 == 0 && *e != "xbox", ..Default::default() }, |_| ()) { return }
        }
    });

    // descriptions of bitmaps which contradict themselves or their data
    const FAULTS: [&str; 22] = ["none", "compressed", "swizzled", "no width", "no height", "no depth", "depth of a 2D texture", "depth which is no power of two", "one unit more", "one unit less", "one byte more", "one byte less", "no data", "behind the end", "everything", "width of no block", "height of no block", "a mipmap more", "twice as wide", "twice as high", "taken for a cube map", "taken for no cube map"];
    let shapes = [(8usize, 8usize, 1usize, false), (16, 8, 1, false), (8, 8, 8, false), (8, 8, 1, true), (16, 16, 1, true), (4, 4, 1, false)];
    ck.family("refused bitmaps", FAULTS.len() * FORMATS.len() * shapes.len() * kinds.len() * 3 * 2, |i| { let d = digits(i, &[FAULTS.len(), FORMATS.len(), shapes.len(), kinds.len(), 3, 2]); format!("{} {} {:?} {} {} {}", FAULTS[d[0]], FORMATS[d[1]], shapes[d[2]], kinds[d[3]], d[4], d[5]) }, |i, cx| {
        let d = digits(i, &[FAULTS.len(), FORMATS.len(), shapes.len(), kinds.len(), 3, 2]);
        let (fault, f, (w, h, depth, cube), e, mips, external) = (FAULTS[d[0]], FORMATS[d[1]], shapes[d[2]], kinds[d[3]], d[4], d[5] == 1);
        let eng = engine(e);
        if eng.xbox && external { return }
        let bl = format(f).1;
        let odd = fault == "depth which is no power of two";
        if odd && depth == 1 { return }
        let mut t = T::new("bitmap");
        if !set(&mut t, &[Image { w, h, d: if odd { 3 } else { depth }, cube, mips, f }], eng.modulo_blocks) { return }
        let mut b = Builder::new(e, SC);
        let v = compile(&mut b, &t, &How { external, linear: odd, ..Default::default() });
        let mut c = T { group: "bitmap", v };
        let q = |n: &str| format!("bitmap_data[0].{n}");
        let size = c.int(&q("pixel_data_size"));
        let a = eng.alignment.max(1) as u64;
        // what the description asks for: everything of the levels there are, to the next unit, for each face if they are apart
        let asked = |c: &mut T| -> u64 {
            let (w, h, d, m, cube) = (c.int(&q("width")) as usize, c.int(&q("height")) as usize, c.int(&q("depth")) as usize, c.int(&q("mipmap_count")) as usize, c.enum_name(&q("type")) == "cube_map");
            let n: usize = levels(w, h, d, m, f).iter().take_while(|l| !eng.modulo_blocks || l.0[0] % bl == 0 && l.0[1] % bl == 0).map(|l| l.1).sum();
            let up = |n: u64| n.div_ceil(a) * a;
            if cube && eng.split_faces { up(n as u64) * 6 } else { up(n as u64 * if cube { 6 } else { 1 }) }
        };
        let mut ok = false;
        match fault {
            "none" => ok = true,
            "compressed" => { let x = c.flag(&q("flags"), "compressed"); c.set_flag(&q("flags"), "compressed", !x) }
            "swizzled" => { if eng.swizzled && bl == 1 { return } c.set_flag(&q("flags"), "swizzled", true) }
            "no width" => c.set_int(&q("width"), 0),
            "no height" => c.set_int(&q("height"), 0),
            "no depth" => c.set_int(&q("depth"), 0),
            "depth of a 2D texture" => { if depth > 1 { return } c.set_int(&q("depth"), 2); c.set_int(&q("pixel_data_size"), size) }
            "depth which is no power of two" => (),
            "one unit more" => { if eng.modulo_blocks && !cube { return } c.set_int(&q("pixel_data_size"), size + a) }
            "one unit less" => c.set_int(&q("pixel_data_size"), size - a),
            "one byte more" => c.set_int(&q("pixel_data_size"), size + 1),
            "one byte less" => c.set_int(&q("pixel_data_size"), size - 1),
            "no data" => c.set_int(&q("pixel_data_size"), 0),
            "behind the end" => c.set_int(&q("pixel_data_offset"), 0x7FFF_FF00),
            "everything" => { c.set_int(&q("pixel_data_offset"), 0xFFFF_FFFF); c.set_int(&q("pixel_data_size"), 0xFFFF_FFFF) }
            "width of no block" => { if !eng.modulo_blocks || bl == 1 { return } c.set_int(&q("width"), w as u64 - 1) }
            "height of no block" => { if !eng.modulo_blocks || bl == 1 { return } c.set_int(&q("height"), h as u64 - 2) }
            // those are known by the data which they ask for
            _ => {
                match fault {
                    "a mipmap more" => { let m = c.int(&q("mipmap_count")); c.set_int(&q("mipmap_count"), m + 1) }
                    "twice as wide" => c.set_int(&q("width"), w as u64 * 2),
                    "twice as high" => c.set_int(&q("height"), h as u64 * 2),
                    "taken for a cube map" => { if cube || depth > 1 { return } c.set_enum(&q("type"), "cube_map") }
                    _ => { if !cube { return } c.set_enum(&q("type"), "2d_texture") }
                }
                // those which are swizzled have to be of known kinds
                if eng.swizzled && bl == 1 && depth > 1 { return }
                let n = asked(&mut c);
                ok = if eng.modulo_blocks && !(eng.split_faces && c.enum_name(&q("type")) == "cube_map") { size >= n } else { size == n };
            }
        }
        b.add("bitmap", "a\\b", Body::Tree(c.v)).add("scenario", SC, Body::Tree(scenario().v)).add("scenario_structure_bsp", BSP, Body::Tree(blank("ScenarioStructureBSP")));
        let b = b.build();
        cx.state(&b.map); cx.step(); cx.validated();
        match load(&eng, &b, ParseStrictness::Strict) {
            Err(x) => cx.fail("load", x),
            Ok(m) => match extract(&m, "a\\b", "bitmap") { Err(x) if x.starts_with("panic") => cx.fail("panic", x), r => { cx.check(r.is_ok() == ok, "bitmap", || if ok { r.unwrap_err() } else { "accepted".into() }); } },
        }
    });

    // lists of tags which contradict themselves
    const LISTS: [&str; 15] = ["none", "two scenarios", "scenario twice", "other index", "no ID", "path behind the end", "structure BSP of no scenario", "no scenario ID", "ID of an empty place", "other scenario", "structure BSP twice", "structure BSP behind the end", "structure BSP of no size", "a tag less", "no longer there"];
    ck.family("refused maps", LISTS.len() * engines.len() * 2, |i| { let d = digits(i, &[LISTS.len(), engines.len(), 2]); format!("{} {} {}", LISTS[d[0]], engines[d[1]], d[2]) }, |i, cx| {
        let d = digits(i, &[LISTS.len(), engines.len(), 2]);
        let (fault, e, hole) = (LISTS[d[0]], engines[d[1]], d[2] == 1);
        let eng = engine(e);
        let mut b = Builder::new(e, SC);
        b.hole = hole;
        let mut s = scenario();
        if fault == "structure BSP twice" { s.grow("structure_bsps", 2); *s.at("structure_bsps[1].structure_bsp") = Val::Ref("scenario_structure_bsp".into(), Some(BSP.into())) }
        let w = distinct("weapon", 1, Some(i));
        let mut w = w; each_field(w.strukt(), &mut w.v, &mut |_, x| if let Val::Ref(_, p) = x { *p = None });
        let v = compile(&mut b, &w, &How::default());
        b.add("scenario", SC, Body::Tree(s.v)).add("weapon", "a\\tag", Body::Tree(v)).add("scenario_structure_bsp", BSP, Body::Tree(blank("ScenarioStructureBSP")));
        if fault == "two scenarios" { b.add("scenario", "a\\other", Body::Tree(blank("Scenario"))); }
        if fault == "structure BSP of no scenario" { b.add("scenario_structure_bsp", "a\\bsp", Body::Tree(blank("ScenarioStructureBSP"))); }
        let mut b = b.build();
        let n = hole as usize;
        let (td, ar) = (b.layout.tag_data.0, b.layout.array);
        let count = u32::from_le_bytes(b.map[td + 12..td + 16].try_into().unwrap());
        let entry = |k: usize| ar + 32 * (n + k);
        let bsp = spec().structs["Scenario"].fields[field("Scenario", "structure_bsps")].offset;
        let bsps = { let at = b.layout.tags[0] + bsp + 4; u32::from_le_bytes(b.map[at..at + 4].try_into().unwrap()).wrapping_sub(b.layout.base) as usize + td };
        let off = |f: &str| spec().structs["ScenarioBSP"].fields[field("ScenarioBSP", f)].offset;
        let mut p = |o: usize, v: u32| b.map[o..o + 4].copy_from_slice(&v.to_le_bytes());
        let (mut ok, mut gone) = (false, false);
        match fault {
            "none" => ok = true,
            "scenario twice" => { p(entry(1), 0x73636E72); let name = b.map[entry(0) + 16..entry(0) + 20].to_vec(); b.map[entry(1) + 16..entry(1) + 20].copy_from_slice(&name) }
            "other index" => p(entry(1) + 12, id(n)),
            "no ID" => p(entry(1) + 12, 0xFFFF_FFFF),
            "path behind the end" => p(entry(1) + 16, 0xFFFF_FFF0),
            "no scenario ID" => p(td + 4, 0xFFFF_FFFF),
            "ID of an empty place" => { if !hole { return } p(td + 4, id(0)) }
            "other scenario" => p(td + 4, id(n + 1)),
            "structure BSP behind the end" => p(bsps + off("bsp_start"), 0x7FFF_FF00),
            "structure BSP of no size" => p(bsps + off("bsp_size"), 0),
            "a tag less" => p(td + 12, count - 3),
            "no longer there" => { b.map[entry(1)..entry(1) + 4].fill(0xff); (ok, gone) = (true, true) }
            _ => (),
        }
        cx.state(&b.map);
        cx.step(); cx.validated();
        match load(&eng, &b, ParseStrictness::Relaxed) {
            Err(x) if x.starts_with("panic") => cx.fail("panic", x),
            Err(x) => { cx.check(!ok, "load", || x); }
            Ok(m) => if fault == "structure BSP of no size" { cx.check(extract(&m, BSP, "scenario_structure_bsp").is_err(), "accepted", || String::new()); }
                else if cx.check(ok, "accepted", || String::new()) { if gone { cx.check(m.get_tag(&path("a\\tag", "weapon")).is_none() && m.get_all_tags().len() == 2, "gone", || format!("{:?}", m.get_all_tags().len())); } else { compare(cx, &m, "a\\tag", &w); } },
        }
    });

    // ---- models ----
    let mut cases = vec![];
    for e in kinds { for g in ["model", "gbxmodel"] { for nodes in [1usize, 2, 42, 43] { for local in [false, true] { if local && g == "model" { continue } for verts in [0usize, 1, 2, 5] { for tris in [0usize, 1, 2, 3] { for end in 0..3usize { if tris <= 1 && end > 0 { continue } for shape in 0..ck.pick(3, 6) { cases.push((e, g, nodes, local, verts, tris, end, shape)) } } } } } } } }
    ck.items("models", &cases, |c| format!("{c:?}"), |&(e, g, nodes, local, verts, tris, end, shape), cx| {
        let eng = engine(e);
        let mut t = T::new(g);
        t.grow("nodes", nodes);
        if local { t.set_flag("flags", "parts_have_local_nodes", true) }
        for (i, n) in [[1usize, 1, 0], [0, 2, 1], [3, 0, 0], [1, 0, 2], [2, 2, 2], [0, 0, 1]][shape].iter().enumerate() {
            t.grow("geometries", 1).grow(&format!("geometries[{i}].parts"), *n);
        }
        for (k, (part, p)) in parts(&mut t).into_iter().enumerate() {
            if g == "gbxmodel" { t.set_int(&format!("{part}.local_node_count"), 3); for (i, n) in [4u64, 0, 1].iter().enumerate() { t.set_int(&format!("{part}.local_node_indices[{i}]"), *n) } }
            let list: Vec<Val> = (0..verts + k % 2).map(|i| {
                let mut d = Distinct::new(1); d.next = (k * 100 + i * 11 + 1) as u32;
                let mut v = generate("ModelVertexUncompressed", &mut vec![], &mut d);
                let Val::Struct(f) = &mut v else { panic!() };
                let node = |n: usize| Val::Leaf((n as u16).to_be_bytes().to_vec());
                f[5] = node((i + k) % nodes.min(2)); f[6] = node(if i % 2 == 0 { 0xffff } else { nodes.min(41) - 1 });
                f[7] = Val::Leaf(f32b(&[[1.0, 0.5, 0.75][i % 3]])); f[8] = Val::Leaf(f32b(&[[0.0, 0.5, 0.25][i % 3]]));
                for j in 1..4 { f[j] = Val::Leaf(f32b(&[(i as f32 - 2.0) / 8.0, (j as f32) / 16.0, -0.5])) }
                f[4] = Val::Leaf(f32b(&[i as f32 / 16.0, 0.25]));
                v
            }).collect();
            if eng.compressed { *t.list(&format!("{p}.compressed_vertices")) = list.iter().map(compress_model).collect() } else { *t.list(&format!("{p}.uncompressed_vertices")) = list }
            t.grow(&format!("{p}.triangle_data"), tris);
            for i in 0..tris * 3 { t.set_index(&format!("{p}.triangle_data[{}].indices[{}]", i / 3, i % 3), Some(if i < tris * 3 - end { (i * 5 + k) as u16 } else { 0xffff })) }
            if tris > 0 { t.set_int(&format!("{p}.triangle_count"), (tris * 3 - end - 2) as u64) }
        }
        let mut w = t.clone();
        for (_, p) in parts(&mut w) { w.set_int(&format!("{p}.triangle_count"), 0) }
        work(&mut w, if eng.compressed { Op::Uncompressed } else { Op::Compressed });
        let b = world(e, &[("a\\tag", t)], &How::default(), |_| ());
        cx.state(&b.map);
        match load(&eng, &b, ParseStrictness::Strict) { Err(x) => cx.fail("load", x), Ok(m) => { compare(cx, &m, "a\\tag", &w); } }
    });
    // markers: in maps grouped by name
    let n = ck.pick(3, 4);
    ck.family("markers", 8usize.pow(n as u32), |i| format!("{:?}", digits(i, &vec![8; n])), |i, cx| {
        // each marker: which of two names, of two regions, of two permutations
        let d = digits(i, &vec![8; n]);
        for (e, g) in [("pc-retail", "gbxmodel"), ("xbox", "model")] {
            let mut t = T::new(g);
            t.grow("nodes", 3).grow("regions", 2);
            for r in 0..2 { t.grow(&format!("regions[{r}].permutations"), 2); }
            // in the order in which they come out: by name
            let first = *d.iter().min_by_key(|m| (*m >> 1 & 1, *m >> 2, *m & 1)).unwrap() & 1;
            for name in [first, 1 - first] { for (k, m) in d.iter().enumerate() {
                if m & 1 != name { continue }
                let q = format!("regions[{}].permutations[{}].markers", m >> 1 & 1, m >> 2);
                t.grow(&q, 1);
                let f = |t: &mut T, n: &str| { let l = t.len(&q); format!("{q}[{}].{n}", l - 1) };
                let p = f(&mut t, "name"); t.set_string(&p, ["one", "Two"][name]);
                let p = f(&mut t, "node_index"); t.set_int(&p, k as u64 % 3);
                let p = f(&mut t, "translation"); t.set_floats(&p, &[k as f32, 1.0, 2.0]);
                let p = f(&mut t, "rotation"); t.set_floats(&p, &[0.0, k as f32, 0.0, 1.0]);
            } }
            // names come in the order of where they are first
            if !all_back(cx, e, &[("a\\tag", t)], &How::default(), |_| ()) { return }
        }
    });
    // markers of what is not there
    ck.family("lost markers", 3 * 3 * 3, |i| format!("{:?}", digits(i, &[3, 3, 3])), |i, cx| {
        let d = digits(i, &[3, 3, 3]);
        for (e, g) in [("pc-retail", "gbxmodel"), ("xbox", "model")] {
            let mut t = T::new(g);
            t.grow("nodes", 2).grow("regions", 2);
            for r in 0..2 { t.grow(&format!("regions[{r}].permutations"), 2); }
            t.grow("runtime_markers", 1).grow("runtime_markers[0].instances", 1);
            for (f, v) in ["node_index", "region_index", "permutation_index"].iter().zip(&d) { t.set_int(&format!("runtime_markers[0].instances[0].{f}"), *v as u64 + if *v == 2 { 253 * (i % 2) as u64 } else { 0 }) }
            let ok = d.iter().all(|v| *v < 2);
            if !ok { refused(cx, e, &[("a\\tag", t)], 0, |_| ()) } else {
                let mut w = t.clone();
                w.list("runtime_markers").clear();
                let q = format!("regions[{}].permutations[{}].markers", d[1], d[2]);
                w.grow(&q, 1); w.set_int(&format!("{q}[0].node_index"), d[0] as u64);
                let b = world(e, &[("a\\tag", t)], &How::default(), |_| ());
                cx.state(&b.map);
                match load(&engine(e), &b, ParseStrictness::Strict) { Err(x) => cx.fail("load", x), Ok(m) => { compare(cx, &m, "a\\tag", &w); } }
            }
        }
    });

    // ---- structure BSPs ----
    let sizes: Vec<(usize, usize)> = (0..=ck.pick(2, 4)).flat_map(|r| (0..=ck.pick(2, 4)).map(move |l| (r, l))).collect();
    ck.family("materials", sizes.len() * sizes.len() * 3, |i| format!("{:?} {:?} {}", sizes[i / 3 % sizes.len()], sizes[i / 3 / sizes.len()], i % 3), |i, cx| {
        let (a, b, shape) = (sizes[i / 3 % sizes.len()], sizes[i / 3 / sizes.len()], i % 3);
        for e in kinds { for bits in 0..4 {
            let eng = engine(e);
            let mut t = T::new("scenario_structure_bsp");
            t.grow("lightmaps", 1 + shape);
            let mut w = t.clone();
            let mut k = 0;
            for l in 0..1 + shape { for m in 0..(2 - shape.min(1)) {
                for t in [&mut t, &mut w] { t.grow(&format!("lightmaps[{l}].materials"), 1); }
                let (r, n) = [a, b][k % 2];
                k += 1;
                let mut x = 0u32;
                let mut byte = |_| { x = x.wrapping_add(1 + k as u32 * 77).wrapping_mul(1664525).wrapping_add(1013904223); (x >> 24) as u8 };
                let p = format!("lightmaps[{l}].materials[{m}]");
                for t in [&mut t, &mut w] { t.set_int(&format!("{p}.rendered_vertices.vertex_count"), r as u64); t.set_int(&format!("{p}.lightmap_vertices.vertex_count"), n as u64) }
                let make = |v: Vec<f32>| v.iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<u8>>();
                let (mut plain, mut small) = (vec![], vec![]);
                if eng.compressed {
                    for _ in 0..r { let v: Vec<u8> = (0..32).map(|j| if j < 12 || j > 23 { (j * 3 + 1) as u8 & 0x3f } else { byte(j) }).collect(); plain.extend(decompress_rendered(&v)); small.extend(v) }
                    for _ in 0..n { let v: Vec<u8> = (0..8).map(&mut byte).collect(); plain.extend(decompress_lightmap(&v)); small.extend(v) }
                } else {
                    let mut f = || byte(0) as f32 / 128.0 - 1.0;
                    for _ in 0..r { let v = make((0..14).map(|_| f()).collect()); small.extend(compress_rendered(&v)); plain.extend(v) }
                    for _ in 0..n { let v = make((0..5).map(|_| f()).collect()); small.extend(compress_lightmap(&v)); plain.extend(v) }
                }
                for t in [&mut t, &mut w] { t.set_bytes(&format!("{p}.uncompressed_vertices"), &plain); t.set_bytes(&format!("{p}.compressed_vertices"), &small) }
            } }
            let mut s = scenario();
            // another one beside it
            s.grow("structure_bsps", 1);
            *s.at("structure_bsps[1].structure_bsp") = Val::Ref("scenario_structure_bsp".into(), Some("levels\\test\\other".into()));
            let mut o = T::new("scenario_structure_bsp"); o.set_floats("vehicle_floor", &[7.0]);
            s.set_bytes("script_syntax_data", &table(0, 0));
            let tags = [(BSP, t), (SC, s), ("levels\\test\\other", o)];
            // as many lightmap vertices as others, if any
            let used = if shape == 0 && b != a { 2 } else { k.min(2) };
            if [a, b][..used].iter().any(|x| x.1 != 0 && x.1 != x.0) { refused(cx, e, &tags, 0, |_| ()); continue }
            if !all_back(cx, e, &tags, &How::default(), |b| { b.bsp_below = bits & 1 == 1; b.spill = bits & 2 == 2; if bits == 3 { b.loose_vertices = false } }) { return }
        } }
    });
    // heights of detail objects are stored less their collection's offset
    let cells: Vec<(u32, u32)> = vec![(0, 0), (1, 0), (0b101, 1), (0x8000_0000, 0), (0b10, 2), (0b111, 0)];
    ck.family("detail objects", cells.len() * cells.len() * 7, |i| format!("{:?} {:?} {}", cells[i % cells.len()], cells[i / cells.len() % cells.len()], i / cells.len() / cells.len()), |i, cx| {
        let (a, b, palette) = (cells[i % cells.len()], cells[i / cells.len() % cells.len()], i / cells.len() / cells.len());
        for e in kinds {
            let mut t = T::new("scenario_structure_bsp");
            t.grow("detail_objects", 1).grow("detail_objects[0].cells", 2).grow("detail_objects[0].z_reference_vectors", 4);
            for (k, c) in [a, b].iter().enumerate() { t.set_int(&format!("detail_objects[0].cells[{k}].valid_layers_flags"), c.0 as u64); t.set_int(&format!("detail_objects[0].cells[{k}].count_index"), c.1 as u64) }
            for k in 0..4 { for (j, f) in ["z_reference_i", "z_reference_j", "z_reference_k", "z_reference_l"].iter().enumerate() { t.set_floats(&format!("detail_objects[0].z_reference_vectors[{k}].{f}"), &[(k * 4 + j) as f32 / 2.0]) } }
            let mut s = scenario();
            s.set_bytes("script_syntax_data", &table(0, 0));
            let offsets = [3.0f32, -8.0, 0.5];
            let layers: Vec<Option<usize>> = match palette { 0 => vec![], 1 => vec![Some(0)], 2 => vec![Some(1), None, Some(2)], 3 => vec![None, Some(0), Some(0)], n => { let mut v = vec![Some(2); 32]; v[31] = Some(0); v.extend(vec![Some(1); [0, 1, 9][n - 4]]); v } };
            s.grow("detail_object_collection_palette", layers.len());
            for (k, l) in layers.iter().enumerate() { *s.at(&format!("detail_object_collection_palette[{k}].reference")) = Val::Ref("detail_object_collection".into(), l.map(|l| format!("d{l}"))) }
            // what the map has
            let mut c = t.clone();
            for k in [a, b] { let mut at = k.1; for bit in 0..32 { if k.0 >> bit & 1 == 1 {
                let p = format!("detail_objects[0].z_reference_vectors[{at}].z_reference_l");
                let z = layers.get(bit).copied().flatten().map(|l| offsets[l]).unwrap_or(0.0) / 8.0;
                let x = c.floats(&p)[0]; c.set_floats(&p, &[x + z]); at += 1;
            } } }
            let mut tags = vec![(BSP.to_string(), c, t), (SC.into(), s.clone(), s)];
            for l in 0..3 { if layers.contains(&Some(l)) { let mut d = T::new("detail_object_collection"); d.set_floats("global_z_offset", &[offsets[l]]); tags.push((format!("d{l}"), d.clone(), d)) } }
            let put: Vec<(&str, T)> = tags.iter().map(|t| (t.0.as_str(), t.1.clone())).collect();
            let b = world(e, &put, &How::default(), |_| ());
            cx.state(&b.map);
            match load(&engine(e), &b, ParseStrictness::Strict) { Err(x) => cx.fail("load", x), Ok(m) => for t in &tags { if !compare(cx, &m, &t.0, &t.2) { return } } }
        }
    });

    // ---- sounds ----
    let formats = ["pcm", "xbox_adpcm", "ima_adpcm", "ogg_vorbis"];
    ck.family("sounds", 4 * 4 * 6 * 6 * 2, |i| format!("{:?}", digits(i, &[4, 4, 6, 6, 2])), |i, cx| {
        let d = digits(i, &[4, 4, 6, 6, 2]);
        let mut t = distinct("sound", 2, Some(i));
        t.set_enum("format", formats[d[1]]);
        for k in 0..2 { let p = format!("pitch_ranges[{k}].permutations[1]"); t.set_enum(&format!("{p}.format"), formats[d[k]]); t.set_bytes(&format!("{p}.samples"), &(0..d[2 + k]).map(|x| (x * 31 + 7) as u8).collect::<Vec<_>>()) }
        for k in 0..2 { let p = format!("pitch_ranges[{k}].permutations[0]"); t.set_enum(&format!("{p}.format"), "ogg_vorbis") }
        let odd = (0..2).any(|k| d[k] == 0 && d[2 + k] % 2 == 1);
        for e in ["pc-retail", "pc-custom", "xbox"] {
            let external = d[4] == 1;
            if external && e == "xbox" { continue }
            if odd { refused(cx, e, &[("a\\tag", t.clone())], 0, |b| b.external_samples = external) } else if !all_back(cx, e, &[("a\\tag", t.clone())], &How::default(), |b| b.external_samples = external) { return }
        }
        // Custom Edition: pitch ranges (and what they need) are in sounds.map
        if !odd {
            let mut b = Builder::new("pc-custom", SC);
            b.external_samples = true;
            let mut other = t.clone(); other.set_floats("skip_fraction", &[0.75]); other.list("pitch_ranges").truncate(1);
            for (p, t) in [("x\\first", &other), ("a\\tag", &t)] { let v = compile(&mut b, t, &How::default()); b.add("sound", p, Body::Sound(v)); }
            b.add("scenario", SC, Body::Tree(scenario().v)).add("scenario_structure_bsp", BSP, Body::Tree(blank("ScenarioStructureBSP")));
            let b = b.build();
            cx.state(&b.map);
            match load(&engine("pc-custom"), &b, ParseStrictness::Strict) { Err(x) => cx.fail("load", x), Ok(m) => { compare(cx, &m, "a\\tag", &t); compare(cx, &m, "x\\first", &other); } }
        }
    });

    // ---- animations ----
    let infos = ["none", "dx_dy", "dx_dy_dyaw", "dx_dy_dz_dyaw"];
    let masks: Vec<[u64; 3]> = vec![[0, 0, 0], [!0, !0, !0], [0b101, 0b11, 0b1], [0b1000_0000, 1 << 63, 0x5555_5555_5555_5555], [1 << 31 | 1 << 32, 0xff, 0], [!0, 0, 0], [0, !0, 0], [0, 0, !0]];
    let frames = [0usize, 1, 3];
    let nodes = [0usize, 1, 2, 8, 33, 64, 65];
    ck.family("animations", masks.len() * 4 * frames.len() * nodes.len() * 5, |i| format!("{:?}", digits(i, &[masks.len(), 4, frames.len(), nodes.len(), 5])), |i, cx| {
        let d = digits(i, &[masks.len(), 4, frames.len(), nodes.len(), 5]);
        let (m, info, n, count, kind) = (masks[d[0]], d[1], frames[d[2]], nodes[d[3]], d[4]);
        let bits = |k: usize| if count >= 64 { m[k].count_ones() as usize } else { (m[k] & ((1u64 << count) - 1)).count_ones() as usize };
        let on = bits(0) * 8 + bits(1) * 12 + bits(2) * 4;
        let off = (count * 24).min(64 * 24) - on;
        let fill = |n: usize, s: usize| (0..n).map(|x| ((x * 37 + s * 11 + 1) % 127) as u8).collect::<Vec<u8>>();
        let mut t = T::new("model_animations");
        t.grow("animations", 2);
        let compressed = kind == 1;
        let p = |f: &str| format!("animations[1].{f}");
        for (k, f) in ["node_rotation_flag_data", "node_transform_flag_data", "node_scale_flag_data"].iter().enumerate() { for w in 0..2 { t.set_int(&p(&format!("{f}[{w}]")), (m[k] >> (w * 32)) as u32 as u64) } }
        t.set_int(&p("frame_count"), n as u64); t.set_int(&p("node_count"), count as u64); t.set_enum(&p("frame_info_type"), infos[info]);
        t.set_flag(&p("flags"), "compressed_data", compressed);
        let mut frame_info = fill([0, 8, 12, 16][info] * n, 1);
        let mut data = if compressed { vec![0; on * n] } else { fill(on * n, 2) };
        let mut rest = if compressed { vec![0; off] } else { fill(off, 3) };
        if compressed { data.extend(fill(9, 4)); t.set_int(&p("offset_to_compressed_data"), (on * n) as u64) }
        let mut bad = count > 64;
        match kind { 2 => { frame_info.push(1); bad = true } 3 => { data.push(1); bad = true } 4 => { rest.push(1); bad = true } _ => () }
        t.set_bytes(&p("frame_info"), &frame_info); t.set_bytes(&p("frame_data"), &data); t.set_bytes(&p("default_data"), &rest);
        for e in ["pc-retail", "xbox"] { if bad { refused(cx, e, &[("a\\tag", t.clone())], 0, |_| ()) } else if !all_back(cx, e, &[("a\\tag", t.clone())], &How::default(), |_| ()) { return } }
    });

    // ---- scripts: as they are decompiled (which is P21's) ----
    let n = ck.pick(4, 6);
    ck.family("scripts", 3usize.pow(n as u32), |i| format!("{:?}", digits(i, &vec![3; n])), |i, cx| {
        let d = digits(i, &vec![3; n]);
        let mut s = scenario();
        let mut b = vec![0u8; 56 + 20 * (n + 2)];
        b[..11].copy_from_slice(b"script node"); b[32..34].copy_from_slice(&(n as u16 + 2).to_be_bytes()); b[34..36].copy_from_slice(&20u16.to_be_bytes()); b[36] = 1; b[40..44].copy_from_slice(b"d@t@"); b[46..48].copy_from_slice(&(n as u16 + 2).to_be_bytes());
        let kind = |k: &str| ringhopper::definitions::ScenarioScriptValueType::str_vals().iter().position(|v| *v == k).unwrap() as u16;
        let id = |n: usize| 0x8000_0000u32 | (0x6174 + n as u32) << 16 | n as u32;
        let mut strings = b"\0begin\0word\0".to_vec();
        strings.extend([0, 0]);
        for k in 0..n + 2 {
            let (ty, flags, next, at, data) = match k {
                0 => (kind("void"), 0u16, !0u32, 0u32, id(1)),
                1 => (kind("function_name"), 1, id(2), 1, 0),
                _ => { let next = if k == n + 1 { !0 } else { id(k + 1) }; match d[k - 2] { 0 => (kind("long"), 1, next, 0, 0x0102_0304 + k as u32), 1 => (kind("short"), 1, next, 0, 0x0305 + k as u32), _ => (kind("string"), 1, next, 7, 0) } }
            };
            let o = 56 + k * 20;
            b[o..o + 2].copy_from_slice(&(0xe174u16 + k as u16).to_be_bytes()); b[o + 4..o + 6].copy_from_slice(&ty.to_be_bytes()); b[o + 6..o + 8].copy_from_slice(&flags.to_be_bytes());
            b[o + 8..o + 12].copy_from_slice(&next.to_be_bytes()); b[o + 12..o + 16].copy_from_slice(&at.to_be_bytes()); b[o + 16..o + 20].copy_from_slice(&data.to_be_bytes());
        }
        s.grow("scripts", 1);
        s.set_string("scripts[0].name", "main"); s.set_int("scripts[0].root_expression_index", id(0) as u64); s.set_enum("scripts[0].return_type", "void");
        s.set_bytes("script_syntax_data", &b); s.set_bytes("script_string_data", &strings);
        let mut tag = s.tag();
        let scenario: &mut ringhopper::definitions::Scenario = tag.as_any_mut().downcast_mut().unwrap();
        if let Err(e) = ringhopper::tag::scenario::decompile_scripts(scenario, "sc") { cx.fail("decompile", e.to_string()); return }
        cx.check(scenario.source_files.items.len() == 1, "decompile", || "no source".into());
        let want = tag.to_tag_file().unwrap();
        for e in kinds {
            let built = world(e, &[(SC, s.clone())], &How::default(), |_| ());
            cx.state(&built.map); cx.step(); cx.validated();
            match load(&engine(e), &built, ParseStrictness::Strict) { Err(x) => cx.fail("load", x), Ok(m) => match extract(&m, SC, "scenario") { Err(x) => cx.fail("refused", x), Ok(f) => if let Err(x) = same_file(&f, &want) { cx.fail("differs", format!("{e}: {x}")) } } }
        }
    });

    // ---- tags which are in resource maps ----
    let outside = ["bitmap", "font", "unicode_string_list", "hud_message_text"];
    ck.family("resource maps", 4 * 3 * 3 * 4 * 3, |i| format!("{:?}", digits(i, &[4, 3, 3, 4, 3])), |i, cx| {
        let d = digits(i, &[4, 3, 3, 4, 3]);
        // group; where in the resource map; what index is in the map (right, other, none); what the name is there; engine
        let (g, at, index, name, e) = (outside[d[0]], d[1], d[2], d[3], ["pc-custom", "pc-custom-chimera", "pc-retail"][d[4]]);
        let mut b = Builder::new(e, SC);
        let mut t = distinct(g, 2, Some(i));
        if g == "bitmap" { t = T::new("bitmap"); t.grow("bitmap_group_sequence", 2); t.set_string("bitmap_group_sequence[1].name", "seq") }
        // nothing is known about references to other tags
        each_field(t.strukt(), &mut t.v, &mut |_, x| if let Val::Ref(_, p) = x { *p = None });
        if g == "unicode_string_list" { t = T::new(g); t.grow("strings", 2); t.set_bytes("strings[1].string", &[65, 0, 0, 0]) }
        let v = compile(&mut b, &t, &How::default());
        let body = entry(e, g, &v);
        let r = if g == "bitmap" { &mut b.bitmaps } else { &mut b.loc };
        for k in 0..3 { r.items.push(if k == at { (["a\\tag", "a\\tag2", "A\\tag", "a\\ta"][name].to_string(), body.clone()) } else { (format!("o{k}"), vec![JUNK; 400]) }) }
        b.add(g, "a\\tag", Body::Indexed([at, (at + 1) % 3, 3][index] as u32)).add("scenario", SC, Body::Tree(scenario().v)).add("scenario_structure_bsp", BSP, Body::Tree(blank("ScenarioStructureBSP")));
        let built = b.build();
        cx.state(&built.map); cx.step(); cx.validated();
        let ok = index == 0 && name == 0 && e != "pc-retail";
        match load(&engine(e), &built, ParseStrictness::Strict) {
            Err(x) if x.starts_with("panic") => cx.fail("panic", x),
            Err(x) => { cx.check(!ok, "load", || x); }
            Ok(m) => if cx.check(ok, "accepted", || String::new()) { compare(cx, &m, "a\\tag", &t); }
        }
    });

    // ---- files ----
    let builds = ["", "01.00.00.0563", "01.00.00.0609", "01.00.10.0621", "nonsense"];
    ck.family("files", all.len() * (1 + builds.len()) * 4 * 3, |i| { let d = digits(i, &[all.len(), 1 + builds.len(), 4, 3]); format!("{} {:?}", all[d[0]], &d[1..]) }, |i, cx| {
        let d = digits(i, &[all.len(), 1 + builds.len(), 4, 3]);
        let e = all[d[0]];
        let dir = case_dir("p17");
        let mut b = Builder::new(e, SC);
        let mut eng = b.engine.clone();
        if d[1] > 0 {
            b.engine.build = builds[d[1] - 1].into();
            let found = told(eng.version, &b.engine.build);
            // another engine's layout is not what this is about
            let o = engine(&found);
            if (o.base, o.inferred, o.xbox, o.external_models, o.external_bsps, o.external_tags, o.deflate) != (eng.base, eng.inferred, eng.xbox, eng.external_models, eng.external_bsps, eng.external_tags, eng.deflate) { return }
            eng = o;
        } else if told(eng.version, &eng.build) != e { eng = engine(&told(eng.version, &eng.build)) }
        let kind = d[3];
        let mut s = scenario();
        s.set_enum("type", ["singleplayer", "multiplayer", "user_interface"][kind]); s.set_bytes("script_syntax_data", &table(0, 0));
        b.scenario_type = 2 - kind as u16;
        b.name = format!("name{i}");
        b.crc = [None, Some(0xFFFF_FFFF), Some(0x1234_5678), Some(0)][d[2]];
        let t = distinct("weapon", 2, Some(i));
        let v = compile(&mut b, &t, &How::default());
        let mut snd = T::new("sound"); snd.set_floats("maximum_bend_rate", &[1.0]);
        if !eng.xbox { snd.grow("pitch_ranges", 1).grow("pitch_ranges[0].permutations", 1); snd.set_enum("pitch_ranges[0].permutations[0].format", "ogg_vorbis"); snd.set_bytes("pitch_ranges[0].permutations[0].samples", b"some samples"); b.external_samples = true }
        let sv = compile(&mut b, &snd, &How::default());
        b.add("weapon", "a\\tag", Body::Tree(v)).add("sound", "s", Body::Tree(sv)).add("scenario", SC, Body::Tree(compile_scenario(&s))).add("scenario_structure_bsp", BSP, Body::Tree(blank("ScenarioStructureBSP")));
        let build = b.engine.build.clone();
        let built = b.build();
        let file = if eng.deflate { stored(&built.map, 17) } else { built.map.clone() };
        let p = dir.join("x.map");
        std::fs::write(&p, &file).unwrap();
        for (n, b) in [("bitmaps.map", &built.bitmaps), ("sounds.map", &built.sounds), ("loc.map", &built.loc)] { if !b.is_empty() { std::fs::write(dir.join(n), b).unwrap() } }
        cx.state(&built.map);
        let ok_crc = eng.xbox || d[2] < 2;
        for strict in [true, false] {
            cx.step(); cx.validated();
            let r = guard(|| ringhopper::map::load_map_from_filesystem(&p, if strict { ParseStrictness::Strict } else { ParseStrictness::Relaxed }));
            let m = match r { Err(x) => { cx.fail("panic", x); continue } Ok(Err(x)) => { cx.check(strict && !ok_crc, "load", || format!("{x}")); continue } Ok(Ok(m)) => m };
            if !cx.check(ok_crc || !strict, "checksum", || "accepted".into()) { continue }
            cx.eq("engine", m.get_engine().name, eng.name.as_str());
            cx.eq("name", m.get_name(), format!("name{i}").as_str());
            cx.eq("build", m.get_build_string(), build.as_str());
            cx.eq("type", m.get_scenario_type().to_string(), s.clone().enum_name("type").to_string());
            if !eng.xbox { cx.eq("crc", m.get_crc32(), Some(([built.layout.crc, 0xFFFF_FFFF, 0x1234_5678, 0][d[2]], built.layout.crc))); }
            cx.eq("size", m.get_uncompressed_size(), Some(built.map.len()));
            cx.eq("scenario", m.get_scenario_tag().tag_path.to_string().replace('/', "\\"), format!("{SC}.scenario"));
            let mut tags: Vec<String> = m.get_all_tags().iter().map(|t| t.to_string().replace('/', "\\")).collect();
            tags.sort();
            for (p, g) in [("a\\tag", "weapon"), ("s", "sound"), (SC, "scenario"), (BSP, "scenario_structure_bsp")] { cx.check(tags.contains(&format!("{p}.{g}")), "tags", || format!("no {p}.{g} in {tags:?}")); cx.check(m.get_tag(&path(p, g)).is_some(), "get", || p.into()); }
            cx.check(m.get_tag(&path("a\\tagg", "weapon")).is_none() && m.get_tag(&path("a\\tag", "bitmap")).is_none(), "get", || "what is not there".into());
            for (p, t) in [("a\\tag", &t), ("s", &snd), (SC, &s)] {
                match guard(|| m.extract_tag(&path(p, t.group))) { Ok(Ok(x)) => if let Err(x) = same_file(&x.to_tag_file().unwrap(), &t.file()) { cx.fail("differs", x) }, r => cx.fail("refused", format!("{:?}", r.map(|r| r.err().map(|e| e.to_string())))) }
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
    });

    // ---- the command ----
    let filters = ["", "a\\*", "*.weapon", "nothing*", "?\\t*.*", "levels\\test\\sc.scenario"];
    ck.family("extract", filters.len() * 2 * 2 * 3 * 3 * 2, |i| format!("{:?}", digits(i, &[filters.len(), 2, 2, 3, 3, 2])), |i, cx| {
        let d = digits(i, &[filters.len(), 2, 2, 3, 3, 2]);
        let (filter, over, globals, kind, e, jobs) = (filters[d[0]], d[1] == 1, d[2] == 1, d[3], ["pc-custom", "xbox", "mcc-cea"][d[4]], d[5] == 1);
        let dir = case_dir("p17x");
        let mut s = scenario();
        s.set_enum("type", ["singleplayer", "multiplayer", "user_interface"][kind]); s.set_bytes("script_syntax_data", &table(0, 0));
        let mut tags: Vec<(&str, T)> = vec![("a\\tag", distinct("weapon", 1, Some(i))), ("b\\tag", distinct("vehicle", 1, Some(i))), ("a\\glob", distinct("globals", 1, Some(i))), ("a\\light", distinct("light", 2, Some(i))), (SC, s), (BSP, T::new("scenario_structure_bsp"))];
        for t in &mut tags { each_field(t.1.strukt(), &mut t.1.v, &mut |_, x| if let Val::Ref(g, p) = x { if g != "scenario_structure_bsp" { *p = None } }); }
        let b = world(e, &tags, &How::default(), |_| ());
        std::fs::write(dir.join("x.map"), if engine(e).deflate { stored(&b.map, 0) } else { b.map.clone() }).unwrap();
        std::fs::create_dir_all(dir.join("t/a")).unwrap();
        // one is there already
        std::fs::write(dir.join("t/a/tag.weapon"), b"old").unwrap();
        let mut args: Vec<&str> = vec!["extract", "x.map", "-t", "t"];
        if !filter.is_empty() { args.extend(["-f", filter]) }
        if over { args.push("-o") }
        if globals { args.push("-n") }
        if jobs { args.extend(["-j", "3"]) }
        cx.state(hash_of(&(i, &b.map))); cx.step(); cx.validated();
        let r = inv::invader(&args, &dir, &[("MC_NOSCHED", "1".into())]);
        cx.check(r.ok() == (filter != "nothing*") && !r.panicked(), "run", || r.brief());
        let mut want: std::collections::BTreeMap<String, Vec<u8>> = Default::default();
        want.insert("t/a/tag.weapon".into(), b"old".to_vec());
        for (p, t) in &tags {
            let hit = match filter { "" => true, "a\\*" => p.starts_with("a\\"), "*.weapon" => t.group == "weapon", "nothing*" => false, "?\\t*.*" => p.ends_with("\\tag"), _ => *p == SC };
            if !hit || t.group == "globals" && !globals && kind != 1 { continue }
            let f = format!("{}.{}", p.replace('\\', "/"), t.group);
            if !over && f == "a/tag.weapon" { continue }
            let mut tag = t.tag();
            ringhopper::tag::default::unset_all_defaults_for_tag(tag.as_mut());
            want.insert(format!("t/{f}"), tag.to_tag_file().unwrap());
        }
        let mut got: std::collections::BTreeMap<String, Vec<u8>> = Default::default();
        fn walk(d: &std::path::Path, pre: &str, out: &mut std::collections::BTreeMap<String, Vec<u8>>) { for e in std::fs::read_dir(d).unwrap().flatten() { let n = format!("{pre}{}", e.file_name().to_string_lossy()); if e.path().is_dir() { walk(&e.path(), &format!("{n}/"), out) } else { out.insert(n, std::fs::read(e.path()).unwrap()); } } }
        walk(&dir.join("t"), "t/", &mut got);
        let (a, b): (Vec<_>, Vec<_>) = (got.keys().collect(), want.keys().collect());
        if cx.check(a == b, "files", || format!("{a:?} instead of {b:?}; {}", r.brief())) { for (k, g) in &got { let w = &want[k]; if w == b"old" || g == b"old" { cx.check(g == w, "overwritten", || k.clone()); } else if let Err(x) = same_file(g, w) { cx.fail("contents", format!("{k}: {x}")) } } }
        let _ = std::fs::remove_dir_all(&dir);
    });

    ck.finish();
}
/// The engine a map is for.
fn told(version: u32, build: &str) -> String {
    let mut names: Vec<&String> = spec().engines.keys().collect();
    names.sort();
    let v = |n: &str| &spec().engines[n];
    let of: Vec<&String> = names.into_iter().filter(|n| v(n)["cache_file_version"].as_u64() == Some(version as u64)).collect();
    for n in &of { let b = &v(n)["build"]; if b["version"].as_str() == Some(build) || b["fallback"].as_array().is_some_and(|f| f.iter().any(|f| f.as_str() == Some(build))) { return n.to_string() } }
    of.iter().find(|n| v(n)["cache_default"].as_bool() == Some(true)).unwrap().to_string()
}
fn compile_scenario(s: &T) -> Val { let mut b = Builder::new("pc-retail", SC); compile(&mut b, s, &How::default()) }
/// The nearest number of six significant decimal digits.
fn six(x: f64) -> f64 { if !x.is_finite() || x == 0.0 { x } else { format!("{x:.5e}").parse().unwrap() } }
/// A tag which does not quite come back.
fn back(cx: &mut Cx, e: &str, t: &T, want: &T) -> bool {
    let b = world(e, &[("a\\tag", t.clone())], &How::default(), |_| ());
    cx.state(&b.map);
    match load(&engine(e), &b, ParseStrictness::Strict) { Err(x) => { cx.fail("load", x); false } Ok(m) => compare(cx, &m, "a\\tag", want) }
}
