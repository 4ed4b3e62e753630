//! P16: damaged cache files and resource maps give an error or a result, never a panic, a hang or an allocation out of
//! proportion. needs: invader-mc
use mc::mapbuild::*;
use mc::maptool::*;
use mc::refser::*;
use mc::treeval::*;
use mc::vertex::{compress_model, parts};
use mc::*;
use ringhopper::map::gearbox::GearboxCacheFile;
use ringhopper::map::xbox::XboxCacheFile;
use ringhopper::primitives::primitive::TagPath;
use ringhopper::primitives::tag::ParseStrictness::{self, *};
use std::time::Instant;

/// The files of a cache file.
#[derive(Clone)]
struct Files { xbox: bool, map: Vec<u8>, bitmaps: Vec<u8>, sounds: Vec<u8>, loc: Vec<u8> }
impl Files {
    fn of(e: &str, b: &Built) -> Files { Files { xbox: engine(e).xbox, map: b.map.clone(), bitmaps: b.bitmaps.clone(), sounds: b.sounds.clone(), loc: b.loc.clone() } }
    fn size(&self) -> usize { self.map.len() + self.bitmaps.len() + self.sounds.len() + self.loc.len() }
    fn part(&mut self, i: usize) -> &mut Vec<u8> { match i { 0 => &mut self.map, 1 => &mut self.bitmaps, 2 => &mut self.sounds, _ => &mut self.loc } }
}
/// More than this at once has to be in proportion to the files.
const FLOOR: usize = 16 << 20;
const TIMES: usize = 192;

fn limit(files: usize) -> usize { FLOOR + files * TIMES }
/// Run, within bounds of memory and time.
fn bounded<R>(cx: &mut Cx, what: &str, files: usize, spare: usize, f: impl FnOnce() -> R) -> Option<R> {
    let t = Instant::now();
    let (r, largest, peak) = alloc::track(|| guard(f));
    let s = t.elapsed().as_secs_f32();
    cx.step();
    let r = match r { Err(p) => { cx.fail("panic", format!("{what}: {p}")); return None } Ok(r) => r };
    cx.check(largest.max(peak) <= limit(files) + spare, "memory", || format!("{what}: {peak} bytes, {largest} at once, for {files} bytes of files"));
    cx.check(s < 20.0, "time", || format!("{what}: {s} s"));
    Some(r)
}
fn open(cx: &mut Cx, f: &Files, s: ParseStrictness) -> Option<Map> {
    // the copies are not what is measured
    let (map, bitmaps, sounds, loc, size) = (f.map.clone(), f.bitmaps.clone(), f.sounds.clone(), f.loc.clone(), f.size());
    bounded(cx, "load", size, 0, || -> Option<Map> {
        // the reader which belongs to the engine that is found
        let xbox = ringhopper::map::header::get_map_details(&map).map(|d| d.1.cache_parser == ringhopper::primitives::engine::EngineCacheParser::Xbox).unwrap_or(f.xbox);
        if xbox { XboxCacheFile::new(map, s).ok().map(|m| Box::new(m) as Map) } else { GearboxCacheFile::new(map, bitmaps, sounds, loc, s).ok().map(|m| Box::new(m) as Map) }
    }).flatten()
}
/// Extract everything, or one. How many were.
fn take(cx: &mut Cx, m: &Map, size: usize, only: Option<&TagPath>) -> usize {
    let all = match only { Some(p) => vec![p.clone()], None => m.get_all_tags() };
    let mut n = 0;
    for p in &all {
        // room for the frames of compressed animations is given by the counts in them
        let spare = if p.group().to_string() == "model_animations" { 700 << 20 } else { 0 };
        if let Some(Some(t)) = bounded(cx, &format!("extract {p}"), size, spare, || m.extract_tag(p).ok()) {
            n += 1;
            bounded(cx, &format!("write {p}"), size, spare, || t.to_tag_file().is_ok());
        }
    }
    n
}
/// Load and extract; the number of tags extracted if it loads.
fn run(cx: &mut Cx, f: &Files, s: ParseStrictness, only: Option<&TagPath>) -> Option<usize> {
    let m = open(cx, f, s)?;
    cx.validated();
    Some(take(cx, &m, f.size(), only))
}

fn values(old: u32, rel: u32, l: &Layout, all: bool) -> Vec<u32> {
    let (b, s) = (l.base, l.tag_data.1 as u32);
    let mut v = vec![0, 1, 0xFFFF_FFFF, 0x7FFF_FFFF, old.wrapping_add(1), old ^ 0x8000_0000, b.wrapping_add(s), b.wrapping_add(rel), 0x0001_0001];
    if all { v.extend([0x8000_0000, 2, 255, 0xFFFF, 0x0001_0000, 0xFFFF_0000, 1000, old.wrapping_sub(1), old.swap_bytes(), !old, b, b.wrapping_add(s - 1), b.wrapping_add(s - 4), b.wrapping_sub(1), id(1), id(2), id(3), 0x7FC0_0000, 0x3F80_0000, 0xBF80_0000]) }
    v.retain(|x| *x != old);
    v.sort(); v.dedup();
    v
}
fn get32(b: &[u8], o: usize) -> u32 { u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) }
fn put32(b: &mut [u8], o: usize, v: u32) { b[o..o + 4].copy_from_slice(&v.to_le_bytes()) }

fn bitmap(e: &Engine) -> T {
    let mut t = T::new("bitmap");
    let mut pixels = vec![];
    for (i, (w, d, kind, f, bpp)) in [(8usize, 1usize, "2d_texture", "r5g6b5", 2usize), (4, 1, "cube_map", "a8r8g8b8", 4), (4, 4, "3d_texture", "a8", 1)].iter().enumerate() {
        t.grow("bitmap_data", 1);
        let p = |f: &str| format!("bitmap_data[{i}].{f}");
        t.set_int(&p("width"), *w as u64); t.set_int(&p("height"), *w as u64); t.set_int(&p("depth"), *d as u64); t.set_int(&p("mipmap_count"), 1);
        t.set_enum(&p("format"), f); t.set_enum(&p("type"), kind); t.set_int(&p("pixel_data_offset"), pixels.len() as u64); t.set_bytes(&p("signature"), b"bitm");
        let n = (w * w * d + (w / 2) * (w / 2) * (d / 2).max(1)) * bpp * if *kind == "cube_map" { 6 } else { 1 };
        for k in 0..n { pixels.push((k * 7 + i) as u8) }
    }
    t.grow("bitmap_group_sequence", 1).grow("bitmap_group_sequence[0].sprites", 2);
    t.set_enum("type", "sprites");
    t.set_bytes("processed_pixel_data", &pixels);
    let _ = e;
    t
}
fn model(e: &Engine, g: &'static str) -> T {
    let mut t = T::new(g);
    t.grow("nodes", 2).grow("geometries", 1).grow("geometries[0].parts", 2).grow("regions", 1).grow("regions[0].permutations", 1).grow("regions[0].permutations[0].markers", 2);
    t.set_string("regions[0].permutations[0].markers[0].name", "one");
    for k in 0..2 { t.set_int(&format!("regions[0].permutations[0].markers[{k}].node_index"), 1) }
    if g == "gbxmodel" { t.set_flag("flags", "parts_have_local_nodes", true) }
    for (part, p) in parts(&mut t) {
        if g == "gbxmodel" { t.set_int(&format!("{part}.local_node_count"), 2); t.set_int(&format!("{part}.local_node_indices[1]"), 1) }
        let list: Vec<Val> = (0..3).map(|k| {
            let mut d = Distinct::new(1); d.next = (k * 11 + 1) as u32;
            let mut v = generate("ModelVertexUncompressed", &mut vec![], &mut d);
            let Val::Struct(f) = &mut v else { panic!() };
            f[5] = Val::Leaf(vec![0, 1]); f[6] = Val::Leaf(vec![0, 0]); f[7] = Val::Leaf(f32b(&[0.5])); f[8] = Val::Leaf(f32b(&[0.5]));
            for j in 1..4 { f[j] = Val::Leaf(f32b(&[0.25, 0.5, -0.5])) }
            f[4] = Val::Leaf(f32b(&[0.5, 0.25]));
            v
        }).collect();
        if e.compressed { *t.list(&format!("{p}.compressed_vertices")) = list.iter().map(compress_model).collect() } else { *t.list(&format!("{p}.uncompressed_vertices")) = list }
        t.grow(&format!("{p}.triangle_data"), 1);
        for k in 0..3 { t.set_index(&format!("{p}.triangle_data[0].indices[{k}]"), Some(k as u16)) }
        t.set_int(&format!("{p}.triangle_count"), 1);
    }
    t
}
fn animations() -> T {
    let mut t = T::new("model_animations");
    t.grow("animations", 2).grow("nodes", 3);
    for i in 0..2 {
        let p = |f: &str| format!("animations[{i}].{f}");
        t.set_int(&p("frame_count"), 2); t.set_int(&p("node_count"), 3); t.set_enum(&p("frame_info_type"), "dx_dy");
        t.set_int(&p("node_rotation_flag_data[0]"), 3); t.set_int(&p("node_transform_flag_data[0]"), 1);
        t.set_flag(&p("flags"), "compressed_data", i == 1);
        let mut d = vec![if i == 0 { 5 } else { 0 }; 2 * 28];
        if i == 1 { d.extend([9; 12]); t.set_int(&p("offset_to_compressed_data"), 56) }
        t.set_bytes(&p("frame_info"), &[3; 16]); t.set_bytes(&p("frame_data"), &d); t.set_bytes(&p("default_data"), &vec![if i == 0 { 7 } else { 0 }; 3 * 24 - 28]);
    }
    t
}
fn sound() -> T {
    let mut t = T::new("sound");
    t.grow("pitch_ranges", 2);
    t.set_floats("maximum_bend_rate", &[1.0]);
    for i in 0..2 { for k in 0..2 {
        t.grow(&format!("pitch_ranges[{i}].permutations"), 1);
        let p = format!("pitch_ranges[{i}].permutations[{k}]");
        t.set_enum(&format!("{p}.format"), if k == 0 { "pcm" } else { "ogg_vorbis" });
        t.set_bytes(&format!("{p}.samples"), &[1, 2, 3, 4, 5, 6]); t.set_bytes(&format!("{p}.mouth_data"), &[1, 2, 3]);
    } }
    t
}
fn bsp(e: &Engine) -> T {
    let mut t = T::new("scenario_structure_bsp");
    t.grow("lightmaps", 1).grow("lightmaps[0].materials", 2).grow("clusters", 2).grow("clusters[0].subclusters", 1);
    for m in 0..2 {
        let p = format!("lightmaps[0].materials[{m}]");
        t.set_int(&format!("{p}.rendered_vertices.vertex_count"), 2); t.set_int(&format!("{p}.lightmap_vertices.vertex_count"), 2);
        let f: Vec<u8> = (0..2 * (56 + 20) / 4).flat_map(|i| (i as f32 / 100.0).to_le_bytes()).collect();
        if e.compressed { t.set_bytes(&format!("{p}.compressed_vertices"), &vec![3; 2 * (32 + 8)]) } else { t.set_bytes(&format!("{p}.uncompressed_vertices"), &f) }
    }
    t.grow("detail_objects", 1).grow("detail_objects[0].cells", 1).grow("detail_objects[0].z_reference_vectors", 2);
    t.set_int("detail_objects[0].cells[0].valid_layers_flags", 3);
    t
}
/// Some of every kind of tag that takes more than being read.
fn rich(e: &str, tweak: impl FnOnce(&mut Builder)) -> Built {
    let eng = engine(e);
    let mut s = scenario();
    s.grow("detail_object_collection_palette", 2).grow("cutscene_titles", 1);
    *s.at("detail_object_collection_palette[0].reference") = Val::Ref("detail_object_collection".into(), Some("a\\doc".into()));
    s.set_bytes("script_syntax_data", &table(2, 1));
    let mut v = T::new("vehicle");
    v.grow("unit.object.change_colors", 1).grow("unit.object.change_colors[0].permutations", 2);
    for k in 0..2 { v.set_floats(&format!("unit.object.change_colors[0].permutations[{k}].weight"), &[0.5]) }
    let mut u = T::new("unicode_string_list");
    u.grow("strings", 1); u.set_bytes("strings[0].string", &[65, 0, 0, 0]);
    let mut b = Builder::new(e, SC);
    let tags: Vec<(&str, T)> = vec![("a\\bitmap", bitmap(&eng)), ("a\\model", model(&eng, if eng.xbox { "model" } else { "gbxmodel" })), ("a\\anim", animations()), ("a\\sound", sound()), ("a\\veh", v), ("a\\doc", T::new("detail_object_collection")), ("a\\str", u.clone()), ("a\\font", T::new("font")), (BSP, bsp(&eng)), (SC, s)];
    let how = How { external: e == "pc-custom", ..Default::default() };
    if e == "pc-custom" { b.external_samples = true }
    let trees: Vec<Val> = tags.iter().map(|t| compile(&mut b, &t.1, &how)).collect();
    for ((p, t), v) in tags.iter().zip(trees) { let body = if e == "pc-custom" && t.group == "sound" { Body::Sound(v) } else { Body::Tree(v) }; b.add(t.group, p, body); }
    if e == "pc-custom" {
        for (g, p, t) in [("bitmap", "x\\bitmap", T::new("bitmap")), ("unicode_string_list", "x\\str", u), ("font", "x\\font", T::new("font"))] {
            let v = compile(&mut b, &t, &How::default());
            let body = entry(e, g, &v);
            let r = if g == "bitmap" { &mut b.bitmaps } else { &mut b.loc };
            r.items.push((p.into(), body));
            let n = r.items.len() as u32 - 1;
            b.add(g, p, Body::Indexed(n));
        }
    }
    tweak(&mut b);
    b.build()
}

/// Chains of up to three arrays within each other: where the array is in the element of the one before, its path in it, the size of its elements.
type Chain = Vec<(usize, String, usize)>;
fn nested(strukt: &str, chain: &mut Chain, f: &mut dyn FnMut(&Chain)) {
    fn fields(strukt: &str, off: usize, prefix: &str, out: &mut Vec<(usize, String, String)>) {
        for d in &spec().structs[strukt].fields {
            if !matches!(d.many, Many::One) || d.exclude { continue }
            match &d.ty { Ty::Struct(s) => fields(s, off + d.offset, &format!("{prefix}{}.", d.name), out), Ty::Refl(s) => out.push((off + d.offset, format!("{prefix}{}", d.name), s.clone())), _ => () }
        }
    }
    let mut l = vec![];
    fields(strukt, 0, "", &mut l);
    for (o, p, s) in l { chain.push((o, p, spec().structs[&s].size)); f(chain); if chain.len() < 3 { nested(&s, chain, f) } chain.pop(); }
}

fn main() {
    let mut ck = Check::new("P16");
    let kinds = ["pc-custom", "mcc-cea", "pc-0268", "xbox", "pc-demo"];
    let worlds: Vec<(&str, Built)> = kinds.iter().map(|e| (*e, rich(e, |_| ()))).collect();

    // the undamaged ones load and all of their tags come out
    ck.items("whole", &worlds, |w| w.0.into(), |(e, b), cx| {
        cx.state(&b.map);
        for s in [Strict, Relaxed] {
            match load(&engine(e), b, s) { Err(x) => cx.fail("load", x), Ok(m) => { for t in m.get_all_tags() { if let Err(x) = extract(&m, t.path(), &t.group().to_string()) { cx.fail("refused", format!("{t}: {x}")) } } } }
            let n = run(cx, &Files::of(e, b), s, None);
            cx.eq("tags", n, Some(if *e == "pc-custom" { 13 } else { 10 }));
        }
    });

    // ---- cut off anywhere ----
    let mut cases = vec![];
    for (w, (_, b)) in worlds.iter().enumerate() { for part in 0..4 { let n = [&b.map, &b.bitmaps, &b.sounds, &b.loc][part].len(); for c in 0..n.div_ceil(64) { cases.push((w, part, c * 64, (c * 64 + 64).min(n))) } } }
    let every = ck.pick(4, 1);
    ck.items("truncated", &cases, |c| format!("{} {:?}", kinds[c.0], c), |&(w, part, from, to), cx| {
        let (e, b) = &worlds[w];
        let l = &b.layout;
        let whole = Files::of(e, b);
        for n in (from..to).step_by(every) {
            let mut f = whole.clone();
            f.part(part).truncate(n);
            cx.state((w, part, n));
            // what is cut off is noticed: the tag data is at the end
            if part == 0 { let ok = run(cx, &f, Relaxed, None); cx.check(ok.is_none(), "accepted", || format!("{e}: {n} bytes of {}, the tag data ends at {}", b.map.len(), l.tag_data.0 + l.tag_data.1)); }
            else { run(cx, &f, Strict, None); }
        }
    });

    // ---- header ----
    let regions: Vec<(usize, usize)> = (0..HEADER / 16).map(|i| (i * 16, i * 16 + 16)).collect();
    let cases: Vec<(usize, (usize, usize))> = (0..worlds.len()).flat_map(|w| regions.iter().map(move |r| (w, *r))).collect();
    let thorough = !ck.quick();
    ck.items("header", &cases, |c| format!("{} {:?}", kinds[c.0], c.1), |&(w, (from, to)), cx| {
        let (e, b) = &worlds[w];
        let whole = Files::of(e, b);
        for o in (from..to).step_by(2) {
            let junk = b.map[o..(o + 4).min(HEADER)].iter().all(|x| *x == JUNK);
            if junk && !(thorough && o % 64 == 0) { continue }
            if o + 4 <= HEADER { for v in values(get32(&b.map, o), 0, &b.layout, true).into_iter().chain([b.map.len() as u32, b.map.len() as u32 - 1, HEADER as u32, b.layout.tag_data.0 as u32 + 1, 5, 6, 7, 13, 609]) {
                let mut f = whole.clone();
                put32(&mut f.map, o, v);
                cx.state((w, o, v));
                run(cx, &f, Relaxed, None);
            } }
            for o in [o, o + 1] { for v in [0u8, 1, 0x7f, 0x80, 0xff] { let mut f = whole.clone(); f.map[o] = v; cx.state((w, o, v)); run(cx, &f, Relaxed, None); } }
        }
    });

    // ---- index: header of the tag data, tag array, paths ----
    let words = |w: usize| -> Vec<usize> { let l = &worlds[w].1.layout; let n = get32(&worlds[w].1.map, l.tag_data.0 + 12) as usize; (0..10).map(|i| l.tag_data.0 + i * 4).chain((0..n * 8).map(|i| l.array + i * 4)).collect() };
    let cases: Vec<(usize, usize)> = (0..worlds.len()).flat_map(|w| words(w).into_iter().map(move |o| (w, o))).collect();
    ck.items("index", &cases, |c| format!("{} {:x}", kinds[c.0], c.1), |&(w, o), cx| {
        let (e, b) = &worlds[w];
        let whole = Files::of(e, b);
        let groups: Vec<u32> = FOURCC.iter().map(|g| u32::from_be_bytes(*g.1)).collect();
        let others: Vec<u32> = b.layout.tags.iter().map(|t| (*t as u32).wrapping_sub(b.layout.tag_data.0 as u32).wrapping_add(b.layout.base)).collect();
        let mut vals = values(get32(&b.map, o), (o - b.layout.tag_data.0) as u32, &b.layout, true);
        if o >= b.layout.array { match (o - b.layout.array) / 4 % 8 { 0 => vals.extend(groups), 3 => vals.extend((0..14).map(id)), 4 | 5 => { vals.extend(others); vals.extend(0..4) } _ => () } } else { vals.extend((0..40).chain((0..14).map(id))) }
        for v in vals { let mut f = whole.clone(); put32(&mut f.map, o, v); cx.state((w, o, v)); run(cx, &f, Relaxed, None); }
    });
    // two at once
    let vs = ck.pick(4usize, 8);
    let pairs: Vec<(usize, usize)> = (0..worlds.len()).filter(|w| thorough || *w < 4).flat_map(|w| (0..10 + 8 * 3).map(move |i| (w, i))).collect();
    ck.items("index pairs", &pairs, |c| format!("{} {}", kinds[c.0], c.1), |&(w, i), cx| {
        let (e, b) = &worlds[w];
        let all = words(w);
        // the header, the scenario's entry, the BSP's and another's
        let n = all.len() / 8 - 1;
        let pick: Vec<usize> = (0..10).map(|i| all[i]).chain([1usize, 9, 10].into_iter().flat_map(|t| (0..8).map(move |k| (t, k))).map(|(t, k)| all[10 + t.min(n - 1) * 8 + k])).collect();
        let vals = |o: usize| { let old = get32(&b.map, o); let mut v = vec![0, 0xFFFF_FFFF, old.wrapping_add(1), b.layout.base.wrapping_add(b.layout.tag_data.1 as u32 - 32), 1, b.layout.base, id(3), 0x7FFF_FFFF]; v.truncate(vs); v };
        let whole = Files::of(e, b);
        for k in i + 1..pick.len() { for a in vals(pick[i]) { for c in vals(pick[k]) {
            let mut f = whole.clone(); put32(&mut f.map, pick[i], a); put32(&mut f.map, pick[k], c);
            cx.state((w, i, k, a, c));
            run(cx, &f, Relaxed, None);
        } } }
    });

    // ---- every word of what tags are made of, in the rich ones ----
    let mut cases = vec![];
    for (w, (_, b)) in worlds.iter().enumerate() { let n = b.map.len() - HEADER; for c in 0..n.div_ceil(128) { cases.push((w, HEADER + c * 128, (HEADER + c * 128 + 128).min(b.map.len()))) } }
    ck.items("words", &cases, |c| format!("{} {:x}", kinds[c.0], c.1), |&(w, from, to), cx| {
        let (e, b) = &worlds[w];
        let whole = Files::of(e, b);
        let l = &b.layout;
        // which tag this is in
        let mut at: Vec<(usize, usize)> = l.tags.iter().copied().enumerate().map(|(i, o)| (o, i)).filter(|t| (l.tag_data.0..l.tag_data.0 + l.tag_data.1).contains(&t.0)).collect();
        at.sort();
        let m = load(&engine(e), b, Relaxed).ok().unwrap();
        for o in (from..to.min(b.map.len() - 3)).step_by(if thorough { 2 } else { 4 }) {
            if b.map[o..o + 4].iter().all(|x| *x == JUNK) { continue }
            let owner = at.iter().rev().find(|t| t.0 <= o).filter(|_| o >= l.tag_data.0).and_then(|t| m.get_tag_by_index(t.1 + 1)).map(|t| t.tag_path.clone());
            for v in values(get32(&b.map, o), (o as u32).wrapping_sub(l.tag_data.0 as u32), l, thorough) {
                let mut f = whole.clone(); put32(&mut f.map, o, v); cx.state((w, o, v));
                // whole map for what is not in one tag
                run(cx, &f, Relaxed, owner.as_ref());
            }
        }
    });

    // counts and pointers together
    let set = ck.pick(vec![1u32, 0x7FFF_FFFF, 0xFFFF], vec![0, 1, 2, 0xFFFF, 0x0100_0000, 0x7FFF_FFFF, 0xFFFF_FFFF]);
    ck.items("word pairs", &cases, |c| format!("{} {:x}", kinds[c.0], c.1), |&(w, from, to), cx| {
        let (e, b) = &worlds[w];
        let whole = Files::of(e, b);
        let l = &b.layout;
        let mut at: Vec<(usize, usize)> = l.tags.iter().copied().enumerate().map(|(i, o)| (o, i)).filter(|t| (l.tag_data.0..l.tag_data.0 + l.tag_data.1).contains(&t.0)).collect();
        at.sort();
        let m = load(&engine(e), b, Relaxed).ok().unwrap();
        for o in (from..to.min(b.map.len() - 7)).step_by(4) {
            if b.map[o..o + 8].iter().all(|x| *x == JUNK) { continue }
            let owner = at.iter().rev().find(|t| t.0 <= o).filter(|_| o >= l.tag_data.0).and_then(|t| m.get_tag_by_index(t.1 + 1)).map(|t| t.tag_path.clone());
            let (d, end) = (l.base, l.base.wrapping_add(l.tag_data.1 as u32));
            let addresses = [d, end.wrapping_sub(4), d.wrapping_add(l.tag_data.1 as u32 / 2), 0, 0xFFFF_FFF0, d.wrapping_add((o - from) as u32)];
            for v in &set { for a in &addresses[..if thorough { 6 } else { 3 }] {
                let mut f = whole.clone(); put32(&mut f.map, o, *v); put32(&mut f.map, o + 4, *a); cx.state((w, o, v, a));
                run(cx, &f, Relaxed, owner.as_ref());
            } }
        }
    });

    // ---- every word of every group ----
    let engines: Vec<&str> = if ck.quick() { vec!["pc-retail"] } else { vec!["pc-custom", "mcc-cea", "pc-0268", "xbox"] };
    let counts: Vec<usize> = if ck.quick() { vec![1] } else { vec![1, 2] };
    let mut built = vec![];
    for e in &engines { for g in groups() { for n in &counts {
        let p = match g { "scenario" => SC, "scenario_structure_bsp" => BSP, _ => "a\\tag" };
        let b = world(e, &[(p, distinct(g, *n, None))], &How::default(), |_| ());
        let l = &b.layout;
        let (from, to) = match g { "scenario_structure_bsp" => (l.bsps[0].0, l.bsps[0].0 + l.bsps[0].1), "scenario" => (l.tags[0], b.map.len()), _ => (l.tags[0], *l.tags.iter().filter(|t| **t > l.tags[0] && **t < b.map.len()).min().unwrap_or(&b.map.len())) };
        built.push((*e, g, p, b, from, to));
    } } }
    let mut cases = vec![];
    for (i, b) in built.iter().enumerate() { for c in (b.4..b.5).step_by(256) { cases.push((i, c, (c + 256).min(b.5))) } }
    ck.items("groups", &cases, |c| format!("{} {} {:x}", built[c.0].0, built[c.0].1, c.1), |&(i, from, to), cx| {
        let (e, g, p, b, _, _) = &built[i];
        let whole = Files::of(e, b);
        let tag = path(p, g);
        for o in (from..to - 3).step_by(4) {
            if b.map[o..o + 4].iter().all(|x| *x == JUNK) { continue }
            for v in values(get32(&b.map, o), (o as u32).wrapping_sub(b.layout.tag_data.0 as u32), &b.layout, false) {
                let mut f = whole.clone(); put32(&mut f.map, o, v); cx.state((i, o, v));
                run(cx, &f, Relaxed, Some(&tag));
            }
        }
    });

    // ---- arrays longer than the file: all elements have to be there ----
    let mut cases = vec![];
    for (i, b) in built.iter().enumerate() { if b.0 == engines[0] { cases.push(i) } }
    ck.items("long arrays", &cases, |c| built[*c].1.into(), |&i, cx| {
        let (e, g, p, b, from, to) = &built[i];
        let whole = Files::of(e, b);
        let tag = path(p, g);
        let base = if *g == "scenario_structure_bsp" { get32(&b.map, *from).wrapping_sub(32) } else { b.layout.base.wrapping_sub(b.layout.tag_data.0 as u32).wrapping_add(*from as u32) };
        for o in (*from..*to - 11).step_by(4) {
            // a count and a pointer
            let (n, at) = (get32(&b.map, o), get32(&b.map, o + 4));
            if n == 0 || n > 3 || !(base..base + (to - from) as u32 + 0x1000).contains(&at) { continue }
            for n in [0x1_0000u32, 0x10_0000, 0x7FFF_FFFF, 0xFFFF_FFFF] {
                let mut f = whole.clone(); put32(&mut f.map, o, n); cx.state((i, o, n));
                let r = run(cx, &f, Relaxed, Some(&tag));
                cx.check(r.unwrap_or(0) == 0, "accepted", || format!("{g}: array of {n} at {:x}", o - from));
                if cx.failed() { return }
            }
        }
    });

    // ---- arrays which share what is in them ----
    // every chain of two or three nested arrays; each has n elements, all of an array's elements being the same
    let mut chains = vec![];
    for g in groups() { nested(&spec().groups[g].strukt, &mut vec![], &mut |c| if c.len() > 1 { chains.push((g, c.to_vec())) }); }
    let sizes: Vec<usize> = ck.pick(vec![300], vec![2, 30, 300, 1000]);
    let mut cases = vec![];
    for c in 0..chains.len() { for n in &sizes { for e in ck.pick(vec!["pc-retail"], vec!["pc-retail", "mcc-cea", "xbox"]) { cases.push((c, *n, e)) } } }
    ck.items("shared", &cases, |c| format!("{} {:?} {} {}", chains[c.0].0, chains[c.0].1.iter().map(|s| &s.1).collect::<Vec<_>>(), c.1, c.2), |&(c, n, e), cx| {
        let (g, chain) = &chains[c];
        let n = if chain.len() > 2 { n.min(300) } else { n };
        let mut t = if *g == "scenario" { let mut s = scenario(); s.set_bytes("script_syntax_data", &table(0, 0)); s } else { T::new(g) };
        let mut p = String::new();
        for (k, (_, f, _)) in chain.iter().enumerate() { if k > 0 { p.push_str("[0].") } p.push_str(f); let have = t.len(&p); t.grow(&p, n - have); }
        let at = match *g { "scenario" => SC, "scenario_structure_bsp" => BSP, _ => "a\\tag" };
        let b = world(e, &[(at, t)], &How::default(), |_| ());
        let mut f = Files::of(e, &b);
        let (base, start) = if *g == "scenario_structure_bsp" { let o = b.layout.bsps[0].0; (get32(&b.map, o).wrapping_sub(32), o) } else { (b.layout.base, b.layout.tag_data.0) };
        let mut here = if *g == "scenario_structure_bsp" { start + 32 } else { b.layout.tags[0] };
        // all elements like the first
        for (o, _, size) in chain {
            let a = get32(&f.map, here + o + 4).wrapping_sub(base) as usize + start;
            // not in maps at all
            if get32(&f.map, here + o) != n as u32 || a + n * size > f.map.len() { cx.note(|| format!("{g}: nothing")); return }
            here = a;
            let first = f.map[here..here + size].to_vec();
            for k in 1..n { f.map[here + k * size..][..*size].copy_from_slice(&first) }
        }
        cx.state((c, n, e));
        run(cx, &f, Relaxed, Some(&path(at, g)));
    });
    // files in files: many permutations of one sound
    ck.family("shared data", ck.pick(3, 6), |i| format!("{i}"), |i, cx| {
        let n = [1usize, 10, 1000, 3000, 10000, 30000][i];
        let mut t = T::new("sound");
        t.set_floats("maximum_bend_rate", &[1.0]);
        t.grow("pitch_ranges", 1).grow("pitch_ranges[0].permutations", n);
        t.set_enum("pitch_ranges[0].permutations[0].format", "ogg_vorbis");
        t.set_bytes("pitch_ranges[0].permutations[0].samples", &vec![1; 100_000]);
        let b = world("pc-retail", &[("a\\tag", t)], &How::default(), |_| ());
        let mut f = Files::of("pc-retail", &b);
        let file = |a: u32| a.wrapping_sub(b.layout.base) as usize + b.layout.tag_data.0;
        let ranges = file(get32(&f.map, b.layout.tags[0] + spec().structs["Sound"].fields[field("Sound", "pitch_ranges")].offset + 4));
        let perms = file(get32(&f.map, ranges + spec().structs["SoundPitchRange"].fields[field("SoundPitchRange", "permutations")].offset + 4));
        let size = spec().structs["SoundPermutation"].size;
        let first = f.map[perms..perms + size].to_vec();
        for k in 1..n { f.map[perms + k * size..][..size].copy_from_slice(&first) }
        cx.state((n, &f.map));
        let r = run(cx, &f, Relaxed, Some(&path("a\\tag", "sound")));
        // as much as a tool could have made of sounds which are the same
        cx.check(n > 10 || r == Some(1), "refused", || format!("{n}"));
    });

    // ---- bitmaps ----
    let fields = ["width", "height", "depth", "type", "format", "flags", "mipmap_count", "pixel_data_offset", "pixel_data_size"];
    let sizes = [2usize, 2, 2, 2, 2, 2, 2, 4, 4];
    let mut cases = vec![];
    for e in ["pc-custom", "xbox"] { for img in 0..3 { for a in 0..fields.len() { for b in a..fields.len() { cases.push((e, img, a, b)) } } } }
    ck.items("bitmaps", &cases, |c| format!("{} {} {} {}", c.0, c.1, fields[c.2], fields[c.3]), |&(e, img, x, y), cx| {
        let b = rich(e, |_| ());
        let whole = Files::of(e, &b);
        let st = "BitmapData";
        let base = b.layout.tags[0];
        let o = base + spec().structs["Bitmap"].fields[field("Bitmap", "bitmap_data")].offset;
        let el = get32(&b.map, o + 4).wrapping_sub(b.layout.base) as usize + b.layout.tag_data.0 + img * spec().structs[st].size;
        let vals = |k: usize| -> Vec<u32> { match k {
            0..=2 => if thorough { vec![0, 1, 2, 3, 4, 5, 8, 16, 64, 0x100, 0x7FFF, 0x8000, 0xFFFF] } else { vec![0, 1, 3, 8, 0x100, 0x8000, 0xFFFF] },
            3 => (0..6).collect(), 4 => (0..20).chain([0xFFFF]).collect(), 5 => (0..64).map(|i| i * if thorough { 1 } else { 3 }).chain([0x100, 0xFFFF]).collect(),
            6 => vec![0, 1, 2, 3, 15, 100, 0x7FFF, 0xFFFF],
            7 => vec![0, 1, 0x800, b.map.len() as u32, b.map.len() as u32 - 1, 0x7FFF_FFFF, 0xFFFF_FFFF],
            _ => vec![0, 1, 127, 128, 768, 1024, 0x1_0000, 0x7FFF_FFFF, 0xFFFF_FF80, 0xFFFF_FFFF] } };
        let tag = path("a\\bitmap", "bitmap");
        for v in vals(x) { for u in vals(y) {
            let mut f = whole.clone();
            for (k, v) in [(x, v), (y, u)] { let o = el + spec().structs[st].fields[field(st, fields[k])].offset; f.map[o..o + sizes[k]].copy_from_slice(&v.to_le_bytes()[..sizes[k]]) }
            cx.state((img, x, y, v, u));
            run(cx, &f, Relaxed, Some(&tag));
        } }
    });

    // ---- resource maps ----
    let (_, custom) = &worlds[0];
    let mut cases = vec![];
    for part in 1..4 { let n = [0, custom.bitmaps.len(), custom.sounds.len(), custom.loc.len()][part]; for c in (0..n).step_by(16) { cases.push((part, c, (c + 16).min(n))) } }
    ck.items("resource maps", &cases, |c| format!("{c:?}"), |&(part, from, to), cx| {
        let whole = Files::of("pc-custom", custom);
        let len = whole.clone().part(part).len();
        for o in (from..to.min(len - 3)).step_by(if thorough { 1 } else { 2 }) {
            let old = get32(whole.clone().part(part), o);
            for v in values(old, o as u32, &custom.layout, thorough).into_iter().chain([len as u32, len as u32 - 1, len as u32 - 12, 0x1_0000, 0x0FFF_FFFF]) {
                let mut f = whole.clone(); put32(f.part(part), o, v); cx.state((part, o, v));
                run(cx, &f, Relaxed, None);
            }
        }
    });

    // ---- damaged contents are noticed by the checksum ----
    let mut cases = vec![];
    for (w, (e, b)) in worlds.iter().enumerate() { if *e != "xbox" { for c in (HEADER..b.map.len()).step_by(256) { cases.push((w, c, (c + 256).min(b.map.len()))) } } }
    ck.items("checksum", &cases, |c| format!("{} {:x}", kinds[c.0], c.1), |&(w, from, to), cx| {
        let (e, b) = &worlds[w];
        let l = &b.layout;
        let mut covered: Vec<(usize, usize)> = vec![l.tag_data];
        covered.extend(&l.bsps); if engine(e).external_bsps { covered.extend(&l.vertices) } if engine(e).external_models { covered.push((l.models.0, l.models.1 + l.models.2)) }
        let whole = Files::of(e, b);
        for o in (from..to).step_by(if thorough { 1 } else { 3 }) { for v in if thorough { vec![1u8, 0x80, 0xff] } else { vec![1 << (o % 8)] } {
            let mut f = whole.clone();
            f.map[o] ^= v;
            cx.state((w, o, v));
            let inside = covered.iter().any(|r| (r.0..r.0 + r.1).contains(&o));
            let m = open(cx, &f, Strict);
            cx.validated();
            cx.check(m.is_none() == inside, "checksum", || format!("{e}: byte {o:x} (in what is checked: {inside}) changed by {v}: {}", if m.is_some() { "accepted" } else { "refused" }));
            if let Some(m) = open(cx, &f, Relaxed) { let (a, c) = m.get_crc32().unwrap(); cx.check((a == c) != inside && a == l.crc, "checksum told", || format!("{e}: {a:x} {c:x}")); }
        } }
    });

    // ---- compressed files ----
    let file = |cx: &mut Cx, name: &str, b: &[u8]| -> Option<usize> {
        let dir = case_dir("p16");
        let p = dir.join(name);
        std::fs::write(&p, b).unwrap();
        let m = bounded(cx, "load file", b.len() * 8, 0, || ringhopper::map::load_map_from_filesystem(&p, Relaxed).ok()).flatten();
        let n = m.map(|m| { let mut n = 0; for t in m.get_all_tags() { if bounded(cx, "extract", b.len() * 8, 0, || m.extract_tag(&t).is_ok()) == Some(true) { n += 1 } } n });
        let _ = std::fs::remove_dir_all(&dir);
        cx.validated();
        n
    };
    let small = { let mut s = scenario(); s.set_bytes("script_syntax_data", &table(0, 0)); world("xbox", &[("a\\bitmap", bitmap(&engine("xbox"))), (SC, s)], &How::default(), |_| ()) };
    let pressed = stored(&small.map, 9);
    let mut cases: Vec<(usize, usize)> = (0..HEADER).step_by(4).filter(|o| small.map[*o..*o + 4] != [JUNK; 4]).map(|o| (0, o)).collect();
    cases.extend((0..pressed.len()).step_by(ck.pick(16, 4)).map(|n| (1, n)));
    cases.extend((HEADER..pressed.len()).step_by(ck.pick(16, 2)).map(|n| (2, n)));
    ck.items("compressed", &cases, |c| format!("{c:?}"), |&(kind, o), cx| {
        match kind {
            0 => for v in values(get32(&pressed, o), 0, &small.layout, true).into_iter().chain([HEADER as u32, HEADER as u32 - 1, 100, small.map.len() as u32 - 1, small.map.len() as u32 + 1, small.map.len() as u32 * 2, pressed.len() as u32, (pressed.len() - HEADER) as u32, (pressed.len() - HEADER) as u32 + 1]) {
                let mut f = pressed.clone(); put32(&mut f, o, v); cx.state((o, v)); file(cx, "x.map", &f);
            },
            1 => { cx.state((kind, o)); let r = file(cx, "x.map", &pressed[..o]); cx.check(r.is_none() || o >= pressed.len() - 9 - 4, "accepted", || format!("{o} of {} bytes", pressed.len())); }
            _ => for v in [1u8, 0x80, 0xff] { let mut f = pressed.clone(); f[o] ^= v; cx.state((kind, o, v)); let r = file(cx, "x.map", &f); cx.check(r.is_none() || o >= pressed.len() - 9 || v == 0x80 && (o - HEADER - 2) % 0xFFF5 == 0, "accepted", || format!("byte {o} changed")); }
        }
    });

    // ---- the command ----
    let mut cases = vec![];
    for w in 0..worlds.len() { for k in 0..ck.pick(24, 96) { cases.push((w, k)) } }
    ck.items("command", &cases, |c| format!("{} {}", kinds[c.0], c.1), |&(w, k), cx| {
        let (e, b) = &worlds[w];
        let dir = case_dir("p16c");
        let l = &b.layout;
        let mut m = b.map.clone();
        // every tag's entry in turn, with a bad pointer, path or identifier; the header's words
        let n = get32(&m, l.tag_data.0 + 12) as usize;
        match k % 6 { 0 => put32(&mut m, l.array + (k / 6 % n) * 32 + 20, 0x7FFF_FFFF), 1 => put32(&mut m, l.array + (k / 6 % n) * 32 + 16, l.base + l.tag_data.1 as u32 - 1), 2 => put32(&mut m, l.tag_data.0 + 4, [NONE, 0, id(n), id(1)][k / 6 % 4]), 3 => put32(&mut m, l.tag_data.0 + 12, 0xFFFF), 4 => { let to = m.len() * (k / 6) / 17; m.truncate(to) } _ => put32(&mut m, 16, (k as u32) << 8) }
        std::fs::write(dir.join("x.map"), if engine(e).deflate && m.len() > HEADER { stored(&m, 0) } else { m }).unwrap();
        for (n, b) in [("bitmaps.map", &b.bitmaps), ("sounds.map", &b.sounds), ("loc.map", &b.loc)] { if !b.is_empty() { std::fs::write(dir.join(n), b).unwrap() } }
        std::fs::create_dir_all(dir.join("t")).unwrap();
        cx.state((w, k)); cx.step(); cx.validated();
        for args in [vec!["extract", "x.map", "-t", "t", "-i"], vec!["extract", "x.map", "-t", "t"]] {
            let r = inv::invader(&args, &dir, &[("MC_NOSCHED", "1".into())]);
            cx.check(!r.panicked(), "panic", || r.brief());
        }
        let _ = std::fs::remove_dir_all(&dir);
    });

    ck.assume("damage of one or two places and what overlaps; time per operation is bounded by 20 s, memory by 16 MiB and 192 times the size of the files");
    ck.finish();
}
const NONE: u32 = 0xFFFF_FFFF;
