//! Worlds of tags put into cache files as the tools do it, loaded and extracted by the real code.
use crate::mapbuild::*;
use crate::refser::*;
use crate::treeval::*;
use crate::*;
use ringhopper::map::gearbox::GearboxCacheFile;
use ringhopper::map::xbox::XboxCacheFile;
use ringhopper::map::MapTagTree;
use ringhopper::primitives::primitive::{TagGroup, TagPath};
use ringhopper::primitives::tag::ParseStrictness;

pub const SC: &str = "levels\\test\\sc";
pub const BSP: &str = "levels\\test\\bsp";
pub const TICK: f32 = 30.0;
pub type Map = Box<dyn MapTagTree>;

pub fn load(e: &Engine, b: &Built, s: ParseStrictness) -> Result<Map, String> {
    match guard(|| -> Result<Map, String> {
        if e.xbox { XboxCacheFile::new(b.map.clone(), s).map(|m| Box::new(m) as Map).map_err(|e| format!("{e:?}")) }
        else { GearboxCacheFile::new(b.map.clone(), b.bitmaps.clone(), b.sounds.clone(), b.loc.clone(), s).map(|m| Box::new(m) as Map).map_err(|e| format!("{e:?}")) }
    }) { Ok(r) => r, Err(p) => Err(format!("panic: {p}")) }
}
pub fn path(p: &str, group: &str) -> TagPath { TagPath::new(p, TagGroup::from_str(group).unwrap()).unwrap() }
pub fn extract(m: &Map, p: &str, group: &str) -> Result<Vec<u8>, String> {
    match guard(|| m.extract_tag(&path(p, group)).map(|t| t.to_tag_file().unwrap()).map_err(|e| format!("{e:?}"))) { Ok(r) => r, Err(p) => Err(format!("panic: {p}")) }
}

// ---- what the tools do to a tag when it goes into a map ----

pub fn each_struct(strukt: &str, v: &mut Val, f: &mut dyn FnMut(&str, &mut Val)) {
    f(strukt, v);
    let Val::Struct(fs) = v else { panic!() };
    for (d, x) in spec().structs[strukt].fields.iter().zip(fs) {
        let list: Vec<&mut Val> = match (d.many, x) { (Many::One, x) => vec![x], (_, Val::Many(l)) => l.iter_mut().collect(), _ => panic!() };
        for x in list { match (&d.ty, x) { (Ty::Struct(s), x) => each_struct(s, x, f), (Ty::Refl(s), Val::Refl(l)) => for x in l { each_struct(s, x, f) }, _ => () } }
    }
}
pub fn each_field(strukt: &str, v: &mut Val, f: &mut dyn FnMut(&FieldDef, &mut Val)) {
    each_struct(strukt, v, &mut |s, v| {
        let Val::Struct(fs) = v else { panic!() };
        for (d, x) in spec().structs[s].fields.iter().zip(fs) { match (d.many, x) { (Many::One, x) => f(d, x), (_, Val::Many(l)) => for x in l { f(d, x) }, _ => panic!() } }
    })
}
/// The fields which are in seconds (per second) in tags and in ticks (per tick) in maps: factor of the tag's value.
pub fn times(t: &mut T) -> Vec<(String, f32)> {
    match t.group {
        "actor_variant" => vec![("grenades.grenade_velocity".into(), 1.0 / TICK)],
        "continuous_damage_effect" | "damage_effect" => vec![("camera_shaking.wobble_period".into(), TICK)],
        "point_physics" => vec![("air_friction".into(), 10000.0), ("water_friction".into(), 10000.0)],
        "projectile" => {
            let mut v: Vec<_> = ["minimum_velocity", "initial_velocity", "final_velocity"].iter().map(|s| (s.to_string(), 1.0 / TICK)).collect();
            for i in 0..t.len("material_response") { for b in ["lower", "upper"] { v.push((format!("material_response[{i}].potential_and.{b}"), 1.0 / TICK)) } }
            v
        }
        "light" => vec![("effect_parameters.duration".into(), TICK)],
        "scenario" => (0..t.len("cutscene_titles")).flat_map(|i| ["fade_in_time", "up_time", "fade_out_time"].map(|f| (format!("cutscene_titles[{i}].{f}"), TICK))).collect(),
        _ => vec![],
    }
}
pub fn object_prefix(group: &str) -> Option<&'static str> {
    Some(match group {
        "object" => "", "unit" | "item" | "device" => "object.", "scenery" | "placeholder" | "sound_scenery" => "basic_object.object.",
        "biped" | "vehicle" => "unit.object.", "weapon" | "garbage" | "equipment" => "item.object.", "device_machine" | "device_control" | "device_light_fixture" => "device.object.", "projectile" => "object.",
        _ => return None
    })
}
pub fn swap_words(b: &[u8], n: usize) -> Vec<u8> { b.chunks(n).flat_map(|c| c.iter().rev().copied().collect::<Vec<_>>()).collect() }

/// A table of compiled script nodes with some which are nothing's, and room for others.
pub fn table(nodes: u16, spare: u16) -> Vec<u8> {
    let mut b = vec![0u8; 56 + 20 * (nodes + spare) as usize];
    b[..11].copy_from_slice(b"script node");
    for (o, v) in [(32, nodes + spare), (34, 20), (46, nodes), (48, 0x1234), (50, 0x5678)] { b[o..o + 2].copy_from_slice(&v.to_be_bytes()) }
    b[36] = 1; b[40..44].copy_from_slice(b"d@t@"); b[52..56].copy_from_slice(&[1, 2, 3, 4]);
    for i in 0..nodes { let o = 56 + i as usize * 20; for k in 0..20 { b[o + k] = (i as usize * 20 + k) as u8 | 0x40 } b[o + 4] = 0; b[o + 5] = 4; b[o + 6..o + 8].copy_from_slice(&[0, 1]) }
    b
}
pub fn le_table(b: &[u8]) -> Vec<u8> {
    let mut o = b.to_vec();
    if b.len() < 56 { return o }
    let mut swap = |i: usize, n: usize| o[i..i + n].reverse();
    for i in [32, 34, 46, 48, 50] { swap(i, 2) } for i in [40, 52] { swap(i, 4) }
    let n = u16::from_be_bytes([b[46], b[47]]) as usize;
    for i in (56..b.len()).step_by(20).take(n) { for k in 0..4 { swap(i + k * 2, 2) } for k in 2..5 { swap(i + k * 4, 4) } }
    // nodes which are free hold what was in memory
    let end = 56 + n * 20;
    if end <= o.len() { o[end..].fill(0xCA) }
    o
}

/// Choices the tools have.
#[derive(Clone, Copy, Default, Debug)]
pub struct How { pub external: bool, pub linear: bool, pub more_mipmaps: u16, pub trailing: usize }

/// Bytes per block and pixels per side of one.
pub fn format(f: &str) -> (usize, usize) { match f { "a8" | "y8" | "ay8" | "p8" => (1, 1), "a8y8" | "r5g6b5" | "a1r5g5b5" | "a4r4g4b4" => (2, 1), "x8r8g8b8" | "a8r8g8b8" => (4, 1), "dxt1" => (8, 4), "dxt3" | "dxt5" | "bc7" => (16, 4), f => panic!("{f}") } }
pub const FORMATS: [&str; 14] = ["a8", "y8", "ay8", "p8", "a8y8", "r5g6b5", "a1r5g5b5", "a4r4g4b4", "x8r8g8b8", "a8r8g8b8", "dxt1", "dxt3", "dxt5", "bc7"];
/// The address of a pixel: bits of the coordinates in turns, from the lowest on.
pub fn morton(c: [usize; 3], d: [usize; 3]) -> usize {
    let (mut out, mut bit) = (0, 0);
    for i in 0..16 { for k in 0..3 { if 1 << i < d[k] { out |= (c[k] >> i & 1) << bit; bit += 1 } } }
    out
}
pub fn swizzled(b: &[u8], px: usize, d: [usize; 3]) -> Vec<u8> {
    let mut o = vec![0; b.len()];
    for z in 0..d[2] { for y in 0..d[1] { for x in 0..d[0] { let (from, to) = ((z * d[1] + y) * d[0] + x, morton([x, y, z], d)); o[to * px..][..px].copy_from_slice(&b[from * px..][..px]) } } }
    o
}
/// Dimensions and sizes of all levels of one image (a face of a cube map, or all slices).
pub fn levels(w: usize, h: usize, d: usize, mips: usize, f: &str) -> Vec<([usize; 3], usize)> {
    let (px, bl) = format(f);
    let mut v = vec![];
    for l in 0..=mips {
        let s = [(w >> l).max(1), (h >> l).max(1), (d >> l).max(1)];
        v.push((s, s[0].div_ceil(bl) * s[1].div_ceil(bl) * s[2] * px));
        if s == [1, 1, 1] { break }
    }
    v
}
/// Pixel data of a bitmap's images as they are in a map, with where each is, from how they are in a tag.
pub fn put_bitmap(b: &mut Builder, c: &mut T, how: &How) {
    let e = b.engine.clone();
    let pixels = c.bytes("processed_pixel_data");
    for i in 0..c.len("bitmap_data") {
        let p = |f: &str| format!("bitmap_data[{i}].{f}");
        let (w, h, d, mips) = (c.int(&p("width")) as usize, c.int(&p("height")) as usize, c.int(&p("depth")) as usize, c.int(&p("mipmap_count")) as usize);
        let (f, cube) = (c.enum_name(&p("format")), c.enum_name(&p("type")) == "cube_map");
        let faces = if cube { 6 } else { 1 };
        let (px, bl) = format(f);
        let swizzle = e.swizzled && bl == 1 && !how.linear;
        let ls = levels(w, h, d, mips, f);
        // as in the tag: level by level, in each face by face
        let mut at = c.int(&p("pixel_data_offset")) as usize;
        let mut images = vec![vec![]; faces];
        for (s, n) in &ls { for face in &mut images { let x = &pixels[at..at + n]; face.push(if swizzle { swizzled(x, px, *s) } else { x.to_vec() }); at += n } }
        let mut out: Vec<u8> = vec![];
        let pad = |o: &mut Vec<u8>| while o.len() % e.alignment != 0 { o.push(JUNK) };
        if e.split_faces && cube { for k in [0, 2, 1, 3, 4, 5] { out.extend(images[k].concat()); pad(&mut out) } }
        else { for l in 0..ls.len() { for face in &images { out.extend(&face[l]) } } pad(&mut out); if e.modulo_blocks && !cube { out.extend(vec![JUNK; how.trailing * e.alignment]) } }
        let off = if how.external { b.bitmaps.add_raw(&out) } else { b.add_raw(&out) };
        c.set_int(&p("pixel_data_offset"), off as u64);
        c.set_int(&p("pixel_data_size"), out.len() as u64);
        let full = c.int(&p("mipmap_count"));
        if e.modulo_blocks { c.set_int(&p("mipmap_count"), full + how.more_mipmaps as u64) }
        for (n, v) in [("swizzled", swizzle), ("external", how.external), ("make_it_actually_work", true), ("environment", i % 2 == 1), ("runtime_created", false)] { c.set_flag(&p("flags"), n, v) }
    }
}

/// Sizes of the numbers of a node which is animated.
pub fn node_words(rotate: bool, translate: bool, scale: bool) -> Vec<usize> { [vec![2; rotate as usize * 4], vec![4; translate as usize * 3], vec![4; scale as usize]].concat() }
pub fn frame_words(c: &mut T, i: usize, invert: bool) -> Vec<usize> {
    let mut flag = |f: &str, n: usize| { let w = c.int(&format!("animations[{i}].{f}[{}]", n / 32)); (w >> (n % 32) & 1 == 1) != invert };
    let mut v = vec![];
    let mut bits = vec![];
    for n in 0..64 { bits.push((flag("node_rotation_flag_data", n), flag("node_transform_flag_data", n), flag("node_scale_flag_data", n))) }
    let count = c.int(&format!("animations[{i}].node_count")) as usize;
    for n in 0..count.min(64) { let (r, t, s) = bits[n]; v.extend(node_words(r, t, s)) }
    v
}
pub fn info_words(c: &mut T, i: usize) -> Vec<usize> { vec![4; match c.enum_name(&format!("animations[{i}].frame_info_type")) { "none" => 0, "dx_dy" => 2, "dx_dy_dyaw" => 3, _ => 4 }] }
pub fn swap_by(b: &[u8], words: &[usize]) -> Vec<u8> {
    let mut o = b.to_vec();
    let mut at = 0;
    if words.is_empty() { return o }
    for w in words.iter().cycle() { if at + w > o.len() { break } o[at..at + w].reverse(); at += w }
    o
}
pub fn put_animation(c: &mut T, i: usize, _how: &How) {
    let p = |f: &str| format!("animations[{i}].{f}");
    let (words, rest, info) = (frame_words(c, i, false), frame_words(c, i, true), info_words(c, i));
    let b = swap_by(&c.bytes(&p("frame_info")), &info); c.set_bytes(&p("frame_info"), &b);
    if c.flag(&p("flags"), "compressed_data") {
        // what is compressed is all that goes in
        let b = c.bytes(&p("frame_data"));
        let n = words.iter().sum::<usize>() * c.int(&p("frame_count")) as usize;
        c.set_bytes(&p("frame_data"), b.get(n..).unwrap_or(&b));
        c.set_bytes(&p("default_data"), &[]);
        c.set_int(&p("offset_to_compressed_data"), 0);
    } else {
        let b = swap_by(&c.bytes(&p("frame_data")), &words); c.set_bytes(&p("frame_data"), &b);
        let b = swap_by(&c.bytes(&p("default_data")), &rest); c.set_bytes(&p("default_data"), &b);
    }
}

/// The tree of a tag as it is in a map.
pub fn compile(b: &mut Builder, t: &T, how: &How) -> Val {
    let e = b.engine.clone();
    let mut c = t.clone();
    for (p, k) in times(&mut c) {
        let x = c.floats(&p)[0];
        c.set_floats(&p, &[(x as f64 * k as f64) as f32]);
    }
    if let Some(o) = object_prefix(t.group) {
        for i in 0..c.len(&format!("{o}change_colors")) {
            let p = format!("{o}change_colors[{i}].permutations");
            let n = c.len(&p);
            let mut sum = 0.0f64;
            for k in 0..n { let q = format!("{p}[{k}].weight"); sum += c.floats(&q)[0] as f64; let w = if k + 1 == n { 1.0 } else { sum as f32 }; c.set_floats(&q, &[w]) }
        }
    }
    match t.group {
        "sound" => {
            let bend = c.floats("maximum_bend_rate")[0];
            c.set_floats("maximum_bend_rate", &[(bend as f64).powf(1.0 / 30.0) as f32]);
            for i in 0..c.len("pitch_ranges") { for k in 0..c.len(&format!("pitch_ranges[{i}].permutations")) {
                let p = format!("pitch_ranges[{i}].permutations[{k}]");
                if c.enum_name(&format!("{p}.format")) == "pcm" { let s = swap_words(&c.bytes(&format!("{p}.samples")), 2); c.set_bytes(&format!("{p}.samples"), &s) }
            } }
        }
        "scenario" => { let s = le_table(&c.bytes("script_syntax_data")); c.set_bytes("script_syntax_data", &s); for i in 0..c.len("cutscene_titles") {
            let p = |f: &str| format!("cutscene_titles[{i}].{f}");
            // ends of the phases rather than how long they take
            let up = (t.clone().floats(&p("up_time"))[0] + t.clone().floats(&p("fade_in_time"))[0]) as f64 * TICK as f64;
            c.set_floats(&p("up_time"), &[up as f32]);
        } },
        "bitmap" => { put_bitmap(b, &mut c, how); if c.enum_name("type") == "sprites" { for i in 0..c.len("bitmap_group_sequence") { for f in ["first_bitmap_index", "bitmap_count"] { c.set_int(&format!("bitmap_group_sequence[{i}].{f}"), 0) } } } }
        "scenario_structure_bsp" => for l in 0..c.len("lightmaps") { for m in 0..c.len(&format!("lightmaps[{l}].materials")) {
            let other = format!("lightmaps[{l}].materials[{m}].{}", if e.compressed { "uncompressed_vertices" } else { "compressed_vertices" });
            c.set_bytes(&other, &[]);
        } },
        "model_animations" => for i in 0..c.len("animations") { put_animation(&mut c, i, how) },
        "model" | "gbxmodel" => {
            for (x, y) in [("super_high", "super_low"), ("high", "low")] {
                let (x, y) = (format!("detail_cutoff.{x}"), format!("detail_cutoff.{y}"));
                let (a, b) = (c.bytes(&x), c.bytes(&y));
                c.set_bytes(&x, &b); c.set_bytes(&y, &a);
            }
            // markers by name
            let mut names: Vec<Vec<u8>> = vec![];
            let mut found = vec![];
            for r in 0..c.len("regions") { for p in 0..c.len(&format!("regions[{r}].permutations")) {
                let q = format!("regions[{r}].permutations[{p}].markers");
                for m in 0..c.len(&q) {
                    let f = |n: &str| format!("{q}[{m}].{n}");
                    let name = c.bytes(&f("name"));
                    if !names.contains(&name) { names.push(name.clone()) }
                    found.push((name, r, p, c.int(&f("node_index")), c.bytes(&f("translation")), c.bytes(&f("rotation"))));
                }
                c.list(&q).clear();
            } }
            for (i, n) in names.iter().enumerate() {
                c.grow("runtime_markers", 1);
                c.set_bytes(&format!("runtime_markers[{i}].name"), n);
                for (k, m) in found.iter().filter(|m| m.0 == *n).enumerate() {
                    c.grow(&format!("runtime_markers[{i}].instances"), 1);
                    let f = |n: &str| format!("runtime_markers[{i}].instances[{k}].{n}");
                    c.set_int(&f("region_index"), m.1 as u64); c.set_int(&f("permutation_index"), m.2 as u64); c.set_int(&f("node_index"), m.3); c.set_bytes(&f("translation"), &m.4); c.set_bytes(&f("rotation"), &m.5);
                }
            }
            c.set_flag("flags", "blend_shared_normals", true);
        }
        _ => (),
    }
    // bits which only maps have
    each_field(c.strukt(), &mut c.v, &mut |f, x| if let (Ty::Bits(n), Val::Leaf(b)) = (&f.ty, x) {
        let extra = bits_mask(n, false).iter().zip(bits_mask(n, true)).map(|(a, b)| a & !b).collect::<Vec<_>>();
        if n == "BitmapDataFlags" { return }
        for (b, e) in b.iter_mut().zip(extra) { *b |= e }
    });
    c.v
}
/// Make a tree one which an extraction gives: nothing that maps lack, and references to scenarios and BSPs are to the map's.
pub fn settle(t: &mut T) {
    each_field(t.strukt(), &mut t.v, &mut |f, x| {
        if f.non_cached && !matches!(f.name.as_str(), "uncompressed_vertices" | "compressed_vertices" | "triangle_data" | "processed_pixel_data") { *x = match &f.ty { Ty::Refl(_) => Val::Refl(vec![]), Ty::Data(_) => Val::Data(vec![]), Ty::Struct(s) => blank(s), Ty::Ref { first, .. } => Val::Ref(first.clone().unwrap_or("bitmap".into()), None), t => panic!("{t:?}") } }
        if let Val::Ref(g, Some(p)) = x { if g == "scenario" { *p = SC.into() } if g == "scenario_structure_bsp" { *p = BSP.into() } }
    });
    for (i, (p, _)) in times(t).iter().enumerate() { t.set_floats(p, &[(i as f32 * 3.0 + 1.0) / 8.0]) }
    if let Some(o) = object_prefix(t.group) { for i in 0..t.len(&format!("{o}change_colors")) {
        let p = format!("{o}change_colors[{i}].permutations");
        let n = t.len(&p);
        for k in 0..n { t.set_floats(&format!("{p}[{k}].weight"), &[match (n, k) { (1, _) => 1.0, (2, 0) => 0.25, (2, _) => 0.75, (_, 0) => 0.125, (_, 1) => 0.5, (_, 2) => 0.375, _ => 0.0 }]) }
    } }
    match t.group {
        "sound" => t.set_floats("maximum_bend_rate", &[1.5]),
        // sprite sheets: sequences are told by their sprites
        "bitmap" => if t.enum_name("type") == "sprites" { for i in 0..t.len("bitmap_group_sequence") {
            let p = format!("bitmap_group_sequence[{i}]");
            let n = t.len(&format!("{p}.sprites"));
            let first = (0..n).filter_map(|k| t.index(&format!("{p}.sprites[{k}].bitmap_index"))).min();
            t.set_index(&format!("{p}.first_bitmap_index"), first);
            t.set_int(&format!("{p}.bitmap_count"), (n == 1) as u64);
        } },
        "model" | "gbxmodel" => {
            t.set_flag("flags", "blend_shared_normals", false);
            t.list("runtime_markers").clear();
            let n = t.len("nodes") as u64;
            for r in 0..t.len("regions") { for p in 0..t.len(&format!("regions[{r}].permutations")) { for m in 0..t.len(&format!("regions[{r}].permutations[{p}].markers")) { let f = format!("regions[{r}].permutations[{p}].markers[{m}].node_index"); let i = (t.int(&f) + m as u64) % n; t.set_int(&f, i) } } }
            // they come out by name, in the order in which names are first met
            let mut names: Vec<Vec<u8>> = vec![];
            for r in 0..t.len("regions") { for p in 0..t.len(&format!("regions[{r}].permutations")) {
                let q = format!("regions[{r}].permutations[{p}].markers");
                for m in 0..t.len(&q) { let n = t.bytes(&format!("{q}[{m}].name")); if !names.contains(&n) { names.push(n) } }
                let k = field("ModelRegionPermutationMarker", "name");
                t.list(&q).sort_by_key(|v| match v { Val::Struct(f) => names.iter().position(|n| Val::Leaf(n.clone()) == f[k]), _ => panic!() });
            } }
        }
        _ => (),
    }
}
/// Tags and everything that belongs to a map.
pub fn world(e: &str, tags: &[(&str, T)], how: &How, tweak: impl FnOnce(&mut Builder)) -> Built {
    let mut b = Builder::new(e, SC);
    let trees: Vec<Val> = tags.iter().map(|t| compile(&mut b, &t.1, how)).collect();
    for ((p, t), v) in tags.iter().zip(trees) { b.add(t.group, p, Body::Tree(v)); }
    if !tags.iter().any(|t| t.1.group == "scenario") { let s = scenario(); b.add("scenario", SC, Body::Tree(s.v)); }
    if !tags.iter().any(|t| t.1.group == "scenario_structure_bsp") { b.add("scenario_structure_bsp", BSP, Body::Tree(blank("ScenarioStructureBSP"))); }
    tweak(&mut b);
    b.build()
}
pub fn scenario() -> T {
    let mut s = T::new("scenario");
    s.grow("structure_bsps", 1);
    *s.at("structure_bsps[0].structure_bsp") = Val::Ref("scenario_structure_bsp".into(), Some(BSP.into()));
    s.set_enum("type", "multiplayer");
    s
}
pub fn compare(cx: &mut Cx, m: &Map, p: &str, t: &T) -> bool {
    cx.step(); cx.validated();
    match extract(m, p, t.group) {
        Err(e) => { cx.fail(&format!("{} refused", t.group), format!("{}: {e}", m.get_engine().name)); false }
        Ok(f) => match same_file(&f, &t.file()) { Ok(()) => true, Err(e) => { cx.fail(&format!("{} differs", t.group), format!("{}: {e}", m.get_engine().name)); false } },
    }
}

pub fn groups() -> Vec<&'static str> { let mut g: Vec<&str> = spec().groups.keys().map(|s| s.as_str()).collect(); g.sort(); g }
pub fn distinct(group: &'static str, count: usize, rot: Option<usize>) -> T {
    let mut d = Distinct::new(count);
    d.with_dead = true; d.rot = rot;
    let mut put = |p: &str, o: Ov| { d.overrides.insert(p.into(), o); };
    match group {
        "bitmap" => { put("bitmap_data", Ov::Count(0)); put("processed_pixel_data", Ov::Data(vec![])) }
        "model_animations" => put("animations", Ov::Count(0)),
        "scenario_structure_bsp" => { put("lightmaps", Ov::Count(0)); put("detail_objects", Ov::Count(0)) }
        "scenario" => { for p in ["scripts", "globals"] { put(p, Ov::Count(0)) } put("script_syntax_data", Ov::Data(table(3, 2))); put("structure_bsps", Ov::Count(1)); put("structure_bsps[0].structure_bsp", Ov::Ref("scenario_structure_bsp".into(), Some(BSP.into()))) }
        "model" | "gbxmodel" => for i in 0..count { put(&format!("geometries[{i}].parts"), Ov::Count(0)) },
        "sound" => for i in 0..count { for k in 0..count { put(&format!("pitch_ranges[{i}].permutations[{k}].samples"), Ov::Data((0..2 * (i * 3 + k)).map(|x| (x * 7 + 1) as u8).collect())) } },
        _ => (),
    }
    let v = generate(&spec().groups[group].strukt, &mut vec![], &mut d);
    let mut t = T { group, v };
    settle(&mut t);
    t
}


/// Extract the tags from a map of the engine; all of them have to come back.
pub fn all_back(cx: &mut Cx, e: &str, tags: &[(&str, T)], how: &How, tweak: impl FnOnce(&mut Builder)) -> bool {
    let b = world(e, tags, how, tweak);
    let eng = engine(e);
    cx.state(&b.map);
    match load(&eng, &b, ParseStrictness::Strict) {
        Err(x) => { cx.fail("load", x); false }
        Ok(m) => tags.iter().all(|(p, t)| compare(cx, &m, p, t)),
    }
}
/// The tag has to be refused (an error, no panic).
pub fn refused(cx: &mut Cx, e: &str, tags: &[(&str, T)], which: usize, tweak: impl FnOnce(&mut Builder)) {
    let b = world(e, tags, &How::default(), tweak);
    cx.state(&b.map); cx.step(); cx.validated();
    match load(&engine(e), &b, ParseStrictness::Strict) {
        Err(x) => cx.fail("load", x),
        Ok(m) => match extract(&m, tags[which].0, tags[which].1.group) { Ok(_) => cx.fail("accepted", format!("{}", tags[which].1.group)), Err(p) if p.starts_with("panic") => cx.fail("panic", p), Err(_) => () },
    }
}

/// As it is in a file: behind the header a zlib stream (of blocks which are not compressed), then padding.
pub fn stored(map: &[u8], pad: usize) -> Vec<u8> {
    let (mut a, mut b) = (1u32, 0u32);
    for x in &map[HEADER..] { a = (a + *x as u32) % 65521; b = (b + a) % 65521 }
    let mut o = map[..HEADER].to_vec();
    o[12..16].copy_from_slice(&(pad as u32).to_le_bytes());
    o.extend([0x78, 0x01]);
    let chunks: Vec<&[u8]> = map[HEADER..].chunks(0xFFF0).collect();
    for (i, c) in chunks.iter().enumerate() { o.push((i + 1 == chunks.len()) as u8); o.extend((c.len() as u16).to_le_bytes()); o.extend((!(c.len() as u16)).to_le_bytes()); o.extend(*c) }
    o.extend((b << 16 | a).to_be_bytes());
    o.extend(vec![JUNK; pad]);
    o
}
