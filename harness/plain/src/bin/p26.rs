//! P26: repairing tags, against a model of which faults can be repaired, and how. needs: invader-mc
use mc::fsmap::*;
use mc::inv::invader;
use mc::memtree::MemTree;
use mc::ogg::ogg;
use mc::refser::*;
use mc::treeval::*;
use mc::vertex::*;
use mc::*;
use ringhopper::definitions::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::bludgeon::{bludgeon_tag, BludgeonResult};
use ringhopper::tag::tree::*;
use ringhopper::tag::verify::verify;
use std::collections::BTreeMap;
use std::num::NonZeroUsize;
use std::sync::{Arc, OnceLock};

/// What is wrong with a tag.
#[derive(Default, Clone, Copy, PartialEq, Debug)]
struct Faults { /// something was repaired which the verifier complains about
    told: bool, /// cannot be repaired
    hopeless: bool }

// ---- the model ----

fn fix_float(v: f32, colour: bool) -> f32 { let v = if v.is_nan() { 0.0 } else { v }; if !colour { v } else if v < 0.0 { 0.0 } else if v > 1.0 { 1.0 } else { v } }
fn floats(t: &mut T, f: &mut Faults) {
    each_leaf(t.strukt(), &mut t.v, &mut |ty, b| if let Ty::Prim(p) = ty { if is_float(p) {
        let colour = p.starts_with("Color");
        let now = f32s(b);
        let new: Vec<f32> = now.iter().map(|v| fix_float(*v, colour)).collect();
        if now.iter().zip(&new).any(|(a, b)| a.to_bits() != b.to_bits()) { f.told = true; *b = f32b(&new) }
    } });
}
/// Vectors are made as long as 1; those without a direction are given one.
fn unit(v: &[f32]) -> Option<Vec<f32>> {
    let m: f64 = v.iter().map(|v| *v as f64 * *v as f64).sum();
    if (1.0 - m).abs() < 0.00001 { return None }
    if m == 0.0 || !m.is_finite() { let mut o = vec![0.0; v.len()]; *o.last_mut().unwrap() = 1.0; return Some(o) }
    Some(v.iter().map(|v| (*v as f64 * (1.0 / m.sqrt())) as f32).collect())
}
fn normal(t: &mut T, path: &str, f: &mut Faults) { if let Some(v) = unit(&t.floats(path)) { f.told = true; t.set_floats(path, &v) } }

fn model(t: &mut T, f: &mut Faults) {
    // markers belong to the permutations
    for m in 0..t.len("runtime_markers") {
        f.told = true;
        let name = t.bytes(&format!("runtime_markers[{m}].name"));
        for i in 0..t.len(&format!("runtime_markers[{m}].instances")) {
            let p = |x: &str| format!("runtime_markers[{m}].instances[{i}].{x}");
            let (node, region, permutation) = (t.int(&p("node_index")) as usize, t.int(&p("region_index")) as usize, t.int(&p("permutation_index")) as usize);
            if node >= t.len("nodes") || region >= t.len("regions") || permutation >= t.len(&format!("regions[{region}].permutations")) { f.hopeless = true; return }
            let (rotation, translation) = (t.bytes(&p("rotation")), t.bytes(&p("translation")));
            let to = format!("regions[{region}].permutations[{permutation}].markers");
            let n = t.len(&to);
            t.grow(&to, 1);
            let q = |x: &str| format!("{to}[{n}].{x}");
            t.set_bytes(&q("name"), &name); t.set_index(&q("node_index"), Some(node as u16)); t.set_bytes(&q("rotation"), &rotation); t.set_bytes(&q("translation"), &translation);
        }
    }
    t.list("runtime_markers").clear();
    // vertices
    let gbx = t.group == "gbxmodel";
    let small = t.len("nodes") <= 42 && !(gbx && t.flag("flags", "parts_have_local_nodes"));
    for g in 0..t.len("geometries") { for p in 0..t.len(&format!("geometries[{g}].parts")) {
        let q = p; let p = format!("geometries[{g}].parts[{p}]{}", if gbx { ".model_geometry_part" } else { "" });
        let (u, c) = (t.list(&format!("{p}.uncompressed_vertices")).clone(), t.list(&format!("{p}.compressed_vertices")).clone());
        if small && c.is_empty() && u.iter().all(fits) { *t.list(&format!("{p}.compressed_vertices")) = u.iter().map(compress_model).collect() }
        let mut plain: Vec<Val> = c.iter().map(decompress_model).collect();
        // the nodes of these are counted within the part
        if gbx && t.flag("flags", "parts_have_local_nodes") {
            let part = format!("geometries[{g}].parts[{q}]");
            let table: Vec<u8> = (0..t.int(&format!("{part}.local_node_count"))).map(|i| t.int(&format!("{part}.local_node_indices[{i}]")) as u8).collect();
            if !plain.iter_mut().all(|v| localise(v, &table)) { plain.clear() }
        }
        if u.is_empty() { *t.list(&format!("{p}.uncompressed_vertices")) = plain }
    } }
    for n in 0..t.len("nodes") { normal(t, &format!("nodes[{n}].default_rotation"), f) }
    for r in 0..t.len("regions") { for p in 0..t.len(&format!("regions[{r}].permutations")) { for m in 0..t.len(&format!("regions[{r}].permutations[{p}].markers")) { normal(t, &format!("regions[{r}].permutations[{p}].markers[{m}].rotation"), f) } } }
}

/// Ogg streams used: bytes, channels, rate, frames.
fn streams() -> &'static Vec<(Vec<u8>, u64, i64, u64)> {
    static S: OnceLock<Vec<(Vec<u8>, u64, i64, u64)>> = OnceLock::new();
    S.get_or_init(|| [(1, 22050, 0), (1, 22050, 700), (2, 22050, 700), (1, 44100, 700), (2, 44100, 3000), (1, 48000, 700), (3, 44100, 700)].iter().map(|(c, r, n)| (ogg(*c, *r, *n), *c as u64, *r, *n as u64)).collect())
}
fn sound(t: &mut T, f: &mut Faults) {
    let (channels, rate) = (t.enum_name("channel_count"), t.enum_name("sample_rate"));
    let mut all = vec![]; // format, length of the data, channels, rate; per permutation
    let mut next = vec![];
    for r in 0..t.len("pitch_ranges") {
        let mut own = vec![];
        for p in 0..t.len(&format!("pitch_ranges[{r}].permutations")) {
            let p = |x: &str| format!("pitch_ranges[{r}].permutations[{p}].{x}");
            let (format, data) = (t.enum_name(&p("format")), t.bytes(&p("samples")));
            let n = if channels == "mono" { 1 } else { 2 };
            let (size, c, s) = match format {
                "pcm" => { if data.len() % (2 * n) != 0 { f.hopeless = true } (data.len() as u64, channels, rate) }
                "xbox_adpcm" => { if data.len() % (36 * n) != 0 { f.hopeless = true } (0, channels, rate) }
                "ima_adpcm" => (0, channels, rate),
                "ogg_vorbis" => match streams().iter().find(|s| s.0 == data) {
                    Some(s) if s.1 <= 2 && (s.2 == 22050 || s.2 == 44100) => (s.3 * s.1 * 2, ["mono", "stereo"][s.1 as usize - 1], if s.2 == 22050 { "22050_hz" } else { "44100_hz" }),
                    _ => { f.hopeless = true; (0, channels, rate) }
                },
                x => panic!("{x}"),
            };
            all.push((r, p(""), format, size, c, s));
            own.push(match t.int(&p("next_permutation_index")) { 0 | 0xffff => None, n => Some(n as usize) });
        }
        next.push(own);
    }
    // all of the same kind
    if all.windows(2).any(|w| w[0].2 != w[1].2 || w[0].4 != w[1].4 || w[0].5 != w[1].5) { f.hopeless = true }
    let split = t.flag("flags", "split_long_sound_into_permutations") || next.iter().flatten().any(|n| n.is_some());
    // chains of permutations must end
    let actual: Vec<usize> = next.iter().map(|n| if split { n.iter().flatten().copied().chain([n.len()]).min().unwrap() } else { n.len() }).collect();
    for (own, actual) in next.iter().zip(&actual) { for p in 0..*actual {
        let (mut at, mut steps) = (Some(p), 0);
        while let Some(a) = at { steps += 1; if a >= own.len() || steps > own.len() { f.hopeless = true; break } at = own[a] }
    } }
    if f.hopeless { return }
    if split != t.flag("flags", "split_long_sound_into_permutations") { f.told = true; t.set_flag("flags", "split_long_sound_into_permutations", true) }
    for (r, n) in actual.iter().enumerate() { let p = format!("pitch_ranges[{r}].actual_permutation_count"); if t.int(&p) != *n as u64 { f.told = true; t.set_int(&p, *n as u64) } }
    for (_, p, format, size, c, s) in &all {
        if t.int(&format!("{p}buffer_size")) != *size { f.told = true; t.set_int(&format!("{p}buffer_size"), *size) }
        if t.enum_name("format") != *format { f.told = true; t.set_enum("format", format) }
        if t.enum_name("channel_count") != *c { f.told = true; t.set_enum("channel_count", c) }
        if t.enum_name("sample_rate") != *s { f.told = true; t.set_enum("sample_rate", s) }
        if t.int(&format!("{p}next_permutation_index")) == 0 { f.told = true; t.set_index(&format!("{p}next_permutation_index"), None) }
    }
}

/// A stored string as text: everything before a stray terminator, without control characters, lines ended by CRLF.
fn text(b: &[u8]) -> Option<Vec<u8>> {
    let all: Vec<u16> = b.chunks(2).map(|c| u16::from_le_bytes([c[0], *c.get(1).unwrap_or(&0)])).collect();
    let body: Vec<u16> = if b.is_empty() || b.len() % 2 != 0 { vec![] } else { all.iter().copied().take_while(|c| *c != 0).collect() };
    let s = String::from_utf16_lossy(&body).replace("\r\n", "\n").replace('\r', "");
    let s: String = s.chars().filter(|c| *c == '\n' || *c == '\t' || !c.is_ascii_control()).collect::<String>().replace('\n', "\r\n");
    let out: Vec<u8> = s.encode_utf16().chain([0]).flat_map(|c| c.to_le_bytes()).collect();
    if out == b { None } else { Some(out) }
}
fn strings(t: &mut T, f: &mut Faults) { for i in 0..t.len("strings") { let p = format!("strings[{i}].string"); if let Some(b) = text(&t.bytes(&p)) { f.told = true; t.set_bytes(&p, &b) } } }

fn bsp(t: &mut T, f: &mut Faults) {
    let mut mats = vec![];
    for l in 0..t.len("lightmaps") { for m in 0..t.len(&format!("lightmaps[{l}].materials")) { mats.push(format!("lightmaps[{l}].materials[{m}].")) } }
    for m in &mats {
        let (r, l) = (t.int(&format!("{m}rendered_vertices.vertex_count")), t.int(&format!("{m}lightmap_vertices.vertex_count")));
        let (u, c) = (t.bytes(&format!("{m}uncompressed_vertices")).len() as u64, t.bytes(&format!("{m}compressed_vertices")).len() as u64);
        if (l != 0 && l != r) || (u != 0 && u != r * 56 + l * 20) || (c != 0 && c != r * 32 + l * 8) { f.hopeless = true }
    }
    if f.hopeless { return }
    for m in &mats {
        let r = t.int(&format!("{m}rendered_vertices.vertex_count")) as usize;
        let p = format!("{m}uncompressed_vertices");
        let mut b = t.bytes(&p);
        if b.is_empty() { continue }
        for v in 0..r {
            let at = v * 56 + 12;
            let n: Vec<f32> = b[at..at + 12].chunks(4).map(|c| f32::from_bits(u32::from_le_bytes(c.try_into().unwrap()))).collect();
            if let Some(n) = unit(&n) { f.told = true; for (i, x) in n.iter().enumerate() { b[at + i * 4..at + i * 4 + 4].copy_from_slice(&x.to_bits().to_le_bytes()) } }
        }
        t.set_bytes(&p, &b);
    }
}
fn repair(t: &mut T) -> Faults {
    let mut f = Faults::default();
    floats(t, &mut f);
    match t.group { "model" | "gbxmodel" => model(t, &mut f), "sound" => sound(t, &mut f), "unicode_string_list" => strings(t, &mut f), "scenario_structure_bsp" => bsp(t, &mut f), _ => () }
    f
}

// ---- judging ----

fn path(s: &str) -> TagPath { TagPath::from_path(s).unwrap() }
/// What the verifier says about a tag, when a scenario uses it.
fn verdict(group: &str, tag: &dyn PrimaryTagStructDyn) -> Result<Vec<String>, String> {
    let mut tags: BTreeMap<TagPath, Option<Box<dyn PrimaryTagStructDyn>>> = BTreeMap::new();
    let mut globals = Globals::default();
    globals.interface_bitmaps.items.push(GlobalsInterfaceBitmaps { hud_globals: TagReference::Set(path("h.hud_globals")), ..Default::default() });
    tags.insert(path("globals\\globals.globals"), Some(Box::new(globals)));
    tags.insert(path("ui\\shell\\bitmaps\\white.bitmap"), Some(Box::new(Bitmap::default())));
    tags.insert(path("ui\\multiplayer_game_text.unicode_string_list"), Some(Box::new(UnicodeStringList::default())));
    tags.insert(path("ui\\shell\\solo.ui_widget_collection"), Some(Box::new(UIWidgetCollection::default())));
    tags.insert(path("h.hud_globals"), Some(Box::new(HUDGlobals::default())));
    let p = path(&format!("x.{group}"));
    let mut scenario = Scenario::default();
    scenario.references.items.push(ScenarioReference { reference: TagReference::Set(p.clone()), ..Default::default() });
    tags.insert(path("s.scenario"), Some(Box::new(scenario)));
    tags.insert(p.clone(), Some(tag.clone_inner()));
    let s = if group == "scenario" { p.clone() } else { path("s.scenario") };
    let tree = Arc::new(CachingTagTree::new(MemTree { tags, cache: false }, CachingTagTreeWriteStrategy::Manual));
    let r = guard(|| verify(&s, tree, &ringhopper_engines::ALL_SUPPORTED_ENGINES.iter().find(|e| e.name == "xbox-us").unwrap(), NonZeroUsize::new(1).unwrap()))?.map_err(|e| format!("{e}"))?;
    Ok(r[&p].errors.clone())
}
fn file(t: &dyn PrimaryTagStructDyn) -> Vec<u8> { t.to_tag_file().unwrap() }

/// Repair it twice, and compare with the model.
fn judge(cx: &mut Cx, t: &T, with_verifier: bool) {
    let mut want = t.clone();
    let f = repair(&mut want);
    judge_as(cx, t, if f.hopeless { None } else { Some(&want) }, f.told, with_verifier)
}
fn judge_as(cx: &mut Cx, t: &T, want: Option<&T>, told: bool, with_verifier: bool) {
    let mut tag = t.tag();
    let p = path(&format!("levels\\x.{}", t.group));
    cx.step(); cx.validated();
    let before = if with_verifier { Some(verdict(t.group, tag.as_ref())) } else { None };
    let original = file(tag.as_ref());
    cx.state(&original);
    let done = match guard(|| matches!(bludgeon_tag(tag.as_mut(), &p), BludgeonResult::Done)) { Ok(d) => d, Err(e) => { cx.fail("panic", e); return } };
    cx.check(done == want.is_some(), "repairable", || format!("repaired: {done}"));
    let Some(want) = want else {
        if let Some(v) = before { match v { Ok(v) => { cx.check(!v.is_empty(), "reported", || "not reported".into()); } Err(e) => cx.fail("verifier", e) } }
        return
    };
    if !done { return }
    let got = file(tag.as_ref());
    cx.step();
    if let Err(e) = same_file(&got, &want.file()) { cx.fail("repaired", format!("{e}; {} bytes before", original.len())); return }
    let again = match guard(|| { bludgeon_tag(tag.as_mut(), &p); file(tag.as_ref()) }) { Ok(f) => f, Err(e) => { cx.fail("panic", e); return } };
    cx.check(again == got, "idempotent", || "a second repair changes the tag".into());
    // from the file, too
    let mut back = read_any_tag_from_file_buffer(&got, ParseStrictness::Strict).unwrap();
    let again = match guard(|| { bludgeon_tag(back.as_mut(), &p); file(back.as_ref()) }) { Ok(f) => f, Err(e) => { cx.fail("panic", e); return } };
    cx.check(again == got, "idempotent on file", || same_file(&again, &got).err().unwrap_or("last place".into()));
    if let Some(before) = before {
        match (before, verdict(t.group, back.as_ref())) {
            (Ok(b), Ok(a)) => {
                cx.check((b.len() > a.len()) == told && (told || a == b), "reported", || format!("{b:?} before, {a:?} after the repair"));
                if ["sound", "model", "gbxmodel", "unicode_string_list"].contains(&t.group) && told { cx.check(a.iter().all(|e| !e.contains("repaired")), "left", || format!("{a:?}")); }
            }
            (b, a) => cx.fail("verifier", format!("{b:?} {a:?}")),
        }
    }
}

fn float_leaves(group: &'static str) -> (T, Vec<(usize, String, usize)>) {
    struct One; impl Chooser for One {
        fn leaf(&mut self, _: &[Step], ty: &Ty, _: &FieldDef) -> Val { match ty { Ty::Data(_) => Val::Data(vec![]), Ty::Ref { first, .. } => Val::Ref(first.clone().unwrap_or("bitmap".into()), None), Ty::Prim(t) if t == "Index" => Val::Leaf(vec![0xff; 2]), t => Val::Leaf(vec![0; t.size()]) } }
        fn count(&mut self, _: &[Step], s: &str) -> usize { if s == "ModelMarker" || s.starts_with("ScenarioScript") || s == "ScenarioGlobal" || s == "BitmapData" || s.starts_with("SoundPermutation") { 0 } else { 1 } }
    }
    let strukt = &spec().groups[group].strukt;
    let mut t = T { group, v: generate(strukt, &mut vec![], &mut One) };
    repair(&mut t);
    let mut at = vec![];
    let mut i = 0;
    each_leaf(strukt, &mut t.v, &mut |ty, _| { if let Ty::Prim(p) = ty { if is_float(p) { at.push((i, p.clone(), prim_words(p).1)) } } i += 1 });
    (t, at)
}

fn main() {
    let mut ck = Check::new("P26");
    let nan = [f32::NAN, f32::from_bits(0xFFC00001)];
    let values: Vec<f32> = vec![nan[0], nan[1], f32::INFINITY, f32::NEG_INFINITY, -0.5, 1.5, 0.5, -0.0, f32::from_bits(0x3f800001), -f32::MIN_POSITIVE, f32::MAX];

    // every number of every group
    let groups: Vec<&'static str> = spec().groups.keys().map(|g| g.as_str()).filter(|g| !["object", "unit", "item", "device", "shader"].contains(g)).collect();
    let every = ck.pick(false, true);
    let all: Vec<(usize, usize)> = groups.iter().enumerate().flat_map(|(g, n)| { let n = float_leaves(n).1.len(); (0..n).map(move |i| (g, i)) }).collect();
    ck.items("floats", &all, |(g, i)| format!("{} {i}", groups[*g]), |(g, i), cx| {
        let (t, at) = float_leaves(groups[*g]);
        let (leaf, ty, words) = &at[*i];
        let mut cases: Vec<Vec<f32>> = values.iter().map(|v| vec![*v; *words]).collect();
        for w in 0..*words { if *words > 1 { for v in [nan[0], 1.5, -0.5] { let mut c = vec![0.25; *words]; c[w] = v; cases.push(c) } } }
        for (n, c) in cases.iter().enumerate() {
            if !every && n >= values.len() && !matches!(ty.as_str(), "ColorARGBFloat" | "ColorRGBFloat") && c.iter().all(|v| !v.is_nan()) { continue }
            let mut t = t.clone();
            let mut k = 0;
            each_leaf(&spec().groups[t.group].strukt, &mut t.v, &mut |_, b| { if k == *leaf { *b = f32b(c) } k += 1 });
            judge(cx, &t, every && n < 6 || n == 0 || n == 5 && i % 16 == 0);
            if cx.failed() { cx.note(|| format!("{ty} {c:?}")); return }
        }
    });

    // models: markers
    let n = ck.pick(3usize, 4);
    ck.family("markers", 2 * n * n * n * 7, |i| format!("{i}"), |i, cx| {
        let d = digits(i, &[2, n, n, n, 7]);
        let mut t = T::new(["model", "gbxmodel"][d[0]]);
        t.grow("nodes", 2).grow("regions", 2).grow("regions[0].permutations", 1).grow("regions[1].permutations", 2).grow("regions[1].permutations[1].markers", 1);
        t.set_string("regions[1].permutations[1].markers[0].name", "old");
        for p in ["nodes[0].default_rotation", "nodes[1].default_rotation", "regions[1].permutations[1].markers[0].rotation"] { t.set_floats(p, &[0.0, 0.0, 0.0, 1.0]) }
        // instances per marker
        for (m, k) in [vec![], vec![0], vec![1], vec![2], vec![1, 1], vec![0, 2], vec![2, 1]][d[4]].iter().enumerate() {
            t.grow("runtime_markers", 1);
            t.set_string(&format!("runtime_markers[{m}].name"), ["first", "second"][m]);
            t.grow(&format!("runtime_markers[{m}].instances"), *k);
            for x in 0..*k {
                let p = |f: &str| format!("runtime_markers[{m}].instances[{x}].{f}");
                // the last one varies
                let last = x + 1 == *k;
                t.set_int(&p("region_index"), if last { [0, 1, 2, 255][d[1]] } else { 1 });
                t.set_int(&p("permutation_index"), if last { [0, 1, 2, 255][d[2]] } else { 1 });
                t.set_int(&p("node_index"), if last { [0, 1, 2, 255][d[3]] } else { 1 });
                t.set_floats(&p("translation"), &[x as f32, m as f32, -1.5]);
                t.set_floats(&p("rotation"), [&[0.5f32, -0.5, 0.5, 0.5], &[0.0, 0.0, 0.0, 2.0]][x % 2]);
            }
        }
        judge(cx, &t, true);
    });
    // models: rotations
    let turns: Vec<[f32; 4]> = vec![[0.0, 0.0, 0.0, 1.0], [0.0; 4], [-0.0; 4], [0.0, 0.0, 0.0, -1.0], [2.0, 0.0, 0.0, 0.0], [0.5; 4], [0.5, 0.5, 0.5, 0.50001], [0.5, 0.5, 0.5, 0.500004], [1e-30; 4], [1e30, 0.0, -1e30, 3.0], [f32::INFINITY, 0.0, 0.0, 0.0], [f32::NEG_INFINITY, f32::INFINITY, 1.0, 1.0], [f32::NAN, 0.0, 0.0, 1.0], [f32::NAN, 1.0, 1.0, 0.0], [f32::NAN; 4], [f32::MAX; 4], [1e-45, 0.0, 0.0, 0.0], [1.0, 1.0, 1.0, 1.0]];
    let k = turns.len();
    ck.family("rotations", 2 * k * k * k, |i| format!("{i}"), |i, cx| {
        let d = digits(i, &[2, k, k, k]);
        let mut t = T::new(["model", "gbxmodel"][d[0]]);
        t.grow("nodes", 2).grow("regions", 1).grow("regions[0].permutations", 1).grow("regions[0].permutations[0].markers", 2);
        t.set_floats("nodes[0].default_rotation", &turns[d[1]]);
        t.set_floats("nodes[1].default_rotation", &turns[d[2]]);
        t.set_floats("regions[0].permutations[0].markers[0].rotation", &turns[0]);
        t.set_floats("regions[0].permutations[0].markers[1].rotation", &turns[d[3]]);
        judge(cx, &t, i % 7 == 0);
    });
    // models: vertices of one kind are missing
    let nodes = [0usize, 1, 42, 43];
    let refs: [Option<u16>; 5] = [None, Some(0), Some(41), Some(42), Some(0x5556)];
    ck.family("vertices", 4 * 4 * 4 * 4 * 5, |i| format!("{i}"), |i, cx| {
        let d = digits(i, &[4, 4, 4, 4, 5]); // kind of model, nodes, two parts, node
        let mut t = T::new(["model", "gbxmodel", "gbxmodel", "gbxmodel"][d[0]]);
        if d[0] >= 2 { t.set_flag("flags", "parts_have_local_nodes", true) }
        t.grow("nodes", nodes[d[1]]).grow("geometries", 1).grow("geometries[0].parts", 2);
        for n in 0..nodes[d[1]] { t.set_floats(&format!("nodes[{n}].default_rotation"), &[0.0, 0.0, 0.0, 1.0]) }
        for part in 0..2 {
            let p = format!("geometries[0].parts[{part}]{}", if d[0] > 0 { ".model_geometry_part" } else { "" });
            if d[0] == 3 { t.set_flag(&format!("{p}.flags"), "zoner", true); let q = format!("geometries[0].parts[{part}]"); t.set_int(&format!("{q}.local_node_count"), 3); for (i, n) in [41, 2, 0, 1].iter().enumerate() { t.set_int(&format!("{q}.local_node_indices[{i}]"), *n) } }
            let has = d[2 + part];
            if has & 1 == 1 { t.grow(&format!("{p}.uncompressed_vertices"), 2); for v in 0..2 {
                let q = |x: &str| format!("{p}.uncompressed_vertices[{v}].{x}");
                t.set_floats(&q("position"), &[1.0 + v as f32, 2.0, 3.0]); t.set_floats(&q("normal"), &[0.0, 0.6, 0.8]); t.set_floats(&q("binormal"), &[1.0, 0.0, 0.0]); t.set_floats(&q("tangent"), &[0.0, -0.8, 0.6]);
                t.set_floats(&q("texture_coords"), &[0.25, -0.75]); t.set_index(&q("node0_index"), if v == 0 { Some(0) } else { refs[d[4]] }); t.set_index(&q("node1_index"), if v == 0 { refs[d[4]] } else { None });
                t.set_floats(&q("node0_weight"), &[0.75]); t.set_floats(&q("node1_weight"), &[0.25 * v as f32]);
            } }
            if has & 2 == 2 { t.grow(&format!("{p}.compressed_vertices"), 1); let q = |x: &str| format!("{p}.compressed_vertices[0].{x}");
                t.set_int(&q("normal"), 0x12345678); t.set_int(&q("tangent"), 0x87654321); t.set_int(&q("node0_index"), [3, 253, 255, 126, 7][d[4]]); t.set_int(&q("node1_index"), 255); t.set_int(&q("node0_weight"), 0x4000); t.set_int(&q("texture_coordinate_v"), 0x8001); t.set_floats(&q("position"), &[0.5, 0.0, -7.0]); }
        }
        judge(cx, &t, i % 4 == 0);
    });

    // sounds: how permutations follow each other
    let nexts: [Option<u16>; 6] = [None, Some(0), Some(1), Some(2), Some(3), Some(900)];
    let most = ck.pick(3usize, 6);
    let shapes: Vec<Vec<usize>> = (0..=most).flat_map(|k| (0..6usize.pow(k as u32)).map(move |i| digits(i, &vec![6; k]))).collect();
    let counts: [u64; 4] = [0, 1, 2, 0xffff];
    ck.items("chains", &shapes, |s| s.iter().map(|x| nexts[*x].map_or("-".into(), |n| n.to_string())).collect::<Vec<_>>().join(","), |s, cx| {
        for flag in [false, true] { for count in counts.iter().chain([&(s.len() as u64)]) { for ranges in [1, 2] {
            let mut t = T::new("sound");
            t.set_flag("flags", "split_long_sound_into_permutations", flag);
            t.grow("pitch_ranges", ranges);
            if ranges == 2 { t.grow("pitch_ranges[0].permutations", 2); t.set_int("pitch_ranges[0].actual_permutation_count", 2); }
            let r = ranges - 1;
            t.grow(&format!("pitch_ranges[{r}].permutations"), s.len());
            t.set_int(&format!("pitch_ranges[{r}].actual_permutation_count"), *count);
            for (i, n) in s.iter().enumerate() { t.set_index(&format!("pitch_ranges[{r}].permutations[{i}].next_permutation_index"), nexts[*n]) }
            judge(cx, &t, !ck_heavy(s));
        } } }
    });
    // sounds: formats, sizes, streams
    let formats = ["pcm", "xbox_adpcm", "ima_adpcm", "ogg_vorbis"];
    let s = streams();
    let kinds: Vec<(usize, Vec<u8>)> = [(0usize, 0usize), (0, 2), (0, 4), (0, 3), (1, 0), (1, 36), (1, 72), (1, 40), (2, 0), (2, 7)].iter().map(|(f, n)| (*f, vec![1; *n])).chain(s.iter().map(|s| (3, s.0.clone()))).chain([(3, vec![]), (3, s[1].0[..s[1].0.len() / 2].to_vec()), (3, s[1].0[..40].to_vec()), (3, vec![7; 64])]).collect();
    let k = kinds.len();
    ck.family("formats", (k + 1) * k * 4, |i| format!("{i}"), |i, cx| {
        let d = digits(i, &[k + 1, k, 4]);
        for (rate, channels) in [(0u64, 0u64), (0, 1), (1, 0), (1, 1)] { for size in [0u64, 4, 1400, 0xffffffff] {
            let mut t = T::new("sound");
            t.set_int("sample_rate", rate); t.set_int("channel_count", channels); t.set_enum("format", formats[d[2]]);
            t.grow("pitch_ranges", 2);
            for (r, x) in [(0, d[1]), (1, d[0])] {
                if x == k { continue }
                t.grow(&format!("pitch_ranges[{r}].permutations"), 1); t.set_int(&format!("pitch_ranges[{r}].actual_permutation_count"), 1);
                let p = |f: &str| format!("pitch_ranges[{r}].permutations[0].{f}");
                t.set_enum(&p("format"), formats[kinds[x].0]); t.set_bytes(&p("samples"), &kinds[x].1); t.set_int(&p("buffer_size"), size); t.set_index(&p("next_permutation_index"), if r == 1 && size == 4 { Some(0) } else { None });
            }
            // streams which are cut: whatever the decoder makes of them
            if [d[0], d[1]].iter().any(|x| *x >= k - 3 && *x < k - 1) { let mut tag = t.tag(); if let Err(e) = guard(|| { bludgeon_tag(tag.as_mut(), &path("x.sound")); }) { cx.fail("panic", e) } cx.step(); continue }
            judge(cx, &t, size == 4 || d[0] == k);
            if cx.failed() { cx.note(|| format!("rate {rate} channels {channels} size {size}")); return }
        } }
    });
    // more permutations than can be counted
    ck.family("many permutations", 2, |i| format!("{i}"), |i, cx| {
        let mut t = T::new("sound");
        t.set_enum("format", "ima_adpcm");
        t.grow("pitch_ranges", 1).grow("pitch_ranges[0].permutations", [65535, 65537][i]);
        for p in 0..[65535, 65537][i] { t.set_enum(&format!("pitch_ranges[0].permutations[{p}].format"), "ima_adpcm") }
        let mut tag = t.tag();
        cx.step(); cx.state(i);
        match guard(|| { bludgeon_tag(tag.as_mut(), &path("x.sound")); verdict("sound", tag.as_ref()) }) { Err(e) | Ok(Err(e)) => cx.fail("panic", e), Ok(Ok(_)) => () }
    });

    // strings
    let most = ck.pick(4usize, 6);
    let units: [u16; 10] = [0, 0x0a, 0x0d, 0x09, 0x01, 0x41, 0x7f, 0xd83d, 0xde00, 0xfeff];
    let lists: Vec<Vec<usize>> = (0..=most).flat_map(|k| (0..10usize.pow(k as u32)).map(move |i| digits(i, &vec![10; k]))).collect();
    let chunks: Vec<&[Vec<usize>]> = lists.chunks(64).collect();
    ck.items("strings", &chunks, |c| format!("{:?}..", c[0]), |c, cx| {
        for (i, l) in c.iter().enumerate() { for tail in 0..3 {
            let mut b: Vec<u8> = l.iter().flat_map(|u| units[*u].to_le_bytes()).collect();
            match tail { 0 => b.extend([0, 0]), 1 => (), _ => { if l.len() > 2 { continue } b.push(0x41) } }
            let mut t = T::new("unicode_string_list");
            t.grow("strings", 2);
            t.set_bytes("strings[0].string", &[0x42, 0, 0, 0]); t.set_bytes("strings[1].string", &b);
            judge(cx, &t, i % 16 == 0);
        } }
    });

    // structure BSPs
    let normals: Vec<[f32; 3]> = vec![[0.0, 0.0, 1.0], [0.0; 3], [3.0, 0.0, 4.0], [f32::NAN, 0.0, 1.0], [f32::INFINITY, 0.0, 1.0], [0.0, 0.6, -0.8], [0.0, 1.000004, 0.0], [0.0, 1.00001, 0.0]];
    ck.family("structure normals", normals.len().pow(3) * 2, |i| format!("{i}"), |i, cx| {
        let d = digits(i, &[normals.len(), normals.len(), normals.len(), 2]);
        let mut t = T::new("scenario_structure_bsp");
        t.grow("lightmaps", 2).grow("lightmaps[0].materials", 1).grow("lightmaps[1].materials", 2);
        for (n, m) in ["lightmaps[0].materials[0].", "lightmaps[1].materials[0].", "lightmaps[1].materials[1]."].iter().enumerate() {
            t.set_int(&format!("{m}rendered_vertices.vertex_count"), n as u64);
            t.set_int(&format!("{m}lightmap_vertices.vertex_count"), (n * d[3]) as u64);
            let mut b = vec![];
            for v in 0..n { let mut x: Vec<u8> = (0..56u8).collect(); for k in 0..3 { x[12 + k * 4..16 + k * 4].copy_from_slice(&normals[d[n - 1 + v]][k].to_bits().to_le_bytes()) } b.extend(x) }
            b.extend((0..n * d[3] * 20).map(|i| i as u8));
            t.set_bytes(&format!("{m}uncompressed_vertices"), &b);
            if n == 2 { t.set_bytes(&format!("{m}compressed_vertices"), &vec![9; 64 + 16 * d[3]]) }
        }
        judge(cx, &t, true);
    });
    let sizes = [0i64, 1, -1, 20, 56, 32];
    ck.family("structure sizes", 4 * 4 * 6 * 6, |i| format!("{i}"), |i, cx| {
        let d = digits(i, &[4, 4, 6, 6]); // rendered, lightmap, data off by, compressed off by
        let (r, l) = ([0i64, 1, 2, 0xffffffff][d[0]], [0i64, 1, 2, 0xffffffff][d[1]]);
        let mut t = T::new("scenario_structure_bsp");
        t.grow("lightmaps", 1).grow("lightmaps[0].materials", 2);
        let m = "lightmaps[0].materials[1].";
        t.set_int(&format!("{m}rendered_vertices.vertex_count"), r as u64); t.set_int(&format!("{m}lightmap_vertices.vertex_count"), l as u64);
        for (k, (name, size)) in [("uncompressed", PLAIN), ("compressed", SMALL)].iter().enumerate() {
            let full = if r > 2 || l > 2 { 0 } else { r * size.0 as i64 + l * size.1 as i64 };
            let n = (full + sizes[d[2 + k]]).max(0) as usize;
            t.set_bytes(&format!("{m}{name}_vertices"), &f32b(&vec![1.0; n / 4 + 1]).iter().copied().rev().take(n).collect::<Vec<_>>());
        }
        judge(cx, &t, true);
    });

    // scenarios: text is only made for scripts which have none
    ck.family("scenarios", 16, |i| format!("{i}"), |i, cx| {
        let mut t = T::new("scenario");
        if i & 1 == 1 { t.grow("globals", 1); t.set_string("globals[0].name", "g"); t.set_enum("globals[0].type", "boolean"); }
        if i & 2 == 2 { t.grow("scripts", 1); t.set_string("scripts[0].name", "s"); }
        if i & 4 == 4 { t.grow("source_files", 1); t.set_string("source_files[0].name", "mine"); t.set_bytes("source_files[0].source", b"(x)"); }
        let with = i & 3 != 0 && i & 4 == 0;
        if i & 8 == 8 || with { t.set_bytes("script_syntax_data", &script_data()); }
        if i & 3 != 0 { if i & 1 == 1 { t.set_bytes("globals[0].initialization_expression_index", &0xe1740000u32.to_be_bytes()) } if i & 2 == 2 { t.set_bytes("scripts[0].root_expression_index", &0xe1750001u32.to_be_bytes()) } }
        cx.step(); cx.state(i);
        if !with { judge(cx, &t, true); return }
        let mut tag = t.tag();
        match guard(|| matches!(bludgeon_tag(tag.as_mut(), &path("levels\\x.scenario")), BludgeonResult::Done)) { Ok(true) => (), r => { cx.fail("repairable", format!("{r:?}")); return } }
        let mut s = tag.as_any().downcast_ref::<Scenario>().unwrap().clone();
        cx.check(!s.source_files.items.is_empty(), "text", || "none".into());
        let before = (verdict("scenario", t.tag().as_ref()).map(|v| v.len()), verdict("scenario", tag.as_ref()).map(|v| v.len()));
        cx.check(matches!(before, (Ok(a), Ok(b)) if a > b), "reported", || format!("{before:?}"));
        let once = file(tag.as_ref());
        bludgeon_tag(tag.as_mut(), &path("levels\\x.scenario"));
        cx.check(file(tag.as_ref()) == once, "idempotent", || "changed".into());
        s.source_files.items.clear();
        cx.check(file(&s) == t.file(), "nothing else", || "something else was changed".into());
    });

    // the command: what is repaired is written, and nothing else
    let n = ck.pick(8usize, 16);
    ck.family("command", n, |i| format!("{i}"), |i, cx| {
        let mut tags: BTreeMap<String, (T, Option<T>)> = BTreeMap::new();
        let mut add = |name: &str, t: T| { let mut w = t.clone(); let f = repair(&mut w); tags.insert(format!("{name}.{}", t.group), (t, if f.hopeless { None } else { Some(w) })); };
        let mut m = T::new("gbxmodel"); m.grow("nodes", 1); if i & 1 == 1 { m.set_floats("nodes[0].default_rotation", &[0.0, 0.0, 3.0, 0.0]) } else { m.set_floats("nodes[0].default_rotation", &[0.0, 0.0, 1.0, 0.0]) } add("a", m);
        let mut s = T::new("sound"); s.grow("pitch_ranges", 1).grow("pitch_ranges[0].permutations", 1); s.set_int("pitch_ranges[0].actual_permutation_count", (i & 2) as u64); s.set_index("pitch_ranges[0].permutations[0].next_permutation_index", if i & 4 == 4 { Some(9) } else { None }); add("d/b", s);
        let mut u = T::new("unicode_string_list"); u.grow("strings", 1); u.set_bytes("strings[0].string", if i & 4 == 0 { &[0x41, 0, 0, 0] } else { &[0x41, 0] }); add("c", u);
        let mut b = T::new("bitmap"); b.set_floats("processing.bump_height", &[if i & 8 == 8 { f32::NAN } else { 0.5 }]); add("c", b);
        let dir = case_dir("bludgeon");
        for cow in [false, true] {
            let mut fs: BTreeMap<String, Vec<u8>> = tags.iter().map(|(p, t)| (format!("tags/{p}"), t.0.file())).collect();
            reset(&dir, &fs);
            let mut args = vec!["bludgeon", "*"];
            if cow { args.extend(["-c", "cow"]); std::fs::create_dir_all(dir.join("cow")).unwrap(); }
            let r = invader(&args, &dir, &[("MC_NOSCHED", "1".into())]);
            cx.step(); cx.state((i, cow)); cx.validated();
            cx.check(r.ok() && !r.panicked(), "exit", || r.brief());
            for (p, (t, w)) in &tags { if let Some(w) = w { if w.file() != t.file() { fs.insert(format!("{}/{p}", if cow { "cow" } else { "tags" }), w.file()); } } }
            let got = files(&snapshot(&dir));
            cx.check(got == fs, "files", || format!("{} {}", differences(&got, &fs), r.brief()));
            let fubar = tags.values().filter(|t| t.1.is_none()).count();
            cx.check(r.out.matches("FUBAR").count() == fubar, "told", || r.brief());
        }
    });
    ck.finish();
}
fn ck_heavy(s: &[usize]) -> bool { s.len() > 3 }

/// One node: the literal `true`, behind the header of the table.
fn script_data() -> Vec<u8> {
    let mut b = vec![0u8; 96];
    b[..11].copy_from_slice(b"script node");
    for (at, n) in [(32, 2u16), (34, 20), (46, 2), (48, 2), (56, 0xe174), (58, 5), (60, 5), (62, 1), (64, 0xffff), (66, 0xffff), (76, 0xe175), (78, 5), (80, 5), (82, 1), (84, 0xffff), (86, 0xffff)] { b[at..at + 2].copy_from_slice(&n.to_be_bytes()) }
    b[36] = 1;
    b[40..44].copy_from_slice(b"d@t@");
    b[72] = 1; b[92] = 1;
    b
}
