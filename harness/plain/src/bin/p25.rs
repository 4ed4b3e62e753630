//! P25: default values: filling in and stripping, against a model of which fields have which default. needs: invader-mc
use mc::fsmap::{files, reset, snapshot};
use mc::inv::invader;
use mc::refser::*;
use mc::*;
use ringhopper::definitions::read_any_tag_from_file_buffer;
use ringhopper::primitives::primitive::TagGroup;
use ringhopper::primitives::tag::*;
use ringhopper::tag::default::*;
use std::collections::BTreeMap;

fn f32s(b: &[u8]) -> Vec<f32> { b.chunks(4).map(|c| f32::from_bits(u32::from_be_bytes(c.try_into().unwrap()))).collect() }

/// A tree with access by path.
#[derive(Clone, PartialEq)]
struct M { group: &'static str, v: Val }
impl M {
    fn strukt(&self) -> &'static str { &spec().groups[self.group].strukt }
    fn at(&mut self, path: &str) -> &mut Val {
        let mut st = self.strukt();
        let mut v = &mut self.v;
        for part in path.split('.') {
            let (name, idx) = match part.split_once('[') { Some((n, i)) => (n, Some(i.trim_end_matches(']').parse::<usize>().unwrap())), None => (part, None) };
            if name == "lower" || name == "upper" { v = match v { Val::Many(l) => &mut l[(name == "upper") as usize], v => panic!("{path}: {v:?}") }; continue }
            let i = spec().structs[st].fields.iter().position(|f| f.name == name).unwrap_or_else(|| panic!("{path}: no {name} in {st}"));
            if let Ty::Struct(s) | Ty::Refl(s) = &spec().structs[st].fields[i].ty { st = s }
            v = match v { Val::Struct(l) => &mut l[i], v => panic!("{path}: {v:?}") };
            if let Some(i) = idx { v = match v { Val::Many(l) | Val::Refl(l) => &mut l[i], v => panic!("{path}: {v:?}") } }
        }
        v
    }
    fn len(&mut self, path: &str) -> usize { match self.at(path) { Val::Refl(l) => l.len(), v => panic!("{path}: {v:?}") } }
    fn bytes(&mut self, path: &str) -> Vec<u8> { match self.at(path) { Val::Leaf(b) => b.clone(), v => panic!("{path}: {v:?}") } }
    fn f(&mut self, path: &str) -> f32 { f32s(&self.bytes(path))[0] }
    fn set(&mut self, path: &str, v: f32) { *self.at(path) = Val::Leaf(v.to_bits().to_be_bytes().to_vec()) }
    fn int(&mut self, path: &str) -> u64 { self.bytes(path).iter().fold(0, |a, b| a << 8 | *b as u64) }
    fn file(&self) -> Vec<u8> { tag_file(self.group, &serialize(self.strukt(), &self.v, None)) }
}

/// The words of a default, as they are stored.
fn default_words(f: &FieldDef) -> Option<Vec<Vec<u8>>> {
    let d = f.default.as_ref()?;
    let t = match &f.ty { Ty::Prim(t) => t.as_str(), t => panic!("{t:?}") };
    Some(d.iter().map(|v| match t {
        "Angle" => (v.as_f64().unwrap() as f32).to_radians().to_bits().to_be_bytes().to_vec(),
        t if is_float(t) => (v.as_f64().unwrap() as f32).to_bits().to_be_bytes().to_vec(),
        _ => (v.as_f64().unwrap() as i64).to_be_bytes()[8 - f.ty.word()..].to_vec(),
    }).collect())
}
fn leaves(v: &Val) -> Vec<u8> { match v { Val::Leaf(b) => b.clone(), Val::Many(l) => l.iter().flat_map(leaves).collect(), v => panic!("{v:?}") } }
fn put(v: &mut Val, b: &[u8]) { match v { Val::Leaf(x) => { let n = x.len(); x.copy_from_slice(&b[..n]) } Val::Many(l) => { let n = b.len() / l.len(); for (i, x) in l.iter_mut().enumerate() { put(x, &b[i * n..i * n + n]) } } v => panic!("{v:?}") } }
fn same(ty: &Ty, a: &[u8], b: &[u8]) -> bool { match ty { Ty::Prim(t) if is_float(t) => f32s(a) == f32s(b), _ => a == b } }

/// Everything with a default in the definitions.
fn by_definition(strukt: &str, v: &mut Val, fill: bool) {
    let Val::Struct(fs) = v else { panic!() };
    for (f, v) in spec().structs[strukt].fields.iter().zip(fs) {
        if f.cache_only || f.exclude { continue }
        if let Some(d) = default_words(f) {
            let d = d.concat();
            let zero = vec![0; d.len()];
            let now = leaves(v);
            if fill { if same(&f.ty, &now, &zero) { put(v, &d) } } else if same(&f.ty, &now, &d) { put(v, &zero) }
            continue
        }
        match (&f.ty, v) {
            (Ty::Struct(s), Val::Many(l)) | (Ty::Refl(s), Val::Refl(l)) => for v in l { by_definition(s, v, fill) },
            (Ty::Struct(s), v) => by_definition(s, v, fill),
            (Ty::Refl(_), v) => panic!("{v:?}"),
            _ => (),
        }
    }
}

/// Fields which are unset or default only together.
fn together(m: &mut M, fill: bool, fields: &[(&str, f32)]) {
    let (from, to): (Vec<f32>, Vec<f32>) = fields.iter().map(|f| if fill { (0.0, f.1) } else { (f.1, 0.0) }).unzip();
    if fields.iter().zip(&from).all(|(f, v)| m.f(f.0) == *v) { for (f, v) in fields.iter().zip(&to) { m.set(f.0, *v) } }
}
/// A missing scale follows the other one.
fn scale(m: &mut M, fill: bool, u: &str, v: &str) {
    let (a, b) = (m.f(u), m.f(v));
    let (a, b) = if fill { match (a == 0.0, b == 0.0) { (true, true) => (1.0, 1.0), (true, false) => (b, b), (false, true) => (a, a), _ => return } }
        else if (a == 0.0 || a == 1.0) && (b == 0.0 || b == 1.0) { (0.0, 0.0) } else { return };
    m.set(u, a); m.set(v, b);
}

const CLASSES: &[(&str, f32, f32, f32)] = &[ // class, distances, gain at scale zero
    ("projectile impact", 1.4, 8.0, 1.0), ("projectile detonation", 8.0, 120.0, 1.0), ("weapon fire", 4.0, 70.0, 1.0), ("weapon ready", 1.0, 9.0, 1.0), ("weapon reload", 1.0, 9.0, 1.0), ("weapon empty", 1.0, 9.0, 1.0),
    ("weapon charge", 1.0, 9.0, 1.0), ("weapon overheat", 1.0, 9.0, 1.0), ("weapon idle", 1.0, 9.0, 1.0), ("object impacts", 0.5, 3.0, 0.0), ("particle impacts", 0.5, 3.0, 0.0), ("slow particle impacts", 0.5, 3.0, 0.0),
    ("unit footsteps", 0.9, 10.0, 1.0), ("unit dialog", 3.0, 20.0, 0.0), ("vehicle collision", 1.4, 8.0, 1.0), ("vehicle engine", 1.4, 8.0, 1.0), ("device door", 0.9, 5.0, 1.0), ("device force field", 0.9, 5.0, 1.0),
    ("device machinery", 0.9, 5.0, 1.0), ("device nature", 0.9, 5.0, 1.0), ("device computers", 0.5, 3.0, 1.0), ("music", 0.9, 5.0, 0.0), ("ambient nature", 0.9, 5.0, 0.0), ("ambient machinery", 0.9, 5.0, 0.0),
    ("ambient computers", 0.5, 3.0, 0.0), ("first person damage", 0.5, 3.0, 1.0), ("scripted dialog player", 3.0, 20.0, 0.0), ("scripted effect", 2.0, 5.0, 0.0), ("scripted dialog other", 3.0, 20.0, 0.0),
    ("scripted dialog force unspatialized", 3.0, 20.0, 0.0), ("game event", 3.0, 20.0, 1.0),
];
fn sound(m: &mut M, fill: bool) {
    let split = m.bytes("flags").iter().fold(0u64, |a, b| a << 8 | *b as u64) >> spec().bits["SoundFlags"].fields.iter().position(|f| f.name == "split_long_sound_into_permutations").unwrap() & 1 == 1;
    let class = &spec().enums["SoundClass"][m.int("sound_class") as usize].name;
    let class = CLASSES.iter().find(|c| same_name(c.0, class)).unwrap_or_else(|| panic!("{class}"));
    for r in 0..m.len("pitch_ranges") {
        let p = |f: &str| format!("pitch_ranges[{r}].{f}");
        let natural = match m.f(&p("natural_pitch")) { n if n <= 0.0 => 1.0, n => n };
        if m.f(&p("bend_bounds.upper")) < natural { m.set(&p("bend_bounds.upper"), natural) }
        if m.f(&p("bend_bounds.lower")) > natural { m.set(&p("bend_bounds.lower"), natural) }
        if !fill && m.f(&p("bend_bounds.upper")) == natural && m.f(&p("bend_bounds.lower")) == 0.0 { m.set(&p("bend_bounds.upper"), 0.0) }
        let n = m.len(&p("permutations"));
        let own = if split { m.int(&p("actual_permutation_count")) as usize } else { n };
        if own > n { continue }
        for i in 0..own { together(m, fill, &[(&p(&format!("permutations[{i}].gain")), 1.0)]) }
        if split && !fill { for i in own..n { m.set(&p(&format!("permutations[{i}].gain")), 0.0) } }
        if split && fill { for i in 0..own {
            let gain = m.f(&p(&format!("permutations[{i}].gain")));
            let (mut seen, mut next) = (vec![], m.int(&p(&format!("permutations[{i}].next_permutation_index"))) as usize);
            while next < n && !seen.contains(&next) { seen.push(next); m.set(&p(&format!("permutations[{next}].gain")), gain); next = m.int(&p(&format!("permutations[{next}].next_permutation_index"))) as usize }
        } }
    }
    together(m, fill, &[("distance_bounds.lower", class.1)]);
    together(m, fill, &[("distance_bounds.upper", class.2)]);
    together(m, fill, &[("random_pitch_bounds.lower", 1.0)]);
    together(m, fill, &[("random_pitch_bounds.upper", 1.0)]);
    together(m, fill, &[("zero_skip_fraction_modifier", 1.0), ("one_skip_fraction_modifier", 1.0)]);
    together(m, fill, &[("zero_pitch_modifier", 1.0), ("one_pitch_modifier", 1.0)]);
    together(m, fill, &[("zero_gain_modifier", class.3), ("one_gain_modifier", 1.0)]);
}
fn same_name(a: &str, b: &str) -> bool { let n = |s: &str| s.chars().filter(|c| c.is_alphanumeric()).collect::<String>().to_lowercase(); n(a) == n(b) }

/// Where an object keeps its own fields.
fn object_prefix(group: &str) -> Option<&'static str> {
    Some(match group {
        "object" => "", "unit" | "item" | "device" | "projectile" => "object.", "scenery" | "placeholder" | "sound_scenery" => "basic_object.object.",
        "biped" | "vehicle" => "unit.object.", "weapon" | "garbage" | "equipment" => "item.object.", "device_machine" | "device_control" | "device_light_fixture" => "device.object.",
        _ => return None
    })
}
fn special(m: &mut M, fill: bool) {
    match m.group {
        "sound" => sound(m, fill),
        "light" => for _ in 0..1 {
            let rgb = |m: &mut M, e: &str| f32s(&m.bytes(&format!("color.color.{e}")))[1..].to_vec();
            let (from, to) = if fill { (0.0, 1.0) } else { (1.0, 0.0) };
            if rgb(m, "lower") == [from; 3] && rgb(m, "upper") == [from; 3] {
                for e in ["lower", "upper"] { let p = format!("color.color.{e}"); let mut b = m.bytes(&p); for w in b.chunks_mut(4).skip(1) { w.copy_from_slice(&f32::to_be_bytes(to)) } *m.at(&p) = Val::Leaf(b) }
            }
        },
        "particle" => {
            together(m, fill, &[("radius_animation.lower", 1.0)]);
            together(m, fill, &[("radius_animation.upper", 1.0)]);
            let (a, b) = (m.f("fade_start_size"), m.f("fade_end_size"));
            if fill { if a == 0.0 || b == 0.0 { m.set("fade_start_size", 5.0); m.set("fade_end_size", 4.0) } }
            else if (a == 5.0 || a == 0.0) && (b == 4.0 || b == 0.0) { m.set("fade_start_size", 0.0); m.set("fade_end_size", 0.0) }
        }
        "light_volume" => together(m, fill, &[("perpendicular_brightness_scale", 1.0), ("parallel_brightness_scale", 1.0)]),
        "sound_looping" => together(m, fill, &[("zero_detail_sound_period", 1.0), ("one_detail_sound_period", 1.0)]),
        "shader_model" => scale(m, fill, "maps.map_u_scale", "maps.map_v_scale"),
        "shader_transparent_generic" | "shader_transparent_chicago" => for i in 0..m.len("maps") { scale(m, fill, &format!("maps[{i}].parameters.map_u_scale"), &format!("maps[{i}].parameters.map_v_scale")) },
        "shader_transparent_chicago_extended" => for maps in ["4_stage_maps", "2_stage_maps"] { for i in 0..m.len(maps) { scale(m, fill, &format!("{maps}[{i}].parameters.map_u_scale"), &format!("{maps}[{i}].parameters.map_v_scale")) } },
        "lens_flare" => {
            let v = m.f("rotation_function_scale");
            let full = 360f32.to_radians();
            if fill { if v == 0.0 || v == 360.0 { m.set("rotation_function_scale", full) } } else if v == full || v == 360.0 { m.set("rotation_function_scale", 0.0) }
        }
        "model" | "gbxmodel" => for g in 0..m.len("geometries") { for p in 0..m.len(&format!("geometries[{g}].parts")) {
            let at = |f: &str| format!("geometries[{g}].parts[{p}].{}{f}", if m.group == "gbxmodel" { "model_geometry_part." } else { "" });
            let (a, b) = (at("next_filthy_part_index"), at("prev_filthy_part_index"));
            let (from, to) = if fill { (0u8, 255u8) } else { (255, 0) };
            if m.bytes(&a) == [from] && m.bytes(&b) == [from] { for f in [a, b] { *m.at(&f) = Val::Leaf(vec![to]) } }
        } },
        _ => (),
    }
}
fn model(m: &M, fill: bool) -> M {
    let mut m = m.clone();
    let st = m.strukt();
    let group = m.group;
    let object = |m: &mut M| if let Some(p) = object_prefix(group) {
        let (r, b) = (format!("{p}render_bounding_radius"), format!("{p}bounding_radius"));
        let (rv, bv) = (m.f(&r), m.f(&b));
        if fill { if rv == 0.0 { m.set(&r, bv) } } else if rv == bv { m.set(&r, 0.0) }
    };
    if fill { by_definition(st, &mut m.v, true); special(&mut m, true); object(&mut m) } else { object(&mut m); special(&mut m, false); by_definition(st, &mut m.v, false) }
    m
}

fn run(f: &[u8], fill: bool) -> Result<Vec<u8>, String> {
    guard(|| { let mut t = read_any_tag_from_file_buffer(f, ParseStrictness::Strict).map_err(|e| e.to_string())?; if fill { set_all_defaults_for_tag(t.as_mut()) } else { unset_all_defaults_for_tag(t.as_mut()) } t.to_tag_file().map_err(|e| e.to_string()) }).and_then(|r| r)
}
fn first_difference(m: &M, want: &[u8], got: &[u8]) -> String {
    let mut l = vec![];
    serialize(m.strukt(), &m.v, Some(&mut l));
    let at = want.iter().zip(got).enumerate().skip(0x40).find(|(_, (a, b))| a != b).map(|(i, _)| i);
    match at { None => format!("{} bytes instead of {}", got.len(), want.len()), Some(i) => { let f = l.iter().filter(|l| l.offset + 0x40 <= i).max_by_key(|l| l.offset).map(|l| path_str(&l.path)).unwrap_or_default(); let s = i & !3; format!("{f} at {i:#x}: {:02x?} instead of {:02x?}", &got[s..(s + 4).min(got.len())], &want[s..(s + 4).min(want.len())]) } }
}
/// Fill, strip and the laws between them, on one tag.
fn judge(m: &M, what: &dyn Fn() -> String, cx: &mut Cx) -> bool {
    let f = m.file();
    cx.state(&f);
    let (full, bare) = (model(m, true), model(m, false));
    let mut ok = true;
    let mut expect = |from: &[u8], fill: bool, want: &M, law: &str, cx: &mut Cx| {
        cx.step();
        let want = want.file();
        match run(from, fill) {
            Ok(g) => { let good = g == want; ok &= good; cx.check(good, law, || format!("{}: {}", what(), first_difference(m, &want, &g))); }
            Err(e) => { ok = false; cx.fail("run", format!("{}: {e}", what())) }
        }
    };
    let (full_file, bare_file) = (full.file(), bare.file());
    expect(&f, true, &full, "fill", cx);
    expect(&f, false, &bare, "strip", cx);
    expect(&full_file, true, &full, "fill twice", cx);
    expect(&bare_file, false, &bare, "strip twice", cx);
    expect(&bare_file, true, &full, "fill after strip", cx);
    let both = model(&full, false);
    expect(&full_file, false, &both, "strip after fill", cx);
    expect(&both.file(), true, &full, "fill again", cx);
    cx.validated();
    ok
}

/// Something with a default: its path, and the values to try.
#[derive(Clone)]
struct Spot { path: String, values: Vec<Vec<u8>> }
fn spots(m: &M) -> Vec<Spot> {
    fn go(strukt: &str, v: &Val, path: &str, out: &mut Vec<Spot>) {
        let Val::Struct(fs) = v else { panic!() };
        for (f, v) in spec().structs[strukt].fields.iter().zip(fs) {
            if f.cache_only || f.exclude { continue }
            let at = if path.is_empty() { f.name.clone() } else { format!("{path}.{}", f.name) };
            if let Some(d) = default_words(f) {
                let n = d[0].len();
                let other: Vec<Vec<u8>> = d.iter().map(|w| { let mut w = w.clone(); let k = n - 1; w[k] ^= 1; if n > 1 { w[1] ^= 4 } w }).collect();
                let mut values = vec![vec![0; d.len() * n], d.concat(), other.concat()];
                if matches!(&f.ty, Ty::Prim(t) if is_float(t)) { values.push((0..d.len()).flat_map(|_| (-0f32).to_bits().to_be_bytes()).collect()); }
                // one half of it
                for k in 0..d.len() { if d.len() > 1 { for z in [true, false] { values.push(d.iter().enumerate().flat_map(|(i, w)| if (i == k) == z { vec![0; n] } else { w.clone() }).collect()) } } }
                out.push(Spot { path: at, values });
                continue
            }
            match (&f.ty, v) {
                (Ty::Struct(s), Val::Many(l)) => for (i, v) in l.iter().enumerate() { go(s, v, &if f.many == Many::Bounds { format!("{at}.{}", ["lower", "upper"][i]) } else { format!("{at}[{i}]") }, out) },
                (Ty::Refl(s), Val::Refl(l)) => for (i, v) in l.iter().enumerate() { go(s, v, &format!("{at}[{i}]"), out) },
                (Ty::Struct(s), v) => go(s, v, &at, out),
                _ => (),
            }
        }
    }
    let mut out = vec![];
    go(m.strukt(), &m.v, "", &mut out);
    let fl = |l: &[f32]| l.iter().map(|v| v.to_bits().to_be_bytes().to_vec()).collect::<Vec<_>>();
    let mut add = |p: &str, v: &[f32]| out.push(Spot { path: p.into(), values: fl(v) });
    match m.group {
        "sound" => {
            for p in ["random_pitch_bounds.lower", "random_pitch_bounds.upper", "zero_skip_fraction_modifier", "one_skip_fraction_modifier", "zero_pitch_modifier", "one_pitch_modifier", "zero_gain_modifier", "one_gain_modifier"] { add(p, &[0.0, 1.0, 0.5]) }
            for p in ["distance_bounds.lower", "distance_bounds.upper"] { add(p, &[0.0, 0.9, 1.4, 3.0, 5.0, 70.0]) }
        }
        "light" => for e in ["lower", "upper"] { out.push(Spot { path: format!("color.color.{e}"), values: [[0f32, 0., 0., 0.], [0.5, 0., 0., 0.], [1., 1., 1., 1.], [0.25, 1., 1., 1.], [0., 1., 0., 0.], [0., 0., 1., 0.], [0., 0., 0., 1.], [0., 0., 1., 1.]].iter().map(|c| c.iter().flat_map(|v| v.to_bits().to_be_bytes()).collect()).collect() }) },
        "particle" => { for p in ["radius_animation.lower", "radius_animation.upper"] { add(p, &[0.0, 1.0, 2.0]) } for p in ["fade_start_size", "fade_end_size"] { add(p, &[0.0, 5.0, 4.0, 3.0]) } }
        "light_volume" => for p in ["perpendicular_brightness_scale", "parallel_brightness_scale"] { add(p, &[0.0, 1.0, 2.0]) },
        "sound_looping" => for p in ["zero_detail_sound_period", "one_detail_sound_period"] { add(p, &[0.0, 1.0, 2.0]) },
        "shader_model" => for p in ["maps.map_u_scale", "maps.map_v_scale"] { add(p, &[0.0, 1.0, 2.0, -1.0]) },
        "shader_transparent_generic" | "shader_transparent_chicago" => for i in 0..2 { for p in ["map_u_scale", "map_v_scale"] { add(&format!("maps[{i}].parameters.{p}"), &[0.0, 1.0, 2.0]) } },
        "shader_transparent_chicago_extended" => for maps in ["4_stage_maps", "2_stage_maps"] { for i in 0..2 { for p in ["map_u_scale", "map_v_scale"] { add(&format!("{maps}[{i}].parameters.{p}"), &[0.0, 1.0, 2.0]) } } },
        "lens_flare" => add("rotation_function_scale", &[0.0, 360f32.to_radians(), 360.0, 1.0]),
        "model" | "gbxmodel" => for g in 0..2 { for p in 0..2 { for f in ["next_filthy_part_index", "prev_filthy_part_index"] { out.push(Spot { path: format!("geometries[{g}].parts[{p}].{}{f}", if m.group == "gbxmodel" { "model_geometry_part." } else { "" }), values: vec![vec![0], vec![255], vec![1]] }) } } },
        g => if let Some(p) = object_prefix(g) { for f in ["render_bounding_radius", "bounding_radius"] { out.push(Spot { path: format!("{p}{f}"), values: fl(&[0.0, 1.0, 2.0]) }) } },
    }
    out
}

fn main() {
    let mut ck = Check::new("P25");
    ck.assume("which fields have which default is taken from the definitions and, for what they cannot express, from the HEK's behaviour as written down here");
    let groups: Vec<&'static str> = spec().groups.keys().map(|s| s.as_str()).collect();
    // a tree where nothing is set, and one where everything is
    struct Zero(usize);
    impl Chooser for Zero { fn leaf(&mut self, _: &[Step], ty: &Ty, _: &FieldDef) -> Val { match ty { Ty::Data(_) => Val::Data(vec![]), Ty::Ref { first, .. } => Val::Ref(first.clone().unwrap_or("bitmap".into()), None), t => Val::Leaf(vec![0; t.size()]) } } fn count(&mut self, _: &[Step], _: &str) -> usize { self.0 } }
    let base = |g: &'static str, zero: bool| { let st = &spec().groups[g].strukt; M { group: g, v: canonical(st, &if zero { generate(st, &mut vec![], &mut Zero(2)) } else { generate(st, &mut vec![], &mut Distinct::new(2)) }) } };
    let bases: Vec<[M; 2]> = groups.iter().map(|g| [base(g, true), base(g, false)]).collect();
    let all: Vec<Vec<Spot>> = bases.iter().map(|b| spots(&b[0])).collect();
    let with = |v: &mut M, s: &Spot, k: usize| put(v.at(&s.path), &s.values[k]);

    // groups which say they have none have none; and nothing is touched in either base
    ck.items("groups", &(0..groups.len()).collect::<Vec<_>>(), |g| groups[*g].into(), |g, cx| {
        let has = !all[*g].is_empty();
        let group: TagGroup = TagGroup::from_str(groups[*g]).unwrap();
        cx.eq("has", group_has_defaults(group), has);
        for b in &bases[*g] { judge(b, &|| "base".into(), cx); }
        for n in 0..6 { let st = &spec().groups[groups[*g]].strukt; let mut d = Distinct::new(1); d.rot = Some(n); let m = M { group: groups[*g], v: canonical(st, &generate(st, &mut vec![], &mut d)) }; judge_lax(&m, cx); }
    });

    // every field with a default x its values, in both bases
    let singles: Vec<(usize, usize)> = (0..groups.len()).flat_map(|g| (0..all[g].len()).map(move |s| (g, s))).collect();
    ck.items("singles", &singles, |(g, s)| format!("{} {}", groups[*g], all[*g][*s].path), |(g, s), cx| {
        let s = &all[*g][*s];
        for (w, b) in bases[*g].iter().enumerate() { for k in 0..s.values.len() {
            let mut m = b.clone();
            with(&mut m, s, k);
            if !judge(&m, &|| format!("{} = {:02x?} (base {w})", s.path, s.values[k]), cx) { return }
        } }
    });

    // every pair of them
    let thorough = !ck.quick();
    ck.items("pairs", &singles, |(g, s)| format!("{} {}", groups[*g], all[*g][*s].path), |(g, s), cx| {
        let a = &all[*g][*s];
        for t in s + 1..all[*g].len() {
            let b = &all[*g][t];
            for i in 0..a.values.len() { for j in 0..b.values.len() {
                let mut m = bases[*g][1].clone();
                with(&mut m, a, i); with(&mut m, b, j);
                if !judge(&m, &|| format!("{} = {:02x?}, {} = {:02x?}", a.path, a.values[i], b.path, b.values[j]), cx) { return }
                // and a third one
                if thorough { for u in t + 1..all[*g].len().min(s + 20) { let c = &all[*g][u]; for k in 0..c.values.len().min(3) {
                    let mut m = m.clone();
                    with(&mut m, c, k);
                    if !judge(&m, &|| format!("{} = {:02x?}, {} = {:02x?}, {} = {:02x?}", a.path, a.values[i], b.path, b.values[j], c.path, c.values[k]), cx) { return }
                } } }
            } }
        }
    });

    // sounds: every class x distances and gains
    let classes: Vec<usize> = (0..spec().enums["SoundClass"].len()).filter(|c| !spec().enums["SoundClass"][*c].exclude).collect();
    let sound = groups.iter().position(|g| *g == "sound").unwrap();
    ck.items("sound-class", &classes, |c| spec().enums["SoundClass"][*c].name.clone(), |c, cx| {
        let row = CLASSES.iter().find(|r| same_name(r.0, &spec().enums["SoundClass"][*c].name));
        let Some(row) = row else { return cx.fail("class", "unknown") };
        for lower in [0.0, row.1, 0.25] { for upper in [0.0, row.2, 0.25] { for zero in [0.0, row.3, 0.25] { for one in [0.0, 1.0, 0.25] {
            let mut m = bases[sound][0].clone();
            *m.at("sound_class") = Val::Leaf((*c as u16).to_be_bytes().to_vec());
            m.set("distance_bounds.lower", lower); m.set("distance_bounds.upper", upper); m.set("zero_gain_modifier", zero); m.set("one_gain_modifier", one);
            if !judge(&m, &|| format!("distances {lower} {upper} gains {zero} {one}"), cx) { return }
        } } } }
    });
    // sounds: bend bounds around the natural pitch
    let pitches = [0.0f32, -1.0, 1.0, 2.0];
    ck.family("sound-pitch", 4 * 25, |i| format!("{}", i), |i, cx| {
        let bounds = [0.0f32, 1.0, 2.0, 3.0, -1.0];
        let (n, l, u) = (pitches[i / 25], bounds[i % 25 / 5], bounds[i % 5]);
        for r in 0..2 { for other in [0.0, 1.5] {
            let mut m = bases[sound][0].clone();
            m.set(&format!("pitch_ranges[{r}].natural_pitch"), n);
            m.set(&format!("pitch_ranges[{r}].bend_bounds.lower"), l);
            m.set(&format!("pitch_ranges[{r}].bend_bounds.upper"), u);
            m.set(&format!("pitch_ranges[{}].natural_pitch", 1 - r), other);
            judge(&m, &|| format!("range {r}: natural {n} bounds {l} {u}"), cx);
        } }
    });
    // sounds: all ways of chaining up to 3 permutations
    let gains = [0.0f32, 1.0, 0.5];
    let max = ck.pick(3u32, 4);
    let chains: Vec<(u32, usize, usize)> = (0..=max).flat_map(|n| (0..=n as usize + 1).flat_map(move |own| (0..(n as usize + 1).pow(n)).map(move |links| (n, own, links)))).collect();
    ck.items("sound-chains", &chains, |(n, own, links)| format!("{n} {own} {links}"), |(n, own, links), cx| {
        for split in [false, true] { for g in 0..3usize.pow(*n) {
            let mut m = bases[sound][0].clone();
            let model_perm = match m.at("pitch_ranges[1].permutations") { Val::Refl(l) => l[0].clone(), _ => panic!() };
            *m.at("pitch_ranges[1].permutations") = Val::Refl(vec![model_perm; *n as usize]);
            let bit = spec().bits["SoundFlags"].fields.iter().position(|f| f.name == "split_long_sound_into_permutations").unwrap();
            let w = m.bytes("flags").len();
            if split { *m.at("flags") = Val::Leaf((1u64 << bit).to_be_bytes()[8 - w..].to_vec()) }
            *m.at("pitch_ranges[1].actual_permutation_count") = Val::Leaf((*own as u16).to_be_bytes().to_vec());
            let (mut lk, mut gg) = (*links, g);
            for i in 0..*n as usize {
                m.set(&format!("pitch_ranges[1].permutations[{i}].gain"), gains[gg % 3]); gg /= 3;
                let next = lk % (*n as usize + 1); lk /= *n as usize + 1;
                let next = if next == *n as usize { 0xffff } else { next as u16 };
                *m.at(&format!("pitch_ranges[1].permutations[{i}].next_permutation_index")) = Val::Leaf(next.to_be_bytes().to_vec());
            }
            if !judge_lax(&m, cx) { return cx.note(|| format!("split {split} gains {g}")) }
        } }
    });

    // the command writes exactly the stripped tag, and only if something changes
    ck.items("command", &(0..groups.len()).collect::<Vec<_>>(), |g| groups[*g].into(), |g, cx| {
        let dir = case_dir("undefault");
        std::fs::create_dir_all(dir.join("tags")).unwrap();
        let name = |n: usize| format!("t{n}.{}", groups[*g]);
        let tags: Vec<M> = bases[*g].iter().cloned().chain(bases[*g].iter().map(|m| model(m, true))).collect();
        let start: BTreeMap<String, Vec<u8>> = tags.iter().enumerate().map(|(n, m)| (name(n), m.file())).collect();
        reset(&dir.join("tags"), &start);
        for round in 0..2 {
            let r = invader(&["undefault", "*", "-t", "tags"], &dir, &[("MC_NOSCHED", "1".into())]);
            cx.step();
            let want: BTreeMap<String, Vec<u8>> = tags.iter().enumerate().map(|(n, m)| (name(n), if all[*g].is_empty() { m.file() } else { model(m, false).file() })).collect();
            let got = files(&snapshot(&dir.join("tags")));
            if !cx.check((r.ok() || all[*g].is_empty() && !r.panicked()) && got == want, "command", || format!("round {round}: {}; {:?} differ", r.brief(), want.iter().filter(|w| got.get(w.0) != Some(w.1)).map(|w| w.0).collect::<Vec<_>>())) { return }
            cx.validated();
        }
    });
    ck.finish();
}
/// Trees on which filling and stripping need not be inverse (chains which change each other): both against the model, and idempotent.
fn judge_lax(m: &M, cx: &mut Cx) -> bool {
    let f = m.file();
    cx.state(&f);
    for fill in [true, false] {
        let want = model(m, fill);
        let wf = want.file();
        for from in [&f, &wf] {
            cx.step();
            match run(from, fill) { Ok(g) if g == wf => (), Ok(g) => { cx.fail(if fill { "fill" } else { "strip" }, format!("again {}: {}", std::ptr::eq(from, &wf), first_difference(m, &wf, &g))); return false } Err(e) => { cx.fail("run", e); return false } }
        }
    }
    cx.validated();
    true
}
