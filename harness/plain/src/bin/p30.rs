//! P30: each rule of the verifier, on tags which go through every combination of what the rule looks at.
use mc::memtree::*;
use mc::refser::*;
use mc::treeval::*;
use mc::*;
use ringhopper::primitives::engine::Engine;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::PrimaryTagStructDyn;
use ringhopper::tag::result::TagResult;
use ringhopper::tag::tree::*;
use ringhopper::tag::verify::verify;
use std::collections::{BTreeMap, HashMap};
use std::num::NonZeroUsize;
use std::sync::{Arc, OnceLock};

type Tag = Box<dyn PrimaryTagStructDyn>;
fn path(s: &str) -> TagPath { TagPath::from_path(s).unwrap() }
fn set_ref(t: &mut T, at: &str, to: Option<&str>) { match t.at(at) { Val::Ref(g, p) => match to { Some(to) => { let (x, gr) = to.rsplit_once('.').unwrap(); *g = gr.into(); *p = Some(x.into()) } None => *p = None }, v => panic!("{at}: {v:?}") } }
fn engine(name: &str) -> &'static Engine { ringhopper_engines::ALL_SUPPORTED_ENGINES.iter().find(|e| e.name == name).unwrap() }

/// What a message has to name.
type Say = Vec<String>;
macro_rules! say { ($($e:expr),* $(,)?) => { vec![$(format!("{}", $e)),*] } }
#[derive(Default)]
struct Want { errors: Vec<Say>, warnings: Vec<Say>, pedantic: Vec<Say> }
impl Want { fn error(&mut self, s: Say) { self.errors.push(s) } }

/// What is needed by every scenario; the tags under test come on top.
struct World { tags: BTreeMap<String, T>, kind: &'static str, engine: &'static str }
impl World {
    fn new() -> World {
        let mut tags = BTreeMap::new();
        let mut globals = T::new("globals");
        globals.grow("interface_bitmaps", 1).grow("falling_damage", 1).grow("materials", 32).grow("multiplayer_information", 1).grow("weapon_list", 16).grow("multiplayer_information[0].sounds", 43);
        set_ref(&mut globals, "interface_bitmaps[0].hud_globals", Some("h.hud_globals"));
        tags.insert("globals\\globals.globals".into(), globals);
        for p in ["ui\\shell\\bitmaps\\white.bitmap", "ui\\multiplayer_game_text.unicode_string_list", "ui\\shell\\solo.ui_widget_collection", "h.hud_globals"] { tags.insert(p.into(), T::new(p.rsplit_once('.').unwrap().1)); }
        let mut s = T::new("scenario");
        s.set_enum("type", "singleplayer");
        tags.insert("s.scenario".into(), s);
        World { tags, kind: "singleplayer", engine: "xbox-us" }
    }
    fn put(&mut self, p: &'static str, t: T) -> &mut Self {
        let s = self.tags.get_mut("s.scenario").unwrap();
        if !p.ends_with(".scenario") && !p.ends_with(".globals") && !p.ends_with(".hud_globals") { let n = s.len("references"); s.grow("references", 1); set_ref(s, &format!("references[{n}].reference"), Some(p)); }
        self.tags.insert(p.into(), t); self
    }
    fn get(&mut self, p: &str) -> &mut T { self.tags.get_mut(p).unwrap() }
    fn run(&self) -> Result<HashMap<TagPath, TagResult>, String> {
        let mut t: BTreeMap<TagPath, Option<Tag>> = BTreeMap::new();
        for (p, tag) in &self.tags { t.insert(path(p), Some(tag.tag())); }
        let e = engine(self.engine);
        for r in e.required_tags.all.iter().chain(e.required_tags.singleplayer).chain(e.required_tags.multiplayer).chain(e.required_tags.user_interface) {
            let p = TagPath::from_path(r).unwrap();
            if !t.contains_key(&p) { let tag = T::new(spec().groups.get_key_value(p.group().as_str()).unwrap().0).tag(); t.insert(p, Some(tag)); }
        }
        let tree = Arc::new(CachingTagTree::new(MemTree { tags: t, cache: false }, CachingTagTreeWriteStrategy::Manual));
        guard(|| verify(&path("s.scenario"), tree, e, NonZeroUsize::new(1).unwrap()))?.map_err(|e| format!("not verified: {e}"))
    }
    /// The messages about these tags are the ones expected, and no others.
    fn judge(&mut self, cx: &mut Cx, want: &[(&str, Want)]) {
        let kind = self.kind; self.get("s.scenario").set_enum("type", kind);
        let r = match self.run() { Ok(r) => r, Err(e) => { cx.fail("verifier", e); return } };
        cx.step();
        for (p, w) in want {
            let Some(got) = r.get(&path(p)) else { cx.fail("missing", format!("nothing said about {p}")); continue };
            cx.validated(); cx.state((p, &got.errors, &got.warnings, &got.pedantic_warnings));
            compare(cx, p, "errors", &got.errors, &w.errors);
            compare(cx, p, "warnings", &got.warnings, &w.warnings);
            compare(cx, p, "pedantic warnings", &got.pedantic_warnings, &w.pedantic);
        }
    }
}
/// Each message expected is there once: it contains all that it has to name.
fn compare(cx: &mut Cx, p: &str, what: &str, got: &[String], want: &[Say]) {
    // (a matching, as one message may fit what is expected of two)
    fn fit(w: usize, fits: &[Vec<bool>], of: &mut [Option<usize>], seen: &mut [bool]) -> bool {
        for m in 0..of.len() { if fits[w][m] && !seen[m] { seen[m] = true; if of[m].is_none_or(|o| fit(o, fits, of, seen)) { of[m] = Some(w); return true } } }
        false
    }
    let fits: Vec<Vec<bool>> = want.iter().map(|s| got.iter().map(|m| s.iter().all(|x| m.contains(x))).collect()).collect();
    let mut of = vec![None; got.len()];
    for (i, s) in want.iter().enumerate() { if !fit(i, &fits, &mut of, &mut vec![false; got.len()]) { cx.fail(what, format!("{p}: nothing names {s:?} in {got:?}")); return } }
    let left: Vec<&String> = got.iter().zip(&of).filter(|x| x.1.is_none()).map(|x| x.0).collect();
    cx.check(left.is_empty(), what, || format!("{p}: not expected: {left:?}"));
}

// ---- bitmaps and their sequences
#[derive(Clone, Debug, PartialEq)]
struct Seq { bitmaps: usize, sprites: usize }
fn bitmap(kind: &str, seqs: &[Seq]) -> T {
    let mut b = T::new("bitmap");
    b.set_enum("type", kind);
    b.grow("bitmap_group_sequence", seqs.len());
    for (i, s) in seqs.iter().enumerate() { b.set_int(&format!("bitmap_group_sequence[{i}].bitmap_count"), s.bitmaps as u64); b.grow(&format!("bitmap_group_sequence[{i}].sprites"), s.sprites); }
    b
}
#[derive(Clone, Copy, PartialEq)] enum Need { Any, Sprites, Textures }
fn sequence(kind: &str, seqs: &[Seq], index: Option<u16>, min: usize, need: Need) -> Option<Say> {
    match need { Need::Sprites if kind != "sprites" => return Some(say!["expected sprites"]), Need::Textures if kind != "2d_textures" => return Some(say!["expected 2D textures"]), _ => () }
    let i = index?;
    let Some(s) = seqs.get(i as usize) else { return Some(say![format!("#{i} is out-of-bounds")]) };
    let n = match need { Need::Sprites => s.sprites, Need::Textures => s.bitmaps, Need::Any => if s.sprites > 0 { s.sprites } else { s.bitmaps } };
    (n < min).then(|| say![format!("sequence index #{i} to have at least {min} "), format!("only {n}")])
}
fn seq_sets() -> Vec<Vec<Seq>> {
    let q = |b, s| Seq { bitmaps: b, sprites: s };
    vec![vec![], vec![q(0, 0)], vec![q(1, 0)], vec![q(0, 1)], vec![q(2, 0), q(0, 0)], vec![q(0, 2), q(1, 0)], vec![q(3, 0), q(0, 3)], vec![q(1, 2), q(2, 1)], vec![q(0, 1), q(0, 0), q(0, 1)]]
}
fn bad_bitmap() -> T { let mut b = T::new("bitmap"); b.set_floats("processing.bump_height", &[f32::NAN]); b }
const INDICES: [Option<u16>; 5] = [None, Some(0), Some(1), Some(2), Some(0xFFFE)];

/// A place in a HUD interface: where the bitmap and the index are, and how it is called.
struct Place { group: &'static str, grow: Vec<String>, bitmap: String, index: String, call: Say }
fn places() -> Vec<Place> {
    let mut v = vec![];
    for i in 0..2 {
        for j in 0..2 {
            v.push(Place { group: "weapon_hud_interface", grow: say!["crosshairs", format!("crosshairs[{i}].crosshair_overlays")], bitmap: format!("crosshairs[{i}].crosshair_bitmap"), index: format!("crosshairs[{i}].crosshair_overlays[{j}].sequence_index"), call: say![format!("#{j} "), format!("crosshair {i} ")] });
            v.push(Place { group: "weapon_hud_interface", grow: say!["overlay_elements", format!("overlay_elements[{i}].overlays")], bitmap: format!("overlay_elements[{i}].overlay_bitmap"), index: format!("overlay_elements[{i}].overlays[{j}].sequence_index"), call: say![format!("#{j} "), format!("overlay element {i} ")] });
        }
        v.push(Place { group: "weapon_hud_interface", grow: say!["meter_elements"], bitmap: format!("meter_elements[{i}].properties.meter_bitmap"), index: format!("meter_elements[{i}].properties.sequence_index"), call: say!["Meter", format!("#{i} ")] });
        v.push(Place { group: "weapon_hud_interface", grow: say!["static_elements"], bitmap: format!("static_elements[{i}].properties.interface_bitmap"), index: format!("static_elements[{i}].properties.sequence_index"), call: say!["Static", format!("#{i} ")] });
        v.push(Place { group: "unit_hud_interface", grow: say!["auxiliary_elements.overlays"], bitmap: format!("auxiliary_elements.overlays[{i}].properties.interface_bitmap"), index: format!("auxiliary_elements.overlays[{i}].properties.sequence_index"), call: say!["overlay", format!("#{i} ")] });
        for (f, b, n) in [("background", "interface_bitmap", "background"), ("meter", "meter_bitmap", "'s meter")] {
            v.push(Place { group: "unit_hud_interface", grow: say!["auxiliary_elements.meters"], bitmap: format!("auxiliary_elements.meters[{i}].{f}.{b}"), index: format!("auxiliary_elements.meters[{i}].{f}.sequence_index"), call: say![format!("#{i}"), n] });
        }
        v.push(Place { group: "grenade_hud_interface", grow: say!["total_grenades_overlays.overlays"], bitmap: "total_grenades_overlays.bitmap".into(), index: format!("total_grenades_overlays.overlays[{i}].sequence_index"), call: say!["overlay", format!("#{i} ")] });
    }
    for (g, f, b, n) in [("unit_hud_interface", "hud_background", "interface_bitmap", "HUD background"), ("unit_hud_interface", "shield_panel_background", "interface_bitmap", "Shield panel background"), ("unit_hud_interface", "health_panel_background", "interface_bitmap", "Health panel background"),
        ("unit_hud_interface", "shield_panel_meter.hudinterface_meter_element", "meter_bitmap", "Shield panel meter"), ("unit_hud_interface", "health_panel_meter.hudinterface_meter_element", "meter_bitmap", "Health panel meter"),
        ("unit_hud_interface", "motion_sensor_background", "interface_bitmap", "Motion sensor background"), ("unit_hud_interface", "motion_sensor_foreground", "interface_bitmap", "Motion sensor foreground"),
        ("grenade_hud_interface", "background", "interface_bitmap", "Background"), ("grenade_hud_interface", "total_grenades_background", "interface_bitmap", "Total grenades background")] {
        v.push(Place { group: g, grow: vec![], bitmap: format!("{f}.{b}"), index: format!("{f}.sequence_index"), call: say![n] });
    }
    v
}

// ---- sounds
#[derive(Clone, Debug)]
struct Perm { next: Option<u16>, format: usize, len: usize, buffer: u32 }
#[derive(Clone, Debug)]
struct Range { perms: Vec<Perm>, actual: u16, natural: f32, lower: f32, upper: f32 }
#[derive(Clone, Debug)]
struct Snd { split: bool, stereo: bool, format: usize, ranges: Vec<Range> }
const FORMATS: [&str; 4] = ["pcm", "xbox_adpcm", "ima_adpcm", "ogg_vorbis"];
fn perm(next: Option<u16>) -> Perm { Perm { next, format: 0, len: 4, buffer: 4 } }
fn range(perms: Vec<Perm>, actual: u16) -> Range { Range { perms, actual, natural: 1.0, lower: 0.0, upper: 0.0 } }
impl Snd {
    fn tag(&self) -> T {
        let mut t = T::new("sound");
        t.set_flag("flags", "split_long_sound_into_permutations", self.split);
        t.set_enum("channel_count", if self.stereo { "stereo" } else { "mono" });
        t.set_enum("format", FORMATS[self.format]);
        t.grow("pitch_ranges", self.ranges.len());
        for (i, r) in self.ranges.iter().enumerate() {
            let b = format!("pitch_ranges[{i}]");
            t.set_int(&format!("{b}.actual_permutation_count"), r.actual as u64);
            t.set_floats(&format!("{b}.natural_pitch"), &[r.natural]);
            t.set_floats(&format!("{b}.bend_bounds.lower"), &[r.lower]); t.set_floats(&format!("{b}.bend_bounds.upper"), &[r.upper]);
            t.grow(&format!("{b}.permutations"), r.perms.len());
            for (j, p) in r.perms.iter().enumerate() {
                let b = format!("{b}.permutations[{j}]");
                t.set_index(&format!("{b}.next_permutation_index"), p.next);
                t.set_enum(&format!("{b}.format"), FORMATS[p.format]);
                t.set_bytes(&format!("{b}.samples"), &vec![0; p.len]);
                t.set_int(&format!("{b}.buffer_size"), p.buffer as u64);
            }
        }
        t
    }
    /// The rules, for sounds without Ogg Vorbis.
    fn want(&self) -> Want {
        let mut w = Want::default();
        let goes_on = |p: &Perm| p.next.filter(|n| *n != 0);
        let all = || self.ranges.iter().flat_map(|r| &r.perms);
        let split = self.split || all().any(|p| goes_on(p).is_some());
        if split && !self.split { w.error(say!["split permutations"]) }
        // what is wrong with the chains of permutations
        let (mut chains_fixable, mut first) = (true, None);
        for r in &self.ranges {
            if first.is_none() && r.actual == 0 && !r.perms.is_empty() { first = Some("actual_permutation_count") }
            if first.is_none() && r.perms.iter().any(|p| p.next == Some(0)) { first = Some("next_permutation_index") }
        }
        if let Some(f) = first { w.error(say![f]) }
        let count = |r: &Range| if split { r.perms.iter().filter_map(goes_on).map(|n| n as usize).chain([r.perms.len()]).min().unwrap() } else { r.perms.len() };
        if split { for (i, r) in self.ranges.iter().enumerate() {
            let n = r.perms.len();
            let mut used = vec![false; n];
            for a in 0..count(r) {
                let mut seen = vec![false; n];
                let mut at = a;
                loop {
                    if at >= n { w.error(say![format!("#{a} "), format!("range #{i}"), "out-of-bounds"]); chains_fixable = false; break }
                    if seen[at] { w.error(say![format!("#{a} "), format!("range #{i}"), "loop"]); chains_fixable = false; break }
                    seen[at] = true; used[at] = true;
                    match goes_on(&r.perms[at]) { Some(n) => at = n as usize, None => break }
                }
            }
            let unused = used.iter().filter(|u| !**u).count();
            if unused > 0 { w.warnings.push(say![format!("#{i}"), format!(" {unused} ")]) }
        } }
        // formats, sizes
        let mut sizes_ok = true;
        let one_format = all().all(|p| p.format == self.ranges.iter().flat_map(|r| &r.perms).next().unwrap().format);
        let mut formats_ok = true;
        for (i, r) in self.ranges.iter().enumerate() { for (j, p) in r.perms.iter().enumerate() {
            if p.format != self.format { formats_ok = false; w.error(say![format!("#{j} "), format!("range #{i} "), "format"]) }
            let unit = (1 + self.stereo as usize) * match p.format { 0 => 2, 1 => 36, _ => 1 };
            if p.format < 2 && p.len % unit != 0 { sizes_ok = false; w.error(say![format!("#{j} "), format!("range #{i} "), format!("divisible by {unit})")]) }
            let buffer = if p.format == 0 { p.len as u32 } else { 0 };
            if buffer != p.buffer { w.error(say![format!("#{j} "), format!("range #{i} "), "buffer size"]) }
        } }
        for (i, r) in self.ranges.iter().enumerate() { if r.actual as usize != count(r) { w.error(say![format!("range #{i} "), "ermutation count", format!("{} ", r.actual), format!("{})", count(r))]) } }
        if !w.errors.is_empty() { let fixable = sizes_ok && chains_fixable && (formats_ok || one_format); w.error(if fixable { say!["can be automatically repaired"] } else { say!["can NOT be"] }) }
        for (i, r) in self.ranges.iter().enumerate() {
            let natural = if r.natural <= 0.0 { 1.0 } else { r.natural };
            if r.lower != 0.0 && r.lower > natural || r.upper != 0.0 && r.upper < natural { w.warnings.push(say![format!("#{i}'"), "bend"]) }
        }
        w
    }
}

// ---- references
fn references(st: &str, at: &str, out: &mut Vec<(String, Vec<String>)>) {
    for f in &spec().structs[st].fields {
        if f.exclude || f.cache_only { continue }
        let names: Vec<String> = match f.many { Many::One => vec![f.name.clone()], Many::Array(n) => (0..n).map(|i| format!("{}[{i}]", f.name)).collect(), Many::Bounds => vec![format!("{}.upper", f.name)] };
        for n in names { match &f.ty {
            Ty::Struct(s) => references(s, &format!("{at}{n}."), out),
            Ty::Refl(s) => references(s, &format!("{at}{n}[1]."), out),
            Ty::Ref { groups, .. } => out.push((format!("{at}{n}"), groups.clone())),
            _ => (),
        } }
    }
}
/// The tag with arrays which are long enough for this path.
fn grown(group: &'static str, p: &str) -> T {
    let mut t = T::new(group);
    let mut at = String::new();
    for part in p.split('.') {
        if let Some((n, _)) = part.split_once('[') { if matches!(t.at(&format!("{at}{n}")), Val::Refl(_)) { t.grow(&format!("{at}{n}"), 2); } }
        at += part; at += ".";
    }
    t
}
fn floats(st: &str, at: &str, out: &mut Vec<(String, String, usize)>) {
    for f in &spec().structs[st].fields {
        if f.exclude || f.cache_only { continue }
        let names: Vec<String> = match f.many { Many::One => vec![f.name.clone()], Many::Array(n) => (0..n).map(|i| format!("{}[{i}]", f.name)).collect(), Many::Bounds => vec![format!("{}.lower", f.name), format!("{}.upper", f.name)] };
        for n in names { match &f.ty {
            Ty::Struct(s) => floats(s, &format!("{at}{n}."), out),
            Ty::Refl(s) => floats(s, &format!("{at}{n}[1]."), out),
            Ty::Prim(p) if is_float(p) => out.push((format!("{at}{n}"), p.clone(), prim_words(p).1)),
            _ => (),
        } }
    }
}
const ABSTRACT: [&str; 5] = ["object", "unit", "item", "device", "shader"];
fn concrete() -> Vec<&'static str> { spec().groups.keys().map(|g| g.as_str()).filter(|g| !ABSTRACT.contains(g)).collect() }
fn ancestors(e: &str) -> Vec<String> { let mut v = vec![e.to_string()]; let mut at = e.to_string(); while let Some(p) = spec().engines[&at]["inherits"].as_str() { v.push(p.into()); at = p.into() } v }
fn supported(g: &str, e: &str) -> bool { spec().groups[g].engines.as_ref().map(|l| ancestors(e).iter().any(|a| l.contains(a))).unwrap_or(true) }

const OBJECTS: [(&str, &str); 11] = [("biped", "unit.object."), ("vehicle", "unit.object."), ("weapon", "item.object."), ("equipment", "item.object."), ("garbage", "item.object."), ("projectile", "object."), ("scenery", "basic_object.object."), ("sound_scenery", "basic_object.object."), ("placeholder", "basic_object.object."), ("device_machine", "device.object."), ("device_control", "device.object.")];
fn name(g: &'static str, base: &str) -> &'static str { static N: OnceLock<std::sync::Mutex<HashMap<String, &'static str>>> = OnceLock::new(); let k = format!("{base}.{g}"); N.get_or_init(Default::default).lock().unwrap().entry(k.clone()).or_insert_with(|| k.leak()) }

fn main() {
    let mut ck = Check::new("P30");
    // ---- objects
    let sums: Vec<Vec<i32>> = vec![vec![], vec![0], vec![5], vec![6], vec![0, 5], vec![5, 6], vec![0, 0, -1]];
    // model: 0 none, else (group, checksum); animations: none or checksums; collision model
    let models = [None, Some(("model", 0)), Some(("gbxmodel", 0)), Some(("model", 5)), Some(("gbxmodel", 5)), Some(("gbxmodel", -1))];
    let dims = [OBJECTS.len() + 1, models.len(), sums.len() + 2, 2];
    ck.family("objects: models", dims.iter().product(), |i| format!("{:?}", digits(i, &dims)), |i, cx| {
        let d = digits(i, &dims);
        let (g, o) = *OBJECTS.get(d[0]).unwrap_or(&("device_light_fixture", "device.object."));
        let mut w = World::new(); w.engine = "pc-retail";
        let mut t = T::new(g);
        let x = name(g, "x");
        let mut want = Want::default();
        if let Some((mg, sum)) = models[d[1]] {
            let m = name(mg, "m");
            let mut model = T::new(mg); model.set_int("node_list_checksum", sum as u32 as u64);
            set_ref(&mut t, &format!("{o}model"), Some(m)); w.put(m, model);
        }
        if d[2] > 0 {
            let mut a = T::new("model_animations");
            let broken = d[2] > sums.len();
            if broken { a.grow("animations", 1); a.set_floats("animations[0].weight", &[f32::NAN]); a.set_int("animations[0].node_list_checksum", 7); }
            else { let s = &sums[d[2] - 1]; a.grow("animations", s.len()); for (i, c) in s.iter().enumerate() { a.set_int(&format!("animations[{i}].node_list_checksum"), *c as u32 as u64) } }
            set_ref(&mut t, &format!("{o}animation_graph"), Some("a.model_animations")); w.put("a.model_animations", a);
            match models[d[1]] {
                None => want.error(say!["no model", "animation graph"]),
                Some((_, 0)) => (),
                Some(_) if broken => want.error(say!["a.model_animations", "has errors"]),
                Some((_, s)) => if sums[d[2] - 1].iter().any(|c| *c != 0 && *c != s) { want.error(say!["mismatched", "animations"]) },
            }
        }
        if d[3] == 1 {
            set_ref(&mut t, &format!("{o}collision_model"), Some("c.model_collision_geometry")); w.put("c.model_collision_geometry", T::new("model_collision_geometry"));
            if models[d[1]].is_none() { want.error(say!["no model", "collision model"]) }
        }
        w.put(x, t);
        w.judge(cx, &[(x, want)]);
    });
    // ---- texts by index
    let dims = [OBJECTS.len() + 1, 4, 6];
    ck.family("objects: texts", dims.iter().product(), |i| format!("{:?}", digits(i, &dims)), |i, cx| {
        let d = digits(i, &dims);
        let (g, o) = *OBJECTS.get(d[0]).unwrap_or(&("device_light_fixture", "device.object."));
        let mut w = World::new();
        let mut t = T::new(g);
        let x = name(g, "x");
        let index = [0u16, 1, 2, 3, 0x7FFF, 0xFFFF][d[2]];
        t.set_int(&format!("{o}hud_text_message_index"), index as u64);
        let n = [None, Some(0), Some(1), Some(3)][d[1]];
        let mut want = Want::default();
        if let Some(n) = n {
            let mut u = T::new("unicode_string_list"); u.grow("strings", n); for k in 0..n { u.set_bytes(&format!("strings[{k}].string"), &[0, 0]); } w.put("t.unicode_string_list", u);
            set_ref(w.get("h.hud_globals"), "messaging_parameters.item_message_text", Some("t.unicode_string_list"));
            if index as usize >= n { want.error(say![format!("({index})"), format!("{n} strings"), "t.unicode_string_list"]) }
        }
        w.put(x, t);
        w.judge(cx, &[(x, want)]);
    });
    let fields = ["checkpoint_begin_text", "checkpoint_end_text", "loading_begin_text", "loading_end_text"];
    let dims = [4, 4, 4, 4, 4];
    ck.family("HUD globals: texts", dims.iter().product(), |i| format!("{:?}", digits(i, &dims)), |i, cx| {
        let d = digits(i, &dims);
        let mut w = World::new();
        let n = [None, Some(0), Some(1), Some(2)][d[4]];
        let mut want = Want::default();
        for (f, c) in fields.iter().zip(&d) {
            let index = [None, Some(0u16), Some(1), Some(2)][*c];
            w.get("h.hud_globals").set_index(&format!("more_hud_crap.{f}"), index);
            if let (Some(n), Some(i)) = (n, index) { if i as usize >= n { let w: Vec<&str> = f.split('_').collect(); want.error(say![match w[0] { "checkpoint" => "heckpoint ", _ => "oading " }, format!(" {} ", w[1])]) } }
        }
        if let Some(n) = n {
            let mut u = T::new("unicode_string_list"); u.grow("strings", n); for k in 0..n { u.set_bytes(&format!("strings[{k}].string"), &[0, 0]); } w.put("t.unicode_string_list", u);
            set_ref(w.get("h.hud_globals"), "messaging_parameters.item_message_text", Some("t.unicode_string_list"));
        }
        w.judge(cx, &[("h.hud_globals", want)]);
    });
    let strings: Vec<Vec<u8>> = words(&[b"A\0".to_vec(), b"\x00\xD8".to_vec(), b"\x00\xDC".to_vec()], 3).into_iter().map(|w| w.concat()).collect();
    ck.family("texts", strings.len() * 3, |i| format!("{:?} at {}", strings[i / 3], i % 3), |i, cx| {
        let mut w = World::new();
        let s = &strings[i / 3];
        let units: Vec<u16> = s.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
        let mut u = T::new("unicode_string_list"); u.grow("strings", 3);
        for k in 0..3 { u.set_bytes(&format!("strings[{k}].string"), b"B\0\0\0"); }
        let mut b = s.clone(); b.extend([0, 0]);
        u.set_bytes(&format!("strings[{}].string", i % 3), &b);
        let mut want = Want::default();
        if String::from_utf16(&units).is_err() { want.error(say![format!("#{} ", i % 3)]) }
        w.put("t.unicode_string_list", u);
        w.judge(cx, &[("t.unicode_string_list", want)]);
    });
    // ---- HUD interfaces
    let places = places();
    let sets = seq_sets();
    let kinds = ["2d_textures", "3d_textures", "cube_maps", "sprites", "interface_bitmaps"];
    let dims = [places.len(), sets.len() + 3, INDICES.len(), ck.pick(2, kinds.len())];
    ck.family("HUD interfaces", dims.iter().product(), |i| { let d = digits(i, &dims); format!("{} {} {:?} {}", places[d[0]].bitmap, d[1], INDICES[d[2]], d[3]) }, |i, cx| {
        let d = digits(i, &dims);
        let p = &places[d[0]];
        let mut w = World::new();
        let x = name(p.group, "x");
        let mut t = T::new(p.group);
        for g in &p.grow { t.grow(g, 2); }
        t.set_index(&p.index, INDICES[d[2]]);
        let mut want = Want::default();
        let kind = kinds[(d[3] * 3) % 5];
        if let Some(s) = sets.get(d[1]) {
            if let Some(mut e) = sequence(kind, s, INDICES[d[2]], 1, Need::Any) { e.extend(p.call.clone()); want.error(e) }
            w.put("b.bitmap", bitmap(kind, s)); set_ref(&mut t, &p.bitmap, Some("b.bitmap"));
        } else if d[1] == sets.len() { w.put("b.bitmap", bad_bitmap()); set_ref(&mut t, &p.bitmap, Some("b.bitmap")); want.error(say!["b.bitmap", "has errors"]) }
        else if d[1] == sets.len() + 1 { w.put("b.antenna", T::new("antenna")); set_ref(&mut t, &p.bitmap, Some("b.antenna")); want.error(say![p.bitmap, "antenna"]) }
        w.put(x, t);
        w.judge(cx, &[(x, want)]);
    });
    // two places at once
    let pairs: Vec<(usize, usize)> = (0..places.len()).flat_map(|a| (0..a).map(move |b| (a, b))).filter(|(a, b)| places[*a].group == places[*b].group && places[*a].bitmap != places[*b].bitmap).collect();
    ck.family("HUD interfaces: two", pairs.len() * 4, |i| format!("{:?} {}", pairs[i / 4], i % 4), |i, cx| {
        let (a, b) = pairs[i / 4];
        let (a, b) = (&places[a], &places[b]);
        let mut w = World::new();
        let x = name(a.group, "x");
        let mut t = T::new(a.group);
        for g in a.grow.iter().chain(&b.grow) { let n = t.len(g); t.grow(g, 2 - n); }
        let mut want = Want::default();
        w.put("b.bitmap", bitmap("sprites", &[Seq { bitmaps: 0, sprites: 1 }]));
        for (p, bad) in [(a, i % 4 & 1 == 1), (b, i % 4 & 2 == 2)] {
            set_ref(&mut t, &p.bitmap, Some("b.bitmap")); t.set_index(&p.index, Some(if bad { 1 } else { 0 }));
            if bad { let mut e = say!["#1 is out-of-bounds"]; e.extend(p.call.clone()); want.error(e) }
        }
        w.put(x, t);
        w.judge(cx, &[(x, want)]);
    });
    // child HUDs: every graph of three, with errors of their own or not
    const HUDS: [&str; 3] = ["a.weapon_hud_interface", "b.weapon_hud_interface", "c.weapon_hud_interface"];
    let dims = [4, 4, 4, 2, 2, 2];
    ck.family("child HUDs", dims.iter().product(), |i| format!("{:?}", digits(i, &dims)), |i, cx| {
        let d = digits(i, &dims);
        let mut w = World::new();
        w.put("b.bitmap", bad_bitmap());
        fn chain(d: &[usize], from: usize) -> (Vec<usize>, bool) { let mut v = vec![from]; loop { let n = d[*v.last().unwrap()]; if n == 3 { return (v, false) } if v.contains(&n) { return (v, true) } v.push(n) } }
        let mut want = vec![];
        for h in 0..3 {
            let mut t = T::new("weapon_hud_interface");
            let mut x = Want::default();
            if d[3 + h] == 1 { t.grow("static_elements", 1); set_ref(&mut t, "static_elements[0].properties.interface_bitmap", Some("b.bitmap")); x.error(say!["b.bitmap", "has errors"]) }
            if d[h] < 3 { set_ref(&mut t, "child_hud", Some(HUDS[d[h]])) }
            let (c, circle) = chain(&d, h);
            if circle { x.error(say!["loop", HUDS[d[*c.last().unwrap()]]]) } else if c[1..].iter().any(|c| d[3 + c] == 1) { x.error(say![HUDS[d[h]], "has errors"]) }
            w.put(HUDS[h], t); want.push((HUDS[h], x));
        }
        w.judge(cx, &want);
    });
    // weapons which zoom
    let types: Vec<&str> = spec().enums["WeaponHUDInterfaceCrosshairType"].iter().map(|o| o.name.as_str()).collect();
    let types: Vec<&str> = if ck.quick() { types[..3].to_vec() } else { types };
    let dims = [4, 5, sets.len(), INDICES.len(), 2, types.len()];
    ck.family("weapons", dims.iter().product(), |i| format!("{:?}", digits(i, &dims)), |i, cx| {
        let d = digits(i, &dims);
        let (zoom, kind, s, index, flat, ty) = (d[0], kinds[d[1]], &sets[d[2]], INDICES[d[3]], d[4] == 1, types[d[5]]);
        let mut w = World::new();
        let mut h = T::new("weapon_hud_interface");
        h.grow("crosshairs", 2).grow("crosshairs[1].crosshair_overlays", 2);
        h.set_enum("crosshairs[1].crosshair_type", ty);
        set_ref(&mut h, "crosshairs[1].crosshair_bitmap", Some("b.bitmap"));
        let at = (i / 7) % 2;
        h.set_index(&format!("crosshairs[1].crosshair_overlays[{at}].sequence_index"), index);
        for k in 0..2 { h.set_flag(&format!("crosshairs[1].crosshair_overlays[{k}].flags"), "not_a_sprite", flat); }
        let mut g = T::new("weapon");
        g.set_int("zoom_levels", zoom as u64);
        set_ref(&mut g, "hud_interface", Some("w.weapon_hud_interface"));
        let (mut hud, mut gun) = (Want::default(), Want::default());
        if let Some(mut e) = sequence(kind, s, index, 1, Need::Any) { e.extend(say![format!("#{at} "), "crosshair 1 "]); hud.error(e) }
        if zoom > 0 {
            if !hud.errors.is_empty() { gun.error(say!["w.weapon_hud_interface", "has errors"]) }
            else if ty == "zoom_overlay" { for k in 0..2 {
                if let Some(mut e) = sequence(kind, s, if k == at { index } else { None }, zoom, if flat { Need::Textures } else { Need::Sprites }) { e.extend(say![format!("overlay #{k} "), "crosshair #1 "]); gun.error(e) }
            } }
        }
        w.put("b.bitmap", bitmap(kind, s)).put("w.weapon_hud_interface", h).put("g.weapon", g);
        w.judge(cx, &[("w.weapon_hud_interface", hud), ("g.weapon", gun)]);
    });
    // particle systems
    let dims = [2, 5, sets.len() + 2, INDICES.len()];
    ck.family("particle systems", dims.iter().product(), |i| format!("{:?}", digits(i, &dims)), |i, cx| {
        let d = digits(i, &dims);
        let (mode, kind, index) = (["simple", "rotational"][d[0]], kinds[d[1]], INDICES[d[3]]);
        let mut w = World::new();
        let mut t = T::new("particle_system");
        t.grow("particle_types", 2).grow("particle_types[1].particle_states", 3);
        t.set_enum("particle_types[1].complex_sprite_render_modes", mode);
        let (st, fl) = (i % 3, "particle_types[1].particle_states");
        for k in 0..3 { t.set_index(&format!("{fl}[{k}].sequence_index"), None); }
        t.set_index(&format!("{fl}[{st}].sequence_index"), index);
        let mut want = Want::default();
        if let Some(s) = sets.get(d[2]) {
            w.put("b.bitmap", bitmap(kind, s)); set_ref(&mut t, &format!("{fl}[{st}].bitmaps"), Some("b.bitmap"));
            if let Some(at) = index { for k in 0..=d[0] as u16 {
                // (an index of 65535 is no index)
                let this = Some(at + k).filter(|n| *n != 0xFFFF);
                let e = match this { Some(_) => sequence(kind, s, this, 1, Need::Sprites), None => if kind == "sprites" { Some(say!["#65535"]) } else { Some(say!["expected sprites"]) } };
                if let Some(mut e) = e { e.extend(say![format!("state #{st} "), "type #1 "]); want.error(e); if k == 1 { want.error(say!["additional"]) } }
            } }
        } else if d[2] == sets.len() { w.put("b.bitmap", bad_bitmap()); set_ref(&mut t, &format!("{fl}[{st}].bitmaps"), Some("b.bitmap")); if index.is_some() { want.error(say!["b.bitmap", "has errors"]) } }
        w.put("x.particle_system", t);
        w.judge(cx, &[("x.particle_system", want)]);
    });
    // particles
    let sizes = [0.0f32, 1.0, 4.0, 5.0, -1.0, -0.0, 1e-40];
    let dims = [sizes.len(), sizes.len()];
    ck.family("particles", sizes.len() * sizes.len(), |i| format!("{:?}", digits(i, &dims)), |i, cx| {
        let d = digits(i, &dims);
        let (a, b) = (sizes[d[0]], sizes[d[1]]);
        let mut w = World::new();
        let mut t = T::new("particle");
        t.set_floats("fade_start_size", &[a]); t.set_floats("fade_end_size", &[b]);
        let mut want = Want::default();
        // the defaults are 5 and 4, given if either is not set: that is worth saying if something is lost with it
        if (a == 0.0) != (b == 0.0) && (a != 0.0 && a != 5.0 || b != 0.0 && b != 4.0) { want.warnings.push(say![if a == 0.0 { "fade start size is zero" } else { "fade end size is zero" }, format!("({})", (if a == 0.0 { b } else { a }) as f64)]) }
        w.put("x.particle", t);
        w.judge(cx, &[("x.particle", want)]);
    });
    // effects
    let parts: Vec<Option<&str>> = vec![None, Some("damage_effect"), Some("sound"), Some("light"), Some("decal")];
    let dims = [parts.len() * 2, parts.len() * 2, 2, 2];
    ck.family("effects", dims.iter().product(), |i| format!("{:?}", digits(i, &dims)), |i, cx| {
        let d = digits(i, &dims);
        let mut w = World::new();
        let mut t = T::new("effect");
        t.grow("events", 2);
        let mut want = Want::default();
        for (e, p) in [(0, d[0]), (1, d[1])] {
            let (g, set) = (parts[p / 2], p % 2 == 1);
            let Some(g) = g else { continue };
            t.grow(&format!("events[{e}].parts"), e + 1); // the last one is the one which counts
            for k in 0..e + 1 { match t.at(&format!("events[{e}].parts[{k}].type")) { Val::Ref(gr, p) => { *gr = if k == e { g.into() } else { "sound".into() }; *p = if k == e && !set { None } else { Some("p".into()) } } _ => unreachable!() } }
            w.put(name("sound", "p"), T::new("sound")); if g != "sound" { w.put(name(g, "p"), T::new(spec().groups.get_key_value(g).unwrap().0)); }
            if !set { let s = say![format!("Part #{e} "), format!("event #{e} "), g]; if g == "damage_effect" { want.error(s) } else { want.pedantic.push(s) } }
        }
        for (e, n) in [(0, d[2]), (1, d[3])] {
            t.grow(&format!("events[{e}].particles"), 2);
            for k in 0..2 {
                let null = k == n && e == 1 || k != n && e == 0;
                if null { want.pedantic.push(say![format!("Particle #{k} "), format!("event #{e} ")]) } else { set_ref(&mut t, &format!("events[{e}].particles[{k}].particle_type"), Some("p.particle")); }
            }
        }
        w.put("p.particle", T::new("particle")).put("x.effect", t);
        w.judge(cx, &[("x.effect", want)]);
    });
    // ---- globals
    let dims = [3, 3, 3, 4, 2, 3];
    ck.family("globals", dims.iter().product(), |i| format!("{:?}", digits(i, &dims)), |i, cx| {
        let d = digits(i, &dims);
        let mut w = World::new();
        w.kind = ["singleplayer", "multiplayer", "user_interface"][d[0]];
        w.engine = ["xbox-us", "pc-retail", "mcc-cea"][i % 3];
        let (mp, weapons, sounds, falling, materials) = (d[1], [0, 15, 16][d[2]], [0, 42, 43, 44][d[3]], d[4], [0, 31, 32][d[5]]);
        let mut t = T::new("globals");
        t.grow("interface_bitmaps", 1).grow("falling_damage", falling).grow("materials", materials).grow("multiplayer_information", mp).grow("weapon_list", weapons);
        set_ref(&mut t, "interface_bitmaps[0].hud_globals", Some("h.hud_globals"));
        let mut want = Want::default();
        if w.kind == "multiplayer" {
            if mp == 0 { want.error(say!["Multiplayer information"]) }
            if weapons < 16 { want.error(say!["Weapons list", "16"]) }
        }
        for k in 0..mp {
            let n = if k == 0 { sounds } else { 43 };
            t.grow(&format!("multiplayer_information[{k}].sounds"), n);
            if w.kind == "multiplayer" && n < 43 { want.warnings.push(say![format!("#{k} "), format!("{n} / 43")]) }
        }
        if w.kind != "user_interface" {
            if falling == 0 { want.error(say!["Falling damage"]) }
            if materials < 32 { want.error(say!["Materials", "32"]) }
        }
        w.put("globals\\globals.globals", t);
        w.judge(cx, &[("globals\\globals.globals", want)]);
    });
    let counts = [0u16, 7, 8, 0xFFFF];
    let dims = [3, 4, 4, 4, 4];
    ck.family("globals: grenades", dims.iter().product(), |i| format!("{:?}", digits(i, &dims)), |i, cx| {
        let d = digits(i, &dims);
        let mut w = World::new();
        w.kind = ["singleplayer", "multiplayer", "user_interface"][d[0]];
        let n = d[1];
        let t = w.get("globals\\globals.globals");
        t.grow("grenades", n);
        let mut want = Want::default();
        let mp = d[0] == 1;
        if mp && n > 2 { want.error(say!["types", format!("({n})")]) }
        for k in 0..n {
            let (a, b) = (counts[d[2 + k % 3]], counts[d[2 + (k + 1) % 3]]);
            t.set_int(&format!("grenades[{k}].maximum_count"), a as u64); t.set_int(&format!("grenades[{k}].mp_spawn_default"), b as u64);
            if mp && a > 7 { want.error(say![format!("#{k}'"), "maximum count (", format!("({a})")]) }
            if mp && b > 7 { want.error(say![format!("#{k}'"), "spawn", format!("({b})")]) }
        }
        w.judge(cx, &[("globals\\globals.globals", want)]);
    });
    // ---- scenarios
    let dims = [3, 3, 2];
    ck.family("scenarios", dims.iter().product(), |i| format!("{:?}", digits(i, &dims)), |i, cx| {
        let d = digits(i, &dims);
        let mut w = World::new();
        w.get("s.scenario").grow("scripts", d[0]).grow("globals", d[1]).grow("source_files", d[2]);
        let mut want = Want::default();
        if d[0] + d[1] > 0 && d[2] == 0 { want.error(say!["source"]) }
        w.judge(cx, &[("s.scenario", want)]);
    });
    // ---- bitmaps
    let formats: Vec<&str> = spec().enums["BitmapDataFormat"].iter().filter(|o| !o.exclude).map(|o| o.name.as_str()).collect();
    let encodings: Vec<&str> = spec().enums["BitmapFormat"].iter().map(|o| o.name.as_str()).collect();
    let usages = ["alpha_blend", "default", "height_map", "detail_map", "light_map", "vector_map"];
    let unit = |f: &str| match f { "a8" | "y8" | "ay8" | "p8" => (1, 1), "a8y8" | "r5g6b5" | "a1r5g5b5" | "a4r4g4b4" => (1, 2), "x8r8g8b8" | "a8r8g8b8" => (1, 4), "dxt1" => (4, 8), _ => (4, 16) };
    let dims = [formats.len(), encodings.len(), usages.len(), 2, 2, 2];
    ck.family("bitmaps: formats", dims.iter().product(), |i| format!("{:?}", digits(i, &dims)), |i, cx| {
        let d = digits(i, &dims);
        let (f, e, u, off, source, second) = (formats[d[0]], encodings[d[1]], usages[d[2]], d[3] == 1, d[4] == 1, d[5]);
        let mut w = World::new();
        let mut t = T::new("bitmap");
        t.set_enum("encoding_format", e); t.set_enum("usage", u); t.set_flag("flags", "disable_height_map_compression", off);
        if source { t.set_bytes("color_plate.compressed_data", &[0, 0, 0, 0, 0]) }
        t.grow("bitmap_data", 1 + second);
        let at = second;
        t.set_bytes("processed_pixel_data", &[0; 64]);
        // one which is right comes first
        let fine = match e { "16_bit" => "r5g6b5", "32_bit" => "a8r8g8b8", "monochrome" => "ay8", e => e };
        let rule = |f: &str| -> Option<&'static str> {
            if f == "p8" { return off.then_some("compression disabled") }
            if !off && (u == "height_map" || u == "vector_map") { return Some("compression enabled") }
            let ok = match e { "16_bit" => ["r5g6b5", "a1r5g5b5", "a4r4g4b4"].contains(&f), "32_bit" => ["x8r8g8b8", "a8r8g8b8"].contains(&f), "dxt1" => f == "dxt1", "dxt3" => f == "dxt1" || f == "dxt3", "dxt5" => f == "dxt1" || f == "dxt5", "monochrome" => ["a8", "y8", "ay8", "a8y8"].contains(&f), _ => f == "bc7" };
            (!ok).then_some("doesn't match")
        };
        let mut want = Want::default();
        for k in 0..=at {
            let f = if k == at { f } else { fine };
            let b = format!("bitmap_data[{k}]");
            for x in ["width", "height", "depth"] { t.set_int(&format!("{b}.{x}"), 1) }
            t.set_enum(&format!("{b}.format"), f);
            if let Some(r) = rule(f) { want.error(say![format!("#{k} "), r]) }
        }
        if !want.errors.is_empty() { want.error(say![if source { "has source data" } else { "No source data" }]) }
        w.put("x.bitmap", t);
        w.judge(cx, &[("x.bitmap", want)]);
    });
    let shapes: Vec<(usize, usize, usize, &str)> = vec![(1, 1, 1, "2d_texture"), (4, 4, 1, "2d_texture"), (8, 2, 1, "2d_texture"), (16, 16, 1, "2d_texture"), (5, 3, 1, "2d_texture"), (4, 4, 1, "cube_map"), (4, 4, 2, "3d_texture"), (2, 4, 8, "3d_texture")];
    let offsets = [0u64, 1, 16, 0xFFFFFFFF];
    let dims = [formats.len(), shapes.len(), 5, offsets.len(), 4];
    ck.family("bitmaps: pixels", dims.iter().product(), |i| format!("{:?}", digits(i, &dims)), |i, cx| {
        let d = digits(i, &dims);
        let (f, (bw, bh, bd, kind), mips, offset) = (formats[d[0]], shapes[d[1]], d[2], offsets[d[3]]);
        let (block, size) = unit(f);
        let (mut total, mut l) = (0, 0);
        loop {
            let at = |v: usize| (v >> l).max(1);
            total += at(bw).div_ceil(block) * at(bh).div_ceil(block) * if kind == "cube_map" { 6 } else { at(bd) } * size;
            if at(bw) == 1 && at(bh) == 1 && at(bd) == 1 || l == mips { break }
            l += 1;
        }
        let off = if offset > 1000 { 0 } else { offset as usize };
        let have = match d[4] { 0 => off + total, 1 => off + total - 1, 2 => 0, _ => off + total + 1 };
        let mut t = T::new("bitmap");
        let e = match f { "dxt1" | "dxt3" | "dxt5" | "bc7" => f, "a8" | "y8" | "ay8" | "a8y8" => "monochrome", "x8r8g8b8" | "a8r8g8b8" => "32_bit", _ => "16_bit" };
        t.set_enum("encoding_format", e);
        t.set_bytes("processed_pixel_data", &vec![0; have]);
        t.grow("bitmap_data", 2);
        let k = i % 2;
        for b in 0..2 {
            let b_ = format!("bitmap_data[{b}]");
            t.set_enum(&format!("{b_}.format"), if b == k { f } else { "p8" });
            for (x, v) in [("width", bw), ("height", bh), ("depth", bd)] { t.set_int(&format!("{b_}.{x}"), if b == k { v as u64 } else { 1 }) }
            t.set_enum(&format!("{b_}.type"), if b == k { kind } else { "2d_texture" });
        }
        t.set_int(&format!("bitmap_data[{k}].mipmap_count"), mips as u64);
        t.set_int(&format!("bitmap_data[{k}].pixel_data_offset"), offset);
        let mut want = Want::default();
        if have < 1 { want.error(say![format!("#{} ", 1 - k), "out-of-bounds"]) }
        if offset as usize + total > have { want.error(say![format!("#{k} "), "out-of-bounds", format!("offset {offset} "), format!("{have} total")]) }
        let mut w = World::new();
        w.put("x.bitmap", t);
        w.judge(cx, &[("x.bitmap", want)]);
    });
    // ---- sounds
    let mut sounds: Vec<Snd> = vec![];
    let depth = ck.pick(3, 4);
    for n in 0..=depth {
        let alphabet: Vec<Option<u16>> = [None].into_iter().chain((0..=n as u16).map(Some)).collect();
        for w in words(&alphabet, n).into_iter().filter(|w| w.len() == n) { for actual in 0..=n as u16 + 1 { for split in [false, true] {
            sounds.push(Snd { split, stereo: false, format: 0, ranges: vec![range(w.iter().map(|x| perm(*x)).collect(), actual)] });
        } } }
    }
    for a in words(&[None, Some(0), Some(1)], 2) { for b in words(&[None, Some(0), Some(1), Some(5)], 2) { for split in [false, true] { for c in 0..2 {
        let count = |w: &Vec<Option<u16>>| if split { w.iter().filter_map(|x| x.filter(|n| *n != 0)).map(|n| n as usize).chain([w.len()]).min().unwrap() } else { w.len() };
        sounds.push(Snd { split, stereo: true, format: 0, ranges: [&a, &b].into_iter().map(|w| range(w.iter().map(|x| perm(*x)).collect(), if c == 0 { count(w) } else { w.len() } as u16)).collect() });
    } } } }
    for format in 0..3 { for f1 in 0..3 { for f2 in 0..3 { for len in [0, 1, 2, 4, 36, 72, 144] { for stereo in [false, true] { for buffer in [0, len as u32, 7] {
        let p = |f| Perm { next: None, format: f, len, buffer };
        sounds.push(Snd { split: false, stereo, format, ranges: vec![range(vec![p(f1)], 1), range(vec![p(f1), p(f2)], 2)] });
    } } } } } }
    for natural in [0.0f32, -1.0, 1.0, 0.5, 2.0] { for lower in [0.0f32, 0.25, 0.5, 1.0, 1.5, -1.0] { for upper in [0.0f32, 0.25, 0.5, 1.0, 2.0, 3.0, -1.0] {
        let mut r = range(vec![perm(None)], 1); r.natural = natural; r.lower = lower; r.upper = upper;
        sounds.push(Snd { split: false, stereo: false, format: 0, ranges: vec![range(vec![], 0), r] });
    } } }
    ck.family("sounds", sounds.len(), |i| format!("{:?}", sounds[i]), |i, cx| {
        let mut w = World::new();
        w.put("x.sound", sounds[i].tag());
        w.judge(cx, &[("x.sound", sounds[i].want())]);
    });
    // ---- BSPs
    let dims = [3, 3, 3, 3, 4, 4];
    ck.family("BSPs: sizes", dims.iter().product(), |i| format!("{:?}", digits(i, &dims)), |i, cx| {
        let d = digits(i, &dims);
        let (r, l) = (d[0], d[1]);
        let mut t = T::new("scenario_structure_bsp");
        t.grow("lightmaps", 2).grow("lightmaps[1].materials", 2);
        let at = format!("lightmaps[{}].materials[{}]", 1, i % 2);
        t.set_int(&format!("{at}.rendered_vertices.vertex_count"), r as u64); t.set_int(&format!("{at}.lightmap_vertices.vertex_count"), l as u64);
        let (full, packed) = (56 * r + 20 * l, 32 * r + 8 * l);
        let len = |n: usize, c: usize| [0, n, n.saturating_sub(1), n + 1][c];
        let (a, b) = (len(full, d[4]), len(packed, d[5]));
        let mut data = vec![0; a];
        for v in 0..r { if v * 56 + 24 <= a { let n: f32 = if d[2] == 1 && v == r - 1 { 0.5 } else { 1.0 }; data[v * 56 + 20..v * 56 + 24].copy_from_slice(&n.to_le_bytes()) } }
        t.set_bytes(&format!("{at}.uncompressed_vertices"), &data); t.set_bytes(&format!("{at}.compressed_vertices"), &vec![0; b]);
        let mut want = Want::default();
        let bad = l != 0 && l != r || a != 0 && a != full || b != 0 && b != packed;
        if bad { want.error(say!["size"]) } else if d[2] == 1 && a != 0 && r > 0 { want.error(say!["vectors"]) }
        let mut w = World::new();
        w.get("s.scenario").grow("structure_bsps", 1); set_ref(w.get("s.scenario"), "structure_bsps[0].structure_bsp", Some("b.scenario_structure_bsp"));
        w.tags.insert("b.scenario_structure_bsp".into(), t);
        w.judge(cx, &[("b.scenario_structure_bsp", want)]);
    });
    // cells: layers (of 4 palette entries: set, null, set, not there), count index, counts, references, instances, start
    let layers: Vec<i32> = vec![0, 1, 2, 4, 5, 7, 8, 1 << 30, i32::MIN];
    let dims = [layers.len(), 4, 4, 4, 4, 3];
    ck.family("BSPs: detail objects", dims.iter().product(), |i| format!("{:?}", digits(i, &dims)), |i, cx| {
        let d = digits(i, &dims);
        let (bits, first, counts, refs, instances, start) = (layers[d[0]], [0usize, 1, 3, 0xFFFFFFFF][d[1]], d[2], d[3], d[4], [0usize, 1, 0xFFFFFFFF][d[5]]);
        let mut t = T::new("scenario_structure_bsp");
        t.grow("detail_objects", 1);
        let b = "detail_objects[0]";
        t.grow(&format!("{b}.cells"), 2).grow(&format!("{b}.counts"), counts).grow(&format!("{b}.z_reference_vectors"), refs).grow(&format!("{b}.instances"), instances);
        for k in 0..counts { t.set_int(&format!("{b}.counts[{k}].count"), k as u64) }
        // the cells are equal: what is missing in the palette is said once, all else for each of them
        for k in 0..2 { t.set_int(&format!("{b}.cells[{k}].valid_layers_flags"), bits as u32 as u64); t.set_int(&format!("{b}.cells[{k}].count_index"), first as u64); t.set_int(&format!("{b}.cells[{k}].start_index"), start as u64); }
        let mut want = Want::default();
        let there = if i % 2 == 0 { [0, 2] } else { [1, 2] };
        let n = bits.count_ones() as usize;
        let fits = first + n <= counts && first + n <= refs;
        let ok = fits && (n == 0 || start + (first..first + n).sum::<usize>() <= instances);
        if n > 0 || fits { // (a cell without layers needs nothing)
            for k in 0..2 { if !ok { want.error(say![format!("#{k} ")]) } }
            if ok { for bit in 0..32 { if bits as u32 >> bit & 1 == 1 && !there.contains(&bit) { want.error(say!["palette", format!("#{bit} ")]) } } }
            let mut w = World::new();
            let s = w.get("s.scenario");
            s.grow("structure_bsps", 1).grow("detail_object_collection_palette", 3);
            set_ref(s, "structure_bsps[0].structure_bsp", Some("b.scenario_structure_bsp"));
            for k in there { set_ref(s, &format!("detail_object_collection_palette[{k}].reference"), Some("d.detail_object_collection")); }
            w.tags.insert("d.detail_object_collection".into(), T::new("detail_object_collection"));
            w.tags.insert("b.scenario_structure_bsp".into(), t);
            w.judge(cx, &[("b.scenario_structure_bsp", want)]);
        }
    });
    // ---- numbers, everywhere
    let mut places: Vec<(&'static str, String, String, usize)> = vec![];
    for g in concrete() { let mut v = vec![]; floats(&spec().groups[g].strukt, "", &mut v); places.extend(v.into_iter().map(|(p, t, n)| (g, p, t, n))); }
    let quick = ck.quick();
    ck.family("numbers", places.len(), |i| format!("{} {}", places[i].0, places[i].1), |i, cx| {
        let (g, p, ty, n) = &places[i];
        let ordinary = { let w = World::new(); let mut w = w; let (x, t) = place(&mut w, g, grown(g, p)); w.tags.insert(x.clone(), t); w.engine = "mcc-cea"; match w.run() { Ok(r) => r[&path(&x)].errors.clone(), Err(e) => { cx.fail("verifier", e); return } } };
        for k in 0..*n { for v in [f32::NAN, f32::INFINITY, 1.5, -0.5, 0.5] {
            let color = ty.starts_with("Color");
            if !color && v == -0.5 { continue }
            let mut w = World::new(); w.engine = "mcc-cea";
            let mut t = grown(g, p);
            let mut f = t.floats(p); f[k] = v; t.set_floats(p, &f);
            let (x, t) = place(&mut w, g, t);
            w.tags.insert(x.clone(), t);
            let r = match w.run() { Ok(r) => r, Err(e) => { cx.fail("verifier", e); return } };
            cx.step(); cx.validated();
            let got = &r[&path(&x)].errors;
            let new: Vec<&String> = got.iter().filter(|e| !ordinary.contains(e)).collect();
            let nan = new.iter().filter(|e| e.contains("NaN float")).count();
            let range = new.iter().filter(|e| e.contains("0-1 range")).count();
            cx.state((g, p, k, v.to_bits()));
            cx.check(nan == v.is_nan() as usize, "NaN", || format!("{p}[{k}] = {v}: {new:?}"));
            cx.check(range == (color && !(0.0..=1.0).contains(&v)) as usize, "colours", || format!("{p}[{k}] = {v}: {new:?}"));
        } }
    });
    // ---- references, everywhere
    let mut refs: Vec<(&'static str, String, Vec<String>)> = vec![];
    for g in concrete() { let mut v = vec![]; references(&spec().groups[g].strukt, "", &mut v); refs.extend(v.into_iter().map(|(p, a)| (g, p, a))); }
    let engines = ck.pick(vec!["xbox-us", "mcc-cea"], vec!["xbox-us", "pc-retail", "pc-custom", "mcc-cea", "mac-demo"]);
    let targets = concrete();
    let per = ck.pick(4, targets.len());
    ck.family("references", refs.len(), |i| format!("{} {}", refs[i].0, refs[i].1), |i, cx| {
        let (g, p, allowed) = &refs[i];
        let ok: Vec<&str> = targets.iter().copied().filter(|t| allowed.iter().any(|a| a == t || a == "*")).collect();
        let not: Vec<&str> = targets.iter().copied().filter(|t| !ok.contains(t)).collect();
        let mut try_: Vec<&str> = vec![];
        for l in [&ok, &not] { for k in 0..per.min(l.len()) { try_.push(l[(i * 7 + k * (l.len() / per.min(l.len()))) % l.len()]) } }
        for t in targets.iter().filter(|t| engines.iter().any(|e| !supported(t, e))) { if !try_.contains(t) && (i % 3 == 0 || !quick) { try_.push(t) } }
        for to in try_ { for e in &engines {
            let mut w = World::new(); w.engine = e;
            let mut t = grown(g, p);
            let target = format!("target.{to}");
            set_ref(&mut t, p, Some(&target));
            w.tags.insert(target, T::new(spec().groups.get_key_value(to).unwrap().0));
            let (x, t) = place(&mut w, g, t);
            w.tags.insert(x.clone(), t);
            let r = match w.run() { Ok(r) => r, Err(e) => { cx.fail("verifier", format!("to {to}: {e}")); continue } };
            cx.step(); cx.validated(); cx.state((g, p, to, e));
            let Some(got) = r.get(&path(&x)) else { cx.fail("missing", x); return };
            let about: Vec<&String> = got.errors.iter().filter(|m| m.contains(" references `")).collect();
            let want = if !ok.contains(&to) { Some(("not allowed for this reference", String::new())) } else if !supported(to, e) { Some(("not allowed for engine", format!("`{e}`"))) } else { None };
            let supported_there = |m: &str| m.ends_with("engine"); // (otherwise what is allowed is listed)
            let right = match &want { None => about.is_empty(), Some((m, n)) => about.len() == 1 && about[0].starts_with(&format!("{p} references `{to}`")) && about[0].contains(m) && about[0].contains(n.as_str()) && (supported_there(m) || allowed.iter().all(|a| about[0].contains(a.as_str()))) };
            cx.check(right, if want.is_some() { "not allowed" } else { "allowed" }, || format!("{p} to {to} on {e}: {about:?}"));
        } }
    });
    ck.finish();
}

/// Where the tag goes, so that the scenario needs it.
fn place(w: &mut World, g: &'static str, mut t: T) -> (String, T) {
    match g {
        "scenario" => { t.set_enum("type", "singleplayer"); ("s.scenario".into(), t) }
        "globals" => { let n = t.len("interface_bitmaps"); if n == 0 { t.grow("interface_bitmaps", 1); } if matches!(t.at("interface_bitmaps[0].hud_globals"), Val::Ref(_, None)) { set_ref(&mut t, "interface_bitmaps[0].hud_globals", Some("h.hud_globals")) } ("globals\\globals.globals".into(), t) }
        "hud_globals" => ("h.hud_globals".into(), t),
        g => {
            let x = format!("x.{g}");
            let s = w.get("s.scenario"); s.grow("references", 1); set_ref(s, "references[0].reference", Some(&x));
            (x, t)
        }
    }
}
