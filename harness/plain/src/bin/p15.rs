//! P15: verifying scenarios under every schedule of the threads within bounds, on the tool itself. needs: invader-mc
use mc::explore::*;
use mc::fsmap::*;
use mc::memtree::MemTree;
use mc::*;
use ringhopper::definitions::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::dependency::recursively_get_dependencies_for_map;
use ringhopper::tag::tree::*;
use ringhopper::tag::verify::verify;
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroUsize;

type Tag = Box<dyn PrimaryTagStructDyn>;
struct Scene { name: String, tags: BTreeMap<String, Tag>, scenarios: Vec<&'static str>, /// the tags which must be found to be bad
    bad: BTreeSet<String> }

fn path(s: &str) -> TagPath { TagPath::from_path(s).unwrap() }
fn r(s: &str) -> TagReference { TagReference::Set(path(s)) }
fn native(p: &str) -> String { p.replace('\\', "/") }
const NAN: f64 = f64::NAN;

fn base(scenarios: &[&'static str]) -> Scene {
    let mut t: BTreeMap<String, Tag> = BTreeMap::new();
    let mut globals = Globals::default();
    globals.interface_bitmaps.items.push(GlobalsInterfaceBitmaps { hud_globals: r("h.hud_globals"), ..Default::default() });
    globals.falling_damage.items.push(Default::default());
    for _ in 0..32 { globals.materials.items.push(Default::default()) }
    t.insert("globals\\globals.globals".into(), Box::new(globals));
    t.insert("ui\\shell\\bitmaps\\white.bitmap".into(), Box::new(Bitmap::default()));
    t.insert("ui\\multiplayer_game_text.unicode_string_list".into(), Box::new(UnicodeStringList::default()));
    t.insert("ui\\shell\\solo.ui_widget_collection".into(), Box::new(UIWidgetCollection::default()));
    t.insert("h.hud_globals".into(), Box::new(HUDGlobals::default()));
    for s in scenarios { t.insert(format!("{s}.scenario"), Box::new(Scenario::default())); }
    Scene { name: String::new(), tags: t, scenarios: scenarios.to_vec(), bad: BTreeSet::new() }
}
impl Scene {
    fn get<T: 'static>(&mut self, p: &str) -> &mut T { self.tags.get_mut(p).unwrap().as_any_mut().downcast_mut().unwrap() }
    fn put(&mut self, p: &str, t: impl PrimaryTagStructDyn) -> &mut Self { self.tags.insert(p.into(), Box::new(t)); self }
    fn bad(mut self, l: &[&str]) -> Self { self.bad = l.iter().map(|s| s.to_string()).collect(); self }
    fn named(mut self, n: &str) -> Self { self.name = n.into(); self }
    /// Make the scenario refer to things.
    fn refers(&mut self, scenario: &str, l: &[&str]) {
        let s: &mut Scenario = self.get(&format!("{scenario}.scenario"));
        for p in l { s.references.items.push(ScenarioReference { reference: r(p), ..Default::default() }) }
    }
}
fn strings(n: usize) -> UnicodeStringList { let mut u = UnicodeStringList::default(); for _ in 0..n { u.strings.items.push(UnicodeStringListString { string: UTF16String::from_str("A") }) } u }
fn scenery(index: u16) -> Scenery { let mut s = Scenery::default(); s.basic_object.object.hud_text_message_index = index; s }
fn bad_bitmap() -> Bitmap { let mut b = Bitmap::default(); b.processing.bump_height = NAN; b }
fn whi(child: Option<&str>) -> WeaponHUDInterface { let mut w = WeaponHUDInterface::default(); if let Some(c) = child { w.child_hud = r(c) } w }

fn scenes() -> Vec<Scene> {
    let mut v = vec![];
    // the HUD globals are looked into while other tags are verified
    for errors in [true, false] {
        let mut s = base(&["s"]);
        s.put("t.unicode_string_list", strings(1)).put("a.scenery", scenery(0)).put("b.scenery", scenery(1)).put("m.scenery", scenery(0));
        s.get::<HUDGlobals>("h.hud_globals").messaging_parameters.item_message_text = r("t.unicode_string_list");
        if errors { s.get::<HUDGlobals>("h.hud_globals").more_hud_crap.checkpoint_begin_text = Some(7) }
        s.refers("s", &["a.scenery", "b.scenery", "m.scenery"]);
        v.push(s.named(if errors { "objects, bad hud globals" } else { "objects" }).bad(if errors { &["b.scenery", "h.hud_globals"] } else { &["b.scenery"] }));
    }
    // what depends on a bad tag is bad itself
    let mut s = base(&["s"]);
    let mut w = whi(None); w.crosshairs.items.push(WeaponHUDInterfaceCrosshair { crosshair_bitmap: r("b.bitmap"), ..Default::default() });
    let mut gun = Weapon::default(); gun.zoom_levels = 1; gun.hud_interface = r("w.weapon_hud_interface");
    s.put("b.bitmap", bad_bitmap()).put("w.weapon_hud_interface", w.clone()).put("g.weapon", gun.clone());
    s.put("x.weapon_hud_interface", w);
    s.refers("s", &["g.weapon", "x.weapon_hud_interface"]);
    v.push(s.named("a bad bitmap").bad(&["b.bitmap", "w.weapon_hud_interface", "g.weapon", "x.weapon_hud_interface"]));
    // text which is bad
    let mut s = base(&["s"]);
    let mut t = strings(3); t.strings.items[1].string = UTF16String::from_str("Q");
    let mut body = t.to_tag_file().unwrap()[64..].to_vec();
    let at = body.windows(2).rposition(|w| w == b"Q\0").unwrap(); body[at..at + 2].copy_from_slice(&[0, 0xD8]); // half of a surrogate pair
    s.tags.insert("t.unicode_string_list".into(), read_any_tag_from_file_buffer(&refser::tag_file("unicode_string_list", &body), ParseStrictness::Strict).unwrap());
    s.put("a.scenery", scenery(2)).put("m.scenery", scenery(0));
    s.get::<HUDGlobals>("h.hud_globals").messaging_parameters.item_message_text = r("t.unicode_string_list");
    s.refers("s", &["a.scenery", "m.scenery"]);
    v.push(s.named("bad text").bad(&["t.unicode_string_list", "a.scenery", "m.scenery", "h.hud_globals"]));
    // child HUDs
    for (name, l, bad) in [
        ("a chain of huds", vec![("a", Some("b")), ("b", Some("c")), ("c", None)], vec![]),
        ("a hud which is its own child", vec![("a", Some("a"))], vec!["a"]),
        ("two huds in a circle", vec![("a", Some("b")), ("b", Some("a"))], vec!["a", "b"]),
        ("three huds in a circle", vec![("a", Some("b")), ("b", Some("c")), ("c", Some("a"))], vec!["a", "b", "c"]),
        ("a hud before a circle", vec![("z", Some("a")), ("a", Some("b")), ("b", Some("a"))], vec!["a", "b", "z"]),
        ("a hud before one which is its own child", vec![("z", Some("a")), ("a", Some("a"))], vec!["a", "z"]),
    ] {
        let mut s = base(&["s"]);
        for (n, c) in &l { s.put(&format!("{n}.weapon_hud_interface"), whi(c.map(|c| format!("{c}.weapon_hud_interface")).as_deref())); }
        let paths: Vec<String> = l.iter().map(|x| format!("{}.weapon_hud_interface", x.0)).collect();
        s.refers("s", &paths.iter().map(|p| &p[..]).collect::<Vec<_>>());
        let bad: Vec<String> = bad.iter().map(|b| format!("{b}.weapon_hud_interface")).collect();
        v.push(s.named(name).bad(&bad.iter().map(|b| &b[..]).collect::<Vec<_>>()));
    }
    // BSPs look into the scenario
    let mut s = base(&["s"]);
    for (b, bits) in [("p", 1i32), ("q", 3), ("r", 1)] {
        let mut bsp = ScenarioStructureBSP::default();
        bsp.detail_objects.items.push(ScenarioStructureBSPDetailObjectData { cells: Reflexive { items: vec![ScenarioStructureBSPGlobalDetailObjectCell { valid_layers_flags: bits, ..Default::default() }] },
            counts: Reflexive { items: vec![Default::default(); 2] }, z_reference_vectors: Reflexive { items: vec![Default::default(); 2] }, ..Default::default() });
        s.put(&format!("{b}.scenario_structure_bsp"), bsp);
        s.get::<Scenario>("s.scenario").structure_bsps.items.push(ScenarioBSP { structure_bsp: r(&format!("{b}.scenario_structure_bsp")), ..Default::default() });
    }
    s.put("d.detail_object_collection", DetailObjectCollection::default());
    s.get::<Scenario>("s.scenario").detail_object_collection_palette.items.push(ScenarioDetailObjectCollectionPalette { reference: r("d.detail_object_collection"), ..Default::default() });
    s.get::<Scenario>("s.scenario").scripts.items.push(Default::default());
    v.push(s.named("BSPs").bad(&["s.scenario", "q.scenario_structure_bsp"]));
    // two scenarios at once
    let mut s = base(&["s1", "s2"]);
    s.put("b.bitmap", bad_bitmap()).put("c.bitmap", bad_bitmap()).put("ok.bitmap", Bitmap::default());
    s.refers("s1", &["b.bitmap", "c.bitmap", "ok.bitmap"]); s.refers("s2", &["ok.bitmap", "b.bitmap", "c.bitmap"]);
    v.push(s.named("two scenarios").bad(&["b.bitmap", "c.bitmap"]));
    // references to what is not allowed there
    let mut s = base(&["s"]);
    let mut w = whi(None); w.crosshairs.items.push(WeaponHUDInterfaceCrosshair { crosshair_bitmap: r("x.antenna"), ..Default::default() });
    let mut o = scenery(0); o.basic_object.object.model = r("x.antenna");
    s.put("w.weapon_hud_interface", w).put("o.scenery", o).put("x.antenna", Antenna::default()).put("p.scenery", scenery(0));
    s.get::<HUDGlobals>("h.hud_globals").messaging_parameters.item_message_text = r("x.antenna");
    s.refers("s", &["w.weapon_hud_interface", "o.scenery", "p.scenery"]);
    v.push(s.named("references to other groups").bad(&["w.weapon_hud_interface", "o.scenery", "h.hud_globals"]));
    v
}

fn main() {
    let mut ck = Check::new("P15");
    let names: Vec<String> = scenes().into_iter().map(|s| s.name).collect();
    let shape: Vec<(usize, usize)> = scenes().into_iter().map(|s| (s.scenarios.len(), s.tags.len())).collect();
    let engine = ringhopper_engines::ALL_SUPPORTED_ENGINES.iter().find(|e| e.name == "xbox-us").unwrap();

    // ---- one by one, in process: every tag which the scenario needs exactly once, with the verdict it must have
    let n = names.len() * 4;
    ck.family("one by one", n, |i| format!("{} x{}", names[i / 4], i % 4 + 1), |i, cx| {
        let s = &scenes()[i / 4];
        for scenario in &s.scenarios {
            let tree = MemTree { tags: s.tags.iter().map(|(p, t)| (path(p), Some(t.clone_inner()))).collect(), cache: false };
            let p = path(&format!("{scenario}.scenario"));
            let mut want: BTreeSet<TagPath> = recursively_get_dependencies_for_map(&p, &tree, engine).unwrap().into_iter().collect(); want.insert(p.clone());
            let tree = std::sync::Arc::new(CachingTagTree::new(tree, CachingTagTreeWriteStrategy::Manual));
            cx.steps(want.len() as u64); cx.validated();
            match guard(|| verify(&p, tree, engine, NonZeroUsize::new(i % 4 + 1).unwrap())) {
                Err(e) => cx.fail("panic", e), Ok(Err(e)) => cx.fail("error", format!("{e}")),
                Ok(Ok(res)) => {
                    cx.check(res.keys().cloned().collect::<BTreeSet<_>>() == want, "reported", || format!("{:?}", want.iter().filter(|w| !res.contains_key(*w)).collect::<Vec<_>>()));
                    let bad: BTreeSet<String> = res.iter().filter(|x| !x.1.errors.is_empty()).map(|x| format!("{}.{}", x.0.path(), x.0.group())).collect();
                    let want: BTreeSet<String> = s.bad.iter().cloned().collect();
                    cx.check(bad == want, "verdicts", || format!("bad: {bad:?} instead of {want:?}"));
                    cx.note(|| format!("{:?}", res.iter().map(|(k, v)| format!("{k}: {:?}", v.errors)).collect::<Vec<_>>()));
                }
            }
        }
    });

    // ---- every schedule
    let shards = 8;
    let mut items = vec![]; // scene, jobs, preemptions, seed, shard
    for i in 0..names.len() { for seed in 0..ck.pick(2, 3) { for sh in 0..shards {
        let two = shape[i].0 > 1;
        items.push((i, if two { 2 } else { 1 }, if two { ck.pick(1, 2) } else { ck.pick(2, 3) }, seed, sh));
        if !ck.quick() && !two && shape[i].1 <= 8 && seed < 2 { items.push((i, 1, 4, seed, sh)); }
    } } }
    let most = ck.pick(150, 1_200);
    ck.items("schedules", &items, |(i, j, p, s, sh)| format!("{}: {j} jobs, {p} preemptions, hash seed {s}, share {sh}", names[*i]), |(i, jobs, preempt, seed, sh), cx| {
        let s = &scenes()[*i];
        let root = case_dir("p15");
        write_files(&root, &s.tags.iter().map(|(p, t)| (native(p), t.to_tag_file().unwrap())).collect::<BTreeMap<_, _>>());
        let args: Vec<String> = ["verify-scenario", "s*", "-e", "xbox-us", "-j", &jobs.to_string(), "-t", root.to_str().unwrap()].iter().map(|s| s.to_string()).collect();
        let sp = Space { args, cwd: &root, env: vec![("MC_HASHSEED", seed.to_string())], preemptions: *preempt, faults: 0, shard: (*sh, shards), most };
        let mut first: Option<BTreeSet<String>> = None;
        let mut problems = vec![];
        let x = explore(&sp, || (), |e| {
            if let Some(d) = e.disaster() { problems.push(("disaster", format!("{d} [{}]", e.how()))); return false }
            let lines: Vec<&str> = e.run.out.lines().collect();
            let mut sorted: Vec<String> = lines.iter().map(|l| l.to_string()).collect(); sorted.sort();
            let set: BTreeSet<String> = sorted.iter().cloned().collect();
            let bad: BTreeSet<String> = lines.iter().filter_map(|l| l.strip_prefix("ERROR ")?.split_once(": ").map(|x| x.0.to_string())).collect();
            let want: BTreeSet<String> = s.bad.iter().map(|b| native(b)).collect();
            let headers = lines.iter().filter(|l| l.starts_with("Verified ")).count();
            if headers != s.scenarios.len() { problems.push(("verified", format!("{headers} times: {} [{}]", e.run.brief(), e.how()))) }
            if bad != want { problems.push(("verdicts", format!("bad: {bad:?} instead of {want:?} [{}]", e.how()))) }
            // the errors of one scenario come together, whatever else is going on
            if s.scenarios.len() > 1 {
                let mut at: Vec<usize> = lines.iter().enumerate().filter(|l| l.1.starts_with("Verified ")).map(|l| l.0).collect(); at.push(lines.len());
                for w in at.windows(2) { let b: BTreeSet<String> = lines[w[0]..w[1]].iter().filter_map(|l| l.strip_prefix("ERROR ")?.split_once(": ").map(|x| x.0.to_string())).collect(); if b != want { problems.push(("verdicts of one scenario", format!("{b:?} instead of {want:?} [{}]", e.how()))) } }
            }
            match &first { None => first = Some(set), Some(f) => if *f != set { problems.push(("messages", format!("{:?} instead of {:?} [{}]", set.difference(f).collect::<Vec<_>>(), f.difference(&set).collect::<Vec<_>>(), e.how()))) } }
            problems.len() < 3
        });
        cx.steps(x.decisions); cx.validated_n(x.runs);
        for t in x.traces { cx.state(t) }
        if x.truncated { cx.note(|| "truncated".into()) }
        for (s, m) in problems { cx.fail(s, m) }
    });
    ck.assume("the threads interact only through the standard library's synchronisation (no unsafe code is involved)");
    ck.finish()
}
