//! P13: refactoring paths and groups over trees of tags, against a model; with every fault and schedule within bounds. needs: invader-mc
use mc::explore::*;
use mc::fsmap::*;
use mc::refser::*;
use mc::*;
use ringhopper::definitions::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::dependency::*;
use ringhopper::tag::tree::*;
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroUsize;

/// The tags of each directory and what they refer to ("path.group"); None: cannot be read.
type Tags = BTreeMap<(usize, String), Option<Vec<String>>>;

fn bytes(name: &str, refs: &Option<Vec<String>>) -> Vec<u8> {
    let Some(refs) = refs else { return format!("not a tag: {name}").into_bytes() };
    let group = name.rsplit_once('.').unwrap().1;
    let r = |s: &String| if let Some(g) = s.strip_prefix('.') { TagReference::Null(TagGroup::from_str(g).unwrap()) } else { TagReference::Set(TagPath::from_path(s).unwrap()) };
    match group {
        "tag_collection" => { let mut t = TagCollection::default(); for s in refs { t.tags.items.push(TagCollectionTag { reference: r(s), ..Default::default() }) } t.to_tag_file().unwrap() }
        "antenna" => { let mut t = Antenna::default(); t.bitmaps = r(&refs[0]); t.physics = r(&refs[1]); t.length = 1.25; t.to_tag_file().unwrap() }
        "lens_flare" => { let mut t = LensFlare::default(); t.bitmap = r(&refs[0]); t.occlusion_radius = 3.5; t.to_tag_file().unwrap() }
        "object" | "device_machine" => { let mut t = DeviceMachine::default(); t.device.object.model = r(&refs[0]); t.device.object.collision_model = r(&refs[1]); t.to_tag_file().unwrap() }
        g => {
            // nothing in it refers to anything; contents told apart by their origin
            assert!(refs.is_empty());
            let mut f = tag_file(g, &serialize(&spec().groups[g].strukt, &generate(&spec().groups[g].strukt, &mut vec![], &mut Distinct::new(0)), None)); f[0..4].copy_from_slice(&(hash_of(name) as u32 & 0x7fff_ffff).to_be_bytes()); f
        }
    }
}
fn halo(p: &TagPath) -> String { format!("{}.{}", p.path(), p.group()) }
fn native(name: &str) -> String { name.replace('\\', "/") }

/// What the operation must do: the renamed tags in order, or that it must fail (changing nothing).
struct Plan { renames: Vec<(String, String)>, after: Tags }
fn model(tags: &Tags, from: &str, to: &str, all: bool, no_move: bool, filter: &str) -> Option<Plan> {
    let (from, to) = (from.replace('/', "\\"), to.replace('/', "\\"));
    if from == to { return Some(Plan { renames: vec![], after: tags.clone() }) }
    let names: BTreeSet<String> = tags.keys().map(|k| k.1.clone()).collect();
    let f = TagFilter::new(filter, None);
    let mut map = BTreeMap::<String, String>::new();
    for n in &names {
        let (path, group) = n.rsplit_once('.').unwrap();
        if !f.passes(&TagPath::from_path(n).unwrap()) || !path.contains(&from) { continue }
        let new = if all { path.replace(&from, &to) } else if let Some(r) = path.strip_prefix(&from) { format!("{to}{r}") } else { continue };
        let new = halo(&TagPath::new(&new, TagGroup::from_str(group).unwrap()).ok()?);
        if new.starts_with('.') || names.contains(&new) != no_move { return None } // nothing can refer to a tag without a path
        if !no_move && map.values().any(|v| *v == new) { return None }
        map.insert(n.clone(), new);
    }
    if map.is_empty() { return None }
    let mut after = Tags::new();
    for ((d, n), refs) in tags {
        // the tag which is in force is the one which moves
        let in_force = !tags.keys().any(|k| k.1 == *n && k.0 < *d);
        let here = if no_move || !in_force { n } else { map.get(n).unwrap_or(n) };
        // what is not in force is not seen, unless it comes into force by the move
        let refs = refs.as_ref().map(|l| l.iter().map(|r| if in_force { map.get(r).unwrap_or(r).clone() } else { r.clone() }).collect());
        after.insert((*d, here.clone()), refs);
    }
    Some(Plan { renames: map.into_iter().collect(), after })
}
/// The same tag is other bytes only if a reference in it changed.
fn expected(before: &Tags, plan: &Plan, no_move: bool) -> BTreeMap<String, Vec<u8>> {
    let back: BTreeMap<&String, &String> = plan.renames.iter().map(|(a, b)| (b, a)).collect();
    plan.after.iter().map(|((d, n), refs)| {
        let old = if no_move || before.contains_key(&(*d, n.clone())) { n } else { back.get(n).copied().unwrap_or(n) };
        let was = &before[&(*d, old.clone())];
        (format!("{d}/{}", native(n)), if was == refs { bytes(old, was) } else { bytes(n, refs) })
    }).collect()
}
fn initial(tags: &Tags) -> BTreeMap<String, Vec<u8>> { tags.iter().map(|((d, n), r)| (format!("{d}/{}", native(n)), bytes(n, r))).collect() }

fn tree_case(tags: &Tags, dirs: usize, from: &str, to: &str, all: bool, no_move: bool, filter: &str, cx: &mut Cx) {
    let root = case_dir("p13");
    let before = initial(tags);
    write_files(&root, &before);
    let roots: Vec<_> = (0..dirs).map(|d| { let p = root.join(d.to_string()); std::fs::create_dir_all(&p).unwrap(); p }).collect();
    let r = guard(|| {
        let v = VirtualTagsDirectory::new(&roots, None).unwrap();
        refactor_paths_for_tag_tree(from, to, &v, NonZeroUsize::new(1).unwrap(), if all { ReplaceType::All } else { ReplaceType::Start }, no_move, &TagFilter::new(filter, None))
    });
    cx.step(); cx.validated();
    let r = match r { Ok(r) => r, Err(p) => return cx.fail("panic", p) };
    let got = files(&snapshot(&root));
    match (model(tags, from, to, all, no_move, filter), r) {
        (None, Ok((l, _))) => cx.fail("accepted", format!("must be refused, but renamed {}", clip(&format!("{l:?}")))),
        (None, Err(_)) => { cx.check(got == before, "refused but changed", || differences(&got, &before)); }
        (Some(p), Err((e, _))) => cx.fail("refused", format!("{e} for {:?}", p.renames)),
        (Some(p), Ok((l, results))) => {
            let mut l: Vec<(String, String)> = l.iter().map(|(a, b)| (halo(a), halo(b))).collect(); l.sort();
            cx.eq("renames reported", l, p.renames.clone());
            let want = expected(tags, &p, no_move);
            cx.check(got == want, "files", || differences(&got, &want));
            // exactly what could not be read, of what could have referred to something renamed, is reported
            let bad: BTreeSet<String> = results.iter().filter(|r| !r.1.errors.is_empty()).map(|r| halo(r.0)).collect();
            let groups: Vec<TagGroup> = p.renames.iter().map(|r| TagPath::from_path(&r.1).unwrap().group()).collect();
            let mut unread = BTreeSet::new();
            for (k, v) in &p.after { if v.is_none() && !p.after.keys().any(|o| o.1 == k.1 && o.0 < k.0) && groups.iter().any(|g| get_all_referenceable_tag_groups_for_group(TagPath::from_path(&k.1).unwrap().group()).contains(g)) { unread.insert(k.1.clone()); } }
            cx.check(bad.is_superset(&unread) && bad.is_subset(&unread), "errors reported", || format!("{bad:?} instead of {unread:?}"));
        }
    }
}

fn rename_refs(v: &mut Val, map: &BTreeMap<(String, String), String>, hits: &mut usize) {
    match v {
        Val::Struct(l) | Val::Many(l) | Val::Refl(l) => for v in l { rename_refs(v, map, hits) },
        Val::Ref(g, Some(p)) => if let Some(n) = map.get(&(p.clone(), g.clone())) { *p = n.clone(); *hits += 1 },
        _ => (),
    }
}
fn all_refs(v: &Val, out: &mut BTreeSet<(String, String)>) {
    match v { Val::Struct(l) | Val::Many(l) | Val::Refl(l) => for v in l { all_refs(v, out) }, Val::Ref(g, Some(p)) => { out.insert((p.clone(), g.clone())); } _ => () }
}

struct Scene { name: &'static str, tags: Tags, args: Vec<&'static str>, no_move: bool }
fn tags_of(l: &[(&str, Option<&[&str]>)]) -> Tags { l.iter().map(|(n, r)| ((0, n.to_string()), r.map(|r| r.iter().map(|s| s.to_string()).collect()))).collect() }
fn scenes() -> Vec<Scene> {
    let five = tags_of(&[("a\\x.bitmap", Some(&[])), ("a\\y.bitmap", Some(&[])), ("a\\d\\z.physics", Some(&[])), ("r.tag_collection", Some(&["a\\x.bitmap", "a\\y.bitmap", "k.bitmap"])), ("a\\w.antenna", Some(&["a\\x.bitmap", "a\\d\\z.physics"])), ("u.tag_collection", Some(&["k.bitmap"]))]);
    let mut bad = five.clone(); bad.insert((0, "s.tag_collection".into()), None); bad.insert((0, "a\\v.lens_flare".into()), None);
    vec![
        Scene { name: "move", tags: five.clone(), args: vec!["a", "b"], no_move: false },
        Scene { name: "move deeper", tags: five.clone(), args: vec!["a\\", "a\\b\\c\\"], no_move: false },
        Scene { name: "move up", tags: five.clone(), args: vec!["a\\", ""], no_move: false },
        Scene { name: "unreadable", tags: bad, args: vec!["a", "b"], no_move: false },
        Scene { name: "redirect", tags: { let mut t = five.clone(); for n in ["b\\x.bitmap", "b\\y.bitmap"] { t.insert((0, n.into()), Some(vec![])); } t }, args: vec!["a", "b", "-N", "-f", "*.bitmap"], no_move: true },
        Scene { name: "alone in its directory", tags: tags_of(&[("q\\x.lens_flare", Some(&["q\\y\\z.bitmap"])), ("q\\y\\z.bitmap", Some(&[])), ("r.tag_collection", Some(&["q\\x.lens_flare", "q\\y\\z.bitmap"]))]), args: vec!["q", "p"], no_move: false },
    ]
}

fn faulty(s: &Scene, faults: usize, preempt: usize, jobs: usize, kinds: &str, shard: (usize, usize), most: usize, cx: &mut Cx) {
    let root = case_dir("p13");
    let before: BTreeMap<String, Vec<u8>> = initial(&s.tags);
    let tags_dir = root.join("0");
    let mut args: Vec<String> = vec!["refactor-paths".into()]; args.extend(s.args.iter().map(|s| s.to_string()));
    args.extend(["-t".into(), tags_dir.display().to_string(), "-j".into(), jobs.to_string()]);
    let filter = s.args.iter().position(|a| *a == "-f").map(|i| s.args[i + 1]).unwrap_or("*");
    let plan = model(&s.tags, s.args[0], s.args[1], false, s.no_move, filter).expect("a plan");
    let want = expected(&s.tags, &plan, s.no_move);
    let sp = Space { args, cwd: &root, env: vec![("MC_FAULT_ROOT", tags_dir.display().to_string()), ("MC_FAULT_OPS", if faults > 0 { "read,write,rename,mkdir,rmdir".into() } else { String::new() }), ("MC_FAULT_KINDS", kinds.into())], preemptions: preempt, faults, shard, most };
    let mut problems: Vec<(String, String)> = vec![];
    let x = explore(&sp, || reset(&root, &before), |e| {
        let got = files(&snapshot(&root));
        let at = |sub: &str, m: String| (sub.to_string(), format!("{m} [{}]", e.how()));
        // moving comes before any tag is read
        let renaming = e.trace.lines().take_while(|l| !l.starts_with("A read ")).any(|l| l.starts_with("C ") && l.split(' ').nth(2) != Some("0") && (l.contains("fault rename") || l.contains("fault mkdir")));
        let named = |n: &str| { let n = native(n); e.run.out.contains(&n) || e.run.err.contains(&n) };
        if let Some(d) = e.disaster() { problems.push(at("disaster", d)); return problems.len() < 8 }
        if e.crashed() {
            // no tag is lost: each is where it was or where it goes, as it was or as it is to be
            for (n, b) in &before {
                let name = n[2..].replace('/', "\\");
                let to = plan.renames.iter().find(|r| r.0 == name).filter(|_| !s.no_move).map(|r| format!("0/{}", native(&r.1)));
                let found: Vec<&Vec<u8>> = got.get(n).into_iter().chain(to.as_ref().and_then(|t| got.get(t))).collect();
                let ok = found.len() == 1 && (found[0] == b || want.get(to.as_ref().unwrap_or(n)) == Some(found[0]));
                if !ok { problems.push(at("lost", format!("{n}: found {} times after {:?}", found.len(), e.faults))) }
            }
        } else if e.run.ok() {
            // what differs from the plan is a tag which is as it was and named in an error, and only for a fault in reading or writing it
            if renaming { problems.push(at("unnoticed", format!("{:?}: exit 0", e.faults))) }
            for k in got.keys().chain(want.keys()).collect::<BTreeSet<_>>() {
                if got.get(k) == want.get(k) { continue }
                let name = k[2..].replace('/', "\\");
                let old = plan.renames.iter().find(|r| r.1 == name && !s.no_move).map(|r| &r.0).unwrap_or(&name);
                let as_before = got.get(k).is_some() && got.get(k) == before.get(&format!("0/{}", native(old)));
                let dir = k[1..].rsplit_once('/').unwrap().0;
                let blamed = e.faults.iter().any(|f| (f.contains("read ") || f.contains("write ")) && f.ends_with(&k[1..]) || f.contains("mkdir ") && f.ends_with(&format!("/0{dir}")));
                if !as_before || !blamed || !named(&name) { problems.push(at("files", format!("{k} is not as planned (as before: {as_before}, a fault in it: {blamed}, named: {}): {}", named(&name), differences(&got, &want)))) }
            }
            for ((_, n), r) in &plan.after { if r.is_none() && !named(n) { problems.push(at("unread", format!("{n} is not reported"))) } }
        } else {
            if e.faults.is_empty() { problems.push(at("fails", e.run.brief())) }
            // undone; unless undoing itself failed, which is reported
            let second = e.faults.len() > 1;
            let ok = got == before || second && {
                let strays: Vec<&String> = before.keys().filter(|k| !got.contains_key(*k)).collect();
                strays.iter().all(|k| named(&k[2..].replace('/', "\\"))) && got.len() == before.len() && got.values().collect::<BTreeSet<_>>() == before.values().collect::<BTreeSet<_>>()
            };
            if !ok { problems.push(at("not undone", format!("{:?}: {} {}", e.faults, differences(&got, &before), e.run.brief()))) }
        }
        problems.len() < 8
    });
    cx.steps(x.decisions); cx.validated_n(x.runs);
    for t in x.traces { cx.state(t) }
    if x.truncated { cx.note(|| "truncated".into()); }
    for (s, m) in problems { cx.fail(s, m) }
}

fn main() {
    let mut ck = Check::new("P13");

    // ---- trees of up to five tags x commands
    let alphabet = ["a.bitmap", "b.bitmap", "a\\a.bitmap", "a\\b.bitmap", "b\\a.bitmap", "ab.bitmap", "a\\a\\a.bitmap"];
    let fixed: [(&str, Vec<&str>); 4] = [("r.tag_collection", alphabet.to_vec()), ("a\\r.tag_collection", vec!["a\\r.tag_collection", "r.tag_collection", "a.bitmap", "a\\a.physics", ".bitmap"]), ("a.antenna", vec!["a.bitmap", "a\\a.physics"]), ("b.lens_flare", vec!["a\\a.bitmap"])];
    let strings = ["a", "b", "a\\", "a\\a", "ab", "x", "", "A", "b\\", "\\a", "\\", "a/", "c\\d\\"];
    let filters = ["*", "*.bitmap", "a\\*", "a*", "*a.bitmap"];
    let (sub, nf) = (1usize << alphabet.len(), 1usize << fixed.len());
    let quick_step = ck.pick(5, 1);
    let n = sub * strings.len() * strings.len() * 4 * filters.len();
    let decode = |i: usize| {
        let i = i * quick_step;
        let d = digits(i, &[sub, strings.len(), strings.len(), 4, filters.len()]);
        // which of the referring tags there are goes around
        let fx = (i / 7 + i / (sub * 3)) % nf;
        let mut t = Tags::new();
        for (k, a) in alphabet.iter().enumerate() { if d[0] >> k & 1 == 1 { t.insert((0, a.to_string()), Some(vec![])); } }
        for (k, (f, r)) in fixed.iter().enumerate() { if fx >> k & 1 == 1 { t.insert((0, f.to_string()), if k == 3 && d[0] % 5 == 4 { None } else { Some(r.iter().map(|s| s.to_string()).collect()) }); } }
        (t, strings[d[1]], strings[d[2]], d[3] & 1 == 1, d[3] & 2 == 2, filters[d[4]])
    };
    ck.family("trees", n / quick_step, |i| { let (t, f, to, a, m, fi) = decode(i); format!("{:?} {f:?} -> {to:?}{}{} {fi}", t.keys().map(|k| &k.1[..]).collect::<Vec<_>>(), if a { " all" } else { "" }, if m { " no-move" } else { "" }) }, |i, cx| { let (t, f, to, a, m, fi) = decode(i); tree_case(&t, 1, f, to, a, m, fi, cx) });

    // ---- two directories, the same tag in either or both
    let names = ["a.bitmap", "a\\b.bitmap", "b.bitmap", "r.tag_collection"];
    let cmds = [("a", "b"), ("a\\", "c\\"), ("a", "c\\d"), ("a\\b", "z"), ("r", "s")];
    let n = 256 * cmds.len() * 2;
    let decode = |i: usize| {
        let d = digits(i, &[256, cmds.len(), 2]);
        let mut t = Tags::new();
        for (k, n) in names.iter().enumerate() { for dir in 0..2 { if d[0] >> (2 * k + dir) & 1 == 1 { t.insert((dir, n.to_string()), Some(if k == 3 { vec!["a.bitmap".into(), "a\\b.bitmap".into(), "r.tag_collection".into(), format!("only{dir}.bitmap")] } else { vec![] })); } } }
        (t, cmds[d[1]], d[2] == 1)
    };
    ck.family("two directories", n, |i| { let (t, c, m) = decode(i); format!("{:?} {c:?}{}", t.keys().collect::<Vec<_>>(), if m { " no-move" } else { "" }) }, |i, cx| {
        let (t, c, m) = decode(i);
        tree_case(&t, 2, c.0, c.1, false, m, "*", cx)
    });

    // ---- every group's every reference
    let groups: Vec<String> = spec().groups.values().filter(|g| g.engines.as_ref().is_none_or(|e| !e.is_empty())).map(|g| g.name.clone()).filter(|g| TagGroup::from_str(g).is_ok()).collect();
    let items: Vec<(String, usize)> = groups.iter().flat_map(|g| (1..ck.pick(2, 4)).map(move |c| (g.clone(), c))).collect();
    ck.items("every reference", &items, |(g, c)| format!("{g} x{c}"), |(g, c), cx| {
        let strukt = &spec().groups[g].strukt;
        let mut v = generate(strukt, &mut vec![], &mut Distinct::new(*c));
        let mut refs = BTreeSet::new(); all_refs(&v, &mut refs);
        if refs.is_empty() { return }
        let Ok(_) = read_any_tag_from_file_buffer(&tag_file(g, &serialize(strukt, &v, None)), ParseStrictness::Strict) else { return };
        for digit in ["t1", "t2", "t3", "t4", "t7"] {
            let mut v = v.clone();
            let root = case_dir("p13");
            let start = tag_file(g, &serialize(strukt, &v, None));
            write_files(&root, &BTreeMap::from([(format!("the.{g}"), start)]));
            for (p, g) in &refs { write_files(&root, &BTreeMap::from([(format!("{}.{g}", native(p)), bytes(&format!("{p}.string_list"), &Some(vec![])))])); }
            let map: BTreeMap<(String, String), String> = refs.iter().filter(|r| r.0.starts_with(digit)).map(|r| (r.clone(), format!("renamed{}", &r.0[2..]))).collect();
            if map.is_empty() { continue }
            let mut hits = 0; rename_refs(&mut v, &map, &mut hits);
            let want = tag_file(g, &serialize(strukt, &v, None));
            cx.steps(hits as u64); cx.validated();
            let r = guard(|| refactor_paths_for_tag_tree(digit, "renamed", &VirtualTagsDirectory::new(&[&root], None).unwrap(), NonZeroUsize::new(1).unwrap(), ReplaceType::Start, false, &TagFilter::new("*", None)));
            match r { Err(p) => cx.fail("panic", p), Ok(Err((e, _))) => cx.fail("refused", format!("{digit}: {e}")), Ok(Ok(_)) => {
                let got = std::fs::read(root.join(format!("the.{g}"))).unwrap();
                cx.check(got == want, "tag", || format!("{digit}: differs from byte {:?} of {}/{}", got.iter().zip(&want).position(|(a, b)| a != b), got.len(), want.len()));
            } }
        }
        let _ = &mut v;
    });

    // ---- the group of references
    let gs = ["bitmap", "model", "gbxmodel", "physics", "shader_model", "shader_environment", "object"];
    let n = gs.len() * gs.len() * 64;
    ck.family("groups", n, |i| { let d = digits(i, &[gs.len(), gs.len(), 64]); format!("{} -> {} {:#x}", gs[d[0]], gs[d[1]], d[2]) }, |i, cx| {
        let d = digits(i, &[gs.len(), gs.len(), 64]);
        let (from, to) = (gs[d[0]], gs[d[1]]);
        let root = case_dir("p13");
        let mut t = tags_of(&[("m.device_machine", Some(&["p.model", "q.model_collision_geometry"])), ("n.device_machine", Some(&[".model", "p.model_collision_geometry"])), ("o.device_machine", Some(&["p.gbxmodel", ".model_collision_geometry"])),
            ("r.tag_collection", Some(&["p.model", "q.model", "p.gbxmodel", "q.gbxmodel", "p.bitmap", "q.bitmap", ".model", ".bitmap", "p.physics", "q.shader_model"])), ("s.lens_flare", Some(&["p.bitmap"]))]);
        for (k, n) in ["p.model", "p.gbxmodel", "q.gbxmodel", "p.bitmap", "q.bitmap"].iter().enumerate() { if d[2] >> k & 1 == 1 { t.insert((0, n.to_string()), Some(vec![])); } }
        let filter = if d[2] & 32 == 0 { "*" } else { "*.device_machine" };
        let before = initial(&t);
        write_files(&root, &before);
        let r = inv::invader(&["refactor-groups", from, to, "-t", root.join("0").to_str().unwrap(), "-j", "1", "-f", filter], &root, &[]);
        cx.step(); cx.validated();
        let f = TagFilter::new(filter, None);
        let (fg, tg) = (TagGroup::from_str(from).unwrap(), TagGroup::from_str(to).unwrap());
        let mut viable = 0;
        let mut after = t.clone();
        for ((_, n), refs) in after.iter_mut() {
            let path = TagPath::from_path(n).unwrap();
            if !f.passes(&path) { continue }
            let may = get_all_referenceable_tag_groups_for_group(path.group());
            if !may.contains(&fg) || !may.contains(&tg) { continue }
            viable += 1;
            for (k, s) in refs.as_mut().unwrap().iter_mut().enumerate() {
                let (p, g) = s.rsplit_once('.').unwrap();
                // a machine's first reference may only be to models, a collection's to anything
                let allowed = match path.group().to_string().as_str() { "device_machine" => if k == 0 { to == "model" || to == "gbxmodel" } else { false }, "lens_flare" => to == "bitmap", _ => true };
                if g == from && allowed && (p.is_empty() || t.contains_key(&(0, format!("{p}.{to}")))) { *s = format!("{p}.{to}") }
            }
        }
        let want = initial(&after);
        // a tag in which nothing changed keeps its bytes anyway
        let got = files(&snapshot(&root));
        cx.check(!r.panicked(), "panic", || r.brief());
        cx.check(r.ok() == (viable > 0), "status", || format!("{viable} viable: {}", r.brief()));
        cx.check(got == want, "files", || format!("{} {}", differences(&got, &want), r.brief()));
    });

    // ---- faults and schedules, on the tool itself
    let sc = scenes();
    let mut items: Vec<(usize, usize, usize, usize, &str, usize)> = vec![]; // scene, faults, preemptions, jobs, kinds, shard
    let shards = 8;
    for s in 0..sc.len() {
        for sh in 0..shards {
            items.push((s, 1, 0, 1, "error", sh));
            items.push((s, 1, 0, 1, "before", sh));
            items.push((s, 0, 2, 2, "", sh));
            if s != 3 || !ck.quick() { items.push((s, 2, 0, 1, "error", sh)); }
            if !ck.quick() { items.push((s, 0, 2, 3, "", sh)); items.push((s, 1, 1, 2, "error", sh)); items.push((s, 1, 0, 1, "after", sh)); items.push((s, 3, 0, 1, "error", sh)); }
        }
    }
    let most = ck.pick(4_000, 30_000);
    ck.items("faults and schedules", &items, |(s, f, p, j, k, sh)| format!("{}: {f} faults ({k}), {p} preemptions, {j} jobs, share {sh}", sc[*s].name), |(s, f, p, j, k, sh), cx| faulty(&sc[*s], *f, *p, *j, k, (*sh, shards), most, cx));
    ck.assume("a write which the system reports as failed has not changed the file; listing a directory does not fail");
    ck.assume("no other process changes the tags directory at the same time");
    ck.finish()
}
