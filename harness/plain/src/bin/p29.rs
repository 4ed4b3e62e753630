//! P29: converting tags to another group. needs: invader-mc
use mc::explore::*;
use mc::fsmap::*;
use mc::inv::invader;
use mc::refser::*;
use mc::treeval::*;
use mc::*;
use ringhopper::primitives::primitive::TagGroup;
use ringhopper::tag::convert::get_tag_conversion_fn;
use std::collections::BTreeMap;

const ABSTRACT: [&str; 5] = ["object", "unit", "item", "device", "shader"];
fn kind_of(mut g: &str, of: &str) -> bool { loop { if g == of { return true } match &spec().groups[g].supergroup { Some(s) => g = s, None => return false } } }
/// Where the struct which both have is: in the source and in the target. `None`: can't be converted.
fn shared(from: &str, to: &str) -> Option<(&'static str, &'static str)> {
    if from == to { return None }
    if to == "scenery" && kind_of(from, "object") { return Some((object_of(from), "basic_object.object")) }
    if matches!(to, "garbage" | "weapon" | "equipment") && kind_of(from, "item") { return Some(("item", "item")) }
    None
}
fn object_of(g: &str) -> &'static str {
    if kind_of(g, "item") { "item.object" } else if kind_of(g, "unit") { "unit.object" } else if kind_of(g, "device") { "device.object" }
    else if matches!(g, "scenery" | "placeholder" | "sound_scenery") { "basic_object.object" } else { "object" }
}
fn models(from: &str, to: &str) -> bool { matches!((from, to), ("model", "gbxmodel") | ("gbxmodel", "model")) }
fn convert(t: &mut T, to: &'static str) -> Option<T> {
    let mut o = T::new(to);
    if models(t.group, to) {
        // models without anything which differs: the rest is in P20
        for f in ["node_list_checksum", "detail_cutoff", "base_map_u_scale", "base_map_v_scale", "nodes", "regions"] { *o.at(f) = t.at(f).clone() }
        return Some(o)
    }
    let (a, b) = shared(t.group, to)?;
    *o.at(b) = t.at(a).clone();
    Some(o)
}
fn judge(cx: &mut Cx, mut t: T, to: &'static str, what: &str) -> bool {
    let f = get_tag_conversion_fn(TagGroup::from_str(t.group).unwrap(), TagGroup::from_str(to).unwrap()).unwrap();
    let tag = t.tag();
    let before = tag.to_tag_file().unwrap();
    cx.step(); cx.validated(); cx.state(hash_of(&(&before, to)));
    let got = guard(|| f(tag.as_ref()).map(|t| (t.group().to_string(), t.to_tag_file().unwrap())));
    let want = convert(&mut t, to).unwrap();
    match got {
        Ok(Ok((g, file))) => match same_file(&file, &want.file()) { Ok(()) => cx.check(g == to && tag.to_tag_file().unwrap() == before, "group", || format!("{what}: {g}")), Err(e) => { cx.fail("converted", format!("{what}: {e}")); false } },
        Ok(Err(e)) => { cx.fail("refused", format!("{what}: {e:?}")); false }
        Err(e) => { cx.fail("panic", format!("{what}: {e}")); false }
    }
}
fn tree(group: &'static str, mut d: Distinct) -> T { let st = &spec().groups[group].strukt; d.paths = true; T { group, v: canonical(st, &generate(st, &mut vec![], &mut d)) } }

/// A small tag of a group which can be told from others.
fn small(g: &'static str, n: u32) -> T {
    let mut t = T::new(g);
    match g {
        "model" | "gbxmodel" => t.set_floats("base_map_u_scale", &[n as f32]),
        "bitmap" => t.set_int("type", n as u64 % 4),
        _ => { let o = object_of(g); t.set_floats(&format!("{o}.bounding_radius"), &[n as f32]); if kind_of(g, "item") { t.set_int("item.flags", 1) } }
    }
    t
}

fn main() {
    let mut ck = Check::new("P29");
    let groups: Vec<&'static str> = spec().groups.keys().map(|g| g.as_str()).collect();
    // which groups
    ck.family("groups", groups.len(), |i| groups[i].into(), |i, cx| for to in &groups {
        let from = groups[i];
        cx.step(); cx.validated(); cx.state((i, *to));
        let got = guard(|| get_tag_conversion_fn(TagGroup::from_str(from).unwrap(), TagGroup::from_str(to).unwrap()).is_some());
        let want = models(from, to) || shared(from, to).is_some();
        cx.check(got == Ok(want), "groups", || format!("{from} to {to}: {got:?}"));
    });
    // what becomes of the values
    let pairs: Vec<(&'static str, &'static str)> = groups.iter().filter(|g| !ABSTRACT.contains(g)).flat_map(|a| groups.iter().filter(|b| shared(a, b).is_some()).map(|b| (*a, *b))).collect();
    let most = ck.pick(3usize, 5);
    ck.items("values", &pairs, |(a, b)| format!("{a} to {b}"), |(a, b), cx| {
        for n in 0..most { for rot in 0..8 {
            let mut d = Distinct::new(n);
            if rot > 0 { d.rot = Some(rot - 1) }
            judge(cx, tree(a, d), b, &format!("{n} elements, {rot}"));
        } }
        // each value of each field on its own, in a tag which is otherwise empty
        let st = spec().groups[*a].strukt.as_str();
        for base in [T::new(a), tree(a, Distinct::new(1))] {
            let mut at = 0;
            each_leaf(st, &mut base.v.clone(), &mut |_, _| at += 1);
            for k in 0..at {
                let mut ty = None;
                let mut i = 0;
                each_leaf(st, &mut base.v.clone(), &mut |t, _| { if i == k { ty = Some(t.clone()) } i += 1 });
                let mut before = vec![];
                for v in domain(&ty.unwrap()) {
                    let mut t = base.clone();
                    let mut i = 0;
                    each_leaf(st, &mut t.v, &mut |_, b| { if i == k { before = b.clone(); *b = v.clone() } i += 1 });
                    if before == v { continue }
                    t.v = canonical(st, &t.v);
                    if !judge(cx, t, b, &format!("leaf {k} is {v:02x?}")) { return }
                }
            }
        }
    });

    // the command: what is there already x where to x options
    let sources = ["weapon", "garbage", "equipment", "scenery", "biped", "model", "gbxmodel", "bitmap"];
    let targets = ["scenery", "weapon", "garbage", "equipment", "model", "gbxmodel", "biped", "object", "bitmap", "nothing"];
    let filters = ["*", "g\\a.*", "*.weapon", "*a.garbage", "g\\a.weapon", "g\\b.model", "g\\missing.weapon"];
    let options: Vec<(bool, bool, usize)> = (0..8).map(|i| (i & 1 == 1, i & 2 == 2, if i & 4 == 4 { 4 } else { 1 })).collect();
    let sets = ck.pick(24usize, 256);
    ck.family("command", targets.len() * filters.len() * sets, |i| format!("{i}"), |i, cx| {
        let d = digits(i, &[targets.len(), filters.len(), sets]);
        let (to, filter) = (targets[d[0]], filters[d[1]]);
        let set = if sets == 256 { d[2] } else { [0xff, 0xfe, 0xfd, 0xfb, 0xf7, 0xef, 0xdf, 0xbf, 0x7f, 1, 2, 4, 8, 16, 32, 64, 128, 0, 3, 5, 9, 0x60, 0x55, 0xaa][d[2]] };
        let dir = case_dir("p29");
        for (over, cow, jobs) in &options {
            let mut all: BTreeMap<String, (T, bool)> = BTreeMap::new();
            for (n, g) in sources.iter().enumerate() {
                if set >> n & 1 == 1 { all.insert(format!("g/a.{g}"), (small(g, 1 + n as u32), true)); }
                if (set >> n & 1 == 1) != (n == 5) { all.insert(format!("g/b.{g}"), (small(g, 20 + n as u32), n != 3)); }
            }
            let mut tree: BTreeMap<String, Vec<u8>> = all.iter().map(|(p, (t, fine))| { let mut f = t.file(); if !fine { f.truncate(70) } (format!("tags/{p}"), f) }).collect();
            tree.insert("cow/keep".into(), vec![]); tree.insert("tags/keep".into(), vec![]);
            reset(&dir, &tree);
            let jobs = jobs.to_string();
            let mut args = vec!["convert", filter, to, "-j", &jobs];
            if *over { args.push("-o") }
            if *cow { args.extend(["-c", "cow"]) }
            let r = invader(&args, &dir, &[("MC_NOSCHED", "1".into())]);
            cx.step(); cx.state((i, over, cow, &jobs)); cx.validated();
            if !cx.check(!r.panicked(), "panic", || r.brief()) { return }
            let got = files(&snapshot(&dir));
            // everything which may be a source
            let hit = |p: &str| -> bool { let p = p.replace('/', "\\"); match filter { "*" => true, "g\\a.*" => p.starts_with("g\\a."), "*.weapon" => p.ends_with(".weapon"), "*a.garbage" => p.ends_with("a.garbage"), f => p == f } };
            let mut may: BTreeMap<String, (Vec<Vec<u8>>, usize)> = BTreeMap::new(); // target: what it may become
            let (mut failed, mut n) = (0, 0);
            if spec().groups.contains_key(to) { for (p, (t, fine)) in &all {
                if !hit(p) { continue }
                n += 1;
                let to: &'static str = spec().groups[to].name.as_str();
                if !models(t.group, to) && shared(t.group, to).is_none() { failed += 1; continue }
                let target = format!("{}.{to}", p.split_once('.').unwrap().0);
                if all.contains_key(&target) && !over { continue }
                if !fine { failed += 1; continue }
                let e = may.entry(target).or_default();
                e.0.push(convert(&mut t.clone(), to).unwrap().file()); e.1 += 1;
            } }
            let mut ok = true;
            for (p, b) in &got {
                let Some(name) = p.strip_prefix("tags/").or(p.strip_prefix("cow/")) else { ok &= tree.get(p) == Some(b); continue };
                let here = if *cow { "cow/" } else { "tags/" };
                let was = tree.get(p);
                ok &= match may.get(name) { Some((w, _)) if p.starts_with(here) => w.iter().any(|w| same_file(b, w).is_ok()), _ => was == Some(b) };
            }
            for p in tree.keys() { ok &= got.contains_key(p) }
            for (p, (w, _)) in &may { ok &= got.contains_key(&format!("{}/{p}", if *cow { "cow" } else { "tags" })) || *cow && all.get(p).is_some_and(|t| w.iter().any(|w| same_file(&t.0.file(), w).is_ok())) }
            cx.check(ok, "files", || format!("{args:?}, {set:02x}: {} {}", differences(&got, &tree), r.brief()));
            let wrote = r.out.matches("Processed g/").count();
            let least: usize = may.len();
            // what is in the copy-on-write directory does not count as being there
            let most: usize = if *over || *cow { may.values().map(|m| m.1).sum() } else { may.len() };
            cx.check((least..=most).contains(&wrote), "told", || format!("{args:?}, {set:02x}: {wrote} written instead of {least} to {most}: {}", r.brief()));
            if n > 0 && filter.contains('*') {
                let f = r.out.matches("Failed to process").count() + r.err.matches("Failed to process").count();
                cx.check(f == failed, "told", || format!("{args:?}, {set:02x}: {f} failed instead of {failed}: {}", r.brief()));
            }
            if n == 0 { cx.check(got == tree, "nothing", || format!("{args:?}: {}", r.brief())); }
        }
        let _ = std::fs::remove_dir_all(&dir);
    });

    // two tags which become the same one at the same time
    let deep = ck.pick((1usize, 6000usize), (3, 60000));
    ck.family("at once", 16, |i| format!("{i:04b}"), |i, cx| {
        let (there, over, cow, same) = (i & 1 == 1, i & 2 == 2, i & 4 == 4, i & 8 == 8);
        let dir = case_dir("p29");
        let (mut a, mut b) = (small("weapon", 1), small("garbage", if same { 1 } else { 2 }));
        let mut tree: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        tree.insert("tags/g/a.weapon".into(), a.file());
        tree.insert("tags/g/a.garbage".into(), b.file());
        tree.insert("cow/keep".into(), vec![]);
        let old = small("equipment", 77).file();
        if there { tree.insert("tags/g/a.equipment".into(), old.clone()); }
        let mut args: Vec<String> = ["convert", "*", "equipment", "-j", "2"].map(String::from).to_vec();
        if over { args.push("-o".into()) }
        if cow { args.extend(["-c".into(), "cow".into()]) }
        let ways = [convert(&mut a, "equipment").unwrap().file(), convert(&mut b, "equipment").unwrap().file()];
        let sp = Space { args, cwd: &dir, env: vec![], preemptions: deep.0, faults: 0, shard: (0, 1), most: deep.1 };
        let mut problems = vec![];
        let x = explore(&sp, || reset(&dir, &tree), |e| {
            if let Some(d) = e.disaster() { problems.push(("disaster", format!("{d} [{}]", e.how()))); return false }
            let got = files(&snapshot(&dir));
            let n = e.run.out.matches("Processed g/a.").count();
            let want = match (there, over) { (true, false) => 0..=0, (_, true) => if same { 1..=2 } else { 2..=2 }, (false, false) => if cow { 1..=2 } else { 1..=1 } };
            if !want.contains(&n) { problems.push(("over another", format!("{n} tags converted instead of {want:?} [{}]", e.how()))) }
            let place = if cow { "cow/g/a.equipment" } else { "tags/g/a.equipment" };
            let mut rest = got.clone();
            let c = rest.remove(place);
            let mut was = tree.clone(); was.remove(place);
            let fine = match (there && !over, &c) { (true, c) => c.as_ref() == tree.get(place), (false, Some(c)) => ways.iter().any(|w| same_file(c, w).is_ok()), _ => false };
            if !fine || rest != was { problems.push(("content", format!("{} [{}]", differences(&got, &tree), e.how()))) }
            problems.len() < 2
        });
        cx.steps(x.decisions); cx.validated_n(x.runs);
        for t in x.traces { cx.state(t) }
        if x.truncated { cx.note(|| "truncated".into()) }
        for (s, m) in problems { cx.fail(s, m) }
        let _ = std::fs::remove_dir_all(&dir);
    });
    ck.finish();
}
