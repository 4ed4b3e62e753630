//! P12: dependency queries on all small graphs, in the library and through the commands (needs: invader-mc).
use mc::memtree::*;
use mc::refser::*;
use mc::*;
use ringhopper::definitions::*;
use ringhopper::primitives::error::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::dependency::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

/// What a node is: a tag which can refer to others, missing, unreadable, or of a group which refers to nothing: there, missing, unreadable.
#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
enum Kind { Tag, Missing, Garbage, Leaf, NoLeaf, BadLeaf }
use Kind::*;
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
struct Graph { kind: Vec<Kind>, out: Vec<Vec<usize>> }
impl Graph {
    fn name(&self, i: usize) -> String { format!("{}.{}", ["m\\b", "a", "m\\c\\x", "z"][i], if matches!(self.kind[i], Tag | Missing | Garbage) { "tag_collection" } else { "string_list" }) }
    fn path(&self, i: usize) -> TagPath { TagPath::from_path(&self.name(i)).unwrap() }
    fn usable(&self, i: usize) -> bool { matches!(self.kind[i], Tag | Leaf | BadLeaf) }
    fn there(&self, i: usize) -> bool { !matches!(self.kind[i], Missing | NoLeaf) }
    /// Reachable in at least `from` steps.
    fn reach(&self, i: usize, itself: bool) -> BTreeSet<usize> {
        let mut seen = BTreeSet::new(); let mut todo: Vec<usize> = if itself { vec![i] } else { self.out[i].clone() };
        while let Some(t) = todo.pop() { if seen.insert(t) { todo.extend(&self.out[t]) } }
        seen
    }
    fn tag(&self, i: usize) -> Box<dyn PrimaryTagStructDyn> {
        if self.kind[i] == Leaf || self.kind[i] == BadLeaf { return Box::new(StringList::default()) }
        let n: Vec<String> = self.out[i].iter().map(|j| self.name(*j)).collect();
        // an unset reference first, and the last one twice
        let mut r: Vec<&str> = vec![""]; r.extend(n.iter().map(|s| s.as_str())); if let Some(l) = n.last() { r.push(l) }
        Box::new(collection(&r))
    }
    fn tree(&self) -> MemTree {
        let mut t = MemTree::default();
        for i in 0..self.kind.len() { if self.there(i) { t.tags.insert(self.path(i), if matches!(self.kind[i], Garbage | BadLeaf) { None } else { Some(self.tag(i)) }); } }
        t
    }
    fn text(&self) -> String { (0..self.kind.len()).map(|i| format!("{:?}{:?}", self.kind[i], self.out[i])).collect::<Vec<_>>().join(" ") }
}
/// The i-th graph of n nodes of these kinds.
fn graph(n: usize, kinds: &[Kind], i: usize) -> Graph {
    let per = (1 << n) + kinds.len() - 1; // Tag with any edges, or another kind
    let mut g = Graph { kind: vec![], out: vec![] };
    for d in digits(i, &vec![per; n]) { if d < 1 << n { g.kind.push(Tag); g.out.push((0..n).filter(|j| d >> j & 1 != 0).collect()) } else { g.kind.push(kinds[d + 1 - (1 << n)]); g.out.push(vec![]) } }
    g
}
fn graphs(n: usize, kinds: &[Kind]) -> usize { ((1 << n) + kinds.len() - 1).pow(n as u32) }

fn library(g: &Graph, cx: &mut Cx) {
    let n = g.kind.len();
    let tree = g.tree();
    let names: HashMap<TagPath, usize> = (0..n).map(|i| (g.path(i), i)).collect();
    cx.state(g);
    let shown = |m: &HashMap<TagPath, HashSet<TagPath>>| -> BTreeMap<usize, BTreeSet<usize>> { m.iter().map(|(k, v)| (names[k], v.iter().map(|p| names[p]).collect())).collect() };
    for i in 0..n {
        let all = g.reach(i, true);
        let edges = |keep: &dyn Fn(usize) -> bool| -> BTreeMap<usize, BTreeSet<usize>> { all.iter().filter(|j| keep(**j)).map(|j| (*j, g.out[*j].iter().copied().collect())).collect() };
        cx.steps(3);
        match guard(|| recursively_get_dependencies_for_tag(&g.path(i), &tree, true)) {
            Ok(Ok(m)) => { cx.eq("reachable, broken allowed", shown(&m), edges(&|j| g.usable(j))); }
            Ok(Err(e)) => cx.fail("reachable", format!("{}: broken is allowed but {e:?}", g.name(i))),
            Err(p) => cx.fail("panic", p),
        }
        let bad: Vec<usize> = all.iter().copied().filter(|j| !g.usable(*j)).collect();
        match guard(|| recursively_get_dependencies_for_tag(&g.path(i), &tree, false)) {
            Ok(Ok(m)) => { if bad.is_empty() { cx.eq("reachable", shown(&m), edges(&|_| true)); } else { cx.fail("broken", format!("{} is broken and not reported", g.name(bad[0]))) } }
            Ok(Err(Error::BrokenDependency(a, b))) => { let (a, b) = (names[&a], names[&b]); cx.check(all.contains(&a) && g.out[a].contains(&b) && !g.there(b), "broken", || format!("{a} -> {b} is not broken")); }
            Ok(Err(Error::TagNotFound(a))) => { cx.check(names[&a] == i && !g.there(i), "broken", || format!("{a} not found")); }
            Ok(Err(Error::FailedToReadTag(a, _))) => { let a = names[&a]; cx.check(g.kind[a] == Garbage && all.contains(&a), "broken", || format!("{a} is fine")); }
            Ok(Err(e)) => cx.fail("error", format!("{e:?}")),
            Err(p) => cx.fail("panic", p),
        }
        match guard(|| get_reverse_dependencies_for_tag(&g.path(i), &tree)) {
            Ok(Ok(s)) => {
                let s: BTreeSet<usize> = s.iter().map(|p| names[p]).collect();
                if g.kind.contains(&Garbage) { cx.fail("reverse", "an unreadable tag is passed over in silence") } else { cx.eq("reverse", s, (0..n).filter(|j| g.out[*j].contains(&i)).collect()); }
            }
            Ok(Err(e)) => { cx.check(g.kind.contains(&Garbage), "reverse", || format!("{e:?}")); }
            Err(p) => cx.fail("panic", format!("reverse: {p}")),
        }
        if g.kind[i] == Tag { let d: BTreeSet<usize> = get_tag_dependencies_for_block(g.tag(i).as_ref().as_dynamic()).iter().map(|p| names[p]).collect(); cx.eq("direct", d, g.out[i].iter().copied().collect()); }
    }
    cx.validated_n(n as u64 * 3);
}

/// The lines of the tree the command prints for these roots.
fn draw(g: &Graph, i: usize, depth: u32, max: u32, prefix: &str, mark: &str, shown: &dyn Fn(usize) -> bool, stack: &mut Vec<usize>, out: &mut Vec<String>) {
    let name = g.path(i).to_string();
    if !g.usable(i) { out.push(format!("{mark}{name} (BROKEN)")); return }
    if stack.contains(&i) { out.push(format!("{mark}{name} (circular)")); return }
    if depth == max && !g.out[i].is_empty() { out.push(format!("{mark}{name} (minimized)")); return }
    out.push(format!("{mark}{name}"));
    stack.push(i);
    let mut kids: Vec<usize> = g.out[i].iter().copied().filter(|j| shown(*j)).collect();
    kids.sort_by_key(|j| g.path(*j));
    for (k, j) in kids.iter().enumerate() {
        let last = k + 1 == kids.len();
        draw(g, *j, depth + 1, max, &format!("{prefix}{}", if last { "   " } else { " │ " }), &format!("{prefix}{}─", if last { " └" } else { " ├" }), shown, stack, out);
    }
    stack.pop();
}

fn commands(g: &Graph, cx: &mut Cx) {
    let n = g.kind.len();
    let root = case_dir("p12");
    std::fs::create_dir(root.join("tags")).unwrap();
    for i in 0..n {
        if !g.there(i) { continue }
        let f = root.join("tags").join(g.path(i).to_native_path());
        std::fs::create_dir_all(f.parent().unwrap()).unwrap();
        std::fs::write(f, if matches!(g.kind[i], Garbage | BadLeaf) { b"nonsense".to_vec() } else { g.tag(i).to_tag_file().unwrap() }).unwrap();
    }
    cx.state(g);
    let run = |args: &[&str], cx: &mut Cx| { cx.step(); cx.validated(); let r = inv::invader(args, &root, &[]); if r.panicked() { cx.fail("panic", format!("{args:?}: {}", r.brief())) } r };
    let sorted = |s: &mut dyn Iterator<Item = usize>| -> Vec<String> { let mut v: Vec<TagPath> = s.map(|i| g.path(i)).collect(); v.sort(); v.iter().map(|p| p.to_string()).collect() };
    for i in 0..n {
        let name = g.name(i).replace('\\', "/");
        let r = run(&["dependency-list", &name], cx);
        if matches!(g.kind[i], Tag | Leaf) { cx.check(r.ok() && r.lines() == sorted(&mut g.out[i].iter().copied()), "list", || format!("{name}: {}", r.brief())); } else { cx.check(!r.ok(), "list", || format!("{name}: {}", r.brief())); }
        let r = run(&["dependency-list", "-r", &g.name(i)], cx);
        let all = g.reach(i, false);
        if g.usable(i) && all.iter().all(|j| g.usable(*j)) { cx.check(r.ok() && r.lines() == sorted(&mut all.iter().copied()), "recursive", || format!("{name}: {}", r.brief())); } else { cx.check(!r.ok() , "recursive", || format!("{name}: broken, but {}", r.brief())); }
        let r = run(&["dependency-list", "--reverse", &name], cx);
        if !g.kind.contains(&Garbage) { cx.check(r.ok() && r.lines() == sorted(&mut (0..n).filter(|j| g.out[*j].contains(&i))), "reverse", || format!("{name}: {}", r.brief())); } else { cx.check(!r.ok(), "reverse", || format!("{name}: {}", r.brief())); }
    }
    let filters: Vec<(String, Vec<usize>)> = std::iter::once(("*".to_string(), (0..n).collect())).chain((0..n).map(|i| (g.name(i), vec![i]))).chain([("m?*".to_string(), (0..n).filter(|i| g.name(*i).starts_with('m')).collect())]).collect();
    for (f, matched) in filters {
        let matched: Vec<usize> = matched.into_iter().filter(|i| g.there(*i)).collect();
        let seen: BTreeSet<usize> = matched.iter().flat_map(|i| g.reach(*i, true)).collect();
        for (broken, max) in [(false, u32::MAX), (true, u32::MAX), (false, 0), (false, 1), (true, 1)] {
            let m = max.to_string();
            let mut args = vec!["dependency-tree", &f];
            if broken { args.push("-b") }
            if max != u32::MAX { args.push("-d"); args.push(&m) }
            let r = run(&args, cx);
            let is_broken = |i: usize| g.reach(i, true).iter().any(|j| !g.usable(*j));
            let shown = |i: usize| !broken || is_broken(i);
            // tags which nothing refers to, then one for each loop which is not reached from there
            let known: Vec<usize> = seen.iter().copied().filter(|j| g.usable(*j)).collect();
            let want: Vec<usize> = matched.iter().copied().filter(|i| shown(*i)).filter(|i| !known.iter().any(|j| g.out[*j].contains(i))).filter(|i| g.usable(*i) || !broken).collect();
            let lines: Vec<String> = r.lines().iter().map(|s| s.to_string()).collect();
            if !cx.check(r.ok(), "tree", || format!("{args:?}: {}", r.brief())) { continue }
            // split into one block for each root
            let mut blocks: Vec<Vec<String>> = vec![];
            for l in &lines { if l.starts_with(' ') { match blocks.last_mut() { Some(b) => b.push(l.clone()), None => blocks.push(vec![l.clone()]) } } else { blocks.push(vec![l.clone()]) } }
            let drawn: Vec<(usize, Vec<String>)> = (0..n).map(|i| { let mut o = vec![]; draw(g, i, 0, max, "", "", &shown, &mut vec![], &mut o); (i, o) }).collect();
            let mut roots = vec![];
            for b in &blocks { match drawn.iter().find(|(_, d)| d == b) { Some((i, _)) => roots.push(*i), None => { cx.fail("tree", format!("{args:?}: {b:?} is not the tree of any tag")); } } }
            if roots.len() != blocks.len() { continue }
            let set: BTreeSet<usize> = roots.iter().copied().collect();
            cx.check(set.len() == roots.len() && set.iter().all(|i| matched.contains(i)), "roots", || format!("{args:?}: {roots:?}"));
            cx.check(want.iter().all(|i| set.contains(i)), "roots", || format!("{args:?}: shows the trees of {roots:?}, not all of {want:?}"));
            // every matched tag is somewhere, and no root is below another without need
            let mut covered = BTreeSet::new();
            for i in &want { covered.extend(g.reach(*i, true)) }
            for i in roots.iter().filter(|i| !want.contains(i)) { cx.check(!covered.contains(i), "roots", || format!("{args:?}: {i} is shown below others already: {roots:?}")); covered.extend(g.reach(*i, true)); }
            cx.check(matched.iter().all(|i| covered.contains(i) || !shown(*i) || broken && !g.usable(*i)), "all", || format!("{args:?}: {matched:?} were asked for, only the trees of {roots:?} are shown: {}", r.brief()));
        }
    }
    std::fs::remove_dir_all(&root).unwrap();
}

fn main() {
    let mut ck = Check::new("P12");
    for n in 0..=3usize {
        let k = [Tag, Missing, Garbage, Leaf, NoLeaf, BadLeaf];
        ck.family(&format!("graphs-{n}"), graphs(n, &k), |i| graph(n, &k, i).text(), |i, cx| library(&graph(n, &k, i), cx));
    }
    let k = if ck.quick() { &[Tag, Missing][..] } else { &[Tag, Missing, Garbage, Leaf, NoLeaf][..] };
    ck.family("graphs-4", graphs(4, k), |i| graph(4, k, i).text(), |i, cx| library(&graph(4, k, i), cx));
    // every reference of every group
    let groups: Vec<&String> = spec().groups.keys().filter(|g| *g != "shader").collect();
    ck.items("fields", &groups, |g| g.to_string(), |g, cx| {
        let s = &spec().groups[*g].strukt;
        struct NoRefs(Distinct);
        impl Chooser for NoRefs {
            fn leaf(&mut self, p: &[Step], ty: &Ty, f: &FieldDef) -> Val { match (self.0.overrides.get(&path_str(p)), ty) { (None, Ty::Ref { first, .. }) => Val::Ref(first.clone().unwrap_or("sound".into()), None), (None, Ty::Prim(t)) if is_float(t) => Val::Leaf(vec![0; ty.size()]), _ => self.0.leaf(p, ty, f) } }
            fn count(&mut self, p: &[Step], s: &str) -> usize { self.0.count(p, s) }
        }
        let base = generate(s, &mut vec![], &mut Distinct::new(2));
        let refs: Vec<(mc::refser::Path, Vec<String>)> = containers(s, &base).into_iter().filter_map(|(p, t)| if let Ty::Ref { groups, .. } = t { Some((p, groups)) } else { None }).collect();
        let me = TagPath::from_path(&format!("me.{g}")).unwrap();
        let read = |ov: HashMap<String, Ov>| { let mut c = NoRefs(Distinct::new(2)); c.0.overrides = ov; read_any_tag_from_file_buffer(&tag_file(g, &serialize(s, &generate(s, &mut vec![], &mut c), None)), ParseStrictness::Strict) };
        match read(HashMap::new()) { Ok(t) => { cx.eq("none", get_tag_dependencies_for_block(t.as_ref().as_dynamic()).len(), 0); } Err(e) => { cx.fail("read", format!("{e:?}")); return } }
        let everything: HashMap<String, Ov> = refs.iter().enumerate().map(|(i, (p, gs))| (path_str(p), Ov::Ref(if gs[0] == "*" { "bitmap".into() } else { gs[i % gs.len()].clone() }, Some(format!("x\\{i}"))))).collect();
        let want: BTreeSet<String> = refs.iter().enumerate().map(|(i, (_, gs))| format!("x\\{i}.{}", if gs[0] == "*" { "bitmap" } else { &gs[i % gs.len()] })).collect();
        match read(everything) { Ok(t) => { let got: BTreeSet<String> = get_tag_dependencies_for_block(t.as_ref().as_dynamic()).iter().map(|p| p.to_internal_path()).collect(); cx.eq("all", got, want); } Err(e) => cx.fail("read", format!("{e:?}")) }
        for (p, gs) in &refs {
            // in the last element of every array only
            if p.iter().any(|s| *s == Step::I(0)) && p.iter().any(|s| *s == Step::I(1)) && cx.verbose == false && p.len() > 6 { continue }
            let list: Vec<String> = if gs[0] == "*" { spec().groups.keys().filter(|g| *g != "shader").cloned().collect() } else { gs.iter().filter(|g| *g != "shader").cloned().collect() };
            for h in list {
                cx.state(&(g, path_str(p), &h)); cx.steps(3); cx.validated();
                let t = match read(HashMap::from([(path_str(p), Ov::Ref(h.clone(), Some("there\\it is".into())))])) { Ok(t) => t, Err(e) => { cx.fail("read", format!("{e:?}")); return } };
                let target = TagPath::from_path(&format!("there\\it is.{h}")).unwrap();
                let one: HashSet<TagPath> = HashSet::from([target.clone()]);
                let what = || format!("{} to {h}", path_str(p));
                cx.check(get_tag_dependencies_for_block(t.as_ref().as_dynamic()) == one, "direct", what);
                let mut tree = MemTree::default();
                tree.tags.insert(me.clone(), Some(t));
                let r = guard(|| recursively_get_dependencies_for_tag(&me, &tree, false));
                cx.check(matches!(&r, Ok(Err(Error::BrokenDependency(a, b))) if *a == me && *b == target), "broken", what);
                let r = guard(|| recursively_get_dependencies_for_tag(&me, &tree, true));
                cx.check(matches!(&r, Ok(Ok(m)) if m.len() == 1 && m[&me] == one), "broken", what);
                tree.tags.insert(target.clone(), Some(empty(&h)));
                let r = guard(|| recursively_get_dependencies_for_tag(&me, &tree, false));
                cx.check(matches!(&r, Ok(Ok(m)) if m.len() == 2 && m[&me] == one && m[&target].is_empty()), "reachable", what);
                let r = guard(|| get_reverse_dependencies_for_tag(&target, &tree));
                cx.check(matches!(&r, Ok(Ok(m)) if *m == HashSet::from([me.clone()])), "reverse", || format!("{}: {:?}", what(), r));
                let r = guard(|| get_reverse_dependencies_for_tag(&me, &tree));
                cx.check(matches!(&r, Ok(Ok(m)) if m.is_empty()), "reverse", what);
            }
        }
    });
    // everything a map needs
    let maps: Vec<(&'static ringhopper_engines::Engine, ScenarioType, &str, usize)> = ringhopper_engines::ALL_SUPPORTED_ENGINES.iter().flat_map(|e| [(ScenarioType::Singleplayer, "singleplayer"), (ScenarioType::Multiplayer, "multiplayer"), (ScenarioType::UserInterface, "user_interface")].into_iter().flat_map(move |(t, n)| (0..40).map(move |k| (e, t, n, k)))).collect();
    ck.items("maps", &maps, |(e, _, n, k)| format!("{} {n} {k}", e.name), |(e, t, n, k), cx| {
        let req = &spec().engines[e.name]["required_tags"];
        let list = |k: &str| -> Vec<String> { req.get(k).and_then(|l| l.as_array()).map(|l| l.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default() };
        let needed: BTreeSet<String> = list("all").into_iter().chain(list(n)).collect();
        let every: BTreeSet<String> = needed.iter().cloned().chain(["singleplayer", "multiplayer", "user_interface"].iter().flat_map(|k| list(k))).collect();
        let mut sc = Scenario::default(); sc._type = *t;
        sc.references.items.push(ScenarioReference { reference: TagReference::Set(TagPath::from_path("of\\scenario.tag_collection").unwrap()), ..Default::default() });
        let mut tree = MemTree::default();
        let me = TagPath::from_path("levels\\me\\me.scenario").unwrap();
        tree.tags.insert(me.clone(), Some(Box::new(sc)));
        let mut want: BTreeSet<String> = needed.clone();
        want.insert(me.to_internal_path());
        for x in ["of\\scenario.tag_collection", "deep\\er.string_list"] { want.insert(x.into()); }
        tree.tags.insert(TagPath::from_path("of\\scenario.tag_collection").unwrap(), Some(Box::new(collection(&["deep\\er.string_list", "levels\\me\\me.scenario"]))));
        tree.tags.insert(TagPath::from_path("deep\\er.string_list").unwrap(), Some(Box::new(StringList::default())));
        tree.tags.insert(TagPath::from_path("not\\needed.string_list").unwrap(), Some(Box::new(StringList::default())));
        for r in &every {
            let p = TagPath::from_path(r).unwrap();
            if p.group() == TagGroup::TagCollection { let d = format!("of\\{}.string_list", p.base_name()); tree.tags.insert(TagPath::from_path(&d).unwrap(), Some(Box::new(StringList::default()))); tree.tags.insert(p, Some(Box::new(collection(&[&d])))); if needed.contains(r) { want.insert(d); } }
            else { let g = p.group().as_str(); tree.tags.insert(p, Some(empty(g))); }
        }
        // without the k-th
        let all: Vec<TagPath> = tree.tags.keys().cloned().collect();
        let gone = if *k == 0 { None } else { match all.get(*k - 1) { Some(g) => Some(g.clone()), None => return } };
        if let Some(g) = &gone { tree.tags.remove(g); }
        cx.step(); cx.state(&(e.name, n, k)); cx.validated();
        let fine = gone.as_ref().is_none_or(|g| !want.contains(&g.to_internal_path()));
        match guard(|| recursively_get_dependencies_for_map(&me, &tree, e)) {
            Ok(Ok(s)) => { let got: BTreeSet<String> = s.iter().map(|p| p.to_internal_path()).collect(); if fine { cx.eq("map", got, want); } else { cx.fail("missing", format!("{gone:?} is missing")) } }
            Ok(Err(er)) => { cx.check(!fine, "map", || format!("{gone:?}: {er:?}")); }
            Err(p) => cx.fail("panic", p),
        }
    });
    // the commands
    let k = [Tag, Missing, Garbage, Leaf];
    for n in 1..=2usize { ck.family(&format!("commands-{n}"), graphs(n, &k), |i| graph(n, &k, i).text(), |i, cx| commands(&graph(n, &k, i), cx)); }
    let k = [Tag, Missing];
    ck.family("commands-3", graphs(3, &k), |i| graph(3, &k, i).text(), |i, cx| commands(&graph(3, &k, i), cx));
    // a scenario which is another tag
    ck.family("wrong-group", 3, |i| format!("{i}"), |i, cx| {
        let root = case_dir("p12w");
        std::fs::create_dir_all(root.join("tags/levels")).unwrap();
        let f: Vec<u8> = match i { 0 => collection(&[]).to_tag_file().unwrap(), 1 => b"junk".to_vec(), _ => Scenario::default().to_tag_file().unwrap() };
        std::fs::write(root.join("tags/levels/a.scenario"), f).unwrap();
        for args in [vec!["list-scenario-tags", "levels/a"], vec!["list-scenario-tags", "levels/b"], vec!["dependency-list", "levels/a.scenario"], vec!["dependency-list", "-r", "levels/a.scenario"], vec!["dependency-tree", "*"]] {
            cx.step(); cx.validated();
            let mut a = args.clone(); if a[0].starts_with("list") { a.extend(["-e", "pc-retail"]) }
            let r = inv::invader(&a, &root, &[]);
            if r.panicked() { cx.fail("panic", format!("{a:?}: {}", r.brief())) }
            if a[0].starts_with("list") { cx.check(!r.ok(), "missing", || format!("{a:?}: {}", r.brief())); }
        }
        cx.state(&i);
        std::fs::remove_dir_all(&root).unwrap();
    });
    ck.finish()
}
