//! P27: what archives of tags and scenarios contain. needs: invader-mc
use mc::fsmap::*;
use mc::inv::invader;
use mc::memtree::*;
use mc::refser::*;
use mc::treeval::*;
use mc::*;
use ringhopper::definitions::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::archive::*;
use std::collections::{BTreeMap, BTreeSet};

type Names = BTreeMap<String, Vec<u8>>;
/// What is in an archive, in order, as whoever gets it sees it.
fn open(b: &[u8]) -> Result<Vec<(String, Vec<u8>)>, String> {
    let b = b.to_vec();
    guard(move || {
        let n = b.len() as u64;
        let mut r = sevenz_rust::SevenZReader::new(std::io::Cursor::new(b), n, sevenz_rust::Password::empty()).map_err(|e| format!("{e}"))?;
        let mut l = vec![];
        r.for_each_entries(|e, r| {
            let mut v = vec![];
            r.read_to_end(&mut v).map_err(sevenz_rust::Error::io)?;
            l.push((if e.is_directory() || e.is_anti_item() || !e.has_stream() { format!("{}: not a file", e.name()) } else { e.name().to_string() }, v));
            Ok(true)
        }).map_err(|e| format!("{e}"))?;
        Ok::<_, String>(l)
    })?
}
fn zip_name(p: &str) -> String { p.replace('\\', "/") }
/// Same tags, same contents, by group.
fn same(l: &[(String, Vec<u8>)], want: &Names) -> Result<(), String> {
    let names: Vec<&String> = l.iter().map(|e| &e.0).collect();
    let mut sorted: Vec<&String> = names.clone(); sorted.sort();
    if sorted != want.keys().collect::<Vec<_>>() { return Err(format!("{names:?} instead of {:?}", want.keys())) }
    for (n, b) in l { if *b != want[n] { return Err(format!("{n}: {} bytes instead of {}, or others", b.len(), want[n].len())) } }
    let groups: Vec<&str> = names.iter().map(|n| n.rsplit_once('.').unwrap().1).collect();
    let mut seen = BTreeSet::new();
    for (i, g) in groups.iter().enumerate() { if (i == 0 || groups[i - 1] != *g) && !seen.insert(g) { return Err(format!("groups are not together: {names:?}")) } }
    Ok(())
}

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
enum Kind { Tag, Leaf, Missing, NoLeaf, Garbage }
use Kind::*;
const OTHERS: [Kind; 4] = [Leaf, Missing, NoLeaf, Garbage];
#[derive(Clone, Hash, Debug)]
struct Graph { kind: Vec<Kind>, out: Vec<Vec<usize>> }
impl Graph {
    fn new(n: usize, i: usize) -> Graph {
        let per = (1 << n) + OTHERS.len();
        let mut g = Graph { kind: vec![], out: vec![] };
        for d in digits(i, &vec![per; n]) { if d < 1 << n { g.kind.push(Tag); g.out.push((0..n).filter(|j| d >> j & 1 != 0).collect()) } else { g.kind.push(OTHERS[d - (1 << n)]); g.out.push(vec![]) } }
        g
    }
    fn count(n: usize) -> usize { ((1 << n) + OTHERS.len()).pow(n as u32) }
    fn name(&self, i: usize) -> String { format!("{}.{}", ["m\\b", "a", "m\\c\\x y", "z"][i], if matches!(self.kind[i], Tag | Missing | Garbage) { "tag_collection" } else { "string_list" }) }
    fn tag(&self, i: usize) -> Option<Box<dyn PrimaryTagStructDyn>> {
        match self.kind[i] {
            Leaf => { let mut t = StringList::default(); t.strings.items.push(StringListString { string: Data::new(vec![b'0' + i as u8, 0]) }); Some(Box::new(t)) }
            Tag => { let n: Vec<String> = self.out[i].iter().map(|j| self.name(*j)).collect(); let mut r: Vec<&str> = vec![""]; r.extend(n.iter().map(|s| s.as_str())); r.extend(n.iter().map(|s| s.as_str())); Some(Box::new(collection(&r))) }
            _ => None
        }
    }
    fn reach(&self, i: usize) -> BTreeSet<usize> { let (mut s, mut todo) = (BTreeSet::new(), vec![i]); while let Some(t) = todo.pop() { if s.insert(t) { todo.extend(&self.out[t]) } } s }
    fn want(&self, i: usize) -> Option<Names> { self.reach(i).into_iter().map(|j| Some((zip_name(&self.name(j)), self.tag(j)?.to_tag_file().unwrap()))).collect() }
    fn file(&self, i: usize) -> Option<Vec<u8>> { match self.kind[i] { Garbage => Some(b"nonsense".to_vec()), _ => self.tag(i).map(|t| t.to_tag_file().unwrap()) } }
}
fn tags_of(n: usize) -> (usize, usize) { (n, Graph::count(n)) }

/// Bytes of a kind: zeros, short and long repetition, text-like, and such that cannot be compressed.
fn pattern(kind: usize, n: usize) -> Vec<u8> {
    let mut x = 0x12345678u32;
    let mut next = move || { x ^= x << 13; x ^= x >> 17; x ^= x << 5; x };
    match kind {
        0 => vec![0; n],
        1 => (0..n).map(|i| (i % 7) as u8).collect(),
        2 => { let block: Vec<u8> = (0..4099).map(|_| next() as u8).collect(); (0..n).map(|i| block[i % 4099]).collect() }
        3 => (0..n).map(|_| b"etaoin shrdlu\r\n"[next() as usize % 15]).collect(),
        4 => (0..n).map(|_| next() as u8).collect(),
        _ => (0..n).map(|i| if i / 70000 % 2 == 0 { 7 } else { next() as u8 }).collect(),
    }
}

fn main() {
    let mut ck = Check::new("P27");
    // graphs
    let mut list: Vec<(usize, usize)> = (1..=3).map(tags_of).flat_map(|(n, c)| (0..c).map(move |i| (n, i))).collect();
    let step = if ck.quick() { 0 } else { Graph::count(4) };
    list.extend((0..step).filter(|i| { let g = Graph::new(4, *i); let r = g.reach(0); r.len() == 4 }).map(|i| (4, i)));
    ck.items("graphs", &list, |(n, i)| format!("{n} {i}"), |(n, i), cx| {
        let g = Graph::new(*n, *i);
        let mut tree = MemTree::default();
        for j in 0..*n { if matches!(g.kind[j], Tag | Leaf | Garbage) { tree.tags.insert(TagPath::from_path(&g.name(j)).unwrap(), g.tag(j)); } }
        for j in 0..if *n == 4 { 1 } else { *n } {
            cx.step(); cx.validated(); cx.state((&g, j));
            let p = TagPath::from_path(&g.name(j)).unwrap();
            let want = g.want(j);
            match guard(|| archive_tag_to_7zip(&p, &tree, LZMACompressionLevel::new(0).unwrap())) {
                Err(e) => cx.fail("panic", e),
                Ok(Err(e)) => { cx.check(want.is_none(), "refused", || format!("{}: {e}", g.name(j))); }
                Ok(Ok(b)) => match (open(&b), &want) {
                    (Err(e), _) => cx.fail("archive", e),
                    (Ok(l), None) => cx.fail("missing", format!("something is missing, but there is an archive of {:?}", l.iter().map(|e| &e.0).collect::<Vec<_>>())),
                    (Ok(l), Some(w)) => if let Err(e) = same(&l, w) { cx.fail("contents", e) }
                }
            }
        }
    });
    // tags of every group in full
    let groups: Vec<&'static str> = spec().groups.keys().map(|g| g.as_str()).filter(|g| !["object", "unit", "item", "device", "shader"].contains(g)).collect();
    let n = ck.pick(2usize, 4);
    ck.items("groups", &groups, |g| g.to_string(), |g, cx| for k in 0..n { for level in 0..=9 {
        let mut tree = MemTree::default();
        let mut want = Names::new();
        let st = &spec().groups[*g].strukt;
        let me = TagPath::from_path(&format!("me\\{k}.{g}")).unwrap();
        let t = T { group: g, v: canonical(st, &generate(st, &mut vec![], &mut Distinct::new(k))) };
        let t = t.tag();
        for p in ringhopper::tag::dependency::get_tag_dependencies_for_block(t.as_dynamic()) {
            if ["object", "unit", "item", "device", "shader"].contains(&p.group().as_str()) { return }
            let e = empty(p.group().as_str());
            want.insert(zip_name(&p.to_internal_path()), e.to_tag_file().unwrap()); tree.tags.insert(p, Some(e));
        }
        want.insert(zip_name(&me.to_internal_path()), t.to_tag_file().unwrap()); tree.tags.insert(me.clone(), Some(t));
        cx.step(); cx.validated(); cx.state((g, k, level));
        match guard(|| archive_tag_to_7zip(&me, &tree, LZMACompressionLevel::new(level).unwrap())) {
            Err(e) => cx.fail("panic", e),
            Ok(Err(e)) => cx.fail("refused", format!("{e}")),
            Ok(Ok(b)) => match open(&b) { Err(e) => cx.fail("archive", e), Ok(l) => if let Err(e) = same(&l, &want) { cx.fail("contents", format!("level {level}: {e}")) } }
        }
    } });
    // data of all kinds and sizes
    let sizes: Vec<usize> = if ck.quick() { vec![0, 1, 273, 4096, 65535 - 100, 65536, 200000] } else { [0usize, 1, 2, 3, 271, 272, 273, 274, 4095, 4096, 4097, 65300, 65420, 65535, 65536, 65537, 131072, 1 << 20, (1 << 21) - 200, 1 << 21, (1 << 21) + 1, 5_000_000].to_vec() };
    let levels = ck.pick(3usize, 10);
    ck.family("data", sizes.len() * 6 * levels, |i| format!("{i}"), |i, cx| {
        let d = digits(i, &[sizes.len(), 6, levels]);
        let level = if levels == 3 { [0, 7, 9][d[2]] } else { d[2] as u32 };
        let mut t = T::new("hud_message_text");
        t.set_bytes("text_data", &pattern(d[1], sizes[d[0]]));
        let mut tree = MemTree::default();
        let p = TagPath::from_path("a\\b.hud_message_text").unwrap();
        tree.tags.insert(p.clone(), Some(t.tag()));
        cx.step(); cx.validated(); cx.state(i);
        match guard(|| archive_tag_to_7zip(&p, &tree, LZMACompressionLevel::new(level).unwrap())) {
            Err(e) => cx.fail("panic", e),
            Ok(Err(e)) => cx.fail("refused", format!("{e}")),
            Ok(Ok(b)) => match open(&b) { Err(e) => cx.fail("archive", format!("{} of {}, level {level}: {e}", d[1], sizes[d[0]])), Ok(l) => if let Err(e) = same(&l, &Names::from([("a/b.hud_message_text".to_string(), t.tag().to_tag_file().unwrap())])) { cx.fail("contents", format!("{} of {}, level {level}: {e}", d[1], sizes[d[0]])) } }
        }
    });
    // many tags at once
    let counts: Vec<usize> = ck.pick(vec![7, 8, 9, 63, 64, 65, 127, 128, 129, 300], (1..=140).chain([255, 256, 257, 1000, 3000]).collect());
    ck.items("many", &counts, |n| n.to_string(), |n, cx| {
        let mut tree = MemTree::default();
        let mut want = Names::new();
        let names: Vec<String> = (0..*n).map(|i| format!("{}{i}.{}", if i % 3 == 0 { "x\\" } else { "" }, ["string_list", "bitmap"][i % 2])).collect();
        for (i, p) in names.iter().enumerate() { let mut t = T::new(if i % 2 == 0 { "string_list" } else { "bitmap" }); if i % 2 == 0 { t.grow("strings", 1); t.set_bytes("strings[0].string", &pattern(3, i)) } tree.tags.insert(TagPath::from_path(p).unwrap(), Some(t.tag())); want.insert(zip_name(p), t.tag().to_tag_file().unwrap()); }
        let all = TagPath::from_path("all.tag_collection").unwrap();
        let c = collection(&names.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        want.insert("all.tag_collection".into(), c.to_tag_file().unwrap());
        tree.tags.insert(all.clone(), Some(Box::new(c)));
        cx.step(); cx.validated(); cx.state(n);
        match guard(|| archive_tag_to_7zip(&all, &tree, LZMACompressionLevel::new(0).unwrap())) {
            Err(e) => cx.fail("panic", e),
            Ok(Err(e)) => cx.fail("refused", format!("{e}")),
            Ok(Ok(b)) => match open(&b) { Err(e) => cx.fail("archive", e), Ok(l) => if let Err(e) = same(&l, &want) { cx.fail("contents", e) } }
        }
    });
    // everything a scenario of an engine and type needs, or all but one
    let kinds = [("singleplayer", ScenarioType::Singleplayer), ("multiplayer", ScenarioType::Multiplayer), ("user_interface", ScenarioType::UserInterface)];
    let mut engines: Vec<(&'static ringhopper_engines::Engine, usize)> = ringhopper_engines::ALL_SUPPORTED_ENGINES.iter().flat_map(|e| (0..3).map(move |k| (e, k))).collect();
    engines.sort_by_key(|e| (e.0.name, e.1));
    ck.items("scenarios", &engines, |(e, k)| format!("{} {}", e.name, kinds[*k].0), |(e, k), cx| {
        let req = &spec().engines[e.name]["required_tags"];
        let list = |k: &str| -> Vec<String> { req.get(k).and_then(|l| l.as_array()).map(|l| l.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default() };
        let needed: BTreeSet<String> = list("all").into_iter().chain(list(kinds[*k].0)).collect();
        let mut tree = MemTree::default();
        let mut want = Names::new();
        for r in kinds.iter().flat_map(|k| list(k.0)).chain(list("all")) { let p = TagPath::from_path(&r).unwrap(); let t = empty(p.group().as_str()); if needed.contains(&r) { want.insert(zip_name(&r), t.to_tag_file().unwrap()); } tree.tags.insert(p, Some(t)); }
        let mut sc = T::new("scenario");
        sc.set_enum("type", kinds[*k].0);
        sc.grow("skies", 1);
        *sc.at("skies[0].sky") = Val::Ref("sky".into(), Some("of\\it".into()));
        let me = TagPath::from_path("levels\\me\\me.scenario").unwrap();
        want.insert("levels/me/me.scenario".into(), sc.tag().to_tag_file().unwrap()); tree.tags.insert(me.clone(), Some(sc.tag()));
        let sky = T::new("sky"); want.insert("of/it.sky".into(), sky.tag().to_tag_file().unwrap()); tree.tags.insert(TagPath::from_path("of\\it.sky").unwrap(), Some(sky.tag()));
        let all: Vec<TagPath> = tree.tags.keys().cloned().collect();
        for gone in std::iter::once(None).chain(all.into_iter().map(Some)) {
            let back = gone.as_ref().map(|g| (g.clone(), tree.tags.remove(g).unwrap()));
            let fine = gone.as_ref().is_none_or(|g| !want.contains_key(&zip_name(&g.to_internal_path())));
            cx.step(); cx.validated(); cx.state((e.name, k, &gone));
            match guard(|| archive_map_to_7zip(&me, &tree, e, LZMACompressionLevel::new(0).unwrap())) {
                Err(e) => cx.fail("panic", e),
                Ok(Err(e)) => { cx.check(!fine, "refused", || format!("{gone:?}: {e}")); }
                Ok(Ok(b)) => match open(&b) { Err(e) => cx.fail("archive", e), Ok(l) => if !fine { cx.fail("missing", format!("{gone:?}")) } else if let Err(e) = same(&l, &want) { cx.fail("contents", e) } }
            }
            if let Some((p, t)) = back { tree.tags.insert(p, t); }
        }
    });
    // what engines require refers to other tags, as does the scenario
    let list: Vec<(usize, usize)> = (1..=3usize).map(tags_of).flat_map(|(n, c)| (0..c).map(move |i| (n, i))).filter(|(n, i)| *n < 3 || !ck.quick() || Graph::new(*n, *i).kind.iter().all(|k| *k == Tag)).collect();
    let quick = ck.quick();
    let engine = ringhopper_engines::ALL_SUPPORTED_ENGINES.iter().find(|e| e.name == "pc-custom").unwrap();
    ck.items("required", &list, |(n, i)| format!("{n} {i}"), |(n, i), cx| {
        let g = Graph::new(*n, *i);
        let names: Vec<&'static str> = (0..*n).map(|j| &*g.name(j).leak()).collect();
        let sum = (0..*n).map(|j| 0b11 << (2 * j)).sum::<usize>();
        // who asks for each: nobody or another type, the scenario, the engine, the engine for this type
        for w in 0..=sum {
            let who: Vec<usize> = (0..*n).map(|j| w >> (2 * j) & 3).collect();
            if *n == 3 && quick && who.iter().filter(|w| **w != 0).count() != 1 { continue }
            let kind = (w + i) % 3;
            let by = |x: usize| -> Vec<&'static str> { (0..*n).filter(|j| who[*j] == x).map(|j| names[j]).collect() };
            let mut tree = MemTree::default();
            for j in 0..*n { if matches!(g.kind[j], Tag | Leaf | Garbage) { tree.tags.insert(TagPath::from_path(names[j]).unwrap(), g.tag(j)); } }
            let mut sc = T::new("scenario");
            sc.set_enum("type", kinds[kind].0);
            let l = by(1);
            sc.grow("skies", l.len());
            for (k, p) in l.iter().enumerate() { let (p, g) = p.rsplit_once('.').unwrap(); *sc.at(&format!("skies[{k}].sky")) = Val::Ref(g.into(), Some(p.into())) }
            let me = TagPath::from_path("levels\\me\\me.scenario").unwrap();
            tree.tags.insert(me.clone(), Some(sc.tag()));
            let mut e = (*engine).clone();
            let (all, this, other): (&'static [&'static str], &'static [&'static str], &'static [&'static str]) = (by(2).leak(), by(3).leak(), by(0).leak());
            e.required_tags.all = all;
            e.required_tags.singleplayer = if kind == 0 { this } else { other };
            e.required_tags.multiplayer = if kind == 1 { this } else { other };
            e.required_tags.user_interface = if kind == 2 { this } else { other };
            let mut want = Some(Names::from([("levels/me/me.scenario".to_string(), sc.tag().to_tag_file().unwrap())]));
            for j in (0..*n).filter(|j| who[*j] != 0) { match (want.as_mut(), g.want(j)) { (Some(a), Some(b)) => a.extend(b), _ => want = None } }
            cx.step(); cx.validated(); cx.state((&g, w, kind));
            match guard(|| archive_map_to_7zip(&me, &tree, &e, LZMACompressionLevel::new(0).unwrap())) {
                Err(e) => cx.fail("panic", e),
                Ok(Err(e)) => { cx.check(want.is_none(), "refused", || format!("{who:?} {kind}: {e}")); }
                Ok(Ok(b)) => match (open(&b), &want) {
                    (Err(e), _) => cx.fail("archive", e),
                    (Ok(l), None) => cx.fail("missing", format!("{who:?} {kind}: something is missing, but there is an archive of {:?}", l.iter().map(|e| &e.0).collect::<Vec<_>>())),
                    (Ok(l), Some(w)) => if let Err(e) = same(&l, w) { cx.fail("contents", format!("{who:?} {kind}: {e}")) }
                }
            }
            if cx.failed() { return }
        }
    });
    // the commands
    let list: Vec<(usize, usize)> = (1..=3usize).map(tags_of).flat_map(|(n, c)| (0..c).map(move |i| (n, i))).collect();
    ck.items("commands", &list, |(n, i)| format!("{n} {i}"), |(n, i), cx| {
        let g = Graph::new(*n, *i);
        let dir = case_dir("p27");
        let mut tree: BTreeMap<String, Vec<u8>> = BTreeMap::from([("a/keep".into(), vec![]), ("b/keep".into(), vec![])]);
        // tags are in one directory or the other, or there is another in the lower one
        for j in 0..*n { if let Some(f) = g.file(j) { let p = zip_name(&g.name(j)); tree.insert(format!("{}/{p}", if j % 2 == 0 { "a" } else { "b" }), f); if j == 0 { tree.insert(format!("b/{p}"), collection(&["nothing\\like\\it.bitmap"]).to_tag_file().unwrap()); } } }
        for (there, over, named) in [(false, false, false), (false, true, true), (true, false, false), (true, true, false), (true, false, true), (true, true, true)] {
            let base = g.name(0); let base = base.split('.').next().unwrap().rsplit('\\').next().unwrap().to_string();
            let out = if named { "b/some.thing".to_string() } else { format!("{base}.7z") };
            let mut before = tree.clone();
            if there { before.insert(out.clone(), b"old".to_vec()); }
            reset(&dir, &before);
            let name = g.name(0);
            let mut args = vec!["archive-tag", &name, "-t", "a", "-t", "b", "-l", "0"];
            if over { args.push("-o") }
            if named { args.extend(["-O", &out]) }
            let r = invader(&args, &dir, &[("MC_NOSCHED", "1".into())]);
            cx.step(); cx.validated(); cx.state((&g, there, over, named));
            let mut got = files(&snapshot(&dir));
            // nothing under the lower one's name counts
            let hidden = !matches!(g.kind[0], Missing | NoLeaf);
            let want = if hidden { g.want(0) } else { None };
            cx.check(!r.panicked(), "panic", || r.brief());
            let made = want.is_some() && (!there || over);
            if made {
                let Some(b) = got.remove(&out) else { cx.fail("nothing", format!("{args:?}: {}", r.brief())); continue };
                match open(&b) { Err(e) => cx.fail("archive", e), Ok(l) => if let Err(e) = same(&l, want.as_ref().unwrap()) { cx.fail("contents", format!("{args:?}: {e}")) } }
                before.remove(&out);
            }
            cx.check(got == before, "files", || format!("{args:?}: {} {}", differences(&got, &before), r.brief()));
            cx.check(r.ok() == (made || there && !over), "exit", || format!("{args:?}: {}", r.brief()));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    // scenarios by command: engine, type, whether something is missing
    ck.items("scenario command", &engines, |(e, k)| format!("{} {}", e.name, kinds[*k].0), |(e, k), cx| {
        let req = &spec().engines[e.name]["required_tags"];
        let list = |k: &str| -> Vec<String> { req.get(k).and_then(|l| l.as_array()).map(|l| l.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default() };
        let needed: Vec<String> = list("all").into_iter().chain(list(kinds[*k].0)).collect();
        let mut sc = T::new("scenario");
        sc.set_enum("type", kinds[*k].0);
        for gone in [None, Some(0), Some(needed.len() / 2), Some(needed.len() - 1)] {
            let dir = case_dir("p27");
            let mut want = Names::new();
            want.insert("levels/me/me.scenario".into(), sc.tag().to_tag_file().unwrap());
            for (i, r) in needed.iter().enumerate() { if Some(i) != gone { let p = TagPath::from_path(r).unwrap(); want.insert(zip_name(r), empty(p.group().as_str()).to_tag_file().unwrap()); } }
            let mut before: Names = want.iter().map(|(p, b)| (format!("tags/{p}"), b.clone())).collect();
            before.insert("tags/other/one.bitmap".into(), empty("bitmap").to_tag_file().unwrap());
            reset(&dir, &before);
            let r = invader(&["archive-scenario", "levels/me/me", "-e", e.name], &dir, &[("MC_NOSCHED", "1".into())]);
            cx.step(); cx.validated(); cx.state((e.name, k, gone));
            let mut got = files(&snapshot(&dir));
            cx.check(!r.panicked(), "panic", || r.brief());
            if e.build_target {
                cx.check(r.ok() == gone.is_none(), "exit", || r.brief());
                if let Some(b) = got.remove("me.7z") { if gone.is_some() { cx.fail("missing", "an archive is left behind") } else { match open(&b) { Err(e) => cx.fail("archive", e), Ok(l) => if let Err(e) = same(&l, &want) { cx.fail("contents", e) } } } } else { cx.check(gone.is_some(), "nothing", || r.brief()); }
            } else { cx.check(!r.ok(), "engine", || r.brief()); }
            cx.check(got == before, "files", || differences(&got, &before));
            let _ = std::fs::remove_dir_all(&dir);
        }
    });
    ck.finish();
}
