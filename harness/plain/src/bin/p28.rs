//! P28: command lines: all argument lists up to a length against a reference parser, and all spellings of the same meaning.
//! needs: invader-mc
use mc::fsmap::{files, reset, snapshot};
use mc::inv::invader;
use mc::memtree::{collection, empty};
use ringhopper::primitives::tag::*;
use mc::*;
use std::collections::BTreeMap;
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty { Flag, Path, Text, Number, Engine }
use Ty::*;
type Opt = (&'static str, Option<char>, Ty);
struct Verb { name: &'static str, opts: Vec<Opt>, many: bool, extras: usize }
const T: Opt = ("tags", Some('t'), Path);
const C: Opt = ("cow", Some('c'), Path);
const J: Opt = ("jobs", Some('j'), Number);
const D: Opt = ("data", Some('d'), Path);
const O: Opt = ("overwrite", Some('o'), Flag);
const E: Opt = ("engine", Some('e'), Engine);
const F: Opt = ("filter", Some('f'), Text);
fn verbs() -> Vec<Verb> {
    let v = |name, many, extras, opts: &[Opt]| Verb { name, many, extras, opts: opts.to_vec() };
    let archive: [Opt; 4] = [T, O, ("output", Some('O'), Path), ("level", Some('l'), Number)];
    vec![
        v("strip", false, 1, &[T, C, J]),
        v("recover", false, 1, &[T, D, O, J]),
        v("dependency-list", true, 1, &[T, ("recursive", Some('r'), Flag), ("reverse", Some('R'), Flag)]),
        v("compare", false, 2, &[("verbose", Some('v'), Flag), ("show", Some('s'), Text), F, ("abbreviated", Some('a'), Flag), J, ("raw", Some('r'), Flag)]),
        v("refactor-paths", true, 2, &[T, J, ("no-move", Some('N'), Flag), ("replace-type", Some('r'), Text), F]),
        v("list-scenario-tags", true, 1, &[T, E]),
        v("archive-tag", true, 1, &archive),
        v("archive-scenario", true, 1, &[archive[0], archive[1], archive[2], archive[3], E]),
        v("bludgeon", false, 1, &[T, C, J]),
        v("convert", false, 2, &[T, O, C, J]),
        v("dependency-tree", true, 1, &[T, ("broken", Some('b'), Flag), ("depth", Some('d'), Number)]),
        v("extract", false, 1, &[T, O, F, J, ("non-mp-globals", Some('n'), Flag)]),
        v("info", false, 1, &[("type", Some('T'), Text)]),
        v("nudge", false, 1, &[T, C, J]),
        v("plate", false, 1, &[T, D, J]),
        v("recompress-vertices", false, 1, &[T, C, J]),
        v("refactor-groups", false, 2, &[T, C, J, F]),
        v("tag-collection", false, 1, &[T, D, J, C]),
        v("ui-widget-collection", false, 1, &[T, D, J, C]),
        v("undefault", false, 1, &[T, C, J]),
        v("unicode-strings", false, 1, &[T, D, C, J]),
        v("verify-scenario", true, 1, &[T, E, J]),
    ]
}

/// What a command line means: the options' values in order, by name, and the other arguments.
type Meaning = (BTreeMap<&'static str, Vec<String>>, Vec<String>);
#[derive(Debug)]
enum Said { Help, Wrong, Means(Meaning) }
const TARGETS: [&str; 15] = ["mac-demo", "mac-retail", "mcc-cea", "pc-custom", "pc-demo", "pc-retail", "xbox-demo", "xbox-jp", "xbox-pal", "xbox-tw", "xbox-us", "pc-custom-chimera", "pc-custom-ex", "xbox-nhe", "xbox-pro"];
const READ_ONLY: [&str; 4] = ["pc-0268", "pc-0452", "xbox-1749", "xbox-2247"];

fn reference(v: &Verb, args: &[String]) -> Said {
    let mut m: Meaning = Default::default();
    let mut it = args.iter();
    while let Some(a) = it.next() {
        let names: Vec<Option<&Opt>> = if let Some(long) = a.strip_prefix("--") {
            if long == "help" { return Said::Help }
            vec![v.opts.iter().find(|o| o.0 == long)]
        } else if a == "-" { return Said::Wrong }
        else if let Some(shorts) = a.strip_prefix('-') {
            let mut list = vec![];
            for c in shorts.chars() { if c == 'h' { list.push(v.opts.first().filter(|_| false)); break } list.push(v.opts.iter().find(|o| o.1 == Some(c))); }
            // help counts where it stands
            let help_at = shorts.chars().position(|c| c == 'h');
            for (i, o) in list.iter().enumerate() {
                if Some(i) == help_at { return Said::Help }
                let Some(o) = o else { return Said::Wrong };
                if !take(v, o, &mut it, &mut m) { return Said::Wrong }
            }
            continue
        } else { m.1.push(a.clone()); if m.1.len() > v.extras { return Said::Wrong } continue };
        for o in names { let Some(o) = o else { return Said::Wrong }; if !take(v, o, &mut it, &mut m) { return Said::Wrong } }
    }
    if m.1.len() != v.extras { return Said::Wrong }
    if v.opts.iter().any(|o| o.0 == "engine") && !m.0.contains_key("engine") { return Said::Wrong }
    Said::Means(m)
}
fn take(v: &Verb, o: &Opt, it: &mut std::slice::Iter<String>, m: &mut Meaning) -> bool {
    if m.0.contains_key(o.0) && !(o.0 == "tags" && v.many) { return false }
    if o.2 == Flag { m.0.insert(o.0, vec![]); return true }
    let Some(x) = it.next() else { return false };
    let fine = match o.2 {
        Number => x.strip_prefix('+').unwrap_or(x).bytes().all(|b| b.is_ascii_digit()) && x.parse::<u64>().is_ok_and(|n| n <= u32::MAX as u64),
        Engine => TARGETS.contains(&x.as_str()), _ => true
    };
    if fine { m.0.entry(o.0).or_default().push(x.clone()); }
    fine
}
/// Whether the directories which must exist do (in the fixture).
fn exists(v: &Verb, m: &Meaning) -> bool {
    for o in &v.opts { if ["tags", "data", "cow"].contains(&o.0) {
        let dirs = m.0.get(o.0).cloned().unwrap_or(if o.0 == "cow" { vec![] } else { vec![o.0.to_string()] });
        if dirs.iter().any(|d| if o.0 == "tags" { !["tags", "t2", "cow", "data", "d2"].contains(&d.as_str()) } else { !["tags", "t2", "cow", "data", "d2", "file"].contains(&d.as_str()) }) { return false }
    } }
    true
}
fn canonical_spelling(m: &Meaning) -> Vec<String> {
    let mut v = vec![];
    for (k, x) in &m.0 { if x.is_empty() { v.push(format!("--{k}")) } for y in x { v.push(format!("--{k}")); v.push(y.clone()) } }
    v.extend(m.1.iter().cloned());
    v
}

struct Observed { code: Option<i32>, text: String, tree: BTreeMap<String, Vec<u8>>, panicked: bool }
/// Without the time taken.
fn timeless(s: &str) -> String { s.lines().map(|l| { let mut w: Vec<&str> = l.split(' ').collect(); for i in 1..w.len() { if w[i].starts_with("ms") { w[i - 1] = "?" } } w.join(" ") + "\n" }).collect() }
/// Several worker threads may report in any order.
fn lines(s: &str) -> Vec<&str> { let mut v: Vec<&str> = s.lines().collect(); v.sort(); v }
fn refused(o: &Observed, base: &BTreeMap<String, Vec<u8>>) -> bool { o.code == Some(1) && !o.panicked && o.tree == *base && (o.text.contains("Argument parse error") || o.text.contains("for --")) }


fn fixture() -> BTreeMap<String, Vec<u8>> {
    let mut f = BTreeMap::new();
    for (d, refs) in [("tags", ["b.tag_collection", "s.scenario"]), ("t2", ["s.scenario", ""])] {
        f.insert(format!("{d}/a.tag_collection"), collection(&refs).to_tag_file().unwrap());
        f.insert(format!("{d}/b.tag_collection"), collection(&[]).to_tag_file().unwrap());
        f.insert(format!("{d}/s.scenario"), empty("scenario").to_tag_file().unwrap());
        f.insert(format!("{d}/u.unicode_string_list"), empty("unicode_string_list").to_tag_file().unwrap());
    }
    // what is in the first directory is not quite as ringhopper would write it
    f.get_mut("tags/a.tag_collection").unwrap()[0] = 1;
    f.get_mut("tags/b.tag_collection").unwrap()[0] = 1;
    for d in ["data", "d2"] {
        f.insert(format!("{d}/a.txt"), format!("{}.tag_collection\r\n", &d[..1]).into_bytes());
        f.insert(format!("{d}/u.txt"), "\u{feff}one\r\n###END-STRING###\r\n".encode_utf16().flat_map(|c| c.to_le_bytes()).collect());
    }
    f.insert("file".into(), b"not a directory".to_vec());
    f
}
fn extra(v: &Verb) -> Vec<&'static str> {
    match v.name {
        "compare" => vec!["tags", "t2"], "refactor-paths" => vec!["b", "q"], "refactor-groups" => vec!["tag_collection", "ui_widget_collection"], "convert" => vec!["b.tag_collection", "ui_widget_collection"],
        "list-scenario-tags" | "archive-scenario" | "verify-scenario" => vec!["s"], "unicode-strings" => vec!["u"], "tag-collection" => vec!["a"], "extract" | "info" => vec!["file"], _ => vec!["a.tag_collection"],
    }
}
fn value(o: &Opt) -> Vec<&'static str> {
    match o.0 { "tags" => vec!["t2"], "cow" => vec!["cow"], "data" => vec!["d2"], "output" => vec!["out.7z"], "level" => vec!["1"], "type" => vec!["general"], "show" => vec!["all"], "replace-type" => vec!["all"], "depth" => vec!["0"], "engine" => vec!["pc-custom"], "filter" => vec!["a.*"], "jobs" => vec!["2"], _ => vec![] }
}

struct World { dir: std::path::PathBuf, base: BTreeMap<String, Vec<u8>> }
impl World {
    fn new(tag: &str) -> World { let dir = case_dir(tag); let base = fixture(); reset(&dir, &base); let w = World { dir, base }; w.dirs(); w }
    fn dirs(&self) { for d in ["cow"] { std::fs::create_dir_all(self.dir.join(d)).unwrap(); } }
    fn run(&self, verb: &str, args: &[String]) -> Observed {
        let mut all = vec![verb.to_string()]; all.extend(args.iter().cloned());
        let r = invader(&all, &self.dir, &[("MC_NOSCHED", "1".into())]);
        let mut tree = files(&snapshot(&self.dir));
        if tree != self.base { reset(&self.dir, &self.base); self.dirs(); }
        // an archive says when it was made
        for (k, v) in tree.iter_mut() { if k.ends_with(".7z") { *v = b"archive".to_vec() } }
        Observed { code: r.code, panicked: r.panicked(), text: timeless(&r.out) + &timeless(&r.err), tree }
    }
}
/// Runs of canonical spellings.
type Known = Mutex<BTreeMap<(&'static str, Meaning), std::sync::Arc<Observed>>>;

fn judge(cx: &mut Cx, w: &World, known: &Known, v: &Verb, args: &[String]) {
    let show = || format!("{} {}", v.name, args.join(" "));
    let said = reference(v, args);
    let o = w.run(v.name, args);
    cx.step();
    cx.state((v.name, format!("{said:?}")));
    if o.panicked { cx.fail("panic", format!("{}: {}", show(), clip(&o.text))); return }
    match said {
        Said::Help => { cx.check(o.code == Some(0) && o.text.starts_with("Usage: ") && o.tree == w.base, "help", || format!("{}: exit {:?} {}", show(), o.code, clip(&o.text))); }
        Said::Wrong => { cx.check(refused(&o, &w.base), "refused", || format!("{}: exit {:?} {} {}", show(), o.code, clip(&o.text), fsdiff(&o.tree, &w.base))); }
        Said::Means(m) if !exists(v, &m) => { cx.check(refused(&o, &w.base), "refused (nothing there)", || format!("{}: exit {:?} {} {}", show(), o.code, clip(&o.text), fsdiff(&o.tree, &w.base))); }
        Said::Means(m) => {
            let key = (v.name, m.clone());
            let have = known.lock().unwrap().get(&key).cloned();
            let c = match have { Some(c) => c, None => {
                let spelling = canonical_spelling(&m);
                let c = std::sync::Arc::new(w.run(v.name, &spelling));
                cx.check(!c.panicked && !c.text.contains("Argument parse error"), "canonical", || format!("{} {}: exit {:?} {}", v.name, spelling.join(" "), c.code, clip(&c.text)));
                known.lock().unwrap().insert(key, c.clone()); c
            } };
            cx.check(o.code == c.code && lines(&o.text) == lines(&c.text) && o.tree == c.tree, "meaning", || format!("{}: exit {:?} {} but spelled {:?}: exit {:?} {}; {}", show(), o.code, clip(&o.text), canonical_spelling(&m), c.code, clip(&c.text), fsdiff(&o.tree, &c.tree)));
            cx.check(!refused(&o, &w.base), "accepted", || format!("{}: {}", show(), clip(&o.text)));
        }
    }
    cx.validated();
}
fn fsdiff(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>) -> String { mc::fsmap::differences(a, b) }

/// All tokens which may matter to a command.
fn tokens(v: &Verb, full: bool) -> Vec<String> {
    let mut t: Vec<String> = vec![];
    for (i, o) in v.opts.iter().enumerate() {
        if full || i % 2 == 0 { t.push(format!("-{}", o.1.unwrap())) }
        if full || i % 2 == 1 { t.push(format!("--{}", o.0)) }
        for x in value(o) { if !t.contains(&x.to_string()) { t.push(x.into()) } }
    }
    t.extend(extra(v).iter().filter(|x| **x != "t2").map(|x| x.to_string()));
    // clusters, things which are not options, and values which are not numbers or directories
    let s: Vec<char> = v.opts.iter().map(|o| o.1.unwrap()).collect();
    if s.len() > 1 { t.push(format!("-{}{}", s[0], s[1])); t.push(format!("-{}{}", s[s.len() - 1], s[0])); }
    t.extend(["-h", "--help", "-", "-z"].map(String::from));
    if full { t.push(format!("-{}h", s[0])); t.push(format!("-{}z", s[s.len() - 1])); t.extend(["--", "--zzz", "--tag", "--t", "---tags", "--tags=t2", "-tt2", "", "nowhere", "-1", "4294967296", "+3", "xbox-1749", "file", "--T"].map(String::from)); }
    t
}
/// The arguments of a list of units (option with value, or an argument), with every unit spelled long, short, or in a cluster with the one before.
fn spell(units: &[(Option<&Opt>, String)], code: usize) -> Option<Vec<String>> {
    let mut out: Vec<String> = vec![];
    let (mut cluster, mut values): (String, Vec<String>) = (String::new(), vec![]);
    let mut code = code;
    for (o, val) in units {
        let Some(o) = o else {
            if !cluster.is_empty() { out.push(std::mem::take(&mut cluster)); out.append(&mut values) }
            out.push(val.clone()); continue
        };
        let how = code % 3; code /= 3;
        if how == 2 { if cluster.is_empty() { return None } cluster.push(o.1.unwrap()); if o.2 != Flag { values.push(val.clone()) } continue }
        if !cluster.is_empty() { out.push(std::mem::take(&mut cluster)); out.append(&mut values) }
        if how == 0 { out.push(format!("--{}", o.0)); if o.2 != Flag { out.push(val.clone()) } }
        else { cluster = format!("-{}", o.1.unwrap()); if o.2 != Flag { values.push(val.clone()) } }
    }
    if !cluster.is_empty() { out.push(cluster); out.append(&mut values) }
    Some(out)
}
fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]] }
    permutations(n - 1).into_iter().flat_map(|p| (0..n).map(move |i| { let mut p = p.clone(); p.insert(i, n - 1); p })).collect()
}

fn main() {
    let mut ck = Check::new("P28");
    ck.assume("what follows an option which takes a value is that value, whatever it looks like; arguments are read from the left, and help is shown as soon as it is asked for");
    ck.assume("version and list-engines have no options and are not covered");
    let verbs = verbs();
    let known: Known = Default::default();
    let deep = ["strip", "dependency-list", "list-scenario-tags"];

    // all argument lists
    let quick = ck.quick();
    let mut firsts: Vec<(usize, Option<String>, Option<String>)> = vec![];
    for (i, v) in verbs.iter().enumerate() { firsts.push((i, None, None)); for t in tokens(v, true) { firsts.push((i, Some(t.clone()), None)); if deep.contains(&v.name) || !quick { for u in tokens(v, !quick) { firsts.push((i, Some(t.clone()), Some(u))) } } } }
    ck.items("lists", &firsts, |(i, a, b)| format!("{} {} {}", verbs[*i].name, a.as_deref().unwrap_or("|"), b.as_deref().unwrap_or("|")), |(i, a, b), cx| {
        let v = &verbs[*i];
        let w = World::new("lists");
        let mut args: Vec<String> = a.iter().chain(b).cloned().collect();
        judge(cx, &w, &known, v, &args);
        if a.is_none() { return }
        let dive = deep.contains(&v.name) && b.is_some();
        if b.is_none() && deep.contains(&v.name) { return }
        if b.is_some() && quick && !dive { return }
        // quick: two at the end for most, three for some; thorough: one more
        let alphabet = tokens(v, if b.is_some() { !quick && !dive } else { true });
        for t in &alphabet {
            args.push(t.clone());
            judge(cx, &w, &known, v, &args);
            if dive && !quick { for u in &alphabet { args.push(u.clone()); judge(cx, &w, &known, v, &args); args.pop(); } }
            args.pop();
            if cx.failed() { return }
        }
    });

    // all spellings of what can be said
    let most = ck.pick(2usize, 3);
    let mut sets: Vec<(usize, Vec<usize>)> = vec![];
    for (i, v) in verbs.iter().enumerate() { for mask in 0u32..1 << v.opts.len() {
        let set: Vec<usize> = (0..v.opts.len()).filter(|k| mask >> k & 1 == 1).collect();
        let optional = set.iter().filter(|k| v.opts[**k].0 != "engine").count();
        if optional > most || v.opts.iter().enumerate().any(|(k, o)| o.0 == "engine" && !set.contains(&k)) || (v.name.starts_with("archive") && quick && optional > 1) { continue }
        sets.push((i, set.clone()));
        // a second tags directory
        if v.many && set.first() == Some(&0) && optional < most { let mut s = set; s.insert(0, 0); sets.push((i, s)) }
    } }
    ck.items("spellings", &sets, |(i, s)| format!("{} {:?}", verbs[*i].name, s.iter().map(|k| verbs[*i].opts[*k].0).collect::<Vec<_>>()), |(i, set), cx| {
        let v = &verbs[*i];
        let w = World::new("spell");
        let mut units: Vec<(Option<&Opt>, String)> = vec![];
        for (n, k) in set.iter().enumerate() { let o = &v.opts[*k]; let again = set[..n].contains(k); units.push((Some(o), if again { "tags".into() } else { value(o).first().unwrap_or(&"").to_string() })) }
        for x in extra(v) { units.push((None, x.to_string())) }
        for p in permutations(units.len()) {
            let order: Vec<(Option<&Opt>, String)> = p.iter().map(|i| units[*i].clone()).collect();
            for code in 0..3usize.pow(set.len() as u32) { if let Some(args) = spell(&order, code) {
                cx.check(matches!(reference(v, &args), Said::Means(_)), "oracle", || format!("{args:?}"));
                judge(cx, &w, &known, v, &args);
            } }
            if cx.failed() { return }
        }
    });

    // what is said has the effect it should
    ck.family("effects", 1, |_| "all".into(), |_, cx| {
        let w = World::new("effects");
        let text = |refs: &[&str]| refs.iter().map(|r| format!("{r}\n")).collect::<String>();
        let clean = |d: &str| { let mut f = w.base.clone(); for t in ["a", "b"] { f.get_mut(&format!("{d}/{t}.tag_collection")).unwrap()[0] = 0 } f };
        let mut expect = |line: &str, code: i32, out: Option<String>, tree: BTreeMap<String, Vec<u8>>| {
            let args: Vec<String> = line.split(' ').skip(1).map(String::from).collect();
            let o = w.run(line.split(' ').next().unwrap(), &args);
            cx.step(); cx.state(line); cx.validated();
            cx.check(o.code == Some(code), "exit", || format!("{line}: exit {:?} {}", o.code, clip(&o.text)));
            if let Some(t) = out { cx.check(o.text == t, "output", || format!("{line}: {} instead of {}", clip(&o.text), clip(&t))); }
            cx.check(o.tree == tree, "files", || format!("{line}: {}", fsdiff(&o.tree, &tree)));
        };
        let base = w.base.clone();
        expect("strip *", 0, None, clean("tags"));
        expect("strip * -t t2", 0, None, base.clone());
        expect("strip * -t tags", 0, None, clean("tags"));
        let mut cow = base.clone(); for t in ["a", "b"] { cow.insert(format!("cow/{t}.tag_collection"), clean("tags")[&format!("tags/{t}.tag_collection")].clone()); }
        expect("strip a.tag_collection -c cow", 0, None, { let mut f = cow.clone(); f.remove("cow/b.tag_collection"); f });
        expect("dependency-list a.tag_collection", 0, Some(text(&["b.tag_collection", "s.scenario"])), base.clone());
        expect("dependency-list a.tag_collection -t t2", 0, Some(text(&["s.scenario"])), base.clone());
        expect("dependency-list a.tag_collection -t t2 -t tags", 0, Some(text(&["s.scenario"])), base.clone());
        expect("dependency-list a.tag_collection -t tags -t t2", 0, Some(text(&["b.tag_collection", "s.scenario"])), base.clone());
        expect("dependency-list s.scenario -R", 0, Some(text(&["a.tag_collection"])), base.clone());
        expect("dependency-list s.scenario", 0, Some(String::new()), base.clone());
        let mut one = |line: &str, want: &str| {
            let args: Vec<String> = line.split(' ').skip(1).map(String::from).collect();
            let o = w.run("recover", &args);
            let changed: Vec<String> = o.tree.iter().filter(|(k, v)| base.get(*k) != Some(v)).map(|(k, _)| k.clone()).chain(base.keys().filter(|k| !o.tree.contains_key(*k)).cloned()).collect();
            cx.step(); cx.state(line); cx.validated();
            cx.check(o.code == Some(0) && changed.join(" ") == want, line, || format!("{changed:?} changed: {}", clip(&o.text)));
        };
        one("recover u.unicode_string_list", "");
        one("recover u.unicode_string_list -o", "data/u.txt");
        one("recover u.unicode_string_list -o -d d2", "d2/u.txt");
        one("recover u.unicode_string_list -d d2", "");
        one("recover -od d2 u.unicode_string_list -t t2", "d2/u.txt");
        one("recover u.unicode_string_list -d cow", "cow/u.txt");
    });

    // numbers, engines, and what must exist
    ck.items("values", &verbs.iter().enumerate().map(|(i, _)| i).collect::<Vec<_>>(), |i| verbs[*i].name.into(), |i, cx| {
        let v = &verbs[*i];
        let w = World::new("values");
        let base: Vec<String> = extra(v).iter().map(|s| s.to_string()).chain(if v.opts.iter().any(|o| o.0 == "engine") { vec!["-e".to_string(), "pc-custom".into()] } else { vec![] }).collect();
        let without: Vec<String> = extra(v).iter().map(|s| s.to_string()).collect();
        for o in &v.opts { match o.2 {
            Number => for x in ["0", "1", "3", "007", "+2", "64", "-1", "", " 1", "1 ", "1.0", "0x1", "1e1", "4294967296", "99999999999999999999", "one", "\u{0661}"] { let mut a = base.clone(); a.extend([format!("--{}", o.0), x.to_string()]); if o.0 == "level" && x == "64" { continue } judge(cx, &w, &known, v, &a); }
            Engine => for x in TARGETS.iter().chain(&READ_ONLY).chain(&["", "PC-CUSTOM", "pc", "pc-custo", "pc-customx", "xbox", "mcc", "zzz", "aaa", "-"]) { if v.name.starts_with("archive") && TARGETS[3..].contains(x) { continue } let mut a = without.clone(); a.extend(["-e".to_string(), x.to_string()]); judge(cx, &w, &known, v, &a); }
            Path => for x in ["t2", "nowhere", "file", "", "cow", "t2/", "./t2", "tags/a.tag_collection"] {
                if ["t2/", "./t2", "tags/a.tag_collection"].contains(&x) && (o.0 == "output") { continue }
                let mut a = base.clone(); a.extend([format!("-{}", o.1.unwrap()), x.to_string()]);
                if ["t2/", "./t2"].contains(&x) { let mut b = base.clone(); b.extend([format!("-{}", o.1.unwrap()), "t2".into()]); let (a, b) = (w.run(v.name, &a), w.run(v.name, &b)); cx.steps(2); cx.check(a.code == b.code && lines(&a.text.replace("./t2", "t2").replace("t2/", "t2")) == lines(&b.text.replace("t2/", "t2")) && a.tree == b.tree, "same directory", || format!("{} {x}: {:?} {:?}", v.name, clip(&a.text), clip(&b.text))); continue }
                if x == "tags/a.tag_collection" { let r = w.run(v.name, &a); cx.step(); cx.check(!r.panicked, "panic", || clip(&r.text)); if o.0 == "tags" { cx.check(refused(&r, &w.base), "refused", || clip(&r.text)); } continue }
                if o.0 == "output" && x != "nowhere" { let r = w.run(v.name, &a); cx.step(); cx.check(!r.panicked, "panic", || clip(&r.text)); continue }
                judge(cx, &w, &known, v, &a);
            },
            _ => (),
        } }
        // the directories it uses by default must be there too
        for o in v.opts.iter().filter(|o| o.0 == "tags" || o.0 == "data") { for as_file in [false, true] {
            let mut tree = w.base.clone();
            tree.retain(|k, _| !k.starts_with(&format!("{}/", o.0)));
            if as_file { tree.insert(o.0.into(), b"x".to_vec()); }
            reset(&w.dir, &tree); w.dirs();
            let mut all = vec![v.name.to_string()]; all.extend(base.iter().cloned());
            let r = invader(&all, &w.dir, &[("MC_NOSCHED", "1".into())]);
            cx.step(); cx.state((v.name, o.0, as_file));
            cx.check(!r.panicked(), "panic", || r.brief());
            if !as_file || o.0 == "tags" { cx.check(r.code == Some(1) && format!("{}{}", r.out, r.err).contains("for --"), "missing", || r.brief()); }
            cx.check(files(&snapshot(&w.dir)).iter().all(|(k, v)| tree.get(k) == Some(v) || k.ends_with(".txt")), "files", || "written".into());
            reset(&w.dir, &w.base); w.dirs();
        } }
        // as many jobs as one likes: but no more memory than is sensible
        if v.opts.iter().any(|o| o.0 == "jobs") && !["extract", "info", "compare"].contains(&v.name) {
            for n in ["1000", "100000", "4294967295"] {
                let mut words: Vec<String> = base.clone(); 
                // a filter, so that there are several
                words[0] = if v.name == "verify-scenario" { "*".into() } else if v.name.starts_with("refactor") { words[0].clone() } else { "*".into() };
                let line = format!("ulimit -v 8000000; exec {} {} {} -j {n}", mc::inv::binary().display(), v.name, words.iter().map(|w| format!("'{w}'")).collect::<Vec<_>>().join(" "));
                let o = std::process::Command::new("/bin/sh").args(["-c", &line]).current_dir(&w.dir).env_clear().env("MC_NOSCHED", "1").output().unwrap();
                cx.step(); cx.state((v.name, n));
                let text = timeless(&String::from_utf8_lossy(&o.stdout)) + &timeless(&String::from_utf8_lossy(&o.stderr));
                let tree = files(&snapshot(&w.dir)); reset(&w.dir, &w.base); w.dirs();
                let mut a = words.clone(); a.extend(["-j".to_string(), "1".into()]);
                let c = w.run(v.name, &a);
                cx.check(o.status.code() == c.code && lines(&text) == lines(&c.text) && tree == c.tree, "jobs", || format!("{line}: {:?} {} instead of {:?} {}; {}", o.status.code(), clip(&text), c.code, clip(&c.text), fsdiff(&tree, &c.tree)));
            }
        }
        cx.validated();
    });

    // names of commands
    let names: Vec<&str> = verbs.iter().map(|v| v.name).chain(["version", "list-engines", "cmp", "unicode-string-list", "v", "str", "strip2", "", "-", "--help", "-h", "zzz", "help"]).collect();
    ck.items("names", &names, |n| n.to_string(), |n, cx| {
        let w = World::new("names");
        let real = verbs.iter().any(|v| v.name == *n) || ["version", "list-engines", "cmp", "unicode-string-list", "v"].contains(n);
        for spelling in [n.to_string(), n.to_uppercase(), n.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect()] {
            let o = w.run(&spelling, &["--help".to_string()]);
            cx.step(); cx.state(&spelling);
            cx.check(!o.panicked && o.tree == w.base, "panic", || clip(&o.text));
            if ["version", "v"].contains(n) { cx.check(o.code == Some(0), "version", || clip(&o.text)); continue }
            if *n == "list-engines" { continue }
            if real {
                cx.check(o.code == Some(0) && o.text.starts_with("Usage: "), "help", || clip(&o.text));
                if let Some(v) = verbs.iter().find(|v| v.name == *n) {
                    // help names every option it has, and no other
                    let mut listed: Vec<(Option<char>, String)> = o.text.lines().filter(|l| l.starts_with('-')).map(|l| { let mut short = None; let mut l = l; if l.as_bytes()[1] != b'-' { short = l.chars().nth(1); l = &l[4..]; } (short, l.trim_start_matches("--").split(' ').next().unwrap().to_string()) }).collect();
                    let mut want: Vec<(Option<char>, String)> = v.opts.iter().map(|o| (o.1, o.0.to_string())).chain([(Some('h'), "help".to_string())]).collect();
                    listed.sort(); want.sort();
                    cx.eq("listed", listed, want);
                }
            } else { cx.check(o.code == Some(1) && o.text.contains("<verb>"), "unknown", || format!("{:?} {}", o.code, clip(&o.text))); }
        }
        cx.validated();
    });
    // arguments which are not text
    ck.family("bytes", 8, |i| format!("{i}"), |i, cx| {
        use std::os::unix::ffi::OsStringExt;
        let w = World::new("bytes");
        let bad = std::ffi::OsString::from_vec([&b"\xff"[..], b"a\xc3", b"-\x80", b"--tags\xfe"][i % 4].to_vec());
        let mut args: Vec<std::ffi::OsString> = ["strip", "a.tag_collection"].map(Into::into).to_vec();
        args.insert(if i < 4 { 2 } else { 0 }, bad);
        let r = invader(&args, &w.dir, &[("MC_NOSCHED", "1".into())]);
        cx.step(); cx.state(i); cx.validated();
        cx.check(!r.panicked() && r.code == Some(1) && files(&snapshot(&w.dir)) == w.base, "bytes", || r.brief());
        let none = invader::<&str>(&[], &w.dir, &[("MC_NOSCHED", "1".into())]);
        cx.check(!none.panicked() && none.code == Some(1), "nothing", || none.brief());
    });
    ck.finish();
}
