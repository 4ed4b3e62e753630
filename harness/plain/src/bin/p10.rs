//! P10: stacks of tag directories: every state of the directories x every operation, against a model of the file system.
use mc::*;
use ringhopper::definitions::StringList;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::tree::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::Arc;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
enum Node { Dir, File(Vec<u8>) }
type Fs = BTreeMap<String, Node>; // relative paths

fn content(n: usize) -> StringList {
    let mut t = StringList::default();
    t.strings.items.push(ringhopper::definitions::StringListString { string: Data::new(format!("{}\0", ["", "one", "two", "three three three"][n]).into_bytes()), ..Default::default() });
    t
}
fn put(fs: &mut Fs, path: &str, node: Node) {
    let mut at = 0;
    while let Some(i) = path[at..].find('/') { fs.entry(path[..at + i].to_string()).or_insert(Node::Dir); at += i + 1 }
    fs.insert(path.to_string(), node);
}
fn snapshot(root: &Path) -> Fs {
    fn go(root: &Path, rel: String, out: &mut Fs) {
        for e in std::fs::read_dir(root).unwrap() {
            let e = e.unwrap();
            let r = if rel.is_empty() { e.file_name().to_string_lossy().into_owned() } else { format!("{rel}/{}", e.file_name().to_string_lossy()) };
            if e.file_type().unwrap().is_dir() { out.insert(r.clone(), Node::Dir); go(&e.path(), r, out) } else { out.insert(r, Node::File(std::fs::read(e.path()).unwrap())); }
        }
    }
    let mut out = Fs::new(); go(root, String::new(), &mut out); out
}
/// Turn the directory's contents from one state into another.
fn sync(root: &Path, from: &Fs, to: &Fs) {
    for (p, n) in from.iter().rev() { if to.get(p) != Some(n) { let p = root.join(p); match n { Node::Dir => std::fs::remove_dir(p).unwrap(), _ => std::fs::remove_file(p).unwrap() } } }
    for (p, n) in to { if from.get(p) != Some(n) { let p = root.join(p); match n { Node::Dir => std::fs::create_dir(p).unwrap(), Node::File(b) => std::fs::write(p, b).unwrap() } } }
}

/// What is in each place of the two tags.
const A: &str = "a.string_list";
const B: &str = "d/b.string_list";
fn slot(fs: &mut Fs, dir: &str, name: &str, v: usize, files: &[Vec<u8>]) {
    let p = format!("{dir}/{name}");
    match v {
        0 => (),
        1 | 2 => put(fs, &p, Node::File(files[v].clone())),
        3 => put(fs, &p, Node::File(b"this is not a tag".to_vec())),
        4 => put(fs, &p, Node::Dir),
        5 => put(fs, p.rsplit_once('/').unwrap().0, Node::Dir),
        _ => put(fs, p.rsplit_once('/').unwrap().0, Node::File(b"in the way".to_vec())),
    }
}

struct World { dirs: Vec<String>, cow: Option<String>, fs: Fs }
impl World {
    fn file(&self, p: &str) -> Option<&Vec<u8>> { match self.fs.get(p) { Some(Node::File(b)) => Some(b), _ => None } }
    fn find(&self, name: &str) -> Option<(usize, String)> { self.dirs.iter().enumerate().map(|(i, d)| (i, format!("{d}/{name}"))).find(|(_, p)| self.file(p).is_some()) }
    /// Whether it is written, or cannot be; and what the files are then.
    fn write(&self, name: &str, bytes: &[u8], dir: usize) -> (Option<bool>, Fs) {
        let mut fs = self.fs.clone();
        let found = self.find(name);
        if let Some((_, p)) = &found { if self.file(p).unwrap() == bytes { return (Some(false), fs) } }
        let to = match &self.cow { Some(c) => format!("{c}/{name}"), None => found.map(|f| f.1).unwrap_or_else(|| format!("{}/{name}", self.dirs[dir])) };
        if self.file(&to).is_some_and(|b| b == bytes) { return (Some(false), fs) }
        let parent = to.rsplit_once('/').unwrap().0;
        if self.file(parent).is_some() { return (None, fs) }
        put(&mut fs, parent, Node::Dir);
        if fs.get(&to) == Some(&Node::Dir) { return (None, fs) }
        put(&mut fs, &to, Node::File(bytes.to_vec()));
        (Some(true), fs)
    }
}

fn same_as(t: &dyn PrimaryTagStructDyn) -> Vec<u8> { t.to_tag_file().unwrap() }

fn list_check(what: &str, cx: &mut Cx, got: Vec<TagPath>, want: &BTreeSet<String>) {
    let mut g: Vec<String> = got.iter().map(|p| p.to_zip_path()).collect(); g.sort();
    let w: Vec<String> = want.iter().cloned().collect();
    cx.check(g == w, "listing", || format!("{what}: {} instead of {}", clip(&format!("{g:?}")), clip(&format!("{w:?}"))));
}

fn readers(root: &Path, w: &World, tree: &dyn TagTree, what: &str, files: &[Vec<u8>], strict: bool, names: &[&str], cx: &mut Cx) {
    let _ = root;
    for name in names {
        let path = TagPath::from_path(name).unwrap();
        let found = w.find(name);
        cx.step();
        cx.check(tree.contains(&path) == found.is_some(), "contains", || format!("{what} {name}"));
        for shared in [false, true] {
            let got = guard(|| if shared { tree.open_tag_shared(&path).map(|t| same_as(t.lock().unwrap().as_ref())) } else { tree.open_tag_copy(&path).map(|t| same_as(t.as_ref())) });
            let got = match got { Ok(g) => g, Err(p) => { cx.fail("panic", format!("{what}: opening {name}: {p}")); continue } };
            let want: Result<Vec<u8>, &str> = match &found {
                None => Err("TagNotFound"),
                Some((_, p)) => { let b = w.file(p).unwrap(); match files.iter().position(|f| f == b) { Some(4) if strict => Err("FailedToReadTag"), Some(4) => Ok(files[1].clone()), Some(_) => Ok(b.clone()), None => Err("FailedToReadTag") } }
            };
            let ok = match (&got, &want) { (Ok(a), Ok(b)) => a == b, (Err(e), Err(w)) => format!("{e:?}").starts_with(w), _ => false };
            cx.check(ok, "open", || format!("{what} {name}: {} instead of {}", clip(&format!("{:?}", got.map(|g| String::from_utf8_lossy(&g[64..]).into_owned()))), clip(&format!("{:?}", want.map(|g| String::from_utf8_lossy(&g[64..]).into_owned())))));
        }
    }
    let want: BTreeSet<String> = names.iter().filter(|n| w.find(n).is_some()).map(|n| n.to_string()).collect();
    match guard(|| tree.get_all_tags_with_filter(None)) { Ok(l) => list_check(what, cx, l, &want), Err(p) => cx.fail("panic", format!("{what}: listing: {p}")) }
    let some: BTreeSet<String> = want.iter().filter(|n| n.starts_with("d/")).cloned().collect();
    let f = TagFilter::new("d\\*", None);
    match guard(|| tree.get_all_tags_with_filter(Some(&f))) { Ok(l) => list_check("filtered", cx, l, &some), Err(p) => cx.fail("panic", format!("{what}: listing: {p}")) }
}

fn state_case(dirs: usize, cow: usize, values: &[usize], files: &[Vec<u8>], cx: &mut Cx) {
    // cow: 0 none, 1 a directory of its own, 2 also the first directory, 3 also the last
    let root = case_dir("p10");
    let names: Vec<String> = (0..dirs).map(|i| format!("t{i}")).collect();
    let cow_name = match cow { 0 => None, 1 => Some("cow".to_string()), 2 => Some("t0".to_string()), _ => Some(names[dirs - 1].clone()) };
    let mut fs = Fs::new();
    for n in &names { put(&mut fs, n, Node::Dir) }
    if cow == 1 { put(&mut fs, "cow", Node::Dir) }
    let places: Vec<&String> = names.iter().chain(cow_name.iter().filter(|_| cow == 1)).collect();
    for (i, p) in places.iter().enumerate() { if i * 2 < values.len() { slot(&mut fs, p, A, values[i * 2], files); slot(&mut fs, p, B, values[i * 2 + 1], files) } }
    sync(&root, &Fs::new(), &fs);
    cx.state(&(&fs, dirs, cow));
    let w = World { dirs: names.clone(), cow: cow_name.clone(), fs };
    let full: Vec<PathBuf> = names.iter().map(|n| root.join(n)).collect();
    let tree = match VirtualTagsDirectory::new(&full, cow_name.as_ref().map(|c| root.join(c))) { Ok(t) => t, Err(e) => { cx.fail("new", format!("{e:?}")); return } };
    readers(&root, &w, &tree, "directories", files, true, &[A, B], cx);
    for name in [A, B] {
        let got = tree.path_for_tag(&TagPath::from_path(name).unwrap());
        let want = w.find(name).map(|(i, p)| (i, root.join(p)));
        cx.check(got == want, "path", || format!("{name}: {got:?} instead of {want:?}"));
    }
    let now = snapshot(&root);
    cx.check(now == w.fs, "untouched", || "reading changed files".into());
    cx.validated();
    // every write
    for name in [A, B] { for c in [1usize, 2, 3] { for how in 0..dirs + 2 {
        let path = TagPath::from_path(name).unwrap();
        let tag = content(c);
        cx.step();
        let dir = if how < dirs { how } else { 0 };
        let (want, fs) = w.write(name, &files[c], dir);
        let got = guard(|| if how < dirs { tree.write_tag_to_directory(&path, &tag, how) } else if how == dirs { tree.clone().write_tag(&path, &tag) } else { let mut b: Box<dyn TagTree + Send + Sync> = Box::new(tree.clone()); b.write_tag(&path, &tag) });
        let now = snapshot(&root);
        match got {
            Ok(g) => { let g = g.ok(); cx.check(g == want, "written", || format!("{name} content {c} to {how}: says {g:?} instead of {want:?}; before {:?}", w.fs.keys())); }
            Err(p) => cx.fail("panic", format!("writing {name}: {p}")),
        }
        // a directory for it may be left behind if it could not be written
        cx.check(now == fs || want.is_none() && now == w.fs, "files", || format!("{name} content {c} to {how} (cow {cow}): {}", diff(&fs, &now)));
        sync(&root, &now, &w.fs);
        cx.validated();
    } } }
    std::fs::remove_dir_all(&root).unwrap();
}
fn diff(want: &Fs, got: &Fs) -> String {
    let mut out = vec![];
    for p in want.keys().chain(got.keys()).collect::<BTreeSet<_>>() { let (a, b) = (want.get(p), got.get(p)); if a != b { out.push(format!("{p}: {} instead of {}", clip(&format!("{:?}", b)), clip(&format!("{:?}", a)))) } }
    clip(&out.join("; "))
}

/// Names in a directory: what is there, and the tag it is, if any.
const NAMES: &[(&str, Option<&str>)] = &[
    ("a.string_list", Some("a.string_list")), ("b.string_list", Some("b.string_list")), ("a.bitmap", Some("a.bitmap")), ("a.txt", None), ("noext", None), ("A.string_list", None), ("a.String_List", None), ("con.string_list", None), ("a:b.string_list", None),
    (".string_list", Some(".string_list")), ("é.string_list", Some("é.string_list")), ("x..string_list", None), ("x.y.string_list", Some("x.y.string_list")), ("a.string_list.string_list", Some("a.string_list.string_list")),
    ("d/a.string_list", Some("d/a.string_list")), ("d/e/a.string_list", Some("d/e/a.string_list")), ("d/e/f/", None), ("D/a.string_list", None), ("D/e/a.string_list", None), ("d.string_list/x.font", Some("d.string_list/x.font")), ("d.string_list/y.string_list", Some("d.string_list/y.string_list")), ("a.string_list/", None), ("d./a.string_list", None), ("con/a.string_list", None),
    ("d\\a.string_list", None), ("string_list", None), ("a.", None), ("sp ace.string_list", Some("sp ace.string_list")), ("?.string_list", None), ("?\\.string_list", None), ("raw\u{0}", None),
];

fn main() {
    let mut ck = Check::new("P10");
    let mut files: Vec<Vec<u8>> = (0..4).map(|n| content(n).to_tag_file().unwrap()).collect();
    let mut bad = files[1].clone(); let at = 40; bad[at] ^= 1; files.push(bad); // the checksum
    let files = &files;
    // all states of two tags in every place
    for (dirs, cow) in [(1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (2, 2), (2, 3), (3, 0), (3, 1)] {
        let places = dirs + (cow == 1) as usize;
        if places > ck.pick(2, 3) { continue }
        let radices: Vec<usize> = (0..places).flat_map(|_| [5usize, 7]).collect();
        let r = &radices;
        ck.family(&format!("states-{dirs}-{cow}"), radices.iter().product(), |i| format!("{:?}", digits(i, r)), |i, cx| state_case(dirs, cow, &digits(i, r), files, cx));
    }
    // one tag, more places (thorough: also the other)
    for (dirs, cow) in [(2, 1), (3, 0), (3, 1), (3, 2), (3, 3), (4, 0)] {
        let places = dirs + (cow == 1) as usize;
        let r = &vec![5usize; places]; let q = &vec![7usize; places];
        ck.family(&format!("one-{dirs}-{cow}"), r.iter().product(), |i| format!("{:?}", digits(i, r)), |i, cx| state_case(dirs, cow, &digits(i, r).iter().flat_map(|v| [*v, 0]).collect::<Vec<_>>(), files, cx));
        ck.family(&format!("other-{dirs}-{cow}"), q.iter().product(), |i| format!("{:?}", digits(i, q)), |i, cx| state_case(dirs, cow, &digits(i, q).iter().flat_map(|v| [0, *v]).collect::<Vec<_>>(), files, cx));
    }
    // histories of two writes (what the second sees is what the first left)
    let ops: Vec<(usize, usize, usize)> = (0..2).flat_map(|t| (1..4).flat_map(move |c| (0..3).map(move |d| (t, c, d)))).collect();
    let ops = &ops;
    for cow in 0..4 {
        let depth = ck.pick(3usize, 4);
        let n = ops.len();
        ck.family(&format!("writes-{cow}"), n.pow(depth as u32), |i| format!("{:?}", digits(i, &vec![n; depth])), |i, cx| {
            let root = case_dir("p10w");
            let names: Vec<String> = (0..2).map(|i| format!("t{i}")).collect();
            let cow_name = match cow { 0 => None, 1 => Some("cow".to_string()), 2 => Some("t0".to_string()), _ => Some("t1".to_string()) };
            let mut fs = Fs::new();
            for n in &names { put(&mut fs, n, Node::Dir) }
            sync(&root, &Fs::new(), &fs);
            let mut w = World { dirs: names.clone(), cow: cow_name.clone(), fs };
            let full: Vec<PathBuf> = names.iter().map(|n| root.join(n)).collect();
            let mut tree = VirtualTagsDirectory::new(&full, cow_name.as_ref().map(|c| root.join(c))).unwrap();
            for o in digits(i, &vec![n; depth]) {
                let (t, c, d) = ops[o];
                let name = [A, B][t];
                let path = TagPath::from_path(name).unwrap();
                let (want, fs) = w.write(name, &files[c], d.min(1) * (d < 2) as usize);
                cx.step();
                match guard(|| if d == 2 { tree.write_tag(&path, &content(c)) } else { tree.write_tag_to_directory(&path, &content(c), d) }) { Ok(g) => { let g = g.ok(); cx.check(g == want, "written", || format!("{name} {c} {d}: {g:?} instead of {want:?}")); } Err(p) => cx.fail("panic", p) }
                w.fs = fs;
                cx.state(&(&w.fs, cow));
                readers(&root, &w, &tree, "directories", files, true, &[A, B], cx);
            }
            let now = snapshot(&root);
            cx.check(now == w.fs, "files", || diff(&w.fs, &now));
            cx.validated();
            std::fs::remove_dir_all(&root).unwrap();
        });
    }
    // wrong checksums, and every wrapper
    ck.family("wrappers", 6 * 6 * 2, |i| format!("{:?}", digits(i, &[6, 6, 2])), |i, cx| {
        let d = digits(i, &[6, 6, 2]);
        let root = case_dir("p10r");
        let mut fs = Fs::new();
        for (k, t) in ["t0", "t1"].iter().enumerate() { put(&mut fs, t, Node::Dir); if d[k] == 5 { put(&mut fs, &format!("{t}/{A}"), Node::File(files[4].clone())) } else { slot(&mut fs, t, A, d[k], files) } slot(&mut fs, t, B, (d[k] + 1) % 5, files); }
        sync(&root, &Fs::new(), &fs);
        let w = World { dirs: vec!["t0".into(), "t1".into()], cow: None, fs };
        let mut tree = VirtualTagsDirectory::new(&[root.join("t0"), root.join("t1")], None).unwrap();
        if d[2] == 1 { tree.set_strictness(ParseStrictness::Relaxed) }
        let strict = d[2] == 0;
        let n = [A, B];
        readers(&root, &w, &tree, "directories", files, strict, &n, cx);
        readers(&root, &w, &AtomicTagTree::new(tree.clone()), "AtomicTagTree", files, strict, &n, cx);
        readers(&root, &w, &Arc::new(tree.clone()), "Arc", files, strict, &n, cx);
        let b: Box<dyn TagTree + Send + Sync> = Box::new(tree.clone()); readers(&root, &w, &b, "Box", files, strict, &n, cx);
        let a: Arc<dyn TagTree + Send + Sync> = Arc::new(tree.clone()); readers(&root, &w, &a, "Arc dyn", files, strict, &n, cx);
        readers(&root, &w, &CachingTagTree::new(tree.clone(), CachingTagTreeWriteStrategy::Instant), "cache", files, strict, &n, cx);
        readers(&root, &w, &CachingTagTree::new(tree.clone(), CachingTagTreeWriteStrategy::Manual), "manual cache", files, strict, &n, cx);
        cx.check(!tree.is_read_only() && !AtomicTagTree::new(tree.clone()).is_read_only() && Arc::new(tree.clone()).is_read_only() && !b.is_read_only() && a.is_read_only(), "read-only", String::new);
        cx.check(tree.get_directory(0) == Some(root.join("t0").as_path()) && tree.get_directory(1) == Some(root.join("t1").as_path()) && tree.get_directory(2).is_none(), "get_directory", String::new);
        cx.check(VirtualTagsDirectory::new(&[root.join("t0"), root.join("missing")], None).is_err(), "missing", || "a missing directory is accepted".into());
        for c in 1..4 {
            let path = TagPath::from_path(A).unwrap();
            let (want, fs) = w.write(A, &files[c], 0);
            let mut t = AtomicTagTree::new(tree.clone());
            let got = guard(|| t.write_tag(&path, &content(c)));
            let now = snapshot(&root);
            match got { Ok(g) => { let g = g.ok(); cx.check(g == want && (now == fs || want.is_none()), "written", || format!("atomic {c}: {g:?} instead of {want:?}")); } Err(p) => cx.fail("panic", p) }
            sync(&root, &now, &w.fs);
        }
        cx.state(&i); cx.validated_n(7);
        std::fs::remove_dir_all(&root).unwrap();
    });
    // listing: all triples of names, in either or both of two directories
    let items: Vec<(usize, usize)> = (0..NAMES.len()).flat_map(|n| (1..4).map(move |p| (n, p))).collect();
    let items = &items;
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    let n = items.len();
    for i in 0..n { sets.push(vec![i]); for j in i + 1..n { if items[j].0 == items[i].0 { continue } sets.push(vec![i, j]); if !ck.quick() || (items[i].1 * 3 + items[j].1) % 4 != 0 { for k in j + 1..n { if items[k].0 != items[j].0 && (!ck.quick() || items[k].1 != 3 || items[i].0 % 3 == 0) { sets.push(vec![i, j, k]) } } } } }
    ck.items("listing", &sets, |s| s.iter().map(|i| format!("{}@{}", NAMES[items[*i].0].0, items[*i].1)).collect::<Vec<_>>().join(" "), |s, cx| {
        let root = case_dir("p10l");
        let mut made = Fs::new();
        let mut want = BTreeSet::new();
        for t in ["t0", "t1"] { std::fs::create_dir(root.join(t)).unwrap(); }
        for i in s {
            let (n, at) = items[*i];
            let (name, tag) = NAMES[n];
            for (k, t) in ["t0", "t1"].iter().enumerate() {
                if at >> k & 1 == 0 { continue }
                use std::os::unix::ffi::OsStrExt;
                if name.starts_with("raw") { std::fs::write(root.join(t).join(std::ffi::OsStr::from_bytes(b"\xff\xfe.string_list")), b"x").unwrap(); continue }
                let p = format!("{t}/{name}");
                // not possible together with another
                if let Some(d) = p.strip_suffix('/') { if made.get(d).is_some_and(|n| *n != Node::Dir) { continue } put(&mut made, d, Node::Dir); std::fs::create_dir_all(root.join(d)).unwrap(); continue }
                if made.get(&p) == Some(&Node::Dir) { continue }
                let parent = p.rsplit_once('/').unwrap().0;
                if matches!(made.get(parent), Some(Node::File(_))) { continue }
                put(&mut made, &p, Node::File(files[1].clone()));
                std::fs::create_dir_all(root.join(parent)).unwrap();
                std::fs::write(root.join(&p), &files[1]).unwrap();
                if let Some(t) = tag { want.insert(t.to_string()); }
            }
        }
        cx.step();
        let tree = VirtualTagsDirectory::new(&[root.join("t0"), root.join("t1")], None).unwrap();
        match guard(|| tree.get_all_tags_with_filter(None)) {
            Ok(l) => {
                list_check("directories", cx, l.clone(), &want);
                for p in &l { let right = p.group() == TagGroup::StringList; let r = guard(|| tree.open_tag_copy(p).is_ok()); cx.check(tree.contains(p) && r == Ok(right), "listed", || format!("{p} holds a string list, opening it: {r:?}")); }
            }
            Err(p) => cx.fail("panic", p),
        }
        // walking by hand gives the same
        fn walk(i: &TagTreeItem, out: &mut Vec<TagPath>) { if let Some(p) = i.tag_path() { out.push(p); assert!(i.is_tag() && i.files().is_none() && i.tag_group().is_some()) } for f in i.files().unwrap_or_default() { walk(&f, out) } }
        match guard(|| { let mut v = vec![]; walk(&tree.root(), &mut v); v }) { Ok(v) => list_check("walk", cx, v, &want), Err(p) => cx.fail("panic", p) }
        cx.state(s); cx.validated();
        std::fs::remove_dir_all(&root).unwrap();
    });
    ck.finish()
}
