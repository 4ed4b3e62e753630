//! P11: cached tag trees: all histories up to a depth, and every reachable state x every operation, against a model.
use mc::*;
use ringhopper::definitions::{StringList, StringListString};
use ringhopper::primitives::error::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::tree::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

type Shared = Arc<Mutex<Box<dyn PrimaryTagStructDyn>>>;
fn content(n: u8) -> StringList {
    let mut t = StringList::default();
    t.strings.items.push(StringListString { string: Data::new(vec![n]), ..Default::default() });
    t
}
fn value(t: &dyn PrimaryTagStructDyn) -> u8 { t.get_ref::<StringList>().unwrap().strings.items[0].string.bytes[0] }
fn path(t: usize) -> TagPath { TagPath::from_path(["x.string_list", "d\\y.string_list", "z.bitmap"][t]).unwrap() }

/// A tree in memory which can be told to fail.
#[derive(Default)]
struct Mock { tags: HashMap<TagPath, u8>, fail: HashSet<TagPath> }
impl TagTree for Mock {
    fn open_tag_copy(&self, p: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> { self.tags.get(p).map(|c| Box::new(content(*c)) as Box<dyn PrimaryTagStructDyn>).ok_or_else(|| Error::TagNotFound(p.clone())) }
    fn files_in_path(&self, _: &str) -> Option<Vec<TagTreeItem<'_>>> { None }
    fn write_tag(&mut self, p: &TagPath, t: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> {
        if self.fail.contains(p) { return Err(Error::FailedToWriteFile(PathBuf::from("mock"), std::io::Error::other("mock"))) }
        Ok(self.tags.insert(p.clone(), value(t)) != Some(value(t)))
    }
    fn is_read_only(&self) -> bool { false }
    fn contains(&self, p: &TagPath) -> bool { self.tags.contains_key(p) }
    fn root(&self) -> TagTreeItem<'_> { TagTreeItem::new(TagTreeItemType::Directory, Default::default(), None, self) }
    fn tree_type(&self) -> TreeType { TreeType::CacheFile }
    fn get_all_tags_with_filter(&self, f: Option<&TagFilter>) -> Vec<TagPath> { let mut v: Vec<TagPath> = self.tags.keys().filter(|p| f.is_none_or(|f| f.passes(p))).cloned().collect(); v.sort(); v }
}

/// What the tree below is.
trait Below: TagTree { fn peek(&self, t: usize) -> Option<u8>; fn set(&mut self, t: usize, c: Option<u8>); fn toggle(&mut self, t: usize); }
impl Below for Mock {
    fn peek(&self, t: usize) -> Option<u8> { self.tags.get(&path(t)).copied() }
    fn set(&mut self, t: usize, c: Option<u8>) { match c { Some(c) => { self.tags.insert(path(t), c); } None => { self.tags.remove(&path(t)); } } }
    fn toggle(&mut self, t: usize) { if !self.fail.remove(&path(t)) { self.fail.insert(path(t)); } }
}
impl Below for VirtualTagsDirectory {
    fn peek(&self, t: usize) -> Option<u8> { self.open_tag_copy(&path(t)).ok().map(|t| value(t.as_ref())) }
    fn set(&mut self, t: usize, c: Option<u8>) {
        let p = self.get_directory(0).unwrap().join(path(t).to_native_path());
        match c { Some(c) => { std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(p, content(c).to_tag_file().unwrap()).unwrap() } None => { let _ = std::fs::remove_file(p); } }
    }
    fn toggle(&mut self, _: usize) {}
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
enum Op { Shared(usize), Copy(usize), Edit(usize, u8), Drop(usize), Write(usize, u8), Commit(usize), CommitAll, Evict(usize), Outside(usize, u8), Remove(usize), Toggle(usize) }
use Op::*;
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, Default)]
enum Handle { #[default] None, Attached, Detached(u8) }
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Model { below: [Option<u8>; 2], fail: [bool; 2], cache: [Option<u8>; 2], handle: [Handle; 2] }
#[derive(Clone, Debug, PartialEq, Eq)]
enum Out { Unit, Value(u8), NoValue, Saved(bool), NotFound, Failed, Errors(Vec<usize>) }

impl Model {
    fn detach(&mut self, t: usize) { if self.handle[t] == Handle::Attached { self.handle[t] = Handle::Detached(self.cache[t].unwrap()) } }
    fn commit(&mut self, t: usize) -> Out {
        let Some(c) = self.cache[t] else { return Out::NotFound };
        if self.fail[t] { return Out::Failed }
        let saved = self.below[t] != Some(c);
        self.below[t] = Some(c);
        Out::Saved(saved)
    }
    fn apply(&mut self, op: Op, instant: bool) -> Out {
        match op {
            Shared(t) | Copy(t) => {
                if self.cache[t].is_none() { if self.below[t].is_none() { return Out::NotFound } self.cache[t] = self.below[t]; self.detach(t) }
                if let Shared(_) = op { self.handle[t] = Handle::Attached }
                Out::Value(self.cache[t].unwrap())
            }
            Edit(t, c) => { match self.handle[t] { Handle::Attached => self.cache[t] = Some(c), Handle::Detached(_) => self.handle[t] = Handle::Detached(c), _ => () } Out::Unit }
            Drop(t) => { self.handle[t] = Handle::None; Out::Unit }
            Write(t, c) => {
                let mut out = Out::Saved(true);
                if instant { if self.fail[t] { return Out::Failed } out = Out::Saved(self.below[t] != Some(c)); self.below[t] = Some(c) }
                self.detach(t); self.cache[t] = Some(c);
                out
            }
            Commit(t) => self.commit(t),
            CommitAll => Out::Errors((0..2).filter(|t| self.commit(*t) == Out::Failed).collect()),
            Evict(t) => { self.detach(t); match self.cache[t].take() { Some(c) => Out::Value(c), None => Out::NoValue } }
            Outside(t, c) => { self.below[t] = Some(c); Out::Unit }
            Remove(t) => { self.below[t] = None; Out::Unit }
            Toggle(t) => { self.fail[t] ^= true; Out::Unit }
        }
    }
}

struct Real<T: Below> { tree: CachingTagTree<T>, handle: [Option<Shared>; 2] }
impl<T: Below> Real<T> {
    fn new(below: T, instant: bool) -> Self { Real { tree: CachingTagTree::new(below, if instant { CachingTagTreeWriteStrategy::Instant } else { CachingTagTreeWriteStrategy::Manual }), handle: [None, None] } }
    fn apply(&mut self, op: Op) -> Out {
        let v = |s: &Shared| value(s.lock().unwrap().as_ref());
        let saved = |r: RinghopperResult<bool>| match r { Ok(b) => Out::Saved(b), Err(Error::TagNotFound(_)) => Out::NotFound, Err(_) => Out::Failed };
        match op {
            Shared(t) => match self.tree.open_tag_shared(&path(t)) { Ok(s) => { let o = Out::Value(v(&s)); self.handle[t] = Some(s); o } Err(Error::TagNotFound(_)) => Out::NotFound, Err(_) => Out::Failed },
            Copy(t) => match self.tree.open_tag_copy(&path(t)) { Ok(mut s) => { let o = Out::Value(value(s.as_ref())); *s.as_mut_dynamic().as_any_mut().downcast_mut::<StringList>().unwrap() = content(77); o } Err(Error::TagNotFound(_)) => Out::NotFound, Err(_) => Out::Failed },
            Edit(t, c) => { if let Some(h) = &self.handle[t] { *h.lock().unwrap().as_mut_dynamic().as_any_mut().downcast_mut::<StringList>().unwrap() = content(c) } Out::Unit }
            Drop(t) => { self.handle[t] = None; Out::Unit }
            Write(t, c) => saved(self.tree.write_tag(&path(t), &content(c))),
            Commit(t) => saved(self.tree.commit(&path(t))),
            CommitAll => { let mut e: Vec<usize> = self.tree.commit_all().iter().map(|(p, _)| (0..3).find(|t| path(*t) == *p).unwrap()).collect(); e.sort(); Out::Errors(e) }
            Evict(t) => match self.tree.evict(&path(t)) { Some(b) => Out::Value(value(b.as_ref())), None => Out::NoValue },
            Outside(t, c) => { self.tree.inner_mut().set(t, Some(c)); Out::Unit }
            Remove(t) => { self.tree.inner_mut().set(t, None); Out::Unit }
            Toggle(t) => { self.tree.inner_mut().toggle(t); Out::Unit }
        }
    }
    /// Everything that can be seen without changing anything.
    fn observe(&mut self, m: &Model) -> Option<String> {
        for t in 0..2 {
            let below = self.tree.inner().peek(t);
            if below != m.below[t] { return Some(format!("below, tag {t} is {below:?} instead of {:?}", m.below[t])) }
            let cached = self.tree.get(&path(t));
            let c = cached.as_ref().map(|s| value(s.lock().unwrap().as_ref()));
            if c != m.cache[t] { return Some(format!("cached, tag {t} is {c:?} instead of {:?}", m.cache[t])) }
            let h = self.handle[t].as_ref().map(|s| value(s.lock().unwrap().as_ref()));
            let attached = matches!((&cached, &self.handle[t]), (Some(a), Some(b)) if Arc::ptr_eq(a, b));
            let ok = match m.handle[t] { Handle::None => h.is_none(), Handle::Attached => attached && h == c, Handle::Detached(d) => !attached && h == Some(d) };
            if !ok { return Some(format!("the handle of tag {t} holds {h:?}, attached: {attached}, instead of {:?}", m.handle[t])) }
            let has = self.tree.contains(&path(t));
            if has != (c.is_some() || below.is_some()) { return Some(format!("contains says {has} of tag {t}, cached {c:?}, below {below:?}")) }
        }
        if self.tree.contains(&path(2)) || self.tree.get(&path(2)).is_some() || self.tree.open_tag_copy(&path(2)).is_ok() { return Some("a tag which was never there is".into()) }
        None
    }
}
fn run<T: Below>(real: &mut Real<T>, m: &mut Model, op: Op, instant: bool, history: &dyn Fn() -> String, cx: &mut Cx) -> bool {
    let before = *m;
    let want = m.apply(op, instant);
    cx.step();
    match guard(|| { let got = real.apply(op); (got, real.observe(m)) }) {
        Ok((got, seen)) => {
            if got != want { cx.fail("result", format!("{}: {op:?} gives {got:?} instead of {want:?} in {before:?}", history())); return false }
            if let Some(s) = seen { cx.fail("state", format!("{}: after {op:?}: {s}", history())); return false }
            true
        }
        Err(p) => { cx.fail("panic", format!("{}: {op:?}: {p}", history())); false }
    }
}

fn main() {
    let mut ck = Check::new("P11");
    let all: Vec<Op> = (0..2).flat_map(|t| [Shared(t), Copy(t), Edit(t, 1), Edit(t, 2), Drop(t), Write(t, 1), Write(t, 2), Commit(t), Evict(t), Outside(t, 1), Outside(t, 2), Remove(t), Toggle(t)]).chain([CommitAll]).collect();
    let ops = &all;
    let n = ops.len();
    for instant in [true, false] {
        let name = if instant { "instant" } else { "manual" };
        // the reachable states of the model, each with a shortest history; every operation in each on the real thing
        let mut seen: HashMap<Model, Vec<usize>> = HashMap::new(); let mut queue = VecDeque::new();
        seen.insert(Model::default(), vec![]); queue.push_back(Model::default());
        while let Some(m) = queue.pop_front() {
            let h = seen[&m].clone();
            for (i, op) in ops.iter().enumerate() { let mut k = m; k.apply(*op, instant); if !seen.contains_key(&k) { let mut h = h.clone(); h.push(i); seen.insert(k, h); queue.push_back(k) } }
        }
        let mut hs: Vec<Vec<usize>> = seen.into_values().collect(); hs.sort_by_key(|h| (h.len(), h.clone()));
        let two = !ck.quick();
        ck.items(&format!("{name}-states"), &hs, |h| format!("{:?}", h.iter().map(|i| ops[*i]).collect::<Vec<_>>()), |h, cx| {
            for op in ops { for last in ops.iter().map(Some).take(if two { n } else { 1 }) {
                let mut real = Real::new(Mock::default(), instant); let mut m = Model::default();
                for i in h { m.apply(ops[*i], instant); if let Err(p) = guard(|| real.apply(ops[*i])) { cx.fail("panic", p); return } }
                cx.state(&(m, op, instant));
                if run(&mut real, &mut m, *op, instant, &|| format!("{:?}", h.iter().map(|i| ops[*i]).collect::<Vec<_>>()), cx) { if let (true, Some(l)) = (two, last) { run(&mut real, &mut m, *l, instant, &|| format!("{:?} {op:?}", h.iter().map(|i| ops[*i]).collect::<Vec<_>>()), cx); } }
                cx.validated();
            } }
        });
        // all histories, the first tag touched being the first one
        let depth = ck.pick(4usize, 5);
        ck.family(&format!("{name}-histories"), n * n, |i| format!("{:?} {:?}", ops[i / n], ops[i % n]), |i, cx| {
            let first = [i / n, i % n];
            let second = |o: &Op| matches!(o, Shared(1) | Copy(1) | Edit(1, _) | Drop(1) | Write(1, _) | Commit(1) | Evict(1) | Outside(1, _) | Remove(1) | Toggle(1));
            if second(&ops[first[0]]) || ops[first[0]] == CommitAll && second(&ops[first[1]]) { return }
            for k in 0..n.pow(depth as u32 - 2) {
                let h: Vec<usize> = first.into_iter().chain(digits(k, &vec![n; depth - 2])).collect();
                let mut real = Real::new(Mock::default(), instant); let mut m = Model::default();
                for (at, o) in h.iter().enumerate() {
                    if !run(&mut real, &mut m, ops[*o], instant, &|| format!("{:?}", h[..at].iter().map(|i| ops[*i]).collect::<Vec<_>>()), cx) { return }
                    if at + 1 == h.len() { cx.state(&m) }
                }
                cx.validated();
            }
        });
        // over a real directory
        let real_ops: Vec<Op> = (0..2).flat_map(|t| [Shared(t), Copy(t), Edit(t, 2), Write(t, 1), Write(t, 2), Commit(t), Evict(t), Remove(t)]).chain([CommitAll]).collect();
        let ops = &real_ops; let n = ops.len();
        let depth = ck.pick(3usize, 4);
        ck.family(&format!("{name}-directory"), n.pow(depth as u32) * 4, |i| format!("{:?}", digits(i / 4, &vec![n; depth]).iter().map(|i| ops[*i]).chain([Outside(0, i as u8 % 4)]).collect::<Vec<_>>()), |i, cx| {
            let root = case_dir("p11");
            let mut below = VirtualTagsDirectory::new(&[&root], None).unwrap(); let mut m = Model::default();
            if i % 2 == 1 { below.set(0, Some(1)); m.below[0] = Some(1) }
            if i / 2 % 2 == 1 { below.set(1, Some(1)); m.below[1] = Some(1) }
            let mut real = Real::new(below, instant);
            let h = digits(i / 4, &vec![n; depth]);
            for (at, o) in h.iter().enumerate() { if !run(&mut real, &mut m, ops[*o], instant, &|| format!("{:?}", h[..at].iter().map(|i| ops[*i]).collect::<Vec<_>>()), cx) { break } cx.state(&m) }
            // what is below is what the cache is taken off
            if let Ok(b) = guard(move || { let Real { tree, .. } = real; tree.into_inner() }) { for t in 0..2 { cx.eq("inner", b.peek(t), m.below[t]); } }
            cx.validated();
            std::fs::remove_dir_all(&root).unwrap();
        });
        // the rest is what the tree below says
        ck.family(&format!("{name}-rest"), 16, |i| format!("{i}"), |i, cx| {
            let mut b = Mock::default();
            for t in 0..2 { let c = i >> (2 * t) & 3; if c & 1 != 0 { b.set(t, Some(1)) } }
            let mut c = Real::new(b, instant);
            for t in 0..2 { if i >> (2 * t) & 2 != 0 { let _ = c.tree.open_tag_copy(&path(t)); } }
            cx.step();
            for f in [None, Some(TagFilter::new("x*", None))] { let (a, b) = (c.tree.get_all_tags_with_filter(f.as_ref()), c.tree.inner().get_all_tags_with_filter(f.as_ref())); cx.eq("list", a, b); }
            cx.check(matches!(c.tree.tree_type(), TreeType::CacheFile) && c.tree.root().is_directory() && c.tree.files_in_path("").is_none(), "delegates", String::new);
            cx.check(c.tree.is_read_only() == !instant, "read-only", String::new);
            cx.state(&i); cx.validated();
        });
    }
    ck.finish()
}
