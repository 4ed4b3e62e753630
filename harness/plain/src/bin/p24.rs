//! P24: comparing tags: every single change, neighbouring pairs of changes and pairs of array shapes, against the set of
//! changed places. needs: invader-mc
use mc::fsmap::write_files;
use mc::inv::invader;
use mc::refser::*;
use mc::*;
use ringhopper::definitions::read_any_tag_from_file_buffer;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::compare::compare_tags;
use std::collections::{BTreeMap, BTreeSet};

type Tag = Box<dyn PrimaryTagStructDyn>;
struct Place { path: Path, ty: Ty, dead: bool }

/// Everywhere something can differ.
fn places(strukt: &str, v: &Val) -> Vec<Place> {
    fn go(strukt: &str, v: &Val, path: &mut Path, dead: bool, out: &mut Vec<Place>) {
        let Val::Struct(fs) = v else { panic!() };
        for (f, v) in spec().structs[strukt].fields.iter().zip(fs) {
            if f.exclude { continue }
            let dead = dead || f.cache_only;
            path.push(Step::F(f.sname));
            let mut one = |v: &Val, path: &mut Path| {
                match (&f.ty, v) {
                    (Ty::Struct(s), v) => return go(s, v, path, dead, out),
                    (Ty::Refl(s), Val::Refl(l)) => for (i, v) in l.iter().enumerate() { path.push(Step::I(i)); go(s, v, path, dead, out); path.pop(); },
                    _ => (),
                }
                out.push(Place { path: path.clone(), ty: f.ty.clone(), dead });
            };
            match (f.many, v) {
                (Many::One, v) => one(v, path),
                (m, Val::Many(l)) => for (i, v) in l.iter().enumerate() { path.push(if m == Many::Bounds { Step::F(["lower", "upper"][i]) } else { Step::I(i) }); one(v, path); path.pop(); },
                _ => panic!(),
            }
            path.pop();
        }
    }
    let mut out = vec![];
    go(strukt, v, &mut vec![], false, &mut out);
    out
}

fn tree(group: &str, n: usize) -> Val { let st = &spec().groups[group].strukt; canonical(st, &generate(st, &mut vec![], &mut Distinct::new(n))) }
fn file(group: &str, v: &Val) -> Vec<u8> { tag_file(group, &serialize(&spec().groups[group].strukt, v, None)) }
fn parse(f: &[u8]) -> Tag { read_any_tag_from_file_buffer(f, ParseStrictness::Strict).unwrap() }

/// Remove all elements of an array.
fn clear(strukt: &str, v: &mut Val, path: &[Step]) {
    let (mut v, mut st) = (v, strukt.to_string());
    
    for s in path { match s {
        Step::F("lower") if matches!(v, Val::Many(_)) => v = match v { Val::Many(l) => &mut l[0], _ => panic!() },
        Step::F("upper") if matches!(v, Val::Many(_)) => v = match v { Val::Many(l) => &mut l[1], _ => panic!() },
        Step::F(name) => { let i = spec().structs[&st].fields.iter().position(|f| f.name == *name).unwrap(); let field = &spec().structs[&st].fields[i]; v = match v { Val::Struct(l) => &mut l[i], _ => panic!() }; if let Ty::Struct(s) | Ty::Refl(s) = &field.ty { st = s.clone() } }
        Step::I(i) => v = match v { Val::Many(l) | Val::Refl(l) => &mut l[*i], _ => panic!() },
    } }
    match v { Val::Refl(l) => l.clear(), v => panic!("{v:?}") }
}
fn words_equal(ty: &Ty, a: &[u8], b: &[u8]) -> bool {
    match ty {
        Ty::Prim(t) if is_float(t) => a.chunks(4).zip(b.chunks(4)).all(|(a, b)| { let (a, b) = (f32::from_bits(u32::from_be_bytes(a.try_into().unwrap())), f32::from_bits(u32::from_be_bytes(b.try_into().unwrap()))); a == b || a.is_nan() && b.is_nan() }),
        _ => a == b,
    }
}
/// The paths which differ if a leaf has these two values.
fn leaf_diff(p: &Place, a: &[u8], b: &[u8]) -> Vec<(String, bool)> {
    let s = path_str(&p.path);
    match &p.ty {
        Ty::Bits(n) => {
            let word = |b: &[u8]| { let mut f = [0; 8]; f[8 - b.len()..].copy_from_slice(b); u64::from_be_bytes(f) };
            let x = word(a) ^ word(b);
            spec().bits[n].fields.iter().enumerate().filter(|(i, o)| !o.exclude && x >> i & 1 == 1).map(|(_, o)| (format!("{s}.{}", o.name), p.dead || o.cache_only)).collect()
        }
        t => if words_equal(t, a, b) { vec![] } else { vec![(s, p.dead)] },
    }
}

/// Compare in every mode, and check what is reported against what was changed (path, only in caches).
fn judge(a: &Tag, b: &Tag, want: &BTreeMap<String, bool>, what: &dyn Fn() -> String, cx: &mut Cx) {
    for raw in [false, true] {
        let expected: BTreeSet<&String> = want.iter().filter(|w| raw || !w.1).map(|w| w.0).collect();
        for swap in [false, true] {
            let (x, y) = if swap { (b, a) } else { (a, b) };
            for brief in [false, true] {
                cx.step();
                let got = match guard(|| compare_tags(x.as_ref(), y.as_ref(), raw, brief)) { Ok(g) => g, Err(p) => { cx.fail("panic", format!("{}: {p}", what())); return } };
                cx.validated();
                let paths: BTreeSet<&String> = got.iter().map(|d| &d.path).collect();
                if !cx.check(paths.len() == got.len(), "twice", || format!("{}: {:?} (raw {raw})", what(), got.iter().map(|d| &d.path).collect::<Vec<_>>())) { return }
                if !brief {
                    if !cx.check(paths == expected, "paths", || format!("{}: {paths:?} instead of {expected:?} (raw {raw}, swapped {swap})", what())) { return }
                    for d in &got { cx.check(d.depth == d.path.bytes().filter(|c| *c == b'.' || *c == b'[').count() + 1, "depth", || format!("{}: {} at depth {}", what(), d.path, d.depth)); }
                } else {
                    let under = |p: &str, q: &str| q.starts_with(p) && matches!(q.as_bytes().get(p.len()), Some(b'.' | b'['));
                    let ok = expected.iter().all(|e| paths.contains(e) || paths.iter().any(|p| under(p, e))) && paths.iter().all(|p| (expected.contains(p) || expected.iter().filter(|e| under(p, e) ).count() + expected.contains(p) as usize >= 2) && !paths.iter().any(|q| under(q, p) && !expected.contains(q)));
                    if !cx.check(ok, "brief", || format!("{}: {paths:?} for {expected:?} (raw {raw}, swapped {swap})", what())) { return }
                }
            }
        }
    }
}

/// All ways a place can change: a label, and whether it could be done.
enum Edit { Leaf(Vec<u8>), Push, PushCopy, Data(Vec<u8>), Ref(TagReference) }
fn edits(p: &Place, tag: &Tag, all: bool) -> Option<Vec<Edit>> {
    let d = get(tag.as_dynamic(), &p.path)?;
    Some(match &p.ty {
        Ty::Refl(_) => if d.as_array()?.len() > 0 { vec![Edit::Push, Edit::PushCopy] } else { vec![Edit::Push] },
        Ty::Data(_) => {
            let old = data_of(d)?;
            let mut v = vec![vec![], [&old[..], &[0]].concat(), [&[0], &old[..]].concat(), old[..old.len().saturating_sub(1)].to_vec()];
            for i in [0, old.len() / 2, old.len().wrapping_sub(1)] { if i < old.len() { let mut n = old.clone(); n[i] ^= if all { 0x80 } else { 1 }; v.push(n) } }
            if old.len() > 1 { let mut n = old.clone(); n.reverse(); v.push(n) }
            v.into_iter().map(Edit::Data).collect()
        }
        Ty::Ref { .. } => {
            let old: &TagReference = d.as_any().downcast_ref()?;
            let g = old.group();
            let other = if g == TagGroup::Bitmap { TagGroup::Sound } else { TagGroup::Bitmap };
            let mut v = vec![TagReference::Null(g), TagReference::Null(other), TagReference::Set(TagPath::new("x\\y", g).ok()?), TagReference::Set(TagPath::new("x\\y", other).ok()?)];
            if let TagReference::Set(p) = old { v.push(TagReference::Set(TagPath::new(p.path(), other).ok()?)); v.push(TagReference::Set(TagPath::new(&format!("{}x", p.path()), g).ok()?)); }
            v.into_iter().map(Edit::Ref).collect()
        }
        t => {
            let old = leaf_bytes(d, t)?;
            let mut v = domain(t);
            if let Ty::Prim(_) = t { let w = t.word(); if old.len() > w && w > 1 { for i in 0..old.len() / w { for to in [0x3f123456u32, 0x7fc00000] { let mut n = old.clone(); n[i * w..i * w + w].copy_from_slice(&to.to_be_bytes()[..w]); v.push(n) } } } }
            if let Ty::Prim(n) = t { if n == "String32" { let mut n = old.clone(); n[1] ^= 0x10; v.push(n); } }
            v.into_iter().map(Edit::Leaf).collect()
        }
    })
}
fn data_of(d: &dyn DynamicTagData) -> Option<Vec<u8>> {
    let a = d.as_any();
    a.downcast_ref::<Data>().map(|d| d.bytes.clone()).or_else(|| a.downcast_ref::<FileData>().map(|d| d.bytes.clone())).or_else(|| a.downcast_ref::<BSPVertexData>().map(|d| d.bytes.clone())).or_else(|| a.downcast_ref::<UTF16String>().map(|s| s.to_string().into_bytes()))
}
fn raw_of(d: &dyn DynamicTagData) -> Option<Vec<u8>> { d.as_any().downcast_ref::<UTF16String>().map(|s| s.get_utf16_bytes().to_vec()).or_else(|| data_of(d)) }
fn data_set(d: &mut dyn DynamicTagData, b: &[u8]) -> Option<()> {
    let a = d.as_any_mut();
    if let Some(d) = a.downcast_mut::<Data>() { d.bytes = b.to_vec() } else if let Some(d) = a.downcast_mut::<FileData>() { d.bytes = b.to_vec() } else if let Some(d) = a.downcast_mut::<BSPVertexData>() { d.bytes = b.to_vec() }
    else if let Some(s) = a.downcast_mut::<UTF16String>() { *s = UTF16String::from_str(std::str::from_utf8(b).ok()?) } else { return None }
    Some(())
}
use ringhopper::primitives::dynamic::DynamicTagData;
/// Make the change; what differs because of it.
fn apply(p: &Place, e: &Edit, tag: &mut Tag, base: &Tag) -> Option<Vec<(String, bool)>> {
    let d = get_mut(tag.as_mut_dynamic(), &p.path)?;
    let here = |yes: bool| if yes { vec![(path_str(&p.path), p.dead)] } else { vec![] };
    Some(match e {
        Edit::Leaf(b) => { let old = leaf_bytes(d, &p.ty)?; leaf_set(d, &p.ty, b)?; leaf_diff(p, &old, b) }
        Edit::Push => { let r = d.as_reflexive_mut()?; let n = r.len(); r.insert_default(n); here(true) }
        Edit::PushCopy => { let r = d.as_reflexive_mut()?; let n = r.len(); r.insert_copy(n, get(base.as_dynamic(), &p.path)?.as_array()?.get_at_index(0)?); here(true) }
        Edit::Data(b) => { let old = raw_of(d)?; data_set(d, b)?; let new = raw_of(d)?; here(old != new) }
        Edit::Ref(to) => { let r = d.as_any_mut().downcast_mut::<TagReference>()?; let old = std::mem::replace(r, to.clone()); here(old != *to) }
    })
}
fn undo(p: &Place, from: &Tag, to: &mut Tag) -> Option<()> {
    let d = get(from.as_dynamic(), &p.path)?;
    let t = get_mut(to.as_mut_dynamic(), &p.path)?;
    match &p.ty {
        Ty::Data(n) if n == "UTF16String" => return None,
        Ty::Data(_) => data_set(t, &data_of(d)?)?,
        Ty::Ref { .. } => *t.as_any_mut().downcast_mut::<TagReference>()? = d.as_any().downcast_ref::<TagReference>()?.clone(),
        Ty::Refl(_) => return None,
        ty => leaf_set(t, ty, &leaf_bytes(d, ty)?)?,
    }
    Some(())
}

fn main() {
    let mut ck = Check::new("P24");
    ck.assume("numbers are equal if they are as the 32-bit numbers which are stored; not-a-number is equal to not-a-number and negative zero to zero");
    let groups: Vec<&str> = spec().groups.keys().map(|s| s.as_str()).collect();
    let count = ck.pick(2, 4);
    let bases: Vec<(Val, Vec<u8>, Vec<Place>)> = groups.iter().map(|g| { let v = tree(g, count); let f = file(g, &v); let p = places(&spec().groups[*g].strukt, &v); (v, f, p) }).collect();
    let all = !ck.quick();

    let chunks: Vec<(usize, usize, usize)> = (0..groups.len()).flat_map(|g| { let n = bases[g].2.len(); (0..n.div_ceil(40)).map(move |i| (g, i * 40, (i * 40 + 40).min(n))) }).collect();
    // one change, and two neighbouring ones
    ck.items("changes", &chunks, |(g, a, b)| format!("{} {a}..{b}", groups[*g]), |(g, a, b), cx| {
        let (_, f, ps) = &bases[*g];
        let first = parse(f);
        let mut second = parse(f);
        judge(&first, &second, &BTreeMap::new(), &|| "nothing".into(), cx);
        for i in *a..*b {
            let p = &ps[i];
            let Some(es) = edits(p, &first, all) else { cx.fail("edit", format!("{} cannot be reached", path_str(&p.path))); return };
            for (k, e) in es.iter().enumerate() {
                cx.state((g, i, k));
                let Some(d) = apply(p, e, &mut second, &first) else { continue };
                judge(&first, &second, &d.iter().cloned().collect(), &|| format!("{} change {k}", path_str(&p.path)), cx);
                // the same on both sides is no difference
                if k % 4 == 0 || matches!(e, Edit::Leaf(_)) && all { let mut third = parse(f); if apply(p, e, &mut third, &first).is_some() { judge(&third, &second, &BTreeMap::new(), &|| format!("{} change {k} on both sides", path_str(&p.path)), cx); } }
                // and one more
                if k < 2 { for j in [i + 1, i + 7] { if let Some(q) = ps.get(j) {
                    // changes within something already changed are not told apart
                    if q.path.starts_with(&p.path) || p.path.starts_with(&q.path) { continue }
                    if let Some(es) = edits(q, &second, false) { if let Some(e) = es.last() {
                        let mut d = d.clone();
                        if matches!(e, Edit::Push | Edit::PushCopy) { continue }
                        if matches!(&q.ty, Ty::Data(n) if n == "UTF16String") { continue }
                        if let Some(more) = apply(q, e, &mut second, &first) {
                            d.extend(more);
                            judge(&first, &second, &d.into_iter().collect(), &|| format!("{} change {k} with {}", path_str(&p.path), path_str(&q.path)), cx);
                        }
                        undo(q, &first, &mut second);
                    } }
                } } }
                if undo(p, &first, &mut second).is_none() { second = parse(f) }
                if cx.failed() { return }
            }
        }
        judge(&first, &second, &BTreeMap::new(), &|| "everything undone".into(), cx);
    });

    // arrays of every pair of lengths, with every subset of the common elements different
    let bases: Vec<(Val, Vec<u8>, Vec<Place>)> = groups.iter().map(|g| { let v = tree(g, 1); let f = file(g, &v); let p = places(&spec().groups[*g].strukt, &v); (v, f, p) }).collect();
    let refls: Vec<(usize, Path)> = (0..groups.len()).flat_map(|g| bases[g].2.iter().filter(|p| matches!(p.ty, Ty::Refl(_)) && !p.dead).map(move |p| (g, p.path.clone()))).collect();
    let most = ck.pick(2usize, 3);
    ck.items("shapes", &refls, |(g, p)| format!("{} {}", groups[*g], path_str(p)), |(g, p), cx| {
        let f = &bases[*g].1;
        let inner = bases[*g].2.iter().find(|q| q.path.len() > p.len() && q.path.starts_with(p) && q.path[p.len()] == Step::I(0) && !q.dead && !matches!(q.ty, Ty::Refl(_)) && get(parse(f).as_dynamic(), &q.path).is_some());
        let build = |n: usize, changed: usize| -> Option<Tag> {
            let (mut t, base) = (parse(f), parse(f));
            if n == 0 { let mut v = bases[*g].0.clone(); clear(&spec().groups[groups[*g]].strukt, &mut v, p); return Some(parse(&file(groups[*g], &v))) }
            let d = get_mut(t.as_mut_dynamic(), p)?.as_reflexive_mut()?;
            while d.len() < n { let k = d.len(); d.insert_copy(k, get(base.as_dynamic(), p)?.as_array()?.get_at_index(0)?); }
            if let Some(q) = inner { for i in 0..n { if changed >> i & 1 == 1 {
                let mut path = q.path.clone(); path[p.len()] = Step::I(i);
                let at = Place { path, ty: q.ty.clone(), dead: false };
                let es = edits(&at, &t, false)?;
                let e = es.into_iter().find(|e| { let mut probe = parse(f); let zero = Place { path: q.path.clone(), ty: q.ty.clone(), dead: false }; apply(&zero, e, &mut probe, &base).is_some_and(|d| d.len() == 1) })?;
                apply(&at, &e, &mut t, &base)?;
            } } }
            Some(t)
        };
        for n in 0..=most { for m in n..=most { for changed in 0..1usize << n {
            if changed != 0 && inner.is_none() { continue }
            let (Some(a), Some(b)) = (build(n, 0), build(m, changed)) else { continue };
            let mut want = BTreeMap::new();
            if n != m { want.insert(path_str(p), false); }
            if let Some(q) = inner { for i in 0..n { if changed >> i & 1 == 1 {
                let mut path = q.path.clone(); path[p.len()] = Step::I(i);
                let (x, y) = (get(a.as_dynamic(), &path), get(b.as_dynamic(), &path));
                let at = Place { path: path.clone(), ty: q.ty.clone(), dead: false };
                match &q.ty { Ty::Data(_) | Ty::Ref { .. } => { want.insert(path_str(&path), false); } t => if let (Some(x), Some(y)) = (x.and_then(|x| leaf_bytes(x, t)), y.and_then(|y| leaf_bytes(y, t))) { want.extend(leaf_diff(&at, &x, &y)) } }
            } } }
            cx.state((g, p, n, m, changed));
            judge(&a, &b, &want, &|| format!("{} {n} and {m} elements, {changed:b} different", path_str(p)), cx);
        } } }
    });

    // numbers in memory are more precise than those which are stored
    ck.items("precision", &(0..groups.len()).collect::<Vec<_>>(), |g| groups[*g].into(), |g, cx| {
        let f = &bases[*g].1;
        let (a, mut b) = (parse(f), parse(f));
        let (mut want, mut n) = (BTreeMap::new(), 0);
        for (k, p) in bases[*g].2.iter().enumerate() { if let Some(d) = get_mut(b.as_mut_dynamic(), &p.path) { if let Some(v) = d.as_any_mut().downcast_mut::<f64>() {
            // every third by enough to be stored
            if k % 3 == 0 { *v = *v * 1.5 + 1.0; want.insert(path_str(&p.path), p.dead); } else { *v += *v * 1e-12; n += 1 }
        } } }
        for p in &bases[*g].2 { if let Some(d) = get_mut(b.as_mut_dynamic(), &p.path) {
            let d = d.as_any_mut();
            let tiny = |v: &mut f64| *v += *v * 1e-12;
            if let Some(v) = d.downcast_mut::<Vector2D>() { tiny(&mut v.x); tiny(&mut v.y) }
            else if let Some(v) = d.downcast_mut::<Vector3D>() { tiny(&mut v.x); tiny(&mut v.y); tiny(&mut v.z) }
            else if let Some(v) = d.downcast_mut::<Quaternion>() { tiny(&mut v.x); tiny(&mut v.y); tiny(&mut v.z); tiny(&mut v.w) }
            else if let Some(v) = d.downcast_mut::<Plane2D>() { tiny(&mut v.vector.x); tiny(&mut v.vector.y); tiny(&mut v.d) }
            else if let Some(v) = d.downcast_mut::<Plane3D>() { tiny(&mut v.vector.x); tiny(&mut v.vector.y); tiny(&mut v.vector.z); tiny(&mut v.d) }
            else if let Some(v) = d.downcast_mut::<ColorRGBFloat>() { tiny(&mut v.red); tiny(&mut v.green); tiny(&mut v.blue) }
            else if let Some(v) = d.downcast_mut::<ColorARGBFloat>() { tiny(&mut v.alpha); tiny(&mut v.red); tiny(&mut v.green); tiny(&mut v.blue) }
            else if let Some(m) = d.downcast_mut::<Matrix3x3>() { for v in &mut m.vectors { tiny(&mut v.x); tiny(&mut v.y); tiny(&mut v.z) } }
        } }
        cx.state((g, n));
        judge(&a, &b, &want, &|| "tiny differences".into(), cx);
    });

    // the command: every assignment of three contents to two tags in two places
    let sets: Vec<(usize, usize)> = (0..16).flat_map(|a| (0..16).map(move |b| (a, b))).filter(|(a, b)| all || (a * 16 + b) % 3 == 1).collect();
    ck.items("command", &sets, |(a, b)| format!("{a:02}-{b:02}"), |(a, b), cx| {
        let dir = case_dir("cmp");
        // the third content differs from the second only by a default
        let make = |c: usize| -> Option<Vec<u8>> {
            if c == 0 { return None }
            let mut t = ringhopper::definitions::LightVolume::default();
            if c == 1 { t.perpendicular_brightness_scale = 0.25 }
            if c == 3 { t.perpendicular_brightness_scale = 1.0; t.parallel_brightness_scale = 1.0 }
            ringhopper::definitions::LightVolume::to_tag_file(&t).ok()
        };
        let files = |n: usize| -> BTreeMap<String, Vec<u8>> { ["m.light_volume", "d/z.light_volume"].iter().enumerate().filter_map(|(i, p)| make(n >> (2 * i) & 3).map(|f| (p.to_string(), f))).collect() };
        let (fa, fb) = (files(*a), files(*b));
        std::fs::create_dir_all(dir.join("a")).unwrap(); std::fs::create_dir_all(dir.join("b")).unwrap();
        write_files(&dir.join("a"), &fa); write_files(&dir.join("b"), &fb);
        for raw in [false, true] { for show in ["all", "matched", "mismatched"] { for filter in ["*", "m*"] { for jobs in ["1", "2"] {
            let mut args = vec!["compare", "a", "b", "-s", show, "-f", filter, "-j", jobs];
            if raw { args.push("-r") }
            cx.step();
            let r = invader(&args, &dir, &[("MC_NOSCHED", "1".into())]);
            let mut want = vec![];
            let (mut same, mut total) = (0, 0);
            for (i, p) in ["m.light_volume", "d/z.light_volume"].iter().enumerate().rev() {
                let (x, y) = (a >> (2 * i) & 3, b >> (2 * i) & 3);
                if x == 0 || y == 0 || filter == "m*" && i == 1 { continue }
                total += 1;
                let eq = x == y || !raw && x.min(y) == 2;
                same += eq as usize;
                if eq && show != "mismatched" { want.push(format!("Matched: {p}")) }
                if !eq && show != "matched" { want.push(format!("Mismatched: {p}")) }
            }
            want.push(format!("Matched {same} / {total} tag{}", if total == 1 { "" } else { "s" }));
            let lines: Vec<String> = r.out.lines().chain(r.err.lines()).filter(|l| l.starts_with("Matched") || l.starts_with("Mismatched")).map(|s| s.to_string()).collect();
            cx.state((a, b, raw, show, filter));
            let none = total == 0 && fa.keys().filter(|k| filter == "*" || k.starts_with('m')).count() == 0;
            if !cx.check(lines == want && r.ok() || none && !r.panicked() && lines.iter().all(|l| l == &want[0]), "command", || format!("{args:?} of {:?} and {:?}: {lines:?} instead of {want:?}; {}", fa.keys(), fb.keys(), r.brief())) { return }
            cx.validated();
        } } } }
    });
    ck.finish();
}
