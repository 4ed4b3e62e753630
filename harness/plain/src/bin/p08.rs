//! P08: field selectors (`a.b[0-2,e].c`) against an independent evaluator.
use mc::refser::*;
use mc::*;
use ringhopper::definitions::read_any_tag_from_file_buffer;
use ringhopper::primitives::dynamic::*;
use ringhopper::primitives::tag::{ParseStrictness, PrimaryTagStructDyn};
use std::any::TypeId;

/// A visited place: where it is and what it is; None for an error.
type Visit = Option<(usize, TypeId)>;
fn place(d: &dyn DynamicTagData) -> Visit { Some((d as *const dyn DynamicTagData as *const u8 as usize, d.as_any().type_id())) }

fn number(s: &str, len: usize) -> Option<usize> {
    if s == "e" { return len.checked_sub(1) }
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) { return None }
    let mut v: u128 = 0;
    for b in s.bytes() { v = (v * 10 + (b - b'0') as u128).min(u64::MAX as u128 * 2) }
    if v < len as u128 { Some(v as usize) } else { None }
}
/// The elements a bracket names.
fn bracket(s: &str, len: usize) -> Option<Vec<usize>> {
    let mut on = vec![false; len];
    for part in s.split(',') {
        if part == "*" { on.iter_mut().for_each(|b| *b = true); continue }
        let (a, b) = match part.split_once('-') { Some((a, b)) => (number(a, len)?, number(b, len)?), None => { let n = number(part, len)?; (n, n) } };
        if a > b { return None }
        on[a..=b].iter_mut().for_each(|b| *b = true);
    }
    Some((0..len).filter(|i| on[*i]).collect())
}
/// What the selector visits. `loose` is set if the text is not well-formed but has an obvious meaning.
fn eval(d: &dyn DynamicTagData, s: &str, loose: &mut bool, out: &mut Vec<Visit>) {
    if s.is_empty() { out.push(place(d)); return }
    if let Some(r) = s.strip_prefix('[') {
        let (Some(a), Some((inside, rest))) = (d.as_array(), r.split_once(']')) else { out.push(None); return };
        let Some(list) = bracket(inside, a.len()) else { out.push(None); return };
        let next = match rest.strip_prefix('.') { Some(n) => { *loose |= n.is_empty(); n } None => { *loose |= !rest.is_empty() && !rest.starts_with('['); rest } };
        *loose |= next.starts_with('[') && next.len() != rest.len(); // "[0].[1]"
        for i in list { eval(a.get_at_index(i).expect("element in range"), next, loose, out) }
        return
    }
    let end = s.find(['.', '[']).unwrap_or(s.len());
    let rest = &s[end..];
    let next = match rest.strip_prefix('.') { Some(n) => { *loose |= n.is_empty() || n.starts_with('['); n } None => rest };
    match d.get_field(&s[..end]) { Some(f) if end > 0 => eval(f, next, loose, out), _ => out.push(None) }
}

/// Run one selector on the real code for reading and writing and compare.
fn selector(d: &mut dyn DynamicTagData, s: &str, want: &[Visit], loose: bool, cx: &mut Cx) -> bool {
    cx.steps(3); cx.validated();
    let r = guard(|| {
        let mut a = vec![]; (*d).foreach(s, |r| { a.push(r.ok().and_then(place)); true });
        let v = (*d).validate_matcher(s).is_ok();
        let mut b = vec![]; (*d).foreach_mut(s, |r| { b.push(r.ok().and_then(|d| place(d))); true });
        // stopping
        let mut k = 0; let stop = a.len() / 2 + 1; (*d).foreach(s, |_| { k += 1; k < stop });
        let mut j = 0; (*d).foreach_mut(s, |_| { j += 1; j < stop });
        (a, v, b, k, j, stop)
    });
    let (a, v, b, k, j, stop) = match r { Ok(r) => r, Err(p) => { cx.fail("panic", format!("{s}: {p}")); return false } };
    let refused = loose && a.iter().all(|v| v.is_none()) && !a.is_empty();
    let show = |v: &[Visit]| format!("{} places, {} errors", v.iter().filter(|v| v.is_some()).count(), v.iter().filter(|v| v.is_none()).count());
    let mut ok = cx.check(refused || a == want, "read", || format!("{s}: visits {} instead of {}", show(&a), show(want)));
    ok &= cx.check(b == a, "write", || format!("{s}: visits {} for writing and {} for reading", show(&b), show(&a)));
    ok &= cx.check(v == a.iter().all(|v| v.is_some()), "validate", || format!("{s}: validate_matcher says {v}, visits {}", show(&a)));
    ok &= cx.check(k == stop.min(a.len()) && j == k, "stop", || format!("{s}: told to stop after {stop}, visited {k} and {j}"));
    ok
}
fn modelled(d: &mut dyn DynamicTagData, s: &str, cx: &mut Cx) -> bool {
    let (mut want, mut loose) = (vec![], false);
    eval(d, s, &mut loose, &mut want);
    selector(d, s, &want, loose, cx)
}

fn tag(group: &str, count: usize) -> (Val, Box<dyn PrimaryTagStructDyn>) {
    let st = &spec().groups[group].strukt;
    let v = canonical(st, &generate(st, &mut vec![], &mut Distinct::new(count)));
    let t = read_any_tag_from_file_buffer(&tag_file(group, &serialize(st, &v, None)), ParseStrictness::Strict).unwrap();
    (v, t)
}
/// All concrete paths to everything in the tree.
fn places(strukt: &str, v: &Val, path: &mut Path, out: &mut Vec<Path>) {
    let Val::Struct(fs) = v else { panic!() };
    for (f, v) in spec().structs[strukt].fields.iter().zip(fs) {
        if f.cache_only || f.exclude { continue }
        path.push(Step::F(f.sname));
        out.push(path.clone());
        let one = |v: &Val, path: &mut Path, out: &mut Vec<Path>| match (&f.ty, v) {
            (Ty::Struct(s), v) => places(s, v, path, out),
            (Ty::Refl(s), Val::Refl(l)) => for (i, v) in l.iter().enumerate() { path.push(Step::I(i)); out.push(path.clone()); places(s, v, path, out); path.pop(); },
            _ => (),
        };
        match (f.many, v) {
            (Many::One, v) => one(v, path, out),
            (Many::Bounds, Val::Many(l)) => for (n, v) in ["lower", "upper"].into_iter().zip(l) { path.push(Step::F(n)); out.push(path.clone()); one(v, path, out); path.pop(); },
            (_, Val::Many(l)) => for (i, v) in l.iter().enumerate() { path.push(Step::I(i)); out.push(path.clone()); one(v, path, out); path.pop(); },
            _ => panic!(),
        }
        path.pop();
    }
}

fn main() {
    let mut ck = Check::new("P08");
    let groups: Vec<String> = spec().groups.keys().cloned().collect();
    // every place in a tag of every group, by its exact path, and every pattern with the indices replaced
    let counts = ck.pick(vec![2usize], vec![2, 3]);
    for count in counts { ck.items(&format!("places-{count}"), &groups, |g| g.clone(), |g, cx| {
        let (v, mut t) = tag(g, count);
        let st = &spec().groups[g].strukt;
        let mut all = vec![]; places(st, &v, &mut vec![], &mut all);
        let mut seen = std::collections::BTreeSet::new();
        for p in &all {
            let s = path_str(p);
            let want = vec![get(t.as_dynamic(), p).and_then(place)];
            if !cx.check(want[0].is_some(), "missing", || s.clone()) { continue }
            cx.state(&s);
            selector(t.as_mut_dynamic(), &s, &want, false, cx);
            // patterns: each index replaced by a list, all at once
            if p.iter().all(|s| !matches!(s, Step::I(i) if *i != 0)) && p.iter().any(|s| matches!(s, Step::I(_))) {
                for (sel, keep) in [("[*]", None), ("[e]", Some(usize::MAX)), ("[0-e]", None), ("[1,0]", None), ("[0-1,1,e]", None), ("[e,1]", Some(1)), ("[0,0-0]", Some(0))] {
                    let mut text = String::new();
                    for x in p { match x { Step::F(f) => { if !text.is_empty() { text.push('.') } text += f } Step::I(_) => text += sel } }
                    if !seen.insert(text.clone()) { continue }
                    // places of this shape, in order
                    let shape: Vec<&Path> = all.iter().filter(|q| q.len() == p.len() && q.iter().zip(p).all(|(a, b)| match (a, b) { (Step::F(x), Step::F(y)) => x == y, (Step::I(_), Step::I(_)) => true, _ => false })).collect();
                    // bounds of fixed arrays differ from the counts, so find the last index per parent
                    let last = |q: &Path, k: usize| !shape.iter().any(|r| r[..k] == q[..k] && matches!((&r[k], &q[k]), (Step::I(a), Step::I(b)) if a > b));
                    let len_ok = |q: &Path, need: usize| (0..q.len()).all(|k| !matches!(q[k], Step::I(_)) || shape.iter().any(|r| r[..k] == q[..k] && matches!(r[k], Step::I(n) if n >= need)));
                    let want: Vec<Visit> = match sel {
                        "[*]" | "[0-e]" => shape.iter().map(|q| get(t.as_dynamic(), q).and_then(place)).collect(),
                        _ => {
                            if !shape.iter().all(|q| len_ok(q, 1)) { continue } // an array of a single element
                            shape.iter().filter(|q| (0..q.len()).all(|k| match q[k] { Step::I(i) => match (sel, keep) { ("[1,0]", _) => i <= 1, ("[0-1,1,e]", _) => i <= 1 || last(q, k), ("[e,1]", _) => i == 1 || last(q, k), (_, Some(usize::MAX)) => last(q, k), (_, Some(n)) => i == n, _ => true }, _ => true })).map(|q| get(t.as_dynamic(), q).and_then(place)).collect()
                        }
                    };
                    cx.state(&text);
                    selector(t.as_mut_dynamic(), &text, &want, false, cx);
                }
            }
        }
        // what a value says about its fields is what it has
        let d = t.as_dynamic();
        for f in &spec().structs[st].fields { cx.check(d.fields().contains(&f.name.as_str()) == d.get_field(&f.name).is_some(), "fields", || format!("{g} {}", f.name)); }
    }); }
    // all sub-fields, down to the components of vectors and the flags
    ck.items("leaves", &groups, |g| g.clone(), |g, cx| {
        let (_, mut t) = tag(g, 1);
        fn go(d: &dyn DynamicTagData, path: String, out: &mut Vec<String>) {
            out.push(path.clone());
            for f in d.fields() { if let Some(x) = d.get_field(f) { go(x, if path.is_empty() { f.to_string() } else { format!("{path}.{f}") }, out) } else { out.push(format!("{path}.{f}")) } }
            if let Some(a) = d.as_array() { for i in 0..a.len() { go(a.get_at_index(i).unwrap(), format!("{path}[{i}]"), out) } }
        }
        let mut all = vec![]; go(t.as_dynamic(), String::new(), &mut all);
        for s in &all { cx.state(s); modelled(t.as_mut_dynamic(), s, cx); modelled(t.as_mut_dynamic(), &format!("{s}x"), cx); modelled(t.as_mut_dynamic(), &format!("{s}[0]"), cx); modelled(t.as_mut_dynamic(), &format!("{s}[*].no"), cx); }
    });
    // all bracket expressions over arrays of each length
    let part = words(&["0", "1", "2", "9", "e", "*", "-"], ck.pick(4, 5));
    let parts: Vec<String> = part.iter().map(|w| w.concat()).collect();
    let lens = ck.pick(4usize, 6);
    let make = |n: usize| { let mut b = ringhopper::definitions::StringList::default(); for _ in 0..n { b.strings.items.push(Default::default()) } b };
    ck.family("brackets", parts.len(), |i| parts[i].clone(), |i, cx| for n in 0..lens { let mut t = make(n); let s = format!("strings[{}]", parts[i]); cx.state(&(n, i)); modelled(&mut t, &s, cx); });
    let few: Vec<&str> = vec!["0", "1", "2", "3", "4", "e", "*", "0-1", "1-2", "2-3", "3-4", "0-2", "1-3", "2-e", "0-e", "1-1", "2-1", "5", "", "-", "0-", "-1", "e-0", "e-e", "00", "1-0x", "4294967296", "18446744073709551615", "18446744073709551616", "0-18446744073709551615"];
    let m = few.len();
    let deep = ck.pick(3u32, 4);
    ck.family("lists", m.pow(deep - 1), |i| digits(i, &vec![m; deep as usize - 1]).iter().map(|k| few[*k]).collect::<Vec<_>>().join(","), |i, cx| for k in 0..m {
        let mut l: Vec<&str> = digits(i, &vec![m; deep as usize - 1]).iter().map(|k| few[*k]).collect(); l.push(few[k]);
        for cut in 1..=l.len() { if cut < l.len() && k > 0 { continue } let s = format!("strings[{}]", l[..cut].join(",")); for n in [0, 1, 3, 5, 6] { let mut t = make(n); cx.state(&(n, &s)); modelled(&mut t, &s, cx); } }
    });
    // large arrays
    ck.items("large", &[100usize, 1000, 5000], |n| format!("{n}"), |n, cx| {
        let mut t = make(*n);
        for s in ["strings[*]", "strings[0-e]", "strings[10-20,5,e,15-30]", "strings[e]", "strings[99]", "strings[0-9,10-19,20-29,40]", "strings[*,*,*].string"] { cx.state(s); modelled(&mut t, s, cx); }
        let odd: Vec<String> = (0..*n).filter(|i| i % 2 == 1).map(|i| i.to_string()).collect();
        modelled(&mut t, &format!("strings[{}]", odd.join(",")), cx);
        let down: Vec<String> = (0..*n).rev().map(|i| i.to_string()).collect();
        modelled(&mut t, &format!("strings[{}]", down.join(",")), cx);
    });
    // all texts over the parts of selectors, on a tag with nested arrays of different lengths
    let tok = ["bitmap_group_sequence", "sprites", "registration_point", "x", ".", "[", "]", "0", "1", "e", "*", "-", ",", "é", " "];
    let max = ck.pick(5u32, 6);
    let k = tok.len();
    let total: usize = (0..=max).map(|l| k.pow(l)).sum();
    // the i-th text, shortest first
    let nth = |mut i: usize| { let mut l = 0; while i >= k.pow(l) { i -= k.pow(l); l += 1 } digits(i, &vec![k; l as usize]).iter().map(|d| tok[*d]).collect::<String>() };
    let bitmap = || {
        let mut b = ringhopper::definitions::Bitmap::default();
        for n in [2usize, 0, 1] { let mut s = ringhopper::definitions::BitmapGroupSequence::default(); for _ in 0..n { s.sprites.items.push(Default::default()) } b.bitmap_group_sequence.items.push(s) }
        b
    };
    for pre in ["", "bitmap_group_sequence", "bitmap_group_sequence[0", "bitmap_group_sequence[0-1].sprites", "bitmap_group_sequence[*].sprites[", "bitmap_group_sequence[0].sprites[0].registration_point"] {
        ck.family(&format!("texts {pre}"), total.div_ceil(256), |i| format!("{}", i * 256), |i, cx| { let mut t = bitmap(); for j in i * 256..((i + 1) * 256).min(total) {
            let s = format!("{pre}{}", nth(j));
            cx.state(&s);
            modelled(&mut t, &s, cx);
        } });
    }
    ck.finish();
}
