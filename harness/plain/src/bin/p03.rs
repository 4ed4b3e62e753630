//! P03: tag paths: acceptance, canonical form, idempotence, containment, round trips - against a textual reference.
use mc::refser::FOURCC;
use mc::*;
use ringhopper::primitives::primitive::{TagGroup, TagPath, TagReference};
use std::path::{Component, Path};

const RESERVED: &[&str] = &["aux", "con", "nul", "prn", "com0", "com1", "com2", "com3", "com4", "com5", "com6", "com7", "com8", "com9", "lpt0", "lpt1", "lpt2", "lpt3", "lpt4", "lpt5", "lpt6", "lpt7", "lpt8", "lpt9"];

/// What a path must become, or that it must be refused.
fn reference(s: &str) -> Option<String> {
    if s.chars().any(|c| ":*?\"<>|".contains(c) || (c as u32) < 0x20 || c as u32 == 0x7f) { return None }
    let mut out: Vec<char> = vec![];
    for c in s.chars() {
        let c = if c == '/' || c == '\\' { '\\' } else if c.is_ascii_uppercase() { (c as u8 + 32) as char } else { c };
        if c == '\\' && out.last() == Some(&'\\') { continue }
        out.push(c);
    }
    if out.first() == Some(&'\\') { return None }
    let s: String = out.into_iter().collect();
    for part in s.split('\\') { if part.ends_with('.') || RESERVED.contains(&part) { return None } }
    Some(s)
}

fn one(s: &str, cx: &mut Cx) {
    cx.step();
    let want = reference(s);
    cx.state(&want);
    let g = TagGroup::Weapon;
    let got = match guard(|| TagPath::new(s, g)) { Ok(r) => r.ok(), Err(p) => return cx.fail("panic", format!("{s:?}: {p}")) };
    let shown = got.as_ref().map(|p| p.path().to_string());
    if !cx.check(shown == want, "canonical", || format!("{s:?} becomes {shown:?} instead of {want:?}")) { return }
    cx.validated();
    // the same through the text form with a group
    let with = format!("{s}.weapon");
    let viapath = TagPath::from_path(&with).ok();
    cx.check(viapath == got, "from-path", || format!("{with:?} parses as {viapath:?}"));
    let upper = TagPath::new(&s.to_ascii_uppercase(), g).ok();
    cx.check(upper == got, "case", || format!("{s:?} in upper case gives {upper:?}"));
    let Some(p) = got else { return };
    let w = want.unwrap();
    cx.check(TagPath::new(p.path(), g).ok().as_ref() == Some(&p), "idempotent", || format!("{w:?}"));
    for text in [p.to_internal_path(), p.to_native_path(), p.to_zip_path(), p.to_string(), TagReference::from(p.clone()).to_string()] {
        let back = TagPath::from_path(&text).ok();
        cx.check(back.as_ref() == Some(&p), "print-parse", || format!("{w:?} prints as {text:?} which parses as {back:?}"));
    }
    cx.check(p.to_internal_path() == format!("{w}.weapon"), "internal", || p.to_internal_path());
    cx.check(p.to_zip_path() == format!("{}.weapon", w.replace('\\', "/")), "zip", || p.to_zip_path());
    cx.check(p.to_native_path() == format!("{}.weapon", w.replace('\\', "/")), "native", || p.to_native_path());
    cx.check(p.to_string() == p.to_native_path(), "display", || p.to_string());
    cx.check(p.base_name() == w.rsplit('\\').next().unwrap(), "base-name", || format!("{w:?}: {:?}", p.base_name()));
    // stays below the directory it is joined to, whatever its group
    let native = p.to_native_path();
    let joined = Path::new("/tags/dir").join(&native);
    let inside = !Path::new(&native).is_absolute() && Path::new(&native).components().all(|c| matches!(c, Component::Normal(_))) && joined.starts_with("/tags/dir");
    cx.check(inside, "escape", || format!("{s:?} leads to {}", joined.display()));
    let mut q = p.clone();
    q.set_group(TagGroup::Bitmap);
    cx.check(q.group() == TagGroup::Bitmap && q.path() == p.path() && (q == p) == false && q.to_internal_path() == format!("{w}.bitmap"), "set-group", || format!("{q:?}"));
}

fn main() {
    let mut ck = Check::new("P03");
    ck.assume("reserved names are the Windows device names aux, con, nul, prn, com0-9, lpt0-9 as whole components");
    let toks: &[&str] = &["a", "B", ".", "\\", "/", ":", " ", "\u{1}", "é", "con", "NUL", "com9", "b"];
    let depth = ck.pick(6, 7);
    let n = toks.len().pow(depth as u32 - 2);
    // all strings of up to `depth` tokens, grouped by their prefix
    ck.family("strings", n, |i| { let mut s = String::new(); let mut k = i; for _ in 0..depth - 2 { s += toks[k % toks.len()]; k /= toks.len(); } format!("{s:?}…") }, |i, cx| {
        let mut pre = String::new(); let mut k = i;
        for _ in 0..depth - 2 { pre += toks[k % toks.len()]; k /= toks.len(); }
        one(&pre, cx);
        for a in toks { let s = format!("{pre}{a}"); one(&s, cx); for b in toks { one(&format!("{s}{b}"), cx); } }
    });
    let short: Vec<String> = { let mut v = vec![String::new()]; let mut l = vec![String::new()]; for _ in 0..3 { l = l.iter().flat_map(|p| toks.iter().map(move |t| format!("{p}{t}"))).collect(); v.extend(l.clone()); } v };
    ck.items("short", &short, |s| format!("{s:?}"), |s, cx| one(s, cx));
    // every character, everywhere in a small path
    ck.family("characters", 0x3000, |i| format!("U+{i:04X}"), |i, cx| if let Some(c) = char::from_u32(i as u32) {
        for s in [format!("{c}"), format!("a{c}b"), format!("{c}a"), format!("a{c}"), format!("d\\{c}\\a"), format!("d{c}\\a"), format!("d\\{c}x")] { one(&s, cx) }
    });
    // reserved names and near misses, in every component and every case
    let mut names: Vec<String> = vec![];
    for r in RESERVED { for v in [r.to_string(), format!("{r}x"), format!("x{r}"), format!("{r}.x"), format!("{r} "), format!(" {r}"), format!("{r}1"), format!("{r}."), r[..r.len() - 1].to_string()] { names.push(v) } }
    for b in ["com", "lpt", "com10", "lpt10", "..", ".", "...", ".a", "..a", "a..b"] { names.push(b.into()) }
    ck.items("reserved", &names, |s| format!("{s:?}"), |s, cx| {
        let bits = s.len().min(4);
        for m in 0..1usize << bits {
            let cased: String = s.chars().enumerate().map(|(i, c)| if i < bits && m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
            for t in [cased.clone(), format!("{cased}\\a"), format!("a\\{cased}"), format!("a/{cased}/b"), format!("a\\\\{cased}\\\\b\\"), format!("..\\{cased}")] { one(&t, cx) }
        }
    });
    // splitting off the group: every group, and what is not one
    ck.items("groups", FOURCC, |g| g.0.to_string(), |(name, _), cx| {
        for pre in ["a", "d\\a", "d.x\\a", "a.bitmap", "d\\a.weapon", "", "é"] {
            let s = format!("{pre}.{name}");
            cx.step();
            let p = TagPath::from_path(&s).ok();
            cx.check(p.as_ref().map(|p| (p.path().to_string(), p.group().as_str().to_string())) == Some((pre.to_string(), name.to_string())), "split", || format!("{s:?} parses as {p:?}"));
            cx.check(TagPath::split_str_path(&s).map(|(p, g)| (p, g.as_str())) == Some((pre, *name)), "split", || format!("{s:?}"));
            cx.state(&s); cx.validated();
            for bad in [format!("{pre}{name}x"), format!("{pre}.{name}x"), format!("{pre}.x{name}"), format!("{pre}.{name}."), format!("{pre}.{name} "), format!("{pre}.")] {
                // (what precedes may itself end in a group, only the last dot counts)
                cx.step();
                let got = TagPath::from_path(&bad).ok();
                let expect = bad.rsplit_once('.').and_then(|(p, e)| if FOURCC.iter().any(|g| g.0 == e) { Some(p.to_string()) } else { None });
                cx.check(got.as_ref().map(|p| p.path().to_string()) == expect, "not-a-group", || format!("{bad:?} parses as {got:?}"));
            }
        }
    });
    // order, equality and hash agree with each other on all pairs
    let accepted: Vec<TagPath> = { let mut v: Vec<TagPath> = vec![]; for s in short.iter().filter(|s| s.len() <= 4) { for g in [TagGroup::Bitmap, TagGroup::Weapon] { if let Ok(p) = TagPath::new(s, g) { v.push(p) } } } v };
    ck.items("order", &accepted, |p| format!("{:?}", p.to_internal_path()), |p, cx| for q in &accepted {
        cx.step();
        let same = p.to_internal_path() == q.to_internal_path();
        let c = p.cmp(q);
        let ok = (p == q) == same && (c == std::cmp::Ordering::Equal) == same && c == q.cmp(p).reverse() && p.partial_cmp(q) == Some(c) && (!same || hash_of(p) == hash_of(q)) && TagReference::from(p.clone()).eq(&TagReference::from(q.clone())) == same;
        if p.path() != q.path() { cx.check(c == p.path().cmp(q.path()), "order", || format!("{p} {c:?} {q}")); }
        cx.check(ok, "order", || format!("{p} and {q} compare {c:?}, equal {}", p == q));
        cx.validated();
    });
    ck.finish()
}
