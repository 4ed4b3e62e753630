//! P09: tag filters are globs.
use mc::*;
use ringhopper::primitives::primitive::*;
use ringhopper::tag::tree::TagFilter;

/// Textbook glob: which prefixes of the text are matched by the pattern so far.
fn glob(pat: &[char], text: &[char]) -> bool {
    let mut on = vec![false; text.len() + 1]; on[0] = true;
    for p in pat {
        let mut next = vec![false; text.len() + 1];
        if *p == '*' { let mut any = false; for i in 0..=text.len() { any |= on[i]; next[i] = any } }
        else { for i in 0..text.len() { next[i + 1] = on[i] && (*p == '?' || *p == text[i]) } }
        on = next;
    }
    on[text.len()]
}
fn chars(s: &str) -> Vec<char> { s.chars().map(|c| if c == '/' { '\\' } else { c }).collect() }
fn strip<'a>(s: &'a str, g: TagGroup) -> &'a str { s.strip_suffix(&format!(".{}", g.as_str())).unwrap_or(s) }

fn case(filter: &str, group: Option<TagGroup>, paths: &[(TagPath, Vec<char>, Vec<char>)], cx: &mut Cx) {
    let pat = chars(match group { Some(g) => strip(filter, g), None => filter });
    let f = match guard(|| TagFilter::new(filter, group)) { Ok(f) => f, Err(p) => return cx.fail("panic", format!("{filter:?} {group:?}: {p}")) };
    cx.check(f.group() == group, "group", || format!("{filter:?} {group:?}: {:?}", f.group()));
    let wild = filter.contains('*') || filter.contains('?');
    cx.check(TagFilter::is_filter(filter) == wild, "is_filter", || filter.into());
    for (p, bare, full) in paths {
        let want = match group { Some(g) => p.group() == g && glob(&pat, bare), None => glob(&pat, full) };
        cx.step();
        match guard(|| (f.passes(p), f.reference_matches(&TagReference::Set(p.clone())))) {
            Ok((a, b)) => { if a != want || b != want { cx.fail("match", format!("{filter:?} {group:?} and {:?}: {a} {b} instead of {want}", p.to_internal_path())) } }
            Err(e) => cx.fail("panic", format!("{filter:?} {group:?} and {:?}: {e}", p.to_internal_path())),
        }
    }
    for g in [TagGroup::Bitmap, TagGroup::Font] {
        let want = group.is_none_or(|h| h == g) && glob(&pat, &[]);
        match guard(|| f.reference_matches(&TagReference::Null(g))) { Ok(a) => { cx.check(a == want, "null", || format!("{filter:?} {group:?} and no {g}: {a}")); } Err(e) => cx.fail("panic", format!("{filter:?}: {e}")) }
    }
    cx.state(&(filter, group.map(|g| g.as_str()))); cx.validated_n(paths.len() as u64);
}

fn main() {
    let mut ck = Check::new("P09");
    let make = |alphabet: &[&str], max: usize, groups: &[TagGroup]| -> Vec<(TagPath, Vec<char>, Vec<char>)> {
        words(alphabet, max).iter().flat_map(|w| { let s = w.concat(); groups.iter().filter_map(move |g| TagPath::new(&s, *g).ok()) })
            .map(|p| { let b: Vec<char> = p.path().chars().collect(); let f = format!("{}.{}", p.path(), p.group().as_str()).chars().collect(); (p, b, f) }).collect()
    };
    let paths = make(&["a", "b", ".", "\\", "é"], ck.pick(4, 5), &[TagGroup::Bitmap]);
    let filters: Vec<String> = words(&["a", "b", "*", "?", ".", "\\", "/", "é"], ck.pick(4, 5)).iter().map(|w| w.concat()).collect();
    // with the group given, and with the group in the text
    for g in [Some(TagGroup::Bitmap), None] {
        ck.family(if g.is_some() { "group" } else { "whole" }, filters.len(), |i| filters[i].clone(), |i, cx| {
            case(&filters[i], g, &paths, cx);
            if g.is_none() { case(&format!("{}.bitmap", filters[i]), g, &paths, cx) } else { case(&filters[i], Some(TagGroup::Font), &paths[..8.min(paths.len())], cx) }
        });
    }
    // around the name of the group
    let near = make(&["a", "é", ".bitmap", ".font", ".bit", "bitmap", "\\", "."], 3, &[TagGroup::Bitmap, TagGroup::Font]);
    let ends: Vec<String> = words(&["a", "é", "*", "?", ".bitmap", "bitmap", ".font", ".bit", "map", ".", "\\", "/", "😀"], ck.pick(3, 4)).iter().map(|w| w.concat()).collect();
    ck.family("suffixes", ends.len(), |i| ends[i].clone(), |i, cx| {
        for g in [None, Some(TagGroup::Bitmap), Some(TagGroup::Font)] { case(&ends[i], g, &near, cx) }
        for g in [TagGroup::Bitmap, TagGroup::Font] { match guard(|| TagFilter::cleanup_extension(&ends[i], g).to_string()) { Ok(s) => { cx.check(s == strip(&ends[i], g), "cleanup", || format!("{:?} {g}: {s:?}", ends[i])); } Err(e) => cx.fail("panic", format!("{:?} {g}: {e}", ends[i])) } }
    });
    // every group
    let all: Vec<TagGroup> = mc::refser::spec().groups.keys().map(|g| TagGroup::from_str(g).unwrap()).collect();
    ck.items("groups", &all, |g| g.as_str().into(), |g, cx| {
        let paths: Vec<_> = all.iter().map(|h| TagPath::new("some\\thing", *h).unwrap()).map(|p| { let b = p.path().chars().collect::<Vec<_>>(); let f = format!("{}.{}", p.path(), p.group().as_str()).chars().collect(); (p, b, f) }).collect();
        let n = g.as_str();
        for f in ["*".to_string(), format!("*.{n}"), format!("*{n}"), format!("*.{n}.{n}"), n.into(), format!(".{n}"), format!("some?thing.{n}"), format!("some/thing.{n}"), format!("*.{}", &n[1..]), format!("*.{}?", &n[..n.len() - 1]), format!("*.{}*", &n[..1])] {
            case(&f, None, &paths, cx); case(&f, Some(*g), &paths, cx);
        }
    });
    // star-heavy patterns and long texts
    let deep = words(&["*", "a", "?"], ck.pick(8, 10));
    let texts: Vec<_> = words(&["a", "b"], 7).iter().filter(|w| !w.is_empty()).filter_map(|w| TagPath::new(&w.concat(), TagGroup::Bitmap).ok()).map(|p| { let b: Vec<char> = p.path().chars().collect(); (p, b.clone(), b) }).collect();
    ck.family("stars", deep.len(), |i| deep[i].concat(), |i, cx| case(&deep[i].concat(), Some(TagGroup::Bitmap), &texts, cx));
    ck.finish();
}
