//! P22: texts, lists, scripts and colour plates come out of tags as they went in, below the data directory and over nothing.
//! needs: invader-mc
use mc::fsmap::{differences, files, reset, snapshot};
use mc::inv::invader;
use mc::explore::*;
use mc::*;
use ringhopper::definitions::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::recover::get_recover_function;
use ringhopper::tag::tag_collection::TagCollectionFunctions;
use ringhopper::tag::unicode_string_list::UnicodeStringListFunctions;
use std::collections::BTreeMap;
use std::path::{Component, Path, PathBuf};

const END: &str = "###END-STRING###";

/// The lines of a text: ended by a line feed, with or without a carriage return before it.
fn lines(text: &[char]) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    for (i, c) in text.iter().enumerate() {
        if *c == '\n' { if i > 0 && text[i - 1] == '\r' { cur.pop(); } out.push(std::mem::take(&mut cur)); } else { cur.push(*c) }
    }
    if !cur.is_empty() { out.push(cur) }
    out
}
/// What a string holds: no control characters but tabs and line ends, which are carriage return and line feed.
fn clean(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut out = String::new();
    for i in 0..c.len() {
        match c[i] { '\n' => out.push_str("\r\n"), '\t' => out.push('\t'), x if (x as u32) < 32 || x as u32 == 127 => (), x => out.push(x) }
    }
    out
}
/// The strings of a list, from its text.
fn reference(text: &str) -> Option<Vec<String>> {
    if text.contains('\0') { return None }
    let mut l = lines(&text.chars().collect::<Vec<_>>());
    while l.last().is_some_and(|x| x.is_empty()) { l.pop(); }
    let mut out = vec![];
    let mut cur: Vec<String> = vec![];
    let mut open = false;
    for x in l { if x == END { out.push(clean(&cur.join("\r\n"))); cur.clear(); open = false } else { cur.push(x); open = true } }
    if open { None } else { Some(out) }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Enc { Utf8, Little, Big }
fn encode(t: &str, e: Enc) -> Vec<u8> {
    match e {
        Enc::Utf8 => t.as_bytes().to_vec(),
        Enc::Little => [0xFEFFu16].into_iter().chain(t.encode_utf16()).flat_map(|c| c.to_le_bytes()).collect(),
        Enc::Big => [0xFEFFu16].into_iter().chain(t.encode_utf16()).flat_map(|c| c.to_be_bytes()).collect(),
    }
}
/// The text of a file, from its bytes.
fn decode(b: &[u8]) -> Option<String> {
    let wide = |f: fn([u8; 2]) -> u16| {
        let u: Vec<u16> = b[2..].chunks(2).map(|c| f([c[0], c[1]])).collect();
        let (mut out, mut i) = (String::new(), 0);
        while i < u.len() {
            let (a, next) = (u[i] as u32, u.get(i + 1).map(|x| *x as u32));
            i += 1;
            let c = match a { 0xD800..=0xDBFF => { let n = next.filter(|n| (0xDC00..=0xDFFF).contains(n))?; i += 1; 0x10000 + ((a - 0xD800) << 10) + (n - 0xDC00) } 0xDC00..=0xDFFF => return None, a => a };
            out.push(char::from_u32(c)?);
        }
        Some(out)
    };
    if b.len() % 2 == 0 && b.starts_with(&[0xFF, 0xFE]) { return wide(u16::from_le_bytes) }
    if b.len() % 2 == 0 && b.starts_with(&[0xFE, 0xFF]) { return wide(u16::from_be_bytes) }
    std::str::from_utf8(b).ok().map(Into::into)
}
fn stored(s: &str) -> Vec<u8> { s.encode_utf16().chain([0]).flat_map(|c| c.to_le_bytes()).collect() }
fn list(strings: &[Vec<u8>]) -> UnicodeStringList {
    let mut t = UnicodeStringList::default();
    for s in strings { let mut x = UnicodeStringListString::default(); x.string = raw(s); t.strings.items.push(x); }
    t
}
/// A string of any bytes, as a tag file may hold.
fn raw(b: &[u8]) -> UTF16String {
    use ringhopper::primitives::parse::TagData;
    let mut file = (b.len() as u32).to_be_bytes().to_vec();
    file.resize(20, 0);
    file.extend_from_slice(b);
    let mut extra = 20;
    UTF16String::read_from_tag_file(&file, 0, 20, &mut extra).unwrap_or_else(|e| panic!("{e:?}"))
}
fn bytes_of(t: &UnicodeStringList) -> Vec<Vec<u8>> { t.strings.items.iter().map(|s| s.string.get_utf16_bytes().to_vec()).collect() }
/// Recover through the library.
fn recovered(path: &str, tag: Box<dyn PrimaryTagStructDyn>) -> Result<Option<BTreeMap<PathBuf, Vec<u8>>>, String> {
    let p = TagPath::from_path(path).unwrap();
    match guard(|| get_recover_function(p.group()).unwrap()(&p, &tag)) { Ok(Ok(r)) => Ok(r.map(|m| m.into_iter().collect())), Ok(Err(e)) => Err(e.to_string()), Err(e) => Err(format!("PANIC {e}")) }
}

fn one_text(t: &str, cx: &mut Cx) {
    let want = reference(t);
    let mut seen = None;
    for e in [Enc::Utf8, Enc::Little, Enc::Big] {
        let file = encode(t, e);
        // a text without a mark whose first character looks like one
        if e == Enc::Utf8 && decode(&file).as_deref() != Some(t) { continue }
        let got = match guard(|| UnicodeStringList::from_text_data(&file)) { Ok(r) => r.ok(), Err(p) => { cx.fail("panic", p); return } };
        cx.step();
        cx.eq("strings", got.as_ref().map(bytes_of), want.as_ref().map(|w| w.iter().map(|s| stored(s)).collect()));
        seen = got;
    }
    let (Some(tag), Some(want)) = (seen, want) else { cx.state((t, 0)); cx.validated(); return };
    cx.state(&want);
    // and back
    let out = match guard(|| tag.as_text_data()) { Ok(r) => r, Err(p) => { cx.fail("panic", p); return } };
    cx.step();
    match out {
        Ok(text) => {
            let again = UnicodeStringList::from_text_data(&text).ok().map(|t| bytes_of(&t));
            cx.eq("back", again, Some(want.iter().map(|s| stored(s)).collect()));
            cx.eq("text", decode(&text).and_then(|t| reference(&t)), Some(want));
        }
        Err(e) => { cx.check(want.iter().any(|s| s.split("\r\n").any(|l| l == END)), "refused", || format!("{e:?}")); }
    }
    cx.validated();
}

fn scenario(sources: &[(&str, &[u8])]) -> Box<dyn PrimaryTagStructDyn> {
    let mut s = Scenario::default();
    for (n, d) in sources { let mut f = ScenarioSourceFile::default(); f.name = String32::from_str(n).unwrap(); f.source.bytes = d.to_vec(); s.source_files.items.push(f); }
    Box::new(s)
}
/// Whether a name can be the name of a file in a directory, on every system the tool runs on.
fn file_name(n: &str) -> bool { !n.chars().any(|c| "/\\:".contains(c)) }

/// Adler-32 and stored deflate blocks.
fn zlib(data: &[u8], block: usize) -> Vec<u8> {
    let mut out = vec![0x78, 0x01];
    let n = data.chunks(block).count().max(1);
    for i in 0..n {
        let c = data.chunks(block).nth(i).unwrap_or(&[]);
        out.push((i + 1 == n) as u8);
        out.extend((c.len() as u16).to_le_bytes());
        out.extend((!(c.len() as u16)).to_le_bytes());
        out.extend(c);
    }
    let (mut a, mut b) = (1u32, 0u32);
    for x in data { a = (a + *x as u32) % 65521; b = (b + a) % 65521; }
    out.extend(((b << 16) | a).to_be_bytes());
    out
}
/// Width, height and ARGB pixels of a baseline TIFF of four samples per pixel, read by the book.
fn tiff(f: &[u8]) -> Result<(usize, usize, Vec<u32>), String> {
    let big = match f.get(..4) { Some(b"II*\0") => false, Some(b"MM\0*") => true, _ => return Err("no header".into()) };
    let get = |at: usize, n: usize| -> Result<u32, String> { let b = f.get(at..at + n).ok_or("end of file")?; Ok(b.iter().enumerate().fold(0, |v, (i, x)| v | (*x as u32) << (8 * if big { n - 1 - i } else { i }))) };
    let ifd = get(4, 4)? as usize;
    let mut tags: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
    for i in 0..get(ifd, 2)? as usize {
        let at = ifd + 2 + 12 * i;
        let (tag, ty, n) = (get(at, 2)?, get(at + 2, 2)?, get(at + 4, 4)? as usize);
        let size = match ty { 1 | 2 | 6 | 7 => 1, 3 | 8 => 2, 4 | 9 | 11 => 4, 5 | 10 | 12 => 8, t => return Err(format!("type {t}")) };
        if size == 8 { continue }
        let from = if size * n <= 4 { at + 8 } else { get(at + 8, 4)? as usize };
        tags.insert(tag, (0..n).map(|k| get(from + k * size, size)).collect::<Result<_, _>>()?);
    }
    let one = |t: u32, default: Option<u32>| tags.get(&t).map(|v| v[0]).or(default).ok_or(format!("no field {t}"));
    let (w, h) = (one(256, None)? as usize, one(257, None)? as usize);
    if tags.get(&258) != Some(&vec![8; 4]) || one(259, Some(1))? != 1 || one(262, None)? != 2 || one(277, None)? != 4 || one(284, Some(1))? != 1 { return Err(format!("layout {tags:?}")) }
    if tags.get(&338) != Some(&vec![2]) { return Err(format!("alpha {:?}", tags.get(&338))) }
    let rows = one(278, Some(u32::MAX))? as usize;
    let mut bytes = vec![];
    for (i, (o, n)) in tags.get(&273).ok_or("no strips")?.iter().zip(tags.get(&279).ok_or("no sizes")?).enumerate() {
        if *n as usize != w * 4 * rows.min(h - i * rows) { return Err(format!("strip {i} of {n} bytes")) }
        bytes.extend(f.get(*o as usize..(*o + *n) as usize).ok_or("strip outside")?);
    }
    if bytes.len() != w * h * 4 { return Err(format!("{} bytes", bytes.len())) }
    Ok((w, h, bytes.chunks(4).map(|c| u32::from_be_bytes([c[3], c[0], c[1], c[2]])).collect()))
}

fn main() {
    let mut ck = Check::new("P22");
    ck.assume("strings with control characters other than tabs and line ends lose them when they are made into a tag, and line ends become carriage return and line feed; the property is about what is in the tag from then on");

    // every text of a few tokens in every encoding
    let tokens = ["a", "\n", "\r\n", END, "\t", "é\u{1F600}", "\r", "#", "\u{7}", "\u{FEFF}", "\0"];
    let all = words(&(0..tokens.len()).collect::<Vec<_>>(), ck.pick(5, 7));
    let text = |w: &Vec<usize>| w.iter().map(|i| tokens[*i]).collect::<String>();
    const CHUNK: usize = 64;
    ck.family("text", all.len().div_ceil(CHUNK), |i| format!("{}..", text(&all[i * CHUNK]).escape_default()), |i, cx| {
        for w in all[i * CHUNK..].iter().take(CHUNK) { one_text(&text(w), cx); }
    });
    // longer ones which are whole
    let tokens = ["", "a", END, "\t ", "##"];
    let all = words(&(0..tokens.len()).collect::<Vec<_>>(), ck.pick(6, 8));
    ck.family("lines", all.len().div_ceil(CHUNK), |i| format!("{:?}..", all[i * CHUNK]), |i, cx| {
        for w in all[i * CHUNK..].iter().take(CHUNK) { for end in ["\n", "\r\n"] { for last in ["", END, "###END-STRING###\n", "###END-STRING###\r\n\r\n\n"] {
            one_text(&(w.iter().map(|i| tokens[*i].to_string() + end).collect::<String>() + last), cx);
        } } }
    });
    // every list of strings as a tag may hold them
    let pieces = ["a", "\r\n", END, "\t", "\u{1F600}", "\u{FEFF}"];
    let strings: Vec<String> = words(&(0..pieces.len()).collect::<Vec<_>>(), ck.pick(3, 5)).iter().map(|w| w.iter().map(|i| pieces[*i]).collect()).collect();
    let few: Vec<String> = strings.iter().take(ck.pick(43, 259)).cloned().collect();
    ck.family("tags", strings.len(), |i| strings[i].escape_default().to_string(), |i, cx| {
        let mut sets: Vec<Vec<&str>> = vec![vec![&strings[i]]];
        for f in &few { sets.push(vec![&strings[i], f]); sets.push(vec![f, &strings[i]]); }
        for s in &sets {
            let b: Vec<Vec<u8>> = s.iter().map(|s| stored(s)).collect();
            let t = list(&b);
            let can = !s.iter().any(|s| s.split("\r\n").any(|l| l == END));
            cx.step(); cx.state(s);
            match guard(|| t.as_text_data()) {
                Err(p) => cx.fail("panic", p),
                Ok(Err(e)) => { cx.check(!can, "refused", || format!("{s:?}: {e:?}")); }
                Ok(Ok(text)) => {
                    cx.eq("back", UnicodeStringList::from_text_data(&text).ok().map(|t| bytes_of(&t)), Some(b));
                    let again = UnicodeStringList::from_text_data(&text).unwrap().as_text_data();
                    cx.check(again.ok().as_ref() == Some(&text), "same text", || format!("{s:?}"));
                }
            }
            cx.validated();
        }
        cx.eq("read", list(&[stored(&strings[i])]).read_string_data(0).ok().map(|s| s.to_string()), Some(strings[i].clone()));
    });
    ck.family("none", 1, |_| "no strings".into(), |_, cx| {
        let t = UnicodeStringList::default().as_text_data().unwrap();
        cx.eq("none", UnicodeStringList::from_text_data(&t).ok().map(|t| t.strings.items.len()), Some(0));
        cx.step(); cx.state(0); cx.validated();
    });
    // strings which are damaged: an error, never a crash or another text
    let alphabet = [0u8, b'A', b'\n', b'\r', 0xD8, 0xDC];
    let all = words(&alphabet, ck.pick(6, 8));
    ck.family("damaged", all.len().div_ceil(512), |i| util::hex(&all[i * 512]), |i, cx| for b in all[i * 512..].iter().take(512) {
        let t = list(&[b.clone()]);
        cx.step(); cx.state(b);
        let units: Vec<u16> = b.chunks(2).map(|c| u16::from_le_bytes([c[0], *c.get(1).unwrap_or(&0)])).collect();
        let whole = (b.len() % 2 == 0 && units.last() == Some(&0)).then(|| decode(&[&[0xFF, 0xFE], &b[..b.len() - 2]].concat())).flatten().filter(|s| !s.contains('\0') && clean(s) == *s && !s.replace("\r\n", "").contains(['\r', '\n']));
        match guard(|| t.as_text_data()) {
            Err(p) => cx.fail("panic", format!("{}: {p}", util::hex(b))),
            Ok(Ok(text)) => { if cx.check(whole.is_some(), "accepted", || util::hex(b)) { cx.eq("back", UnicodeStringList::from_text_data(&text).ok().map(|t| bytes_of(&t)), Some(vec![b.clone()])); } }
            Ok(Err(e)) => { cx.check(whole.is_none(), "refused", || format!("{}: {e:?}", util::hex(b))); }
        }
        cx.validated();
    });
    // every file of a few bytes
    let alphabet = [0xFFu8, 0xFE, 0, b'a', b'\n', 0xD8, 0xDC, 0xC3];
    let all = words(&alphabet, ck.pick(5, 7));
    let tail = encode("\n###END-STRING###", Enc::Little)[2..].to_vec();
    ck.family("files", all.len().div_ceil(512), |i| util::hex(&all[i * 512]), |i, cx| for b in all[i * 512..].iter().take(512) {
        for b in [b.clone(), [&b[..], b"\n###END-STRING###"].concat(), [&b[..], &tail].concat()] {
            cx.step(); cx.state(&b);
            let want = decode(&b).and_then(|t| reference(&t));
            match guard(|| UnicodeStringList::from_text_data(&b)) {
                Err(p) => cx.fail("panic", format!("{}: {p}", util::hex(&b))),
                Ok(r) => { if r.as_ref().ok().map(bytes_of) != want.as_ref().map(|w| w.iter().map(|s| stored(s)).collect()) { cx.fail("strings", format!("{}: {:?} instead of {want:?}", util::hex(&b), r.is_ok())) } }
            }
            cx.validated();
        }
        match guard(|| (TagCollection::from_text_data(b), UIWidgetCollection::from_text_data(b))) { Err(p) => cx.fail("panic", p), Ok((a, c)) => { cx.check(decode8(b) || (a.is_err() && c.is_err()), "collection", || util::hex(b)); } }
        cx.step();
    });
    // collections
    let entries: [(&str, Option<&str>); 10] = [("", None), ("a.bitmap", Some("a.bitmap")), ("a\\b.scenario", Some("a\\b.scenario")), ("a/b.scenario", Some("a\\b.scenario")), ("x.y.weapon", Some("x.y.weapon")), ("a", Some("!")), ("a.what", Some("!")), ("a.", Some("!")), ("é.sound", Some("é.sound")), ("\t", Some("!"))];
    let all = words(&(0..entries.len()).collect::<Vec<_>>(), ck.pick(4, 6));
    ck.family("collections", all.len().div_ceil(CHUNK), |i| format!("{:?}..", all[i * CHUNK]), |i, cx| for w in all[i * CHUNK..].iter().take(CHUNK) { for (end, last) in [("\n", true), ("\r\n", true), ("\n", false), ("\r\n", false)] {
        let mut text: String = w.iter().map(|i| entries[*i].0.to_string() + end).collect();
        if !last { text.truncate(text.len() - if w.is_empty() { 0 } else { end.len() }) }
        let bad = w.iter().position(|i| entries[*i].1 == Some("!"));
        let want: Vec<String> = w.iter().filter_map(|i| entries[*i].1).map(Into::into).collect();
        cx.steps(2); cx.state((w, end, last));
        macro_rules! both { ($($t:ident),*) => { $( match guard(|| $t::from_text_data(text.as_bytes())) {
            Err(p) => cx.fail("panic", p),
            Ok(Err(e)) => { if cx.check(bad.is_some(), "refused", || format!("{text:?}: {e}")) { cx.check(e.to_string().starts_with(&format!("[line {}]", bad.unwrap() + 1)), "line", || format!("{text:?}: {e}")); } }
            Ok(Ok(t)) => if cx.check(bad.is_none(), "accepted", || format!("{text:?}")) { cx.eq("entries", t.tags.items.iter().map(|t| t.reference.path().map(|p| p.to_string().replace('/', "\\")).unwrap_or_default()).collect::<Vec<_>>(), want.clone()); },
        } )* } }
        both!(TagCollection, UIWidgetCollection);
        cx.validated_n(2);
    } });
    // names of scripts: nothing outside of the directory of the scripts
    let alphabet = ['a', '.', '/', '\\', ':', 'S', '~', 'é'];
    let names: Vec<String> = words(&alphabet, ck.pick(5, 7)).into_iter().map(|w| w.into_iter().collect()).chain(["global_scripts", "Global_Scripts", "global_scripts.hsc", "../../x", "/tmp/mc-p22-x", "C:\\x", "scripts", "a b", "...", "../global_scripts", "aaaaaaaaaabbbbbbbbbbccccccccccd"].map(String::from)).collect();
    ck.family("names", names.len().div_ceil(CHUNK), |i| format!("{:?}..", names[i * CHUNK]), |i, cx| for n in names[i * CHUNK..].iter().take(CHUNK) { for at in ["s.scenario", "levels\\a\\s.scenario"] {
        let base = Path::new(if at.contains('\\') { "levels/a/scripts" } else { "scripts" });
        let r = recovered(at, scenario(&[(n, b"x")]));
        cx.step(); cx.state((n, at)); cx.validated();
        match r {
            Err(e) => { cx.check(!e.starts_with("PANIC") && !file_name(n), "refused", || format!("{n:?}: {e}")); }
            Ok(None) => cx.fail("nothing", n.clone()),
            Ok(Some(m)) => {
                cx.check(file_name(n), "accepted", || format!("{n:?}: {:?}", m.keys()));
                let want = if n == "global_scripts" { PathBuf::from("global_scripts.hsc") } else { base.join(format!("{n}.hsc")) };
                cx.check(m.len() == 1 && m.get(&want).map(|d| &d[..]) == Some(b"x") && m.keys().all(|k| k.components().all(|c| matches!(c, Component::Normal(_)))), "path", || format!("{n:?}: {:?}", m.keys()));
            }
        }
    } });
    // several scripts
    let pool: [(&str, &[u8], &[u8]); 6] = [("a", b"(x)", b"(x)"), ("b", b"(y)\0", b"(y)"), ("a", b"z\0\0w", b"z"), ("global_scripts", b"", b""), ("c", b"\0", b""), ("A", b"\xff\r\n", b"\xff\r\n")];
    let all = words(&(0..pool.len()).collect::<Vec<_>>(), ck.pick(5, 7));
    ck.family("scripts", all.len().div_ceil(CHUNK), |i| format!("{:?}..", all[i * CHUNK]), |i, cx| for w in all[i * CHUNK..].iter().take(CHUNK) {
        let r = recovered("d\\s.scenario", scenario(&w.iter().map(|i| (pool[*i].0, pool[*i].1)).collect::<Vec<_>>()));
        let mut want: BTreeMap<PathBuf, Vec<u8>> = BTreeMap::new();
        let mut twice = false;
        for i in w { let (n, _, d) = pool[*i]; twice |= want.insert(if n == "global_scripts" { format!("{n}.hsc") } else { format!("d/scripts/{n}.hsc") }.into(), d.to_vec()).is_some(); }
        cx.step(); cx.state(w); cx.validated();
        match r { Err(e) => { cx.check(twice && !e.starts_with("PANIC"), "refused", || format!("{w:?}: {e}")); } Ok(m) => { if !cx.check(!twice, "one of two", || format!("{w:?}: {:?}", m.as_ref().map(|m| m.keys()))) { continue } cx.eq("files", m, if w.is_empty() { None } else { Some(want) }); } }
    });
    // colour plates
    let sides = ck.pick(vec![1usize, 2, 3, 5], (1..=9).collect());
    let sizes: Vec<(usize, usize)> = sides.iter().flat_map(|w| sides.iter().map(move |h| (*w, *h))).chain([(64, 33), (1, 300), (300, 1)]).collect();
    ck.items("plates", &sizes, |(w, h)| format!("{w}x{h}"), |(w, h), cx| for pattern in 0..6u32 { for block in [7usize, 64, 65535] {
        let px: Vec<u32> = (0..w * h).map(|i| match pattern { 0 => 0, 1 => u32::MAX, 2 => i as u32, 3 => (i as u32) << 24, 4 => (i as u32).wrapping_mul(0x9E3779B1), _ => 0x01020304 }).collect();
        let data: Vec<u8> = px.iter().flat_map(|p| p.to_le_bytes()).collect();
        let z = zlib(&data, block);
        let make = |w: usize, h: usize, size: u32, z: &[u8]| -> Box<dyn PrimaryTagStructDyn> { let mut b = Bitmap::default(); b.color_plate.width = w as u16; b.color_plate.height = h as u16; b.color_plate.compressed_data.bytes = [&size.to_be_bytes()[..], z].concat(); Box::new(b) };
        cx.step(); cx.state((w, h, pattern)); cx.validated();
        match recovered("x\\y.z.bitmap", make(*w, *h, data.len() as u32, &z)) {
            Ok(Some(m)) => { if cx.check(m.keys().eq([Path::new("x/y.z.tif")]), "name", || format!("{:?}", m.keys())) { match tiff(&m.values().next().unwrap()) { Ok(t) => { cx.check(t == (*w, *h, px.clone()), "pixels", || format!("{w}x{h} pattern {pattern}: {}x{}", t.0, t.1)); } Err(e) => cx.fail("tiff", e) } } }
            r => cx.fail("plate", format!("{:?}", r.err())),
        }
        if block != 64 { continue }
        // and plates which are not
        let mut cut: Vec<(usize, usize, u32, Vec<u8>)> = vec![(*w, *h, data.len() as u32 + 1, z.clone()), (*w, *h, data.len() as u32 - 1, z.clone()), (*w + 1, *h, data.len() as u32, z.clone()), (*w, *h + 1, (w * (h + 1) * 4) as u32, z.clone()), (*w, *h, u32::MAX, z.clone()), (65535, 65535, 65535u32.wrapping_mul(65535).wrapping_mul(4), z.clone())];
        for n in (0..z.len().saturating_sub(4)).step_by(if z.len() > 100 { 37 } else { 1 }) { cut.push((*w, *h, data.len() as u32, z[..n].to_vec())); }
        for (w, h, s, z) in cut { cx.step(); let r = recovered("x.bitmap", make(w, h, s, &z)); cx.check(matches!(&r, Err(e) if !e.starts_with("PANIC")), "damaged", || format!("{w}x{h} of {s} with {} bytes: {:?}", z.len(), r.as_ref().map(|r| r.is_some()))); }
        for (w, h) in [(0, *h), (*w, 0), (0, 0)] { cx.step(); cx.check(matches!(recovered("x.bitmap", make(w, h, 0, &z)), Ok(None)), "no plate", || format!("{w}x{h}")); }
    } });

    let ck_pick = ck.pick((1, 150), (3, 4_000));
    // the commands: everything at once, with what may be in the way
    let utext = encode("one\r\n\r\n###END-STRING###\r\n###END-STRING###\r\n", Enc::Little);
    let px: Vec<u32> = (0..6).map(|i| 0x80112233 + i).collect();
    let mut tags: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut bitmap = Bitmap::default();
    bitmap.color_plate.width = 2; bitmap.color_plate.height = 3;
    bitmap.color_plate.compressed_data.bytes = [&24u32.to_be_bytes()[..], &zlib(&px.iter().flat_map(|p| p.to_le_bytes()).collect::<Vec<u8>>(), 9)].concat();
    let save = |t: &dyn PrimaryTagStructDyn| t.to_tag_file().unwrap();
    tags.insert("tags/g/b.bitmap".into(), save(&bitmap));
    tags.insert("tags/g/e.bitmap".into(), save(&Bitmap::default()));
    tags.insert("tags/g/u.unicode_string_list".into(), save(&UnicodeStringList::from_text_data(&utext).unwrap()));
    tags.insert("tags/g/s.scenario".into(), save(&*scenario(&[("one", b"1"), ("global_scripts", b"g\0")])));
    tags.insert("tags/g/q.scenario".into(), save(&*scenario(&[])));
    tags.insert("tags/g/w.tag_collection".into(), save(&mc::memtree::collection(&["a.bitmap"])));
    let outs = ["data/g/b.tif", "data/g/u.txt", "data/g/scripts/one.hsc", "data/global_scripts.hsc"];
    ck.family("recover", 16 * 2 * 3 * 2, |i| format!("{i}"), |i, cx| {
        let (there, over, which, jobs) = (i % 16, i / 16 % 2 == 1, i / 32 % 3, i / 96 + 1);
        let dir = case_dir("p22");
        let mut tree = tags.clone();
        tree.insert("data/keep".into(), b"k".to_vec());
        for (k, o) in outs.iter().enumerate() { if there >> k & 1 == 1 { tree.insert(o.to_string(), b"old".to_vec()); } }
        reset(&dir, &tree);
        let word = ["*", "g\\s.scenario", "g\\*.bitmap"][which];
        let mut args = vec!["recover", word, "-j", ["1", "2"][jobs - 1]];
        if over { args.push("-o") }
        let r = invader(&args, &dir, &[("MC_NOSCHED", "1".into())]);
        cx.step(); cx.state(i); cx.validated();
        cx.check(r.ok() && !r.panicked(), "exit", || r.brief());
        let mut got = files(&snapshot(&dir));
        let mut want = tree.clone();
        for (k, o) in outs.iter().enumerate() {
            let meant = match which { 0 => true, 1 => k > 1, _ => k == 0 };
            if !meant || (there >> k & 1 == 1 && !over) { continue }
            want.insert(o.to_string(), match k { 0 => b"TIFF".to_vec(), 1 => utext.clone(), 2 => b"1".to_vec(), _ => b"g".to_vec() });
            if k == 0 { if let Some(t) = got.get_mut("data/g/b.tif") { if tiff(t).as_ref() == Ok(&(2, 3, px.clone())) { *t = b"TIFF".to_vec() } } }
        }
        cx.check(got == want, "files", || format!("{word} -o {over} with {there:04b}: {} ({})", differences(&got, &want), r.brief()));
        for (k, o) in outs.iter().enumerate() { if there >> k & 1 == 1 && !over && want.get(*o) == tree.get(*o) && (which == 0) { cx.check(r.out.contains(&format!("Skipping {}", &o[5..])) || r.err.contains(&format!("Skipping {}", &o[5..])), "told", || r.brief()); } }
        cx.check(r.out.contains("keep") == false, "out", || r.brief());
    });
    // names which lead elsewhere: nothing is written outside of data (which is deep enough for all of them to stay in the scratch directory)
    let bad = ["../x", "../../x", "../../../x", "../../../../x", "..\\x", "a/b", "ABS"];
    ck.family("outside", bad.len() * 2, |i| format!("{}{}", bad[i / 2], ["", " -o"][i % 2]), |i, cx| {
        let dir = PathBuf::from("/tmp").join(format!("mc22.{}.{}", std::process::id() % 100_000, slot()));
        let _ = std::fs::remove_dir_all(&dir);
        let name = if bad[i / 2] == "ABS" { dir.join("x").to_string_lossy().into_owned() } else { bad[i / 2].to_string() };
        let mut tree: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        tree.insert("1/2/3/4/tags/a/s.scenario".into(), save(&*scenario(&[(&name, b"evil")])));
        tree.insert("1/2/3/4/data/keep".into(), vec![]);
        tree.insert("x.hsc".into(), b"mine".to_vec());
        tree.insert("1/2/3/4/x.hsc".into(), b"mine".to_vec());
        std::fs::create_dir_all(&dir).unwrap();
        reset(&dir, &tree);
        let mut args = vec!["recover", "a\\s.scenario"];
        if i % 2 == 1 { args.push("-o") }
        let r = invader(&args, &dir.join("1/2/3/4"), &[("MC_NOSCHED", "1".into())]);
        cx.step(); cx.state(i); cx.validated();
        let got = files(&snapshot(&dir));
        let _ = std::fs::remove_dir_all(&dir);
        cx.check(got.iter().all(|(k, v)| tree.get(k) == Some(v) || k.starts_with("1/2/3/4/data/a/scripts/")) && tree.keys().all(|k| got.contains_key(k)), "outside", || format!("{name:?}: {}; {}", differences(&got, &tree), r.brief()));
        cx.check(!r.panicked(), "panic", || r.brief());
    });
    // several tags with the same scripts at once, in every schedule
    ck.family("at once", 8, |i| format!("{i:03b}"), |i, cx| {
        let (there, over, same) = (i & 1 == 1, i & 2 == 2, i & 4 == 4);
        let dir = case_dir("p22");
        let second: &[u8] = if same { b"1" } else { b"22" };
        let mut tree: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        tree.insert("tags/g/s.scenario".into(), save(&*scenario(&[("one", b"1")])));
        tree.insert("tags/g/t.scenario".into(), save(&*scenario(&[("one", second)])));
        tree.insert("data/keep".into(), vec![]);
        if there { tree.insert("data/g/scripts/one.hsc".into(), b"old".to_vec()); }
        let mut args: Vec<String> = ["recover", "*.scenario", "-j", "2"].map(String::from).to_vec();
        if over { args.push("-o".into()) }
        let sp = Space { args, cwd: &dir, env: vec![], preemptions: ck_pick.0, faults: 0, shard: (0, 1), most: ck_pick.1 };
        let mut problems = vec![];
        let x = explore(&sp, || reset(&dir, &tree), |e| {
            if let Some(d) = e.disaster() { problems.push(("disaster", format!("{d} [{}]", e.how()))); return false }
            let got = files(&snapshot(&dir));
            let n = e.run.out.matches("Recovered g/scripts/one.hsc").count();
            let skips = e.run.out.matches("Skipping g/scripts/one.hsc").count();
            let (want, want_skips) = match (there, over) { (_, true) => (2, 0), (true, false) => (0, 2), (false, false) => (1, 1) };
            if (n, skips) != (want, want_skips) { problems.push(("over another", format!("written {n} and skipped {skips} times instead of {want} and {want_skips} [{}]", e.how()))) }
            let c = got.get("data/g/scripts/one.hsc").cloned();
            let may: Vec<&[u8]> = if there && !over { vec![b"old"] } else { vec![b"1", second] };
            if !c.as_ref().is_some_and(|c| may.contains(&&c[..])) { problems.push(("content", format!("{c:?} [{}]", e.how()))) }
            problems.len() < 2
        });
        cx.steps(x.decisions); cx.validated_n(x.runs);
        for t in x.traces { cx.state(t) }
        if x.truncated { cx.note(|| "truncated".into()) }
        for (s, m) in problems { cx.fail(s, m) }
    });
    // from text to tag and back through the commands
    let texts: Vec<Vec<u8>> = ["", END, "a\n###END-STRING###", "\n\n###END-STRING###\nb\r\n\n###END-STRING###\n\n", "no end", "é\u{1F600}\n###END-STRING###"].iter().flat_map(|t| [Enc::Utf8, Enc::Little, Enc::Big].map(|e| encode(t, e))).chain([vec![0xFF], vec![0xFF, 0xFE, 0, 0xD8]]).collect();
    ck.family("commands", texts.len() * 2, |i| format!("{} {}", util::hex(&texts[i / 2]), i % 2), |i, cx| {
        let (t, old) = (&texts[i / 2], i % 2 == 1);
        let dir = case_dir("p22");
        let mut tree: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        tree.insert("data/d/x.y.txt".into(), t.clone());
        tree.insert("tags/keep".into(), vec![]);
        if old { tree.insert("tags/d/x.y.unicode_string_list".into(), save(&UnicodeStringList::from_text_data(b"old\n###END-STRING###").unwrap())); }
        reset(&dir, &tree);
        let r = invader(&["unicode-strings", "d\\x.y.unicode_string_list"], &dir, &[("MC_NOSCHED", "1".into())]);
        cx.step(); cx.state(i); cx.validated();
        let got = files(&snapshot(&dir));
        let want = decode(t).and_then(|t| reference(&t));
        let mut expect = tree.clone();
        if let Some(w) = &want { expect.insert("tags/d/x.y.unicode_string_list".into(), save(&list(&w.iter().map(|s| stored(s)).collect::<Vec<_>>()))); }
        cx.check(r.ok() && r.out.contains("Failed to process") == want.is_none() && !r.panicked() && got == expect, "import", || format!("{}; {}", r.brief(), differences(&got, &expect)));
        if want.is_none() { return }
        let r = invader(&["recover", "d\\x.y.unicode_string_list", "-o"], &dir, &[("MC_NOSCHED", "1".into())]);
        cx.step();
        let got = files(&snapshot(&dir));
        cx.check(r.ok(), "recover", || r.brief());
        cx.eq("same strings", got.get("data/d/x.y.txt").and_then(|t| decode(t)).and_then(|t| reference(&t)), want);
        // nothing changes when it is imported again
        let r = invader(&["unicode-strings", "d\\x.y.unicode_string_list"], &dir, &[("MC_NOSCHED", "1".into())]);
        cx.check(r.ok() && files(&snapshot(&dir)) == got, "again", || r.brief());
    });
    ck.finish();
}
fn decode8(b: &[u8]) -> bool { std::str::from_utf8(b).is_ok() }
