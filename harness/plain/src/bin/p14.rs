//! P14: the commands which work on many tags at once, under every schedule and single fault within bounds, on the tool itself. needs: invader-mc
use mc::explore::*;
use mc::fsmap::*;
use mc::*;
use ringhopper::data::bitmap::plate::make_color_plate_from_loose;
use ringhopper::definitions::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::bludgeon::*;
use ringhopper::tag::convert::get_tag_conversion_fn;
use ringhopper::tag::default::*;
use ringhopper::tag::nudge::*;
use ringhopper::tag::recover::get_recover_function;
use ringhopper::tag::tag_collection::TagCollectionFunctions;
use ringhopper::tag::unicode_string_list::UnicodeStringListFunctions;
use std::collections::{BTreeMap, BTreeSet};

type Files = BTreeMap<String, Vec<u8>>;
#[derive(Clone, PartialEq, Debug)]
enum Kind { Processed, Skipped, Ignored, Failed }
use Kind::*;
#[derive(Clone, Debug)]
struct Outcome { kind: Kind, /// why it was skipped
    why: &'static str, writes: Files, /// where the result goes, if it is a tag
    to: String, /// further lines
    lines: Vec<String> }
struct Scene { name: String, args: Vec<String>, silent: bool, files: Files, tags: BTreeMap<String, Outcome>, /// where changes go
    cow: bool }

fn path(s: &str) -> TagPath { TagPath::from_path(s).unwrap() }
fn strings(l: &[&str]) -> UnicodeStringList { let mut u = UnicodeStringList::default(); for s in l { u.strings.items.push(UnicodeStringListString { string: UTF16String::from_str(s) }) } u }
/// The same tag in a file which the tool would not write: something is in the unused parts.
fn uncanonical(t: &dyn PrimaryTagStructDyn) -> Vec<u8> {
    let b = t.to_tag_file().unwrap();
    for at in (64..b.len().min(600)).rev() {
        let mut body = b[64..].to_vec(); body[at - 64] ^= 1;
        let f = refser::tag_file(t.group().as_str(), &body);
        if let Ok(x) = read_any_tag_from_file_buffer(&f, ParseStrictness::Strict) { if x.to_tag_file().unwrap() == b { return f } }
    }
    panic!("no unused bits in {}", t.group())
}
fn read(b: &[u8], s: ParseStrictness) -> Option<Box<dyn PrimaryTagStructDyn>> { read_any_tag_from_file_buffer(b, s).ok() }
fn corrupt(mut b: Vec<u8>) -> Vec<u8> { let n = b.len(); b[n / 2] ^= 0x55; let c = 40; b[c] ^= 1; b }
fn checksum(t: &dyn PrimaryTagStructDyn) -> Vec<u8> { let mut b = t.to_tag_file().unwrap(); b[40] ^= 1; b }

fn done(w: Files) -> Outcome { Outcome { kind: Processed, why: "", writes: w, to: String::new(), lines: vec![] } }
fn skip(why: &'static str) -> Outcome { Outcome { kind: Skipped, why, writes: Files::new(), to: String::new(), lines: vec![] } }
fn fail() -> Outcome { Outcome { kind: Failed, why: "", writes: Files::new(), to: String::new(), lines: vec![] } }
fn ignore() -> Outcome { Outcome { kind: Ignored, why: "", writes: Files::new(), to: String::new(), lines: vec![] } }
/// Writing a tag: not if it is there like that already.
fn written(files: &Files, p: &str, t: &dyn PrimaryTagStructDyn) -> Outcome {
    let b = t.to_tag_file().unwrap();
    Outcome { to: p.to_string(), ..if files.get(p) == Some(&b) { skip("file on disk matches tag") } else { done(Files::from([(p.to_string(), b)])) } }
}

fn scenes() -> Vec<Scene> {
    let mut v = vec![];
    let mut scene = |name: &str, args: &[&str], silent: bool, cow: bool, files: Files, f: &dyn Fn(&str, &[u8], &Files) -> Option<Outcome>| {
        let mut tags = BTreeMap::new();
        for (p, b) in &files { if let Some(n) = p.strip_prefix("tags/") { if let Some(o) = f(n, b, &files) { tags.insert(n.to_string(), o); } } }
        v.push(Scene { name: name.into(), args: args.iter().map(|s| s.to_string()).collect(), silent, files, tags, cow });
    };
    let t = |l: Vec<(&str, Vec<u8>)>| -> Files { l.into_iter().map(|(p, b)| (p.to_string(), b)).collect() };
    let file = |t: &dyn PrimaryTagStructDyn| t.to_tag_file().unwrap();
    let strict = ParseStrictness::Strict;

    // strip: what is not as the tool writes it is written again
    let strip = |n: &str, b: &[u8], f: &Files| Some(match read(b, strict) { None => fail(), Some(t) => written(f, &format!("tags/{n}"), t.as_ref()) });
    let mut p = Bitmap::default(); p.processing.bump_height = 0.5;
    let files = t(vec![("tags/a.bitmap", uncanonical(&p)), ("tags/b.bitmap", file(&p)), ("tags/c.bitmap", corrupt(file(&p))), ("tags/sub/d.sound", uncanonical(&Sound::default())), ("tags/sub/e.scenery", uncanonical(&Scenery::default()))]);
    scene("strip", &["strip", "*"], false, false, files.clone(), &strip);
    scene("strip to elsewhere", &["strip", "*", "-c", "cow"], false, true, files.clone(), &strip);
    scene("strip some", &["strip", "*.bitmap"], false, false, files, &|n, b, f| if n.ends_with("bitmap") { strip(n, b, f) } else { None });

    // nudge
    let mut s = Sound::default(); s.maximum_bend_rate = 1.0999999;
    let mut s2 = Sound::default(); s2.maximum_bend_rate = 1.5;
    let files = t(vec![("tags/a.sound", file(&s)), ("tags/b.sound", file(&s2)), ("tags/c.sound", corrupt(file(&s))), ("tags/d.bitmap", corrupt(file(&p))), ("tags/sub/e.sound", file(&s))]);
    let f = |n: &str, b: &[u8], f: &Files| { if !is_nudgeable(path(n).group()) { return Some(ignore()) }
        Some(match read(b, strict) { None => fail(), Some(mut t) => if nudge_tag(t.as_mut()) { written(f, &format!("tags/{n}"), t.as_ref()) } else { skip("no need to nudge") } }) };
    scene("nudge", &["nudge", "*"], false, false, files.clone(), &f);
    scene("nudge to elsewhere", &["nudge", "*", "-c", "cow"], false, true, files, &f);

    // undefault
    let mut l = Light::default(); set_all_defaults_for_tag(&mut l);
    let mut sd = Sound::default(); set_all_defaults_for_tag(&mut sd);
    let files = t(vec![("tags/a.light", file(&l)), ("tags/b.light", file(&Light::default())), ("tags/c.sound", file(&sd)), ("tags/d.unicode_string_list", corrupt(file(&strings(&["x"])))), ("tags/e.light", corrupt(file(&l)))]);
    scene("undefault", &["undefault", "*"], false, false, files, &|n, b, f| { if !group_has_defaults(path(n).group()) { return Some(ignore()) }
        Some(match read(b, strict) { None => fail(), Some(mut t) => { unset_all_defaults_for_tag(t.as_mut()); written(f, &format!("tags/{n}"), t.as_ref()) } }) });

    // bludgeon: also what has a wrong checksum
    let mut nan = Bitmap::default(); nan.processing.bump_height = f64::NAN;
    let mut fubar = Scenario::default(); fubar.globals.items.push(Default::default());
    let mut half = Sound::default(); half.pitch_ranges.items.push(SoundPitchRange { permutations: Reflexive { items: vec![SoundPermutation { format: SoundFormat::OggVorbis, ..Default::default() }] }, ..Default::default() });
    let files = t(vec![("tags/a.bitmap", file(&nan)), ("tags/b.bitmap", checksum(&p)), ("tags/c.bitmap", file(&p)), ("tags/d.sound", file(&half)), ("tags/e.scenario", file(&fubar)), ("tags/f.bitmap", b"nothing".to_vec())]);
    scene("bludgeon", &["bludgeon", "*"], false, false, files, &|n, b, f| Some(match read(b, ParseStrictness::Relaxed) { None => fail(), Some(mut t) => match bludgeon_tag(t.as_mut(), &path(n)) { BludgeonResult::CannotRepair => skip("cannot repair; tag is FUBAR"), BludgeonResult::Done => written(f, &format!("tags/{n}"), t.as_ref()) } }));

    // convert
    let m = Model::default();
    let files = t(vec![("tags/a.model", file(&m)), ("tags/b.gbxmodel", file(&GBXModel::default())), ("tags/c.model", corrupt(file(&m))), ("tags/d.model", file(&m)), ("tags/d.gbxmodel", file(&GBXModel::default())), ("tags/e.bitmap", file(&p))]);
    for overwrite in [false, true] {
        let f = |n: &str, b: &[u8], f: &Files| {
            let Some(func) = get_tag_conversion_fn(path(n).group(), TagGroup::GBXModel) else { return Some(fail()) };
            let to = format!("tags/{}.gbxmodel", n.split_once('.').unwrap().0);
            if !overwrite && f.contains_key(&to) { return Some(skip("file already exists")) }
            Some(match read(b, strict) { None => fail(), Some(t) => match func(t.as_ref()) { Err(_) => fail(), Ok(t) => written(f, &to, t.as_ref()) } }) };
        scene(if overwrite { "convert over what is there" } else { "convert" }, if overwrite { &["convert", "*", "gbxmodel", "-o"] } else { &["convert", "*", "gbxmodel"] }, false, false, files.clone(), &f);
    }
    let files = t(vec![("tags/a.scenery", file(&Scenery::default())), ("tags/b.equipment", file(&Equipment::default())), ("tags/c.garbage", file(&Garbage::default())), ("tags/d.bitmap", file(&p))]);
    scene("convert items", &["convert", "*", "weapon"], false, false, files, &|n, b, f| Some(match get_tag_conversion_fn(path(n).group(), TagGroup::Weapon) { None => fail(), Some(func) => written(f, &format!("tags/{}.weapon", n.split_once('.').unwrap().0), func(read(b, strict).unwrap().as_ref()).unwrap().as_ref()) }));

    // text into tags: the tag which is there does not matter
    let text = |s: &str| { let mut v = vec![0xFF, 0xFE]; for u in s.encode_utf16() { v.extend(u.to_le_bytes()) } v };
    let files = t(vec![("tags/a.unicode_string_list", file(&strings(&["old"]))), ("tags/b.unicode_string_list", b"broken".to_vec()), ("tags/c.unicode_string_list", file(&strings(&["old"]))), ("tags/d.unicode_string_list", file(&strings(&["x"]))), ("tags/e.bitmap", file(&p)),
        ("data/a.txt", text("new\r\n###END-STRING###\r\n")), ("data/b.txt", text("one\r\n###END-STRING###\r\ntwo\r\n###END-STRING###\r\n")), ("data/d.txt", text("unterminated")), ("data/e.txt", text("e\r\n###END-STRING###\r\n"))]);
    scene("unicode-strings", &["unicode-strings", "*", "-d", "data"], false, false, files, &|n, _, f| { if !n.ends_with("unicode_string_list") { return None }
        Some(match f.get(&format!("data/{}.txt", n.split_once('.').unwrap().0)) { None => fail(), Some(t) => match UnicodeStringList::from_text_data(t) { Err(_) => fail(), Ok(u) => written(f, &format!("tags/{n}"), &u) } }) });
    let files = t(vec![("tags/a.tag_collection", file(&TagCollection::default())), ("tags/b.tag_collection", file(&TagCollection::default())), ("tags/c.tag_collection", file(&TagCollection::default())), ("tags/d.tag_collection", file(&memtree::collection(&["x.bitmap"]))),
        ("data/a.txt", b"a\\b.bitmap\r\n".to_vec()), ("data/b.txt", b"nonsense".to_vec()), ("data/d.txt", b"x.bitmap\n".to_vec())]);
    scene("tag-collection", &["tag-collection", "*", "-d", "data"], false, false, files, &|n, _, f| Some(match f.get(&format!("data/{}.txt", n.split_once('.').unwrap().0)) { None => fail(), Some(t) => match TagCollection::from_text_data(t) { Err(_) => fail(), Ok(u) => written(f, &format!("tags/{n}"), &u) } }));

    // data from tags
    let files = t(vec![("tags/a.unicode_string_list", file(&strings(&["x", "y"]))), ("tags/sub/b.unicode_string_list", file(&strings(&["z"]))), ("tags/c.unicode_string_list", corrupt(file(&strings(&["x"])))), ("tags/d.unicode_string_list", file(&strings(&["new"]))), ("tags/e.bitmap", file(&p)), ("tags/f.sound", file(&s)), ("data/d.txt", b"kept".to_vec())]);
    for overwrite in [false, true] {
        scene(if overwrite { "recover over what is there" } else { "recover" }, if overwrite { &["recover", "*", "-d", "data", "-o"] } else { &["recover", "*", "-d", "data"] }, true, false, files.clone(), &|n, b, f| { let Some(func) = get_recover_function(path(n).group()) else { return Some(ignore()) };
            let Some(t) = read(b, strict) else { return Some(Outcome { lines: vec![format!("Failed to recover {n}: ")], ..fail() }) };
            let Some(fs) = func(&path(n), &t).unwrap() else { return Some(skip("")) };
            let mut o = skip("");
            for (p, b) in fs { let p = p.to_str().unwrap().to_string(); let k = format!("data/{p}");
                if f.contains_key(&k) && !overwrite { o.lines.push(format!("Skipping {p}; already exists")); continue }
                o.kind = Processed; o.writes.insert(k, b); o.lines.push(format!("Recovered {p}")); }
            Some(o) });
    }

    // colour plates
    let img = |w: usize, h: usize, c: u32| ringhopper::data::bitmap::Image { width: w, height: h, data: vec![ColorARGBInt::from(ColorARGBIntBytes { alpha: 255, red: (c >> 16) as u8, green: (c >> 8) as u8, blue: c as u8 }); w * h] }.to_tiff();
    let mut files = t(vec![("tags/a.bitmap", file(&p)), ("tags/b.bitmap", file(&p)), ("tags/a.b.bitmap", b"not even a tag".to_vec()), ("tags/d.bitmap", file(&p)), ("tags/sub/e.bitmap", file(&p))]);
    for (p, b) in [("a/s0_0.tif", img(2, 2, 0xFF102030)), ("a.b/s0_0.tif", img(1, 3, 0xFF405060)), ("d/s0_0.tif", b"no image".to_vec()), ("sub/e/s0_0.tif", img(3, 1, 0xFF778899)), ("sub/e/s0_1.tif", img(1, 1, 0xFF010203))] { files.insert(format!("data/{p}"), b); }
    scene("plate", &["plate", "*", "-d", "data"], false, false, files, &|n, _, f| { let base = n.strip_suffix(".bitmap").unwrap();
        let d = case_dir("p14plate");
        let l: Files = f.iter().filter_map(|(k, b)| k.strip_prefix(&format!("data/{base}/")).map(|k| (k.to_string(), b.clone()))).collect();
        if l.is_empty() { return Some(skip("no directory to import in data")) }
        write_files(&d, &l);
        Some(match make_color_plate_from_loose(&d) { Err(_) => fail(), Ok(i) => done(Files::from([(format!("data/{base}.tif"), i.to_tiff())])) }) });

    // nothing matches; nothing viable matches
    scene("nothing", &["strip", "z*"], false, false, t(vec![("tags/a.bitmap", file(&p))]), &|_, _, _| None);
    scene("nothing viable", &["nudge", "*"], false, false, t(vec![("tags/a.bitmap", file(&p)), ("tags/b.bitmap", file(&p))]), &|_, _, _| Some(ignore()));
    v
}

/// Is this what the command must do? `struck` are the tags whose own files could not be read or written.
fn judge(s: &Scene, tags: &BTreeMap<String, Outcome>, r: &inv::Run, got: &Files, struck: &BTreeSet<String>, filter: bool) -> Vec<(&'static str, String)> {
    let mut bad = vec![];
    let mut want = s.files.clone();
    let mut lines: Vec<String> = vec![]; // what must be there, up to the reason of failures
    let (mut total, mut success, mut failure) = (0, 0, 0);
    for (n, o) in tags {
        let mut o = o.clone();
        if struck.contains(n) && o.kind != Ignored { o = fail(); if s.args[0] == "recover" { o.lines = vec![format!("Failed to recover {n}: ")] } }
        match o.kind { Ignored => continue, Processed => { success += 1; if !s.silent { lines.push(format!("Processed {n}")) } }, Skipped => if !s.silent { lines.push(format!("Skipped {n}: {}", o.why)) }, Failed => { failure += 1; lines.push(format!("Failed to process {n}: ")) } }
        total += 1;
        lines.extend(o.lines.iter().cloned());
        for (p, b) in &o.writes { want.insert(if s.cow { p.replacen("tags/", "cow/", 1) } else { p.clone() }, b.clone()); }
    }
    let end = format!(" error{}", if failure == 1 { "" } else { "s" });
    if s.silent {
        if failure > 0 { lines.push(format!("Failed to parse {failure} tag{}", if failure == 1 { "" } else { "s" })) }
        if total > 1 { lines.push(if success > 0 { format!("Recovered {success} / {total} tags with {failure} error(s)") } else if failure == 0 { format!("Recovered 0 / {total} tags (all skipped)") } else { format!("Recovered 0 / {total} tags with {failure} error(s)") }) }
    }
    else if total > 1 && filter || total > 1 { lines.push(format!("Processed {success} / {total} tags in # ms{}", if failure > 0 { format!(", with {failure}{end}") } else { String::new() })) }
    if *got != want { bad.push(("files", differences(got, &want))) }
    if r.ok() != (total > 0) { bad.push(("status", format!("{total} tags: {}", r.brief()))) }
    if total == 0 && !r.err.contains("No viable tags matched") && !r.out.contains("No viable tags matched") { bad.push(("status", r.brief())) }
    // failures have a reason, which may have several lines; everything else is as foretold
    let mut have: Vec<String> = vec![];
    for l in r.out.lines() {
        let l = match l.split_once(" tags in ") { Some((a, b)) => format!("{a} tags in #{}", b.trim_start_matches(|c: char| c.is_ascii_digit())), None => l.to_string() };
        match lines.iter().find(|w| w.ends_with(": ") && w.starts_with("Failed ") && l.starts_with(*w) && l.len() > w.len()) { Some(w) => have.push(w.clone()), None => have.push(l) }
    }
    if total > 0 { let mut w = lines.clone(); w.sort(); have.sort(); if have != w { bad.push(("report", format!("{have:?} instead of {w:?}"))) } }
    bad
}

fn main() {
    let mut ck = Check::new("P14");
    let sc = scenes();
    let args = |s: &Scene, what: Option<&str>, jobs: usize, root: &std::path::Path| -> Vec<String> {
        let mut a: Vec<String> = s.args.iter().map(|a| match a.as_str() { "data" | "cow" => root.join(a).display().to_string(), _ => a.clone() }).collect();
        if let Some(w) = what { a[1] = w.to_string() }
        a.extend(["-t".into(), root.join("tags").display().to_string(), "-j".into(), jobs.to_string()]); a
    };
    let setup = |s: &Scene, root: &std::path::Path| { reset(root, &s.files); for d in ["tags", "data", "cow"] { std::fs::create_dir_all(root.join(d)).unwrap() } };

    // ---- each tag alone, all of them one by one, and more threads than tags; two tags at a time
    let mut items = vec![];
    for i in 0..sc.len() { for jobs in [0, 1, 2, 9] { items.push((i, jobs, None)) } for t in sc[i].tags.keys() { items.push((i, 1, Some(t.clone()))); } }
    ck.items("without a scheduler", &items, |(i, j, t)| format!("{}: {j} jobs {}", sc[*i].name, t.as_deref().unwrap_or("all")), |(i, jobs, only), cx| {
        let s = &sc[*i];
        let root = case_dir("p14"); setup(s, &root);
        let r = inv::invader(&args(s, only.as_deref(), *jobs, &root), &root, &[("MC_NOSCHED", "1".into())]);
        let tags = match only { None => s.tags.clone(), Some(t) => BTreeMap::from([(t.clone(), s.tags[t].clone())]) };
        cx.step(); cx.validated();
        cx.note(|| r.brief());
        cx.check(!r.panicked(), "panic", || r.brief());
        for (k, m) in judge(s, &tags, &r, &files(&snapshot(&root)), &BTreeSet::new(), only.is_none()) { cx.fail(k, m) }
    });

    // ---- every schedule; every file which cannot be read or written; both
    let shards = 4;
    let mut items = vec![]; // scene, jobs, preemptions, faults, shard
    for i in 0..sc.len() { for sh in 0..shards {
        for (j, p, f) in if ck.quick() { vec![(2, 2, 0), (3, 1, 0), (1, 0, 1)] } else { vec![(2, 3, 0), (3, 2, 0), (4, 1, 0), (1, 0, 2), (2, 1, 1)] } { items.push((i, j, p, f, sh)) }
    } }
    let most = ck.pick(150, 3_000);
    ck.items("schedules and faults", &items, |(i, j, p, f, sh)| format!("{}: {j} jobs, {p} preemptions, {f} faults, share {sh}", sc[*i].name), |(i, jobs, p, f, sh), cx| {
        let s = &sc[*i];
        let root = case_dir("p14");
        let mut env = vec![];
        if *f > 0 { env = vec![("MC_FAULT_ROOT", root.display().to_string()), ("MC_FAULT_OPS", "read,write".into()), ("MC_FAULT_KINDS", "error".into())] }
        let sp = Space { args: args(s, None, *jobs, &root), cwd: &root, env, preemptions: *p, faults: *f, shard: (*sh, shards), most };
        let mut problems = vec![];
        let x = explore(&sp, || setup(s, &root), |e| {
            if let Some(d) = e.disaster() { problems.push(("disaster", format!("{d} [{}]", e.how()))); return false }
            let mut struck = BTreeSet::new();
            for f in &e.faults { let p = f.rsplit(' ').next().unwrap();
                // whose file it is
                let rel = std::path::Path::new(p).strip_prefix(&root).map(|p| p.display().to_string()).unwrap_or(p.to_string());
                let hit: Vec<&String> = s.tags.iter().filter(|(n, o)| rel == format!("tags/{n}") || rel == format!("cow/{n}") || o.writes.contains_key(&rel) || o.to == rel || o.to.replacen("tags/", "cow/", 1) == rel || rel == format!("data/{}.txt", n.rsplit_once('.').unwrap().0) || rel.starts_with(&format!("data/{}/", n.rsplit_once('.').unwrap().0))).map(|x| x.0).collect();
                if hit.is_empty() { problems.push(("unexpected access", rel)) }
                struck.extend(hit.into_iter().cloned());
            }
            for (k, m) in judge(s, &s.tags, &e.run, &files(&snapshot(&root)), &struck, true) { problems.push((k, format!("{m} [{}]", e.how()))) }
            problems.len() < 3
        });
        cx.steps(x.decisions); cx.validated_n(x.runs);
        for t in x.traces { cx.state(t) }
        if x.truncated { cx.note(|| "truncated".into()) }
        for (s, m) in problems { cx.fail(s, m) }
    });
    ck.assume("a write which the system reports as failed has not changed the file");
    ck.finish()
}
