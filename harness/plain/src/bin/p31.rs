//! P31: what the tool says about cache files and engines is what is in them and in the definitions.
//! needs: invader-mc
use mc::mapbuild::*;
use mc::maptool::*;
use mc::refser::*;
use mc::treeval::*;
use mc::*;
use ringhopper::primitives::tag::ParseStrictness;
use std::path::Path;

fn num(v: &Value) -> u64 { match v { Value::String(s) => u64::from_str_radix(s.trim_start_matches("0x"), if s.starts_with("0x") { 16 } else { 10 }).unwrap(), v => v.as_u64().unwrap() } }
fn run(args: &[&str], dir: &Path) -> inv::Run { inv::invader(args, dir, &[("MC_NOSCHED", "1".into())]) }
/// Mebibytes with two digits, of whole kibibytes or exactly.
fn is_mib(s: &str, bytes: u64) -> bool { let s = s.trim(); [(bytes / 1024) as f64 / 1024.0, bytes as f64 / 1048576.0].iter().any(|x| s == format!("{x:.2} MiB")) }
fn most_of(e: &Value, kind: &str) -> u64 { let m = &e["max_cache_file_size"]; if m.is_object() { num(&m[kind]) } else { num(m) } }
const TYPES: [&str; 3] = ["singleplayer", "multiplayer", "user_interface"];
const PATHS: [&str; 3] = [BSP, "levels\\test\\two", "levels\\test\\three"];

/// Lines of the form "Key: value"; without a key they belong to what is above.
fn pairs(out: &str) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    for l in out.lines() {
        if l.trim().is_empty() { continue }
        match l.split_once(':').filter(|k| !l.starts_with(' ') && !k.0.contains('(')) {
            Some((k, x)) => v.push((k.trim().into(), x.trim().into())),
            None => { let k = v.last().map(|p| p.0.clone()).unwrap_or_default(); v.push((k, l.trim().into())) }
        }
    }
    v
}

struct World { engine: &'static str, kind: usize, bsps: Vec<usize>, crc: Option<u32>, forge: Option<u32>, base: Option<u32>, below: bool, extra: usize, name: String, hole: bool }
impl World {
    fn new(engine: &'static str) -> World { World { engine, kind: 1, bsps: vec![0], crc: None, forge: None, base: None, below: false, extra: 0, name: "some name".into(), hole: true } }
    fn build(&self) -> Built {
        let mut b = Builder::new(self.engine, SC);
        b.name = self.name.clone(); b.crc = self.crc; b.forge = self.forge; b.bsp_base = self.base; b.bsp_below = self.below; b.hole = self.hole;
        // what the header says of the type is not what counts
        b.scenario_type = ((self.kind + 1) % 3) as u16;
        let mut s = T::new("scenario");
        s.set_enum("type", TYPES[self.kind]);
        s.set_bytes("script_syntax_data", &table(0, 0));
        s.grow("structure_bsps", self.bsps.len());
        for (i, n) in self.bsps.iter().enumerate() {
            *s.at(&format!("structure_bsps[{i}].structure_bsp")) = Val::Ref("scenario_structure_bsp".into(), Some(PATHS[i].into()));
            let mut t = T::new("scenario_structure_bsp");
            t.grow("nodes", *n);
            b.add("scenario_structure_bsp", PATHS[i], Body::Tree(t.v));
        }
        for i in 0..self.extra {
            let mut t = T::new(["point_physics", "weapon", "globals", "string_list"][i % 4]);
            if t.group == "string_list" { t.grow("strings", i); }
            b.add(t.group, &format!("tag{i}"), Body::Tree(t.v));
        }
        b.add("scenario", SC, Body::Tree(s.v));
        b.build()
    }
    /// What is true of it.
    fn judge(&self, cx: &mut Cx, b: &Built, r: &inv::Run) {
        let e = &spec().engines[self.engine];
        let eng = engine(self.engine);
        if !cx.check(r.ok() && !r.panicked(), "run", || r.brief()) { return }
        let got = pairs(&r.out);
        let all = |k: &str| -> Vec<&str> { got.iter().filter(|p| p.0 == k).map(|p| p.1.as_str()).collect() };
        let mut is = |k: &str, want: Vec<String>| { let g = all(k); cx.check(g == want.iter().map(|s| s.as_str()).collect::<Vec<_>>(), k, || format!("{g:?} instead of {want:?}: {}", r.brief())); };
        is("Scenario name", vec![self.name.clone()]);
        is("Engine", vec![e["display_name"].as_str().unwrap().into(), format!("({})", self.engine)]);
        is("Build string", vec![eng.build.clone()]);
        is("Map type", vec![TYPES[self.kind].into()]);
        is("Tags", vec![(1 + self.bsps.len() + self.extra).to_string()]);
        let crc = b.layout.crc;
        let header = self.crc.unwrap_or(crc);
        let text: Vec<u8> = crc.to_be_bytes().to_vec();
        let text = if text.iter().all(|b| (0x20..0x7F).contains(b)) { format!(" \"{}\"", String::from_utf8(text).unwrap()) } else { String::new() };
        is("CRC32", if eng.xbox { vec![] } else if header == crc { vec![format!("0x{crc:08X}{text} (matches header)")] } else { vec![format!("0x{crc:08X} (mismatch; header=0x{header:08X})")] });
        let of = |cx: &mut Cx, k: &str, a: u64, b: u64| { let g = all(k); cx.check(g.len() == 1 && g[0].split_once(" / ").is_some_and(|(x, y)| is_mib(x, a) && is_mib(y, b)), k, || format!("{g:?} instead of {a} / {b} bytes")); };
        of(cx, "Uncompressed size", b.map.len() as u64, most_of(e, TYPES[self.kind]));
        let limit = num(&e["max_tag_space"]);
        let most = b.layout.bsps.iter().map(|b| b.1).max().unwrap_or(0);
        of(cx, "Tag space used", (b.layout.tag_data.1 + if eng.external_bsps { 0 } else { most }) as u64, limit);
        // to the byte
        let files = |m: &Map| (m.get_uncompressed_size(), m.get_used_tag_space(), m.get_estimated_max_tag_space(), m.get_crc32());
        let from = self.base.unwrap_or(if self.below { b.layout.base - 0x80_0000 } else { b.layout.base + 0x40_0000 }) as u64;
        let end = if eng.external_bsps || self.bsps.is_empty() { None } else { (from + b.layout.bsps[0].1 as u64).checked_sub(b.layout.base as u64) };
        match load(&eng, b, ParseStrictness::Relaxed) { Err(x) => cx.fail("load", x), Ok(m) => { cx.eq("to the byte", files(&m), (Some(b.map.len()), Some(b.layout.tag_data.1 + if eng.external_bsps { 0 } else { most }), end.map(|e| e as usize), if eng.xbox { None } else { Some((header, crc)) })); } }
        let g = all("Actual tag space");
        let loose = |w: &str| g.iter().any(|l| l.contains(w));
        if eng.external_bsps { cx.check(g.is_empty(), "actual", || format!("{g:?} although BSPs are elsewhere")); return }
        match end {
            None => { cx.check(g == ["Cannot determine"], "actual", || format!("{g:?} where it cannot be determined")); }
            Some(x) if x == limit => { cx.check(!loose("HIGHER") && !loose("LOWER"), "actual", || format!("{g:?} for exactly the limit")); }
            Some(x) => {
                let ok = g.len() == 2 && g[0].split_once(" (").is_some_and(|(m, h)| is_mib(m, x) && h == format!("0x{x:08X})")) && g[1].contains(if x > limit { "HIGHER" } else { "LOWER" }) && !g[1].contains(if x > limit { "LOWER" } else { "HIGHER" });
                cx.check(ok, "actual", || format!("{g:?} instead of {x:#x} (limit {limit:#x})"));
            }
        }
    }
}

fn main() {
    let mut ck = Check::new("P31");
    ck.assume("the cache files come from an independent writer (mapbuild.rs); for which engine a header stands is P04's business");
    ck.assume("sizes are told in MiB with two digits, computed from the bytes or from whole KiB (both are accepted)");
    let mut names: Vec<&'static str> = spec().engines.keys().map(|s| s.as_str()).collect();
    names.sort();
    // a build string has to lead back to the engine
    let e = |n: &str| &spec().engines[n];
    let builds: Vec<&'static str> = names.iter().copied().filter(|n| {
        let g = engine(n);
        let same: Vec<&&str> = names.iter().filter(|m| num(&e(m)["cache_file_version"]) == g.version as u64).collect();
        let exact: Vec<&&&str> = same.iter().filter(|m| e(m)["build"]["version"] == g.build.as_str() || e(m)["build"]["fallback"].as_array().is_some_and(|f| f.iter().any(|x| *x == g.build.as_str()))).collect();
        if exact.is_empty() { e(n)["cache_default"] == true } else { *exact[0] == n && e(n)["build"]["version"] == g.build.as_str() }
    }).collect();
    let say = |cx: &mut Cx, w: &World, args: &[&str]| {
        let dir = case_dir("p31");
        let b = w.build();
        std::fs::write(dir.join("x.map"), if engine(w.engine).deflate { stored(&b.map, 5) } else { b.map.clone() }).unwrap();
        cx.state(&b.map); cx.step(); cx.validated();
        let mut a = vec!["info", "x.map"]; a.extend(args);
        let r = run(&a, &dir);
        w.judge(cx, &b, &r);
        let _ = std::fs::remove_dir_all(&dir);
    };

    // ---- every engine, every type of map ----
    let (b, n) = (&builds, builds.len());
    let layouts: &[&[usize]] = &[&[], &[0], &[3, 40], &[40, 3], &[1, 90, 40], &[1, 3000, 40], &[3000, 1], &[4000, 2000, 5000]];
    ck.family("maps", n * 3 * layouts.len(), |i| { let d = digits(i, &[n, 3, layouts.len()]); format!("{} {} BSPs {:?}", b[d[0]], TYPES[d[1]], layouts[d[2]]) }, |i, cx| {
        let d = digits(i, &[n, 3, layouts.len()]);
        say(cx, &World { kind: d[1], bsps: layouts[d[2]].to_vec(), extra: i % 6, hole: i % 2 == 0, below: i % 5 == 1, ..World::new(b[d[0]]) }, &[]);
    });
    // ---- tag space ----
    let offs: &[i64] = &[-0x1000_0000, -0x10_0000, -1024, -1, 0, 1, 1024, 0x10_0000, 0x1000_0000];
    ck.family("tag space", n * offs.len() * 2, |i| { let d = digits(i, &[n, offs.len(), 2]); format!("{} {} bytes from the limit{}", b[d[0]], offs[d[1]], ["", ", a second BSP"][d[2]]) }, |i, cx| {
        let d = digits(i, &[n, offs.len(), 2]);
        let mut w = World { bsps: vec![vec![7], vec![7, 30]][d[2]].clone(), kind: i % 3, ..World::new(b[d[0]]) };
        let first = w.build();
        let to = first.layout.base as i64 + num(&e(w.engine)["max_tag_space"]) as i64 + offs[d[1]] - first.layout.bsps[0].1 as i64;
        if !(0..0xFFF0_0000).contains(&to) { return }
        w.base = Some(to as u32);
        say(cx, &w, &[]);
    });
    // ---- checksums ----
    let sums: &[u32] = &[0x6162_6364, 0x2020_2020, 0x7E7E_7E7E, 0x2170_6156, 0x6162_637F, 0x6162_631F, 0x6162_6300, 0x0061_6263, 0x61FF_6263, 0x6180_6263, 0, 0xFFFF_FFFF, 1, 0x0000_ABCD, 0x227C_5C22];
    let pc: Vec<&'static str> = builds.iter().copied().filter(|n| !engine(n).xbox).collect();
    let heads: &[Option<u32>] = &[None, Some(0x2170_6156), Some(0), Some(0xFFFF_FFFF), Some(0x0000_0123)];
    ck.family("checksums", pc.len() * sums.len() * heads.len(), |i| { let d = digits(i, &[pc.len(), sums.len(), heads.len()]); format!("{} {:08x} header {:x?}", pc[d[0]], sums[d[1]], heads[d[2]]) }, |i, cx| {
        let d = digits(i, &[pc.len(), sums.len(), heads.len()]);
        say(cx, &World { forge: Some(sums[d[1]]), crc: heads[d[2]], extra: 2, ..World::new(pc[d[0]]) }, &[]);
    });
    let (ls, ss, hs) = ck.pick((2, 4, 2), (layouts.len(), sums.len(), heads.len()));
    ck.family("together", n * 3 * ls * ss * hs * 2 * 2, |i| format!("{:?}", digits(i, &[n, 3, ls, ss, hs, 2, 2])), |i, cx| {
        let d = digits(i, &[n, 3, ls, ss, hs, 2, 2]);
        say(cx, &World { kind: d[1], bsps: layouts[(2 + d[2]) % layouts.len()].to_vec(), forge: Some(sums[d[3]]), crc: heads[d[4]], below: d[5] == 1, hole: d[6] == 1, ..World::new(b[d[0]]) }, &[]);
    });
    // each bit
    ck.family("checksum bits", 32 * 2, |i| format!("bit {} {}", i / 2, i % 2), |i, cx| {
        let v = 0x4D4D_4D4Du32 ^ 1 << (i / 2);
        say(cx, &World { forge: Some(v), crc: if i % 2 == 0 { None } else { Some(0x4D4D_4D4D) }, ..World::new("pc-custom") }, &[]);
    });
    // ---- names, numbers of tags, how it is asked ----
    let said: &[&str] = &["", "a", "beavercreek", "Name: with colon", "exactly-thirty-one-characters-xx", "a b  c"];
    let counts: &[usize] = &[0, 1, 2, 9, 10, 99, 100, 255, 256, 300];
    let asks: &[&[&str]] = &[&[], &["-T", "general"], &["--type", "GENERAL"], &["--type", "General"]];
    ck.family("names", said.len() * counts.len() * asks.len(), |i| { let d = digits(i, &[said.len(), counts.len(), asks.len()]); format!("{:?} {} tags {:?}", said[d[0]], counts[d[1]], asks[d[2]]) }, |i, cx| {
        let d = digits(i, &[said.len(), counts.len(), asks.len()]);
        say(cx, &World { name: said[d[0]].chars().take(31).collect(), extra: counts[d[1]], kind: i % 3, ..World::new(["pc-custom", "xbox", "mcc-cea", "pc-demo"][i % 4]) }, asks[d[2]]);
    });
    // ---- what is not a cache file, or not a question ----
    let bad: &[(&str, &[&str])] = &[("ok", &["-T", "tags"]), ("ok", &["-T", ""]), ("ok", &["-T", "gener"]), ("short", &[]), ("empty", &[]), ("version", &[]), ("foot", &[]), ("missing", &[]), ("directory", &[]), ("cut", &[]), ("type", &["-T", "generals"])];
    ck.family("refused", bad.len() * n, |i| format!("{} {:?} {}", bad[i / n].0, bad[i / n].1, b[i % n]), |i, cx| {
        let (what, args) = bad[i / n];
        let w = World::new(b[i % n]);
        let dir = case_dir("p31b");
        let built = w.build();
        let mut m = if engine(w.engine).deflate { stored(&built.map, 0) } else { built.map.clone() };
        let demo = m[0] == JUNK;
        match what {
            "short" => m.truncate(0x7FF), "empty" => m.clear(),
            "version" => { let o = if demo { 1416 } else { 4 }; m[o..o + 4].copy_from_slice(&0x7777u32.to_le_bytes()) }
            "foot" => { let o = if demo { 1520 } else { 2044 }; m[o] ^= 0x20 }
            "cut" => { let n = m.len() - 40; m.truncate(n) }
            _ => (),
        }
        match what { "missing" => (), "directory" => std::fs::create_dir(dir.join("x.map")).unwrap(), _ => std::fs::write(dir.join("x.map"), &m).unwrap() }
        cx.state(&m); cx.step(); cx.validated();
        let mut a = vec!["info", "x.map"]; a.extend(args);
        let r = run(&a, &dir);
        cx.check(!r.ok() && !r.panicked() && r.code == Some(1), "accepted", || r.brief());
        cx.check(!r.out.contains("Scenario name"), "information", || r.brief());
        let _ = std::fs::remove_dir_all(&dir);
    });

    // ---- engines ----
    ck.family("list", 1, |_| "list-engines".into(), |_, cx| {
        let dir = case_dir("p31l");
        let r = run(&["list-engines"], &dir);
        cx.state(&r.out); cx.step(); cx.validated();
        if !cx.check(r.ok() && !r.panicked(), "run", || r.brief()) { return }
        let mut got: Vec<(usize, String, String)> = vec![];
        let mut section = usize::MAX;
        for l in r.lines() {
            if let Some(p) = ["Primary", "Custom", "Read-only"].iter().position(|s| l.starts_with(s)) { section = p }
            if let Some(x) = l.strip_prefix("    ") { if let Some((a, b)) = x.split_once(' ') { got.push((section, a.into(), b.trim().into())) } else { got.push((section, x.into(), String::new())) } }
        }
        let mut want: Vec<(usize, String, String)> = names.iter().filter(|n| e(n)["fallback"] != true).map(|n| (if e(n)["build_target"] != true { 2 } else if e(n)["custom"] == true { 1 } else { 0 }, n.to_string(), e(n)["display_name"].as_str().unwrap().to_string())).collect();
        want.sort();
        cx.check(got == want, "list", || format!("{got:?} instead of {want:?}"));
    });
    ck.items("engine", &names, |n| n.to_string(), |n, cx| {
        let dir = case_dir("p31e");
        let r = run(&["list-engines", n], &dir);
        cx.state(&r.out); cx.step(); cx.validated();
        if !cx.check(r.ok() && !r.panicked(), "run", || r.brief()) { return }
        let d = e(n);
        // what comes behind a label
        let after = |l: &str| -> Vec<String> { r.lines().iter().filter_map(|x| x.trim_start_matches(" - ").strip_prefix(l)).map(|x| x.trim_start_matches(':').trim().to_string()).collect() };
        let mut is = |l: &str, w: String| { let g = after(l); cx.check(g == [w.clone()], l, || format!("{g:?} instead of {w:?}")); };
        let text = |v: &Value| v.as_str().unwrap_or("<none>").to_string();
        let yes = |k: &str| d[k] == true;
        let size = |n: u64| { format!("0x{n:08X} ({} MiB)", n as f64 / 1048576.0) };
        is("Target name", n.to_string());
        is("Full name", text(&d["display_name"]));
        is("Engine version", text(&d["version"]));
        is("Cache version", num(&d["cache_file_version"]).to_string());
        is("Build version", text(&d["build"]["version"]));
        let g = engine(n);
        is("Tag data address", format!("0x{:08X}{}", g.base, if g.inferred { " (inferred)" } else { "" }));
        is("Max tag space", size(num(&d["max_tag_space"])));
        is("BSP in tag space", if yes("external_bsps") { "no" } else { "yes" }.into());
        is("Models in tag space", if yes("external_models") { "no" } else { "yes" }.into());
        is("Vertex type", if yes("compressed_models") { "compressed" } else { "uncompressed" }.into());
        is("Max script nodes", num(&d["max_script_nodes"]).to_string());
        is("Texture sizes", if d["bitmap_options"]["texture_dimension_must_modulo_block_size"] == true { "must modulo block size" } else { "any" }.into());
        is("Cache compression", if g.deflate { "yes (deflate)" } else { "no" }.into());
        for (l, k) in [("singleplayer", "singleplayer"), ("multiplayer", "multiplayer"), ("user interface", "user_interface")] { is(l, size(most_of(d, k))) }
        let notes: Vec<&str> = r.lines().into_iter().filter(|l| l.starts_with("NOTE")).collect();
        let want = if yes("fallback") { Some("fallback engine") } else if !yes("build_target") { Some("read-only") } else { None };
        cx.check(match want { None => notes.is_empty(), Some(w) => notes.len() == 1 && notes[0].contains(w) }, "note", || format!("{notes:?}"));
    });
    // ---- names which are no engines ----
    let mut wrong: Vec<String> = ["", "-", "pcc", "zzz", "a", "PC", "xbox-", " pc-custom", "mcc", "0", "é"].iter().map(|s| s.to_string()).collect();
    for n in &names { for w in [n.to_uppercase(), format!("{n} "), format!("{n}x"), n[..n.len() - 1].to_string(), n[1..].to_string(), n.replace('-', "_")] { if !names.contains(&w.as_str()) { wrong.push(w) } } }
    wrong.sort(); wrong.dedup();
    ck.items("not engines", &wrong, |n| format!("{n:?}"), |n, cx| {
        let dir = case_dir("p31n");
        let r = run(&["list-engines", n], &dir);
        cx.state(&r.out); cx.step(); cx.validated();
        cx.check(r.code == Some(1) && !r.panicked() && !r.out.contains("Target name"), "accepted", || r.brief());
    });
    ck.finish();
}
