//! P04: groups, engines and what the library says about them = the definitions (spec/layout.json, read independently).
use mc::refser::*;
use mc::*;
use ringhopper::definitions::{get_all_referenceable_tag_groups_for_group, group_has_default_in_definitions, group_supported_on_engine, ScenarioType};
use ringhopper::map::header::{get_map_details, ParsedCacheFileHeader};
use ringhopper::primitives::byteorder::{BigEndian, LittleEndian};
use ringhopper::primitives::engine::*;
use ringhopper::primitives::parse::SimpleTagData;
use ringhopper::primitives::primitive::TagGroup;
use ringhopper_engines::ALL_SUPPORTED_ENGINES;
use std::collections::BTreeSet;

fn refs(strukt: &str, out: &mut BTreeSet<String>, seen: &mut BTreeSet<String>) {
    if !seen.insert(strukt.into()) { return }
    for f in &spec().structs[strukt].fields { match &f.ty {
        Ty::Ref { groups, .. } => for g in groups { if g == "*" { out.extend(spec().groups.keys().cloned()) } else { out.insert(g.clone()); } },
        Ty::Struct(s) | Ty::Refl(s) => refs(s, out, seen), _ => () } }
}
fn defaults(strukt: &str, seen: &mut BTreeSet<String>) -> bool {
    if !seen.insert(strukt.into()) { return false }
    spec().structs[strukt].fields.iter().any(|f| f.default.is_some() || match &f.ty { Ty::Struct(s) | Ty::Refl(s) => defaults(s, seen), _ => false })
}
fn num(v: &Value) -> u64 { match v { Value::String(s) => u64::from_str_radix(s.trim_start_matches("0x"), if s.starts_with("0x") { 16 } else { 10 }).unwrap(), v => v.as_u64().unwrap() } }
fn strs(v: &Value) -> Vec<String> { v.as_array().map(|l| l.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default() }
fn ancestors(e: &str) -> Vec<String> { let mut v = vec![e.to_string()]; let mut at = e.to_string(); while let Some(p) = spec().engines[&at]["inherits"].as_str() { v.push(p.into()); at = p.into() } v }

/// The engines a header may denote: exact build matches, or else the default for the version.
fn expected_engine(version: u64, build: &str) -> Vec<String> {
    let e = &spec().engines;
    let of_version: Vec<&String> = e.keys().filter(|k| num(&e[*k]["cache_file_version"]) == version).collect();
    let exact: Vec<String> = of_version.iter().filter(|k| { let b = &e[**k]["build"]; b.is_object() && (b["version"] == build || strs(&b["fallback"]).iter().any(|f| f == build)) }).map(|k| k.to_string()).collect();
    if !exact.is_empty() {
        // variants which share a build with what they derive from are not told apart: the original wins
        return exact.iter().filter(|k| !ancestors(k)[1..].iter().any(|a| exact.contains(a))).cloned().collect();
    }
    of_version.iter().filter(|k| e[**k]["cache_default"] == true && e[**k]["build"]["enforced"] != true).map(|k| k.to_string()).collect()
}

fn header(demo: bool, version: u32, build: &str, map_type: u16, name: &str, nums: &[u32; 4]) -> Vec<u8> {
    let mut h = vec![0u8; 0x800];
    let st = &spec().structs[if demo { "CacheFileHeaderPCDemo" } else { "CacheFileHeader" }];
    let at = |n: &str| st.fields.iter().find(|f| f.name == n).map(|f| f.offset);
    let mut put = |n: &str, b: &[u8]| if let Some(o) = at(n) { h[o..o + b.len()].copy_from_slice(b) };
    put("head_fourcc", &(if demo { 0x45686564u32 } else { 0x68656164 }).to_le_bytes());
    put("foot_fourcc", &(if demo { 0x47666F74u32 } else { 0x666F6F74 }).to_le_bytes());
    put("cache_version", &version.to_le_bytes());
    put("build", build.as_bytes());
    put("name", name.as_bytes());
    put("map_type", &map_type.to_le_bytes());
    put("tag_data_offset", &nums[0].to_le_bytes()); put("tag_data_size", &nums[1].to_le_bytes());
    put("decompressed_size", &nums[2].to_le_bytes()); put("crc32", &nums[3].to_le_bytes()); put("compression_padding", &(nums[3] ^ 5).to_le_bytes());
    h
}

fn main() {
    let mut ck = Check::new("P04");
    ck.assume("four-character codes: the table in refser.rs, written down independently; the rest: spec/layout.json of the pinned definitions");
    let code = |b: &[u8; 4]| u32::from_be_bytes(*b);
    ck.items("names", FOURCC, |g| g.0.into(), |(name, cc), cx| {
        let g = match TagGroup::from_str(name) { Ok(g) => g, Err(e) => return cx.fail("name", format!("{name:?} is not recognised: {e}")) };
        cx.eq("as_str", g.as_str(), *name);
        cx.eq("display", g.to_string(), name.to_string());
        cx.eq("fourcc", g.as_fourcc(), code(cc));
        cx.eq("from-fourcc", TagGroup::from_fourcc(code(cc)), Some(g));
        cx.eq("try-from", TagGroup::try_from(code(cc)).ok(), Some(g));
        let mut b = [0u8; 4];
        g.write::<BigEndian>(&mut b, 0, 4).unwrap(); cx.eq("write-be", b, **cc);
        cx.eq("read-be", TagGroup::read::<BigEndian>(&b, 0, 4).ok(), Some(g));
        b.reverse(); cx.eq("read-le", TagGroup::read::<LittleEndian>(&b, 0, 4).ok(), Some(g));
        let mut l = [0u8; 4]; g.write::<LittleEndian>(&mut l, 0, 4).unwrap(); cx.eq("write-le", l, b);
        // what it may refer to, its defaults, its parents, its engines
        let Some(def) = spec().groups.get(*name) else {
            // a group with a name and a code but no definition
            cx.check(get_all_referenceable_tag_groups_for_group(g).is_empty() && !group_has_default_in_definitions(g) && g.subgroup().is_none(), "undefined-group", || "has properties".into());
            cx.validated();
            return
        };
        let st = &def.strukt;
        let mut want = BTreeSet::new(); refs(st, &mut want, &mut BTreeSet::new());
        let list = get_all_referenceable_tag_groups_for_group(g);
        let got: BTreeSet<String> = list.iter().map(|g| g.as_str().to_string()).collect();
        cx.check(got == want && got.len() == list.len(), "referenceable", || format!("{:?} missing, {:?} too many", want.difference(&got), got.difference(&want)));
        cx.eq("has-default", group_has_default_in_definitions(g), defaults(st, &mut BTreeSet::new()));
        cx.eq("supergroup", g.subgroup().map(|g| g.as_str().to_string()), spec().groups[*name].supergroup.clone());
        let tree: Vec<String> = g.full_subgroup_tree().iter().filter(|g| **g != TagGroup::_Unset).map(|g| g.as_str().to_string()).collect();
        let mut want = vec![name.to_string()]; while let Some(s) = &spec().groups[want.last().unwrap()].supergroup { want.push(s.clone()) }
        cx.eq("group-tree", tree, want);
        for e in ALL_SUPPORTED_ENGINES {
            let want = spec().groups[*name].engines.as_ref().map(|l| ancestors(e.name).iter().any(|a| l.contains(a))).unwrap_or(true);
            cx.check(group_supported_on_engine(g, e) == want, "engine-support", || format!("on {}: {} instead of {want}", e.name, !want));
            cx.step();
        }
        cx.state(name); cx.steps(12); cx.validated();
        // everything near the name is no group (or the group of that name)
        let n = name.len();
        let mut near: Vec<String> = vec![format!(" {name}"), format!("{name} "), name.to_uppercase(), format!(".{name}"), name.replace('_', "-"), name.replace('_', " ")];
        for i in 0..n { near.push(format!("{}{}", &name[..i], &name[i + 1..])); for c in ['a', 'z', '_', '{', '\u{0}', 's'] { near.push(format!("{}{c}{}", &name[..i], &name[i + 1..])); near.push(format!("{}{c}{}", &name[..i], &name[i..])); near.push(format!("{name}{c}")) } }
        for s in near { cx.step(); let want = FOURCC.iter().any(|g| g.0 == s); let got = TagGroup::from_str(&s).ok().map(|g| g.as_str() == s); cx.check(got == if want { Some(true) } else { None }, "near-name", || format!("{s:?}: {got:?}")); }
    });
    cx_group_codes(&mut ck);
    // engines: every property as defined
    let engines: Vec<&String> = spec().engines.keys().collect();
    ck.items("engines", &engines, |e| e.to_string(), |name, cx| {
        let d = &spec().engines[*name];
        let all: Vec<&Engine> = ALL_SUPPORTED_ENGINES.iter().filter(|e| e.name == *name).collect();
        if !cx.check(all.len() == 1, "unique", || format!("{} engines of that name", all.len())) { return }
        let e = all[0];
        let b = |k: &str| d[k].as_bool().unwrap_or(false);
        cx.eq("display_name", e.display_name, d["display_name"].as_str().unwrap());
        cx.eq("version", e.version, d["version"].as_str());
        cx.eq("build", e.build.map(|b| (b.string.to_string(), b.fallback.iter().map(|s| s.to_string()).collect::<Vec<_>>(), b.enforced)), d["build"].as_object().map(|b| (b["version"].as_str().unwrap().to_string(), b.get("fallback").map(strs).unwrap_or_default(), b["enforced"].as_bool().unwrap_or(false))));
        for (k, v) in [("build_target", e.build_target), ("custom", e.custom), ("fallback", e.fallback), ("cache_default", e.cache_default), ("external_bsps", e.external_bsps), ("external_models", e.external_models), ("compressed_models", e.compressed_models)] { cx.eq(k, v, b(k)); }
        cx.eq("cache_file_version", e.cache_file_version as u64, num(&d["cache_file_version"]));
        cx.eq("max_script_nodes", e.max_script_nodes, num(&d["max_script_nodes"]));
        cx.eq("max_tag_space", e.max_tag_space, num(&d["max_tag_space"]));
        cx.eq("data_alignment", e.data_alignment as u64, num(&d["data_alignment"]));
        let o = &d["bitmap_options"];
        cx.eq("bitmap_options", (e.bitmap_options.swizzled, e.bitmap_options.texture_dimension_must_modulo_block_size, e.bitmap_options.cubemap_faces_stored_separately, e.bitmap_options.alignment as u64), (o["swizzled"] == true, o["texture_dimension_must_modulo_block_size"] == true, o["cubemap_faces_stored_separately"] == true, num(&o["alignment"])));
        cx.eq("resource_maps", e.resource_maps.map(|r| (r.externally_indexed_tags, r.loc)), d["resource_maps"].as_object().map(|r| (r["externally_indexed_tags"] == true, r["loc"] == true)));
        cx.eq("compression", e.compression_type, if d["compression_type"] == "deflate" { EngineCompressionType::Deflate } else { EngineCompressionType::Uncompressed });
        cx.eq("cache_parser", e.cache_parser, if d["cache_parser"] == "xbox" { EngineCacheParser::Xbox } else { EngineCacheParser::PC });
        let m = &d["max_cache_file_size"];
        let want = if m.is_object() { (num(&m["user_interface"]), num(&m["singleplayer"]), num(&m["multiplayer"])) } else { (num(m), num(m), num(m)) };
        cx.eq("max_cache_file_size", (e.max_cache_file_size.user_interface, e.max_cache_file_size.singleplayer, e.max_cache_file_size.multiplayer), want);
        let a = &d["base_memory_address"];
        cx.eq("base_memory_address", (e.base_memory_address.address, e.base_memory_address.inferred), if a.is_object() { (num(&a["value"]), a["inferred"] == true) } else { (num(a), false) });
        let r = &d["required_tags"];
        for (k, l) in [("all", e.required_tags.all), ("user_interface", e.required_tags.user_interface), ("singleplayer", e.required_tags.singleplayer), ("multiplayer", e.required_tags.multiplayer)] {
            let mut got: Vec<String> = l.iter().map(|s| s.to_string()).collect(); got.sort(); let mut want = strs(&r[k]); want.sort();
            cx.check(got == want, &format!("required_tags.{k}"), || format!("{got:?} instead of {want:?}"));
        }
        cx.state(name); cx.steps(20); cx.validated();
    });
    ck.family("engine-list", 1, |_| "all".into(), |_, cx| { cx.eq("names", ALL_SUPPORTED_ENGINES.iter().map(|e| e.name.to_string()).collect::<BTreeSet<_>>(), spec().engines.keys().cloned().collect()); cx.eq("count", ALL_SUPPORTED_ENGINES.len(), spec().engines.len()); cx.validated(); });
    // headers: every version x every build string known or near a known one
    let mut builds: BTreeSet<String> = ["", "x", "01.00.00.0000", "0123456789012345678901234567890"].iter().map(|s| s.to_string()).collect();
    for e in spec().engines.values() { if let Some(b) = e["build"].as_object() { for s in std::iter::once(b["version"].as_str().unwrap().to_string()).chain(b.get("fallback").map(strs).unwrap_or_default()) {
        builds.insert(format!("{s} ")); builds.insert(format!("0{s}")); if !s.is_empty() { builds.insert(s[1..].into()); builds.insert(s[..s.len() - 1].into()); for i in 0..s.len() { if s.as_bytes()[i].is_ascii_digit() { let mut t = s.clone().into_bytes(); t[i] = b'0' + (t[i] - b'0' + 1) % 10; builds.insert(String::from_utf8(t).unwrap()); } } } builds.insert(s);
    } } }
    let builds: Vec<String> = builds.into_iter().collect();
    let mut versions: BTreeSet<u32> = [0, 1, 0xffff, 0x10005, 0x7fffffff, 0x80000000, u32::MAX].into_iter().collect();
    for e in spec().engines.values() { let v = num(&e["cache_file_version"]) as u32; for d in [v, v + 1, v - 1, v << 8, v.swap_bytes()] { versions.insert(d); } }
    if !ck.quick() { versions.extend(0..70000u32.min(2000)); }
    let versions: Vec<u32> = versions.into_iter().collect();
    ck.items("headers", &versions, |v| format!("version={v}"), |v, cx| for b in &builds { for demo in [false, true] { for ty in 0..3u16 {
        let nums = [0x11223344 ^ *v, 0x800 + ty as u32, 0x01020304, 0xdeadbeef];
        let h = header(demo, *v, b, ty, "some_map", &nums);
        cx.step(); cx.state((v, b, demo, ty));
        match ParsedCacheFileHeader::read_from_map_data(&h) {
            Err(e) => cx.fail("header", format!("{b:?} demo={demo}: {e}")),
            Ok(p) => { cx.check((p.name.as_str(), p.build.as_str(), p.cache_version, p.tag_data_offset as u32, p.tag_data_size as u32, p.decompressed_size as u32, p.crc32, p.compression_padding as u32) == ("some_map", b.as_str(), *v, nums[0], nums[1], nums[2], nums[3], if demo { 0 } else { nums[3] ^ 5 }), "header-fields", || format!("{b:?} demo={demo}"));
                let t = match p.map_type { ScenarioType::Singleplayer => 0, ScenarioType::Multiplayer => 1, ScenarioType::UserInterface => 2 }; cx.check(t == ty, "map-type", || format!("{ty} read as {t}")); }
        }
        let got = get_map_details(&h).ok().map(|x| x.1.name.to_string());
        let want = expected_engine(*v as u64, b);
        cx.check(match &got { None => want.is_empty(), Some(g) => want.len() == 1 && &want[0] == g, }, "engine", || format!("version {v} build {b:?}: {got:?} instead of {want:?}"));
        cx.validated();
    }}});
    // what is no header
    ck.family("not-a-header", 0x801, |i| format!("{i:#x}"), |i, cx| {
        let h = header(false, 7, "01.00.10.0621", 0, "a", &[1, 2, 3, 4]);
        cx.step();
        if i < 0x800 { cx.check(get_map_details(&h[..i]).is_err(), "short", || "accepted".into()); } else {
            for demo in [false, true] { let (a, b) = if demo { (704, 1520) } else { (0, 2044) }; for at in [a, b] { for k in 0..32 {
                let mut h = header(demo, if demo { 6 } else { 7 }, "x", 0, "a", &[1, 2, 3, 4]); h[at + k / 8] ^= 1 << (k % 8);
                cx.step(); cx.check(get_map_details(&h).is_err(), "fourcc", || format!("demo={demo} {at:#x} bit {k}"));
            } } }
        }
        cx.validated();
    });
    ck.finish()
}

fn cx_group_codes(ck: &mut Check) {
    let want = |c: u32| FOURCC.iter().find(|g| u32::from_be_bytes(*g.1) == c).map(|g| g.0.to_string()).or(if c == 0 || c == u32::MAX { Some("<unset>".into()) } else { None });
    // properties of sounds which stand for a number
    ck.family("sound numbers", 64, |i| format!("{}..", i * 2048), |i, cx| {
        use ringhopper::definitions::{SoundChannelCount as C, SoundSampleRate as S};
        use ringhopper::tag::sound::*;
        for n in (i as u32 * 2048)..(i as u32 * 2048 + 2048) {
            for n in [n, n | 1 << 31, !n] {
                let c = match n { 1 => Some(C::Mono), 2 => Some(C::Stereo), _ => None };
                let s = match n { 22050 => Some(S::_22050Hz), 44100 => Some(S::_44100Hz), _ => None };
                cx.steps(2); cx.validated_n(2);
                cx.eq("channels", channel_count_from_u32(n), c);
                cx.eq("rate", sample_rate_from_u32(n), s);
                if let Some(c) = c { cx.eq("channels", channel_count_to_u32(c), n); }
                if let Some(s) = s { cx.eq("rate", sample_rate_to_u32(s), n); }
            }
        }
    });
    ck.items("codes", FOURCC, |g| g.0.into(), |(_, cc), cx| {
        let c = u32::from_be_bytes(**cc);
        let mut l = vec![c.swap_bytes(), c.rotate_left(8), c.rotate_left(16), 0, u32::MAX, 1, u32::MAX - 1];
        for i in 0..4 { for v in 0..256u32 { l.push(c & !(0xff << (8 * i)) | v << (8 * i)) } }
        for i in 0..4 { for j in 0..i { for v in [0u32, 0x20, 0x41, 0xff] { l.push(c & !(0xff << (8 * i)) & !(0xff << (8 * j)) | v << (8 * i) | v << (8 * j)) } } }
        for c in l { cx.step(); cx.state(c); let got = TagGroup::from_fourcc(c).map(|g| g.as_str().to_string()); cx.check(got == want(c), "code", || format!("{c:#010x} is {got:?} instead of {:?}", want(c))); }
        cx.validated();
    });
}
