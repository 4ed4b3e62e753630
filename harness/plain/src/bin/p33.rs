//! P33: what the library of definitions holds is what the definition files say.
use mc::*;
use ringhopper_definitions::*;
use serde_json::{Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};

type J = Map<String, Value>;

/// Everything that is defined, by kind and name.
fn files() -> (usize, BTreeMap<(String, String), J>) {
    fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) { for e in std::fs::read_dir(d).unwrap() { let p = e.unwrap().path(); if p.is_dir() { walk(&p, out) } else if p.extension().is_some_and(|e| e == "json") { out.push(p) } } }
    let mut l = vec![];
    walk(std::path::Path::new("/repo/src/ringhopper-definitions/json"), &mut l);
    let mut out = BTreeMap::new();
    for p in &l {
        let v: Value = serde_json::from_slice(&std::fs::read(p).unwrap()).unwrap();
        for o in v.as_array().unwrap() {
            let o = o.as_object().unwrap();
            let k = match o["type"].as_str().unwrap() { "group" => "group", "engine" => "engine", _ => "object" };
            assert!(out.insert((k.to_string(), o["name"].as_str().unwrap().to_string()), o.clone()).is_none(), "{k} {} twice", o["name"]);
        }
    }
    (l.len(), out)
}

// ---- what the files say, as text ----

fn is(o: &J, k: &str) -> bool { o.get(k).is_some_and(|v| v.as_bool().unwrap()) }
fn text(o: &J, k: &str) -> Option<String> { o.get(k).map(|v| v.as_str().unwrap().to_string()) }
fn texts(o: &J, k: &str) -> Option<Vec<String>> { o.get(k).map(|v| v.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect()) }
const FLAGS: [&str; 8] = ["cache_only", "non_cached", "read_only", "hidden", "exclude", "little_endian", "shifted_by_one", "non_null"];
fn flags_of(o: &J, above: Option<&J>) -> String {
    let set: Vec<&str> = FLAGS.iter().copied().filter(|f| is(o, f) || above.is_some_and(|a| is(a, f))).collect();
    format!("{set:?} {:?} {:?} {:?} {:?}", texts(o, "supported_engines"), text(o, "comment"), text(o, "developer_note"), text(o, "description"))
}
/// Bytes, numbers in it and kind of number ('f', 'u', 'i', 's' or none) of what is no object.
fn kind(t: &str) -> Option<(u64, usize, char)> {
    Some(match t {
        "Reflexive" => (12, 1, 'u'), "TagReference" => (16, 1, 's'), "Data" | "FileData" | "BSPVertexData" | "UTF16String" => (20, 1, ' '),
        "float" | "Angle" => (4, 1, 'f'), "uint32" | "ColorARGBInt" => (4, 1, 'u'), "int32" => (4, 1, 'i'),
        "Address" | "TagID" | "ID" | "TagGroup" | "CompressedVector2D" | "CompressedVector3D" | "ScenarioScriptNodeValue" => (4, 1, ' '),
        "uint16" | "Index" => (2, 1, 'u'), "int16" => (2, 1, 'i'), "CompressedFloat" => (2, 1, ' '), "uint8" => (1, 1, 'u'), "int8" => (1, 1, 'i'),
        "Rectangle" => (8, 4, 'i'), "Vector2DInt" => (4, 2, 'i'),
        "Vector2D" | "Euler2D" => (8, 2, 'f'), "Vector3D" | "Euler3D" | "Plane2D" | "ColorRGBFloat" => (12, 3, 'f'), "Plane3D" | "Quaternion" | "ColorARGBFloat" => (16, 4, 'f'),
        "Matrix3x3" => (36, 9, 'f'), "String32" => (32, 1, 's'),
        _ => return None,
    })
}
fn size(all: &BTreeMap<(String, String), J>, t: &str) -> u64 {
    if let Some(k) = kind(t) { return k.0 }
    let o = &all[&("object".to_string(), t.to_string())];
    match o["type"].as_str().unwrap() { "struct" => o["size"].as_u64().unwrap(), "enum" => 2, _ => o["width"].as_u64().unwrap() / 8 }
}
fn value(k: char, v: &Value) -> String { match k { 'f' => format!("f{:?}", v.as_f64().unwrap() as f32), 'u' => format!("u{}", v.as_u64().unwrap()), 'i' => format!("i{}", v.as_i64().unwrap()), _ => format!("s{:?}", v.as_str().unwrap()) } }
fn snake(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut o = String::new();
    for i in 0..c.len() { if i > 0 && c[i].is_uppercase() && !c[i - 1].is_uppercase() { o.push('_') } o.extend(c[i].to_lowercase()) }
    o
}
/// The groups which can be referred to: those named, whatever is derived from them; `*` is all.
fn groups(all: &BTreeMap<(String, String), J>, named: &[String]) -> BTreeSet<String> {
    let g: Vec<(&String, &J)> = all.iter().filter(|(k, _)| k.0 == "group").map(|(k, v)| (&k.1, v)).collect();
    let mut out: BTreeSet<String> = named.iter().filter(|n| *n != "*").cloned().collect();
    if named.iter().any(|n| n == "*") { out.extend(g.iter().map(|g| g.0.clone())) }
    loop {
        let more: Vec<String> = g.iter().filter(|(n, o)| !out.contains(*n) && (o.get("supergroup").is_some_and(|s| out.contains(s.as_str().unwrap())) || *n == "gbxmodel" && out.contains("model"))).map(|g| g.0.clone()).collect();
        if more.is_empty() { return out }
        out.extend(more);
    }
}
fn said(all: &BTreeMap<(String, String), J>, k: &str, name: &str, o: &J) -> Vec<String> {
    let mut out = vec![];
    match (k, o["type"].as_str().unwrap()) {
        ("group", _) => out.push(format!("group {name} struct {} of {:?} version {} engines {:?}", o["struct"].as_str().unwrap(), text(o, "supergroup"), o["version"], texts(o, "supported_engines"))),
        ("engine", _) => {
            // what an engine does not say itself is what the one it is derived from says
            let mut chain = vec![o];
            while let Some(p) = chain.last().unwrap().get("inherits") { chain.push(&all[&("engine".to_string(), p.as_str().unwrap().to_string())]) }
            let first = |k: &str| chain.iter().find_map(|c| c.get(k)).cloned().unwrap_or(Value::Null);
            let hex = |v: &Value| u64::from_str_radix(v.as_str().unwrap().strip_prefix("0x").unwrap(), 16).unwrap();
            let yes = |v: Value| v.as_bool().unwrap_or(false);
            out.push(format!("engine {name} shown {:?} version {:?} derived from {:?}", first("display_name").as_str().unwrap(), first("version").as_str(), first("inherits").as_str()));
            let b = first("build");
            out.push(format!("build {:?}", b.as_object().map(|b| (b["version"].as_str().unwrap().to_string(), texts(b, "fallback").unwrap_or_default(), b["enforced"].as_bool().unwrap()))));
            out.push(format!("target {} fallback {} custom {} file version {} default {}", yes(first("build_target")), is(o, "fallback"), yes(first("custom")), first("cache_file_version"), is(o, "cache_default")));
            out.push(format!("external BSPs {} models {} script nodes {} tag space {} compressed {} alignment {}", yes(first("external_bsps")), yes(first("external_models")), first("max_script_nodes"), hex(&first("max_tag_space")), yes(first("compressed_models")), first("data_alignment")));
            let b = first("bitmap_options");
            out.push(format!("bitmaps {} {} {} {}", b["swizzled"], b["texture_dimension_must_modulo_block_size"], b["cubemap_faces_stored_separately"], b["alignment"]));
            let r = first("resource_maps");
            out.push(format!("resource maps {:?}", r.as_object().map(|r| (is(r, "externally_indexed_tags"), is(r, "loc")))));
            out.push(format!("parser {} compression {}", first("cache_parser").as_str().unwrap(), first("compression_type").as_str().unwrap()));
            let (m, a) = (first("max_cache_file_size"), first("base_memory_address"));
            let part = |k: &str| hex(m.get(k).unwrap_or(&m));
            out.push(format!("file size {} {} {}", part("user_interface"), part("singleplayer"), part("multiplayer")));
            out.push(format!("address {} {}", hex(a.get("value").unwrap_or(&a)), a.get("inferred").is_some_and(|i| i.as_bool().unwrap())));
            for k in ["all", "user_interface", "singleplayer", "multiplayer"] {
                let l: BTreeSet<String> = chain.iter().filter_map(|c| c.get("required_tags")).filter_map(|r| texts(r.as_object().unwrap(), k)).flatten().collect();
                out.push(format!("needs {k} {l:?}"));
            }
        }
        (_, "struct") => {
            out.push(format!("struct {name} size {} {}", o["size"], flags_of(o, None)));
            let mut at = 0;
            if let Some(p) = text(o, "inherits") { out.push(format!("at 0 {} {p} One None None None {{}} {}", snake(&p), flags_of(&J::new(), None))); at += size(all, &p) }
            for f in o["fields"].as_array().unwrap() {
                let f = f.as_object().unwrap();
                let t = f["type"].as_str().unwrap();
                match t {
                    "pad" => { out.push(format!("at {at} pad {}", f["size"])); at += f["size"].as_u64().unwrap(); continue }
                    "editor_section" => { out.push(format!("section {:?} {:?}", f["heading"].as_str().unwrap(), text(f, "body"))); continue }
                    _ => (),
                }
                let (count, n) = if is(f, "bounds") { ("Bounds".to_string(), 2) } else if let Some(c) = f.get("count") { (format!("Array({c})"), c.as_u64().unwrap()) } else { ("One".to_string(), 1) };
                let k = kind(t);
                let c = k.map(|k| k.2).unwrap_or(' ');
                let default = f.get("default").map(|d| match d { Value::Array(l) => l.iter().map(|v| value(c, v)).collect(), v => vec![value(c, v)] });
                let mut limits = BTreeMap::new();
                match f.get("limit") {
                    Some(Value::Object(l)) => {
                        for (k, v) in l { limits.insert(if k == "default" { k.clone() } else { format!("engine {k}") }, v.as_u64().unwrap()); }
                        // the editor has the highest
                        limits.insert("editor".into(), l.values().map(|v| v.as_u64().unwrap()).max().unwrap());
                    }
                    Some(v) => { for k in ["default", "editor"] { limits.insert(k.into(), v.as_u64().unwrap()); } }
                    None => (),
                }
                let shown = match t { "Reflexive" => format!("Reflexive {}", f["struct"].as_str().unwrap()), "TagReference" => format!("TagReference {:?}", groups(all, &texts(f, "groups").unwrap())), t => t.to_string() };
                out.push(format!("at {at} {} {shown} {count} {default:?} {:?} {:?} {limits:?} {}", f["name"].as_str().unwrap(), f.get("minimum").map(|v| value(c, v)), f.get("maximum").map(|v| value(c, v)), flags_of(f, Some(o))));
                at += size(all, t) * n;
            }
            out.push(format!("{at} bytes"));
        }
        (_, t) => {
            let bits = t == "bitfield";
            out.push(format!("{t} {name} size {} {}", size(all, name), flags_of(o, None)));
            for (i, v) in o[if bits { "fields" } else { "options" }].as_array().unwrap().iter().enumerate() {
                let none = J::new();
                let (n, v) = match v { Value::String(s) => (s.as_str(), &none), v => (v["name"].as_str().unwrap(), v.as_object().unwrap()) };
                out.push(format!("{n} {} {}", if bits { 1u64 << i } else { i as u64 }, flags_of(v, None)));
            }
        }
    }
    out
}

// ---- what the library says, as the same text ----

fn lib_flags(f: &Flags) -> String {
    let v = [f.cache_only, f.non_cached, f.uneditable_in_editor, f.hidden_in_editor, f.exclude, f.little_endian_in_tags, f.shifted_by_one, f.non_null];
    let set: Vec<&str> = FLAGS.iter().zip(v).filter(|x| x.1).map(|x| *x.0).collect();
    format!("{set:?} {:?} {:?} {:?} {:?}", f.supported_engines.supported_engines, f.comment, f.developer_note, f.description)
}
fn lib_value(v: &StaticValue) -> String { match v { StaticValue::F32(f) => format!("f{f:?}"), StaticValue::Uint(u) => format!("u{u}"), StaticValue::Int(i) => format!("i{i}"), StaticValue::String(s) => format!("s{s:?}") } }
fn set(l: &[String]) -> (BTreeSet<String>, bool) { let s: BTreeSet<String> = l.iter().cloned().collect(); let same = s.len() == l.len(); (s, same) }
fn lib_type(o: &ObjectType, twice: &mut bool) -> String {
    use ObjectType::*;
    match o {
        NamedObject(n) => return n.clone(), Reflexive(s) => return format!("Reflexive {s}"),
        TagReference(r) => { let (s, one) = set(&r.allowed_groups); *twice |= !one; return format!("TagReference {s:?}") }
        TagGroup => "TagGroup", Data => "Data", FileData => "FileData", BSPVertexData => "BSPVertexData", Float => "float", U8 => "uint8", U16 => "uint16", U32 => "uint32", I8 => "int8", I16 => "int16", I32 => "int32",
        TagID => "TagID", ID => "ID", Index => "Index", Angle => "Angle", Address => "Address", Vector2D => "Vector2D", Vector3D => "Vector3D", CompressedVector2D => "CompressedVector2D", CompressedVector3D => "CompressedVector3D",
        CompressedFloat => "CompressedFloat", Vector2DInt => "Vector2DInt", Plane2D => "Plane2D", Plane3D => "Plane3D", Euler2D => "Euler2D", Euler3D => "Euler3D", Rectangle => "Rectangle", Quaternion => "Quaternion", Matrix3x3 => "Matrix3x3",
        ColorRGBFloat => "ColorRGBFloat", ColorARGBFloat => "ColorARGBFloat", ColorARGBInt => "ColorARGBInt", String32 => "String32", ScenarioScriptNodeValue => "ScenarioScriptNodeValue", UTF16String => "UTF16String",
    }.into()
}
fn lib_said(d: &ParsedDefinitions, k: &str, name: &str, twice: &mut bool) -> Option<Vec<String>> {
    let mut out = vec![];
    match k {
        "group" => { let g = d.groups.get(name)?; out.push(format!("group {} struct {} of {:?} version {} engines {:?}", g.name, g.struct_name, g.supergroup, g.version, g.supported_engines.supported_engines)) }
        "engine" => {
            let e = d.engines.get(name)?;
            out.push(format!("engine {} shown {:?} version {:?} derived from {:?}", e.name, e.display_name, e.version, e.inherits));
            out.push(format!("build {:?}", e.build.as_ref().map(|b| (b.string.clone(), b.fallback.clone(), b.enforced))));
            out.push(format!("target {} fallback {} custom {} file version {} default {}", e.build_target, e.fallback, e.custom, e.cache_file_version, e.cache_default));
            out.push(format!("external BSPs {} models {} script nodes {} tag space {} compressed {} alignment {}", e.external_bsps, e.external_models, e.max_script_nodes, e.max_tag_space, e.compressed_models, e.data_alignment));
            let b = &e.bitmap_options;
            out.push(format!("bitmaps {} {} {} {}", b.swizzled, b.texture_dimension_must_modulo_block_size, b.cubemap_faces_stored_separately, b.alignment));
            out.push(format!("resource maps {:?}", e.resource_maps.as_ref().map(|r| (r.externally_indexed_tags, r.loc))));
            out.push(format!("parser {} compression {}", if e.cache_parser == EngineCacheParser::Xbox { "xbox" } else { "pc" }, if matches!(e.compression_type, EngineCompressionType::Deflate) { "deflate" } else { "none" }));
            out.push(format!("file size {} {} {}", e.max_cache_file_size.user_interface, e.max_cache_file_size.singleplayer, e.max_cache_file_size.multiplayer));
            out.push(format!("address {} {}", e.base_memory_address.address, e.base_memory_address.inferred));
            let r = &e.required_tags;
            for (k, l) in [("all", &r.all), ("user_interface", &r.user_interface), ("singleplayer", &r.singleplayer), ("multiplayer", &r.multiplayer)] { let (s, one) = set(l); *twice |= !one; out.push(format!("needs {k} {s:?}")) }
        }
        _ => match d.objects.get(name)? {
            NamedObject::Struct(s) => {
                out.push(format!("struct {} size {} {}", s.name, s.size, lib_flags(&s.flags)));
                let mut at = 0;
                for f in &s.fields {
                    match &f.field_type {
                        StructFieldType::Padding(n) => out.push(format!("at {} pad {n}", f.relative_offset)),
                        StructFieldType::EditorSection(e) => out.push(format!("section {:?} {:?}", e.heading, e.body)),
                        StructFieldType::Object(o) => {
                            let mut limits = BTreeMap::new();
                            for (k, v) in f.limit.iter().flatten() { limits.insert(match k { LimitType::Engine(e) => format!("engine {e}"), LimitType::Default => "default".into(), LimitType::Editor => "editor".into() }, *v as u64); }
                            out.push(format!("at {} {} {} {:?} {:?} {:?} {:?} {limits:?} {}", f.relative_offset, f.name, lib_type(o, twice), f.count, f.default_value.as_ref().map(|l| l.iter().map(lib_value).collect::<Vec<_>>()), f.minimum.as_ref().map(lib_value), f.maximum.as_ref().map(lib_value), lib_flags(&f.flags)));
                        }
                    }
                    at += f.size(d);
                }
                out.push(format!("{at} bytes"));
            }
            NamedObject::Enum(e) => { out.push(format!("enum {} size {} {}", e.name, d.objects[name].size(d), lib_flags(&e.flags))); for o in &e.options { out.push(format!("{} {} {}", o.name, o.value, lib_flags(&o.flags))) } }
            NamedObject::Bitfield(e) => { out.push(format!("bitfield {} size {} {}", e.name, d.objects[name].size(d), lib_flags(&e.flags))); for o in &e.fields { out.push(format!("{} {} {}", o.name, o.value, lib_flags(&o.flags))) } }
        },
    }
    Some(out)
}

fn main() {
    let mut ck = Check::new("P33");
    let (nfiles, all) = files();
    let keys: Vec<(String, String)> = all.keys().cloned().collect();
    // the order in which files, engines and groups are gone through is another every time
    let loads: Vec<ParsedDefinitions> = (0..ck.pick(8, 64)).map(|_| load_all_definitions()).collect();
    ck.family("definitions", keys.len(), |i| format!("{} {}", keys[i].0, keys[i].1), |i, cx| {
        let (k, name) = &keys[i];
        let want = said(&all, k, name, &all[&keys[i]]);
        for d in &loads {
            let mut twice = false;
            let got = lib_said(d, k, name, &mut twice);
            cx.state((i, &got)); cx.steps(want.len() as u64); cx.validated();
            let Some(got) = got else { cx.fail("missing", String::new()); return };
            cx.check(!twice, "twice", || "something is listed twice".into());
            for (g, w) in got.iter().zip(&want) { if !cx.check(g == w, "differs", || format!("{g}\n      instead of {w}")) { return } }
            if !cx.check(got.len() == want.len(), "differs", || format!("{} lines instead of {}: {:?}", got.len(), want.len(), got.last())) { return }
        }
    });
    ck.family("all of them", loads.len(), |i| format!("load {i}"), |i, cx| {
        let d = &loads[i];
        let count = |k: &str| keys.iter().filter(|x| x.0 == k).count();
        cx.state((i, nfiles)); cx.step(); cx.validated();
        cx.eq("objects", d.objects.len(), count("object"));
        cx.eq("groups", d.groups.len(), count("group"));
        cx.eq("engines", d.engines.len(), count("engine"));
        let _: &HashMap<String, Engine> = &d.engines;
    });
    ck.finish()
}
