//! Reference model of the tag format: an independent layout (spec/layout.json, flattened from the JSON definitions by
//! spec/gen_spec.py) and an independent serializer/deserializer view of it. Shares no code with ringhopper.
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use std::sync::OnceLock;

use ringhopper::primitives::dynamic::*;
use ringhopper::primitives::primitive::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Prim(String), Enum(String), Bits(String), Struct(String), Refl(String), Ref { groups: Vec<String>, first: Option<String> }, Data(String) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Many { One, Bounds, Array(usize) }

#[derive(Clone, Debug)]
pub struct FieldDef {
    pub name: String, pub sname: &'static str, pub ty: Ty, pub offset: usize, pub many: Many,
    pub cache_only: bool, pub non_cached: bool, pub exclude: bool, pub le: bool, pub read_only: bool, pub shifted: bool, pub non_null: bool,
    pub default: Option<Vec<Value>>, pub comment: Option<String>,
}
#[derive(Clone, Debug)]
pub struct StructDef { pub name: String, pub size: usize, pub fields: Vec<FieldDef> }
#[derive(Clone, Debug)]
pub struct OptDef { pub name: String, pub exclude: bool, pub cache_only: bool, pub non_cached: bool, pub read_only: bool, pub comment: Option<String> }
#[derive(Clone, Debug)]
pub struct BitsDef { pub width: usize, pub fields: Vec<OptDef> }
#[derive(Clone, Debug)]
pub struct GroupDef { pub name: String, pub strukt: String, pub version: u16, pub supergroup: Option<String>, pub engines: Option<Vec<String>> }

pub struct Spec {
    pub structs: HashMap<String, StructDef>, pub enums: HashMap<String, Vec<OptDef>>, pub bits: HashMap<String, BitsDef>,
    pub groups: BTreeMap<String, GroupDef>, pub engines: BTreeMap<String, Value>,
}

pub fn spec() -> &'static Spec {
    static S: OnceLock<Spec> = OnceLock::new();
    S.get_or_init(|| load(include_str!("../../../spec/layout.json")))
}

fn load(text: &str) -> Spec {
    let v: Value = serde_json::from_str(text).unwrap();
    let flag = |f: &Value, k: &str| f.get(k).and_then(|b| b.as_bool()).unwrap_or(false);
    let opts = |l: &Value| l.as_array().unwrap().iter().map(|o| OptDef { name: o["name"].as_str().unwrap().into(), exclude: flag(o, "exclude"), cache_only: flag(o, "cache_only"), non_cached: flag(o, "non_cached"), read_only: flag(o, "read_only"), comment: o["comment"].as_str().map(|s| s.into()) }).collect::<Vec<_>>();
    let enums: HashMap<_, _> = v["enums"].as_object().unwrap().iter().map(|(k, l)| (k.clone(), opts(l))).collect();
    let bits: HashMap<_, _> = v["bitfields"].as_object().unwrap().iter().map(|(k, b)| (k.clone(), BitsDef { width: b["width"].as_u64().unwrap() as usize, fields: opts(&b["fields"]) })).collect();
    let raw = v["structs"].as_object().unwrap();
    let strs = |l: &Value| l.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect::<Vec<_>>();
    let structs = raw.iter().map(|(k, s)| {
        let fields = s["fields"].as_array().unwrap().iter().map(|f| {
            let t = f["type"].as_str().unwrap();
            let ty = match t {
                "Reflexive" => Ty::Refl(f["struct"].as_str().unwrap().into()),
                "TagReference" => Ty::Ref { groups: strs(&f["groups"]), first: f["first"].as_str().map(|s| s.into()) },
                "Data" | "FileData" | "BSPVertexData" | "UTF16String" => Ty::Data(t.into()),
                t if enums.contains_key(t) => Ty::Enum(t.into()),
                t if bits.contains_key(t) => Ty::Bits(t.into()),
                t if raw.contains_key(t) => Ty::Struct(t.into()),
                t => Ty::Prim(t.into()),
            };
            let n = f["count"].as_u64().unwrap() as usize;
            FieldDef { name: f["name"].as_str().unwrap().into(), sname: Box::leak(f["name"].as_str().unwrap().to_string().into_boxed_str()), ty, offset: f["offset"].as_u64().unwrap() as usize,
                many: if flag(f, "bounds") { Many::Bounds } else if flag(f, "array") { Many::Array(n) } else { Many::One },
                cache_only: flag(f, "cache_only"), non_cached: flag(f, "non_cached"), exclude: flag(f, "exclude"), le: flag(f, "little_endian"),
                read_only: flag(f, "read_only"), shifted: flag(f, "shifted_by_one"), non_null: flag(f, "non_null"),
                default: f.get("default").and_then(|d| d.as_array().cloned()), comment: f["comment"].as_str().map(|s| s.into()) }
        }).collect();
        (k.clone(), StructDef { name: k.clone(), size: s["size"].as_u64().unwrap() as usize, fields })
    }).collect();
    let groups = v["groups"].as_object().unwrap().iter().map(|(k, g)| (k.clone(), GroupDef { name: k.clone(), strukt: g["struct"].as_str().unwrap().into(), version: g["version"].as_u64().unwrap() as u16, supergroup: g["supergroup"].as_str().map(|s| s.into()), engines: g["engines"].as_array().map(|l| l.iter().map(|s| s.as_str().unwrap().to_string()).collect()) })).collect();
    let engines = v["engines"].as_object().unwrap().iter().map(|(k, e)| (k.clone(), e.clone())).collect();
    Spec { structs, enums, bits, groups, engines }
}

/// FourCC table of the format, written down independently.
pub const FOURCC: &[(&str, &[u8; 4])] = &[
    ("actor", b"actr"), ("actor_variant", b"actv"), ("antenna", b"ant!"), ("biped", b"bipd"), ("bitmap", b"bitm"), ("camera_track", b"trak"),
    ("color_table", b"colo"), ("continuous_damage_effect", b"cdmg"), ("contrail", b"cont"), ("damage_effect", b"jpt!"), ("decal", b"deca"),
    ("detail_object_collection", b"dobc"), ("device", b"devi"), ("device_control", b"ctrl"), ("device_light_fixture", b"lifi"), ("device_machine", b"mach"),
    ("dialogue", b"udlg"), ("effect", b"effe"), ("equipment", b"eqip"), ("flag", b"flag"), ("fog", b"fog "), ("font", b"font"), ("garbage", b"garb"),
    ("gbxmodel", b"mod2"), ("globals", b"matg"), ("glow", b"glw!"), ("grenade_hud_interface", b"grhi"), ("hud_globals", b"hudg"), ("hud_message_text", b"hmt "),
    ("hud_number", b"hud#"), ("input_device_defaults", b"devc"), ("item", b"item"), ("item_collection", b"itmc"), ("lens_flare", b"lens"), ("light", b"ligh"),
    ("light_volume", b"mgs2"), ("lightning", b"elec"), ("material_effects", b"foot"), ("meter", b"metr"), ("model", b"mode"), ("model_animations", b"antr"),
    ("model_collision_geometry", b"coll"), ("multiplayer_scenario_description", b"mply"), ("object", b"obje"), ("particle", b"part"), ("particle_system", b"pctl"),
    ("physics", b"phys"), ("placeholder", b"plac"), ("point_physics", b"pphy"), ("preferences_network_game", b"ngpr"), ("projectile", b"proj"), ("scenario", b"scnr"),
    ("scenario_structure_bsp", b"sbsp"), ("scenery", b"scen"), ("shader", b"shdr"), ("shader_environment", b"senv"), ("shader_model", b"soso"),
    ("shader_transparent_chicago", b"schi"), ("shader_transparent_chicago_extended", b"scex"), ("shader_transparent_generic", b"sotr"),
    ("shader_transparent_glass", b"sgla"), ("shader_transparent_meter", b"smet"), ("shader_transparent_plasma", b"spla"), ("shader_transparent_water", b"swat"),
    ("sky", b"sky "), ("sound", b"snd!"), ("sound_environment", b"snde"), ("sound_looping", b"lsnd"), ("sound_scenery", b"ssce"), ("spheroid", b"boom"),
    ("string_list", b"str#"), ("tag_collection", b"tagc"), ("ui_widget_collection", b"Soul"), ("ui_widget_definition", b"DeLa"), ("unicode_string_list", b"ustr"),
    ("unit", b"unit"), ("unit_hud_interface", b"unhi"), ("vehicle", b"vehi"), ("virtual_keyboard", b"vcky"), ("weapon", b"weap"),
    ("weapon_hud_interface", b"wphi"), ("weather_particle_system", b"rain"), ("wind", b"wind"),
];
pub fn fourcc(group: &str) -> [u8; 4] { FOURCC.iter().find(|g| g.0 == group).map(|g| *g.1).unwrap_or([0; 4]) }

/// Word size of a primitive, for endianness.
pub fn prim_words(t: &str) -> (usize, usize) {
    match t {
        "uint8" | "int8" => (1, 1), "String32" => (1, 32),
        "uint16" | "int16" | "Index" | "CompressedFloat" => (2, 1),
        "Rectangle" => (2, 4), "Vector2DInt" => (2, 2),
        "float" | "uint32" | "int32" | "Angle" | "ColorARGBInt" | "Address" | "TagID" | "ID" | "ScenarioScriptNodeValue" | "TagGroup" | "CompressedVector2D" | "CompressedVector3D" => (4, 1),
        "Vector2D" | "Euler2D" => (4, 2),
        "Vector3D" | "Euler3D" | "Plane2D" | "ColorRGBFloat" => (4, 3),
        "Plane3D" | "Quaternion" | "ColorARGBFloat" => (4, 4),
        "Matrix3x3" => (4, 9),
        t => panic!("unknown primitive {t}")
    }
}
pub fn is_float(t: &str) -> bool { matches!(t, "float" | "Angle" | "Vector2D" | "Euler2D" | "Vector3D" | "Euler3D" | "Plane2D" | "ColorRGBFloat" | "Plane3D" | "Quaternion" | "ColorARGBFloat" | "Matrix3x3") }

impl Ty {
    pub fn size(&self) -> usize {
        match self {
            Ty::Prim(t) => { let (w, n) = prim_words(t); w * n }
            Ty::Enum(_) => 2, Ty::Bits(b) => spec().bits[b].width / 8, Ty::Struct(s) => spec().structs[s].size,
            Ty::Refl(_) => 12, Ty::Ref { .. } => 16, Ty::Data(_) => 20,
        }
    }
    pub fn word(&self) -> usize { match self { Ty::Prim(t) => prim_words(t).0, Ty::Enum(_) => 2, Ty::Bits(b) => spec().bits[b].width / 8, _ => 4 } }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    /// Canonical big-endian bytes of a scalar.
    Leaf(Vec<u8>),
    Struct(Vec<Val>),
    Many(Vec<Val>),
    Refl(Vec<Val>),
    Data(Vec<u8>),
    /// group name ("" = unset), path
    Ref(String, Option<String>),
}

/// Where a value of the tree is: field names and element numbers.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Step { F(&'static str), I(usize) }
pub type Path = Vec<Step>;
pub fn path_str(p: &[Step]) -> String {
    let mut s = String::new();
    for x in p { match x { Step::F(f) => { if !s.is_empty() { s.push('.') } s += f; } Step::I(i) => s += &format!("[{i}]") } }
    s
}

/// How values are chosen while a tree is generated.
pub trait Chooser {
    fn leaf(&mut self, path: &[Step], ty: &Ty, field: &FieldDef) -> Val;
    fn count(&mut self, path: &[Step], strukt: &str) -> usize;
    /// Should this subtree (cache-only or excluded in tag files) hold content?
    fn dead(&mut self) -> bool { false }
}

fn zero(ty: &Ty, dead_default: bool) -> Val {
    match ty {
        Ty::Prim(t) if dead_default && t == "Index" => Val::Leaf(vec![0xff; 2]),
        Ty::Prim(t) if dead_default && (t == "ID" || t == "TagID") => Val::Leaf(vec![0xff; 4]),
        Ty::Struct(s) => {
            Val::Struct(spec().structs[s].fields.iter().map(|f| {
                // inside a default-constructed block, what is not stored in tags stays zero
                let d = dead_default && !(f.cache_only || f.exclude);
                multi(f, |_| if f.cache_only || f.exclude { dead_value(f) } else { zero(&f.ty, d) })
            }).collect())
        }
        Ty::Refl(_) => Val::Refl(vec![]),
        Ty::Data(_) => Val::Data(vec![]),
        Ty::Ref { first, .. } => Val::Ref(first.clone().unwrap_or_default(), None),
        t => Val::Leaf(vec![0; t.size()]),
    }
}
/// What is written for a field which is not stored in tags.
fn dead_value(f: &FieldDef) -> Val {
    match &f.ty {
        Ty::Struct(_) | Ty::Refl(_) | Ty::Ref { .. } | Ty::Data(_) => zero(&f.ty, true),
        t => Val::Leaf(vec![0; t.size()]),
    }
}
fn multi(f: &FieldDef, mut v: impl FnMut(usize) -> Val) -> Val {
    match f.many { Many::One => v(0), Many::Bounds => Val::Many((0..2).map(v).collect()), Many::Array(n) => Val::Many((0..n).map(v).collect()) }
}

pub fn generate(strukt: &str, path: &mut Path, c: &mut dyn Chooser) -> Val {
    let def = &spec().structs[strukt];
    let mut out = vec![];
    for f in &def.fields {
        path.push(Step::F(f.sname));
        let dead = f.cache_only || f.exclude;
        let v = if dead && !c.dead() { multi(f, |_| dead_value(f)) } else {
            multi(f, |i| {
                if f.many != Many::One { path.push(Step::I(i)); }
                let v = match &f.ty {
                    Ty::Struct(s) => generate(s, path, c),
                    Ty::Refl(s) => {
                        let n = c.count(path, s);
                        Val::Refl((0..n).map(|i| { path.push(Step::I(i)); let v = generate(s, path, c); path.pop(); v }).collect())
                    }
                    t => c.leaf(path, t, f),
                };
                if f.many != Many::One { path.pop(); }
                v
            })
        };
        path.pop();
        out.push(v);
    }
    Val::Struct(out)
}

/// The tree as it must look after a trip through a tag file.
pub fn canonical(strukt: &str, v: &Val) -> Val {
    let def = &spec().structs[strukt];
    let Val::Struct(fs) = v else { panic!() };
    Val::Struct(def.fields.iter().zip(fs).map(|(f, v)| if f.cache_only || f.exclude { multi(f, |_| dead_value(f)) } else {
        let one = |v: &Val| match (&f.ty, v) {
            (Ty::Struct(s), v) => canonical(s, v),
            (Ty::Refl(s), Val::Refl(l)) => Val::Refl(l.iter().map(|v| canonical(s, v)).collect()),
            (Ty::Bits(b), Val::Leaf(bytes)) => Val::Leaf(and(bytes, &bits_mask(b, true))),
            (_, v) => v.clone(),
        };
        match (f.many, v) { (Many::One, v) => one(v), (_, Val::Many(l)) => Val::Many(l.iter().map(one).collect()), _ => panic!() }
    }).collect())
}
fn and(a: &[u8], b: &[u8]) -> Vec<u8> { a.iter().zip(b).map(|(a, b)| a & b).collect() }
/// Bits of the bitfield which survive in tags (or in caches).
pub fn bits_mask(b: &str, in_tags: bool) -> Vec<u8> {
    let d = &spec().bits[b];
    let mut m = 0u64;
    for (i, f) in d.fields.iter().enumerate() { if !f.exclude && !(in_tags && f.cache_only) && !(!in_tags && f.non_cached) { m |= 1 << i } }
    m.to_be_bytes()[8 - d.width / 8..].to_vec()
}

#[derive(Clone, Debug)]
pub struct LeafAt { pub path: Path, pub ty: Ty, pub offset: usize, pub dead: bool, pub le: bool }

/// Reference serializer (tag files, big endian). Returns the bytes after the header, and where every scalar went.
pub fn serialize(strukt: &str, v: &Val, mut leaves: Option<&mut Vec<LeafAt>>) -> Vec<u8> {
    let mut data = vec![0u8; spec().structs[strukt].size];
    put(strukt, v, 0, &mut data, &mut vec![], &mut leaves, false);
    data
}
fn put(strukt: &str, v: &Val, at: usize, data: &mut Vec<u8>, path: &mut Path, leaves: &mut Option<&mut Vec<LeafAt>>, dead: bool) {
    let def = &spec().structs[strukt];
    let Val::Struct(fs) = v else { panic!("{strukt}: {v:?}") };
    for (f, v) in def.fields.iter().zip(fs) {
        path.push(Step::F(f.sname));
        let dead = dead || f.cache_only || f.exclude;
        let mut one = |v: &Val, at: usize, path: &mut Path, data: &mut Vec<u8>| match (&f.ty, v) {
            (Ty::Struct(s), v) => put(s, v, at, data, path, leaves, dead),
            (Ty::Refl(s), Val::Refl(l)) => {
                data[at..at + 4].copy_from_slice(&(l.len() as u32).to_be_bytes());
                let size = spec().structs[s].size;
                let start = data.len();
                data.resize(start + size * l.len(), 0);
                for (i, v) in l.iter().enumerate() { path.push(Step::I(i)); put(s, v, start + i * size, data, path, leaves, dead); path.pop(); }
            }
            (Ty::Data(_), Val::Data(b)) => { data[at..at + 4].copy_from_slice(&(b.len() as u32).to_be_bytes()); data.extend_from_slice(b); }
            (Ty::Ref { .. }, Val::Ref(g, p)) => {
                data[at..at + 4].copy_from_slice(&fourcc(g));
                data[at + 12..at + 16].fill(0xff);
                if let Some(p) = p {
                    data[at + 8..at + 12].copy_from_slice(&(p.len() as u32).to_be_bytes());
                    data.extend_from_slice(p.as_bytes());
                    data.push(0);
                }
            }
            (ty, Val::Leaf(b)) => {
                let mut b = b.clone();
                if f.le { for w in b.chunks_mut(ty.word()) { w.reverse() } }
                data[at..at + b.len()].copy_from_slice(&b);
                if let Some(l) = leaves { l.push(LeafAt { path: path.clone(), ty: ty.clone(), offset: at, dead, le: f.le }) }
            }
            (t, v) => panic!("{t:?} {v:?}"),
        };
        match (f.many, v) {
            (Many::One, v) => one(v, at + f.offset, path, data),
            (_, Val::Many(l)) => for (i, v) in l.iter().enumerate() { path.push(Step::I(i)); one(v, at + f.offset + i * f.ty.size(), path, data); path.pop(); },
            _ => panic!(),
        }
        path.pop();
    }
}

/// A complete tag file around the serialized body.
pub fn tag_file(group: &str, body: &[u8]) -> Vec<u8> {
    let mut h = vec![0u8; 0x40];
    h[0x24..0x28].copy_from_slice(&fourcc(group));
    h[0x28..0x2c].copy_from_slice(&crate::util::crc32_raw(0xFFFF_FFFF, body).to_be_bytes());
    h[0x2c..0x30].copy_from_slice(&0x40u32.to_be_bytes());
    h[0x38..0x3a].copy_from_slice(&spec().groups[group].version.to_be_bytes());
    h[0x3a..0x3c].copy_from_slice(&255u16.to_be_bytes());
    h[0x3c..0x40].copy_from_slice(b"blam");
    h.extend_from_slice(body);
    h
}

/// Navigate to a value.
pub fn get<'a>(mut d: &'a dyn DynamicTagData, path: &[Step]) -> Option<&'a dyn DynamicTagData> {
    for s in path { d = match s { Step::F(f) => d.get_field(f)?, Step::I(i) => { let a = d.as_array()?; if *i >= a.len() { return None } a.get_at_index(*i)? } } }
    Some(d)
}
pub fn get_mut<'a>(mut d: &'a mut dyn DynamicTagData, path: &[Step]) -> Option<&'a mut dyn DynamicTagData> {
    for s in path { d = match s { Step::F(f) => d.get_field_mut(f)?, Step::I(i) => d.as_array_mut()?.get_at_index_mut(*i)? } }
    Some(d)
}

fn f(b: &mut Vec<u8>, v: f64) { b.extend_from_slice(&(v as f32).to_bits().to_be_bytes()) }
fn rf(b: &[u8], i: usize) -> f64 { f32::from_bits(u32::from_be_bytes(b[i * 4..i * 4 + 4].try_into().unwrap())) as f64 }
fn ri(b: &[u8], i: usize) -> i16 { i16::from_be_bytes(b[i * 2..i * 2 + 2].try_into().unwrap()) }

macro_rules! dc { ($d:expr, $t:ty) => { $d.as_any().downcast_ref::<$t>()? } }
macro_rules! dm { ($d:expr, $t:ty) => { $d.as_any_mut().downcast_mut::<$t>()? } }

/// The canonical big-endian bytes of a scalar, from its in-memory value (not through ringhopper's serializer).
pub fn leaf_bytes(d: &dyn DynamicTagData, ty: &Ty) -> Option<Vec<u8>> {
    let mut b = vec![];
    match ty {
        Ty::Prim(t) => match t.as_str() {
            "float" => f(&mut b, *dc!(d, f64)),
            "uint8" => b.push(*dc!(d, u8)), "int8" => b.push(*dc!(d, i8) as u8),
            "uint16" => b.extend(dc!(d, u16).to_be_bytes()), "int16" => b.extend(dc!(d, i16).to_be_bytes()),
            "uint32" => b.extend(dc!(d, u32).to_be_bytes()), "int32" => b.extend(dc!(d, i32).to_be_bytes()),
            "Angle" => b.extend(dc!(d, Angle).angle.to_bits().to_be_bytes()),
            "Index" => b.extend(dc!(d, Index).unwrap_or(0xffff).to_be_bytes()),
            "ID" | "TagID" => b.extend(dc!(d, ID).as_u32().to_be_bytes()),
            "Address" => b.extend(dc!(d, Address).address.to_be_bytes()),
            "ScenarioScriptNodeValue" => b.extend(dc!(d, ScenarioScriptNodeValue).data.to_be_bytes()),
            "ColorARGBInt" => b.extend(dc!(d, ColorARGBInt).color.to_be_bytes()),
            "CompressedFloat" => b.extend(dc!(d, CompressedFloat).data.to_be_bytes()),
            "CompressedVector2D" => b.extend(dc!(d, CompressedVector2D).data.to_be_bytes()),
            "CompressedVector3D" => b.extend(dc!(d, CompressedVector3D).data.to_be_bytes()),
            "TagGroup" => b.extend(fourcc(dc!(d, TagGroup).as_str())),
            "String32" => { let s = dc!(d, String32).as_str().as_bytes().to_vec(); b.extend(&s); b.resize(32, 0) }
            "Rectangle" => { let r = dc!(d, Rectangle); for v in [r.top, r.left, r.bottom, r.right] { b.extend(v.to_be_bytes()) } }
            "Vector2DInt" => { let r = dc!(d, Vector2DInt); for v in [r.x, r.y] { b.extend(v.to_be_bytes()) } }
            "Vector2D" => { let v = dc!(d, Vector2D); f(&mut b, v.x); f(&mut b, v.y) }
            "Vector3D" => { let v = dc!(d, Vector3D); f(&mut b, v.x); f(&mut b, v.y); f(&mut b, v.z) }
            "Euler2D" => { let v = dc!(d, Euler2D); for a in [v.yaw, v.pitch] { b.extend(a.angle.to_bits().to_be_bytes()) } }
            "Euler3D" => { let v = dc!(d, Euler3D); for a in [v.yaw, v.pitch, v.roll] { b.extend(a.angle.to_bits().to_be_bytes()) } }
            "Plane2D" => { let v = dc!(d, Plane2D); f(&mut b, v.vector.x); f(&mut b, v.vector.y); f(&mut b, v.d) }
            "Plane3D" => { let v = dc!(d, Plane3D); f(&mut b, v.vector.x); f(&mut b, v.vector.y); f(&mut b, v.vector.z); f(&mut b, v.d) }
            "Quaternion" => { let v = dc!(d, Quaternion); for x in [v.x, v.y, v.z, v.w] { f(&mut b, x) } }
            "Matrix3x3" => { let v = dc!(d, Matrix3x3); for r in &v.vectors { for x in [r.x, r.y, r.z] { f(&mut b, x) } } }
            "ColorRGBFloat" => { let v = dc!(d, ColorRGBFloat); for x in [v.red, v.green, v.blue] { f(&mut b, x) } }
            "ColorARGBFloat" => { let v = dc!(d, ColorARGBFloat); for x in [v.alpha, v.red, v.green, v.blue] { f(&mut b, x) } }
            _ => return None,
        },
        Ty::Enum(e) => { let s = d.as_enum()?.get_enum_string_value(); let i = spec().enums[e].iter().position(|o| o.name == s)?; b.extend((i as u16).to_be_bytes()) }
        Ty::Bits(n) => {
            let def = &spec().bits[n];
            let mut m = 0u64;
            for (i, o) in def.fields.iter().enumerate() { if !o.exclude && *d.get_field(&o.name)?.as_any().downcast_ref::<bool>()? { m |= 1 << i } }
            b.extend(&m.to_be_bytes()[8 - def.width / 8..])
        }
        _ => return None,
    }
    Some(b)
}

/// Overwrite a scalar in memory (not through ringhopper's parser).
pub fn leaf_set(d: &mut dyn DynamicTagData, ty: &Ty, b: &[u8]) -> Option<()> {
    let ang = |i: usize| { let mut a = Angle::default(); a.angle = rf(b, i) as f32; a };
    let u32v = || u32::from_be_bytes(b[..4].try_into().unwrap());
    match ty {
        Ty::Prim(t) => match t.as_str() {
            "float" => *dm!(d, f64) = rf(b, 0),
            "uint8" => *dm!(d, u8) = b[0], "int8" => *dm!(d, i8) = b[0] as i8,
            "uint16" => *dm!(d, u16) = ri(b, 0) as u16, "int16" => *dm!(d, i16) = ri(b, 0),
            "uint32" => *dm!(d, u32) = u32v(), "int32" => *dm!(d, i32) = u32v() as i32,
            "Angle" => *dm!(d, Angle) = ang(0),
            "Index" => *dm!(d, Index) = match ri(b, 0) as u16 { 0xffff => None, n => Some(n) },
            "ID" | "TagID" => *dm!(d, ID) = ID::from_u32(u32v()),
            "Address" => dm!(d, Address).address = u32v(),
            "ScenarioScriptNodeValue" => dm!(d, ScenarioScriptNodeValue).data = u32v(),
            "ColorARGBInt" => dm!(d, ColorARGBInt).color = u32v(),
            "CompressedFloat" => dm!(d, CompressedFloat).data = ri(b, 0) as u16,
            "CompressedVector2D" => dm!(d, CompressedVector2D).data = u32v(),
            "CompressedVector3D" => dm!(d, CompressedVector3D).data = u32v(),
            "TagGroup" => { let g = FOURCC.iter().find(|g| &g.1[..] == b).map(|g| TagGroup::from_str(g.0).unwrap()).unwrap_or(TagGroup::_Unset); *dm!(d, TagGroup) = g }
            "String32" => { let n = b.iter().position(|c| *c == 0).unwrap_or(31); *dm!(d, String32) = String32::from_str(std::str::from_utf8(&b[..n]).ok()?).ok()? }
            "Rectangle" => { let r = dm!(d, Rectangle); r.top = ri(b, 0); r.left = ri(b, 1); r.bottom = ri(b, 2); r.right = ri(b, 3) }
            "Vector2DInt" => { let r = dm!(d, Vector2DInt); r.x = ri(b, 0); r.y = ri(b, 1) }
            "Vector2D" => { let v = dm!(d, Vector2D); v.x = rf(b, 0); v.y = rf(b, 1) }
            "Vector3D" => { let v = dm!(d, Vector3D); v.x = rf(b, 0); v.y = rf(b, 1); v.z = rf(b, 2) }
            "Euler2D" => { let v = dm!(d, Euler2D); v.yaw = ang(0); v.pitch = ang(1) }
            "Euler3D" => { let v = dm!(d, Euler3D); v.yaw = ang(0); v.pitch = ang(1); v.roll = ang(2) }
            "Plane2D" => { let v = dm!(d, Plane2D); v.vector.x = rf(b, 0); v.vector.y = rf(b, 1); v.d = rf(b, 2) }
            "Plane3D" => { let v = dm!(d, Plane3D); v.vector.x = rf(b, 0); v.vector.y = rf(b, 1); v.vector.z = rf(b, 2); v.d = rf(b, 3) }
            "Quaternion" => { let v = dm!(d, Quaternion); v.x = rf(b, 0); v.y = rf(b, 1); v.z = rf(b, 2); v.w = rf(b, 3) }
            "Matrix3x3" => { let v = dm!(d, Matrix3x3); for i in 0..3 { v.vectors[i].x = rf(b, i * 3); v.vectors[i].y = rf(b, i * 3 + 1); v.vectors[i].z = rf(b, i * 3 + 2) } }
            "ColorRGBFloat" => { let v = dm!(d, ColorRGBFloat); v.red = rf(b, 0); v.green = rf(b, 1); v.blue = rf(b, 2) }
            "ColorARGBFloat" => { let v = dm!(d, ColorARGBFloat); v.alpha = rf(b, 0); v.red = rf(b, 1); v.green = rf(b, 2); v.blue = rf(b, 3) }
            _ => return None,
        },
        Ty::Enum(e) => { let i = ri(b, 0) as usize; d.as_enum_mut()?.set_enum_string_value(&spec().enums[e][i].name).ok()? }
        Ty::Bits(n) => {
            let mut full = [0u8; 8];
            full[8 - b.len()..].copy_from_slice(b);
            let m = u64::from_be_bytes(full);
            for (i, o) in spec().bits[n].fields.iter().enumerate() { if !o.exclude { *d.get_field_mut(&o.name)?.as_any_mut().downcast_mut::<bool>()? = m >> i & 1 != 0 } }
        }
        _ => return None,
    }
    Some(())
}

/// A deterministic tree: every scalar distinct where the type allows, every reflexive of `n` elements.
pub struct Distinct { pub next: u32, pub count: usize, pub with_dead: bool, pub overrides: HashMap<String, Ov>, pub rot: Option<usize>, pub paths: bool }
#[derive(Clone, Debug)]
pub enum Ov { Count(usize), Data(Vec<u8>), Ref(String, Option<String>) }
impl Distinct {
    pub fn new(count: usize) -> Self { Distinct { next: 1, count, with_dead: false, overrides: HashMap::new(), rot: None, paths: true } }
}

/// Boundary values of a scalar type, canonical big endian.
pub fn domain(ty: &Ty) -> Vec<Vec<u8>> {
    let be = |l: &[u32]| l.iter().map(|v| v.to_be_bytes().to_vec()).collect::<Vec<_>>();
    match ty {
        Ty::Prim(t) => match t.as_str() {
            t if is_float(t) => {
                let n = prim_words(t).1;
                let vals = [0f32, -0.0, 1.0, -1.0, 0.5, 3.14159, 1e-38, 1e-45, f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY, f32::from_bits(0x7FC00000), 16777217.0, -12345.678, 1.0 / 255.0];
                (0..vals.len()).map(|i| (0..n).flat_map(|k| vals[(i + k * 3) % vals.len()].to_bits().to_be_bytes()).collect()).collect()
            }
            "uint8" | "int8" => [0u8, 1, 0x7f, 0x80, 0xff, 0x55].iter().map(|v| vec![*v]).collect(),
            "uint16" | "int16" | "Index" | "CompressedFloat" => [0u16, 1, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x0102, 0xff00].iter().map(|v| v.to_be_bytes().to_vec()).collect(),
            "Rectangle" | "Vector2DInt" => { let n = prim_words(t).1; let vals = [0i16, 1, -1, i16::MAX, i16::MIN, 0x0102]; (0..vals.len()).map(|i| (0..n).flat_map(|k| vals[(i + k) % vals.len()].to_be_bytes()).collect()).collect() }
            "String32" => ["", "a", "Hello World", "0123456789012345678901234567890", "é", "日本語", " lead", "\t\n"].iter().map(|s| { let mut b = s.as_bytes().to_vec(); b.resize(32, 0); b }).collect(),
            "TagGroup" => FOURCC.iter().map(|g| g.1.to_vec()).chain([vec![0; 4]]).collect(),
            _ => be(&[0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x01020304, 0xff00ff00]),
        },
        Ty::Enum(e) => (0..spec().enums[e].len()).filter(|i| !spec().enums[e][*i].exclude).map(|i| (i as u16).to_be_bytes().to_vec()).collect(),
        Ty::Bits(b) => {
            let d = &spec().bits[b];
            let mask = bits_mask(b, true);
            let mut v = vec![vec![0; d.width / 8], mask.clone()];
            for i in 0..d.fields.len() { let one = and(&(1u64 << i).to_be_bytes()[8 - d.width / 8..], &mask); if one.iter().any(|x| *x != 0) { v.push(one.clone()); v.push(mask.iter().zip(&one).map(|(a, b)| a & !b).collect()); } }
            v
        }
        _ => vec![],
    }
}

impl Chooser for Distinct {
    fn leaf(&mut self, path: &[Step], ty: &Ty, _field: &FieldDef) -> Val {
        let n = self.next;
        self.next += 1;
        let ov = if self.overrides.is_empty() { None } else { self.overrides.get(&path_str(path)) };
        match ty {
            Ty::Data(_) => match ov { Some(Ov::Data(d)) => Val::Data(d.clone()), _ => Val::Data((0..2 + n % 5).map(|i| (n + i) as u8).collect()) },
            Ty::Ref { groups, first } => match ov {
                Some(Ov::Ref(g, p)) => Val::Ref(g.clone(), p.clone()),
                _ => if n % 3 == 0 { Val::Ref(first.clone().unwrap_or("sound".into()), None) }
                    else { let g = if groups[0] == "*" { "bitmap".to_string() } else { groups[n as usize % groups.len()].clone() }; Val::Ref(g, Some(format!("t{n}\\p"))) },
            },
            ty => {
                let d = domain(ty);
                if let Some(r) = self.rot { return Val::Leaf(d[(n as usize + r) % d.len()].clone()) }
                match ty {
                    Ty::Prim(t) if t == "String32" => { let mut b = format!("s{n}").into_bytes(); b.resize(32, 0); Val::Leaf(b) }
                    Ty::Prim(t) if t == "TagGroup" => Val::Leaf(d[n as usize % d.len()].clone()),
                    Ty::Prim(t) if is_float(t) => { let k = prim_words(t).1; Val::Leaf((0..k).flat_map(|i| (n as f32 + i as f32 / 16.0).to_bits().to_be_bytes()).collect()) }
                    Ty::Prim(t) => { let (w, k) = prim_words(t); Val::Leaf((0..k).flat_map(|i| (n.wrapping_mul(0x01000193) + i as u32).to_le_bytes()[..w].to_vec().into_iter().rev()).collect()) }
                    _ => Val::Leaf(d[n as usize % d.len()].clone()),
                }
            }
        }
    }
    fn count(&mut self, path: &[Step], _s: &str) -> usize {
        if self.overrides.is_empty() { return self.count }
        match self.overrides.get(&path_str(path)) { Some(Ov::Count(n)) => *n, _ => self.count }
    }
    fn dead(&mut self) -> bool { self.with_dead }
}

/// All paths of reflexives, data and references of a tree (within its existing elements), with their types.
pub fn containers(strukt: &str, v: &Val) -> Vec<(Path, Ty)> {
    fn go(strukt: &str, v: &Val, path: &mut Path, out: &mut Vec<(Path, Ty)>) {
        let Val::Struct(fs) = v else { panic!() };
        for (f, v) in spec().structs[strukt].fields.iter().zip(fs) {
            if f.cache_only || f.exclude { continue }
            path.push(Step::F(f.sname));
            let mut one = |v: &Val, path: &mut Path| match (&f.ty, v) {
                (Ty::Struct(s), v) => go(s, v, path, out),
                (Ty::Refl(s), Val::Refl(l)) => { out.push((path.clone(), f.ty.clone())); for (i, v) in l.iter().enumerate() { path.push(Step::I(i)); go(s, v, path, out); path.pop(); } }
                (Ty::Data(_), _) | (Ty::Ref { .. }, _) => out.push((path.clone(), f.ty.clone())),
                _ => (),
            };
            match (f.many, v) { (Many::One, v) => one(v, path), (_, Val::Many(l)) => for (i, v) in l.iter().enumerate() { path.push(Step::I(i)); one(v, path); path.pop(); }, _ => panic!() }
            path.pop();
        }
    }
    let mut out = vec![];
    go(strukt, v, &mut vec![], &mut out);
    out
}

/// What a block holds which was made, not read.
pub fn fresh(strukt: &str) -> Val { zero(&Ty::Struct(strukt.into()), true) }
