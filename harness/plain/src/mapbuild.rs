//! An independent writer of cache files: lays tags out the way the engines' tools do (little endian, pointers into address
//! spaces, indexed references), for every family of engines. Shares no code with ringhopper. Whatever a reader must not
//! look at is filled with junk.
use crate::refser::*;
use crate::util::crc32_raw;
use std::collections::HashMap;

pub const JUNK: u8 = 0xDB;
pub const HEADER: usize = 0x800;
const NO_TAG: u32 = 0xFFFF_FFFF;

/// What the definitions say about an engine, as far as the layout of cache files depends on it.
#[derive(Clone, Debug)]
pub struct Engine { pub name: String, pub base: u32, pub inferred: bool, pub version: u32, pub build: String, pub xbox: bool, pub compressed: bool, pub external_models: bool, pub external_bsps: bool, pub external_tags: bool, pub deflate: bool, pub alignment: usize, pub swizzled: bool, pub split_faces: bool, pub modulo_blocks: bool }
pub fn engine(name: &str) -> Engine {
    let e = &spec().engines[name];
    let hex = |v: &serde_json::Value| u32::from_str_radix(v.as_str().unwrap().trim_start_matches("0x"), 16).unwrap();
    let b = &e["base_memory_address"];
    let (base, inferred) = if b.is_string() { (hex(b), false) } else { (hex(&b["value"]), b["inferred"].as_bool().unwrap()) };
    let flag = |k: &str| e[k].as_bool().unwrap_or(false);
    let o = |k: &str| e["bitmap_options"][k].as_bool().unwrap();
    Engine {
        name: name.into(), base, inferred, version: e["cache_file_version"].as_u64().unwrap() as u32, build: e["build"]["version"].as_str().unwrap_or("01.02.03.0004").into(),
        xbox: e["cache_parser"] == "xbox", compressed: flag("compressed_models"), external_models: flag("external_models"), external_bsps: flag("external_bsps"),
        external_tags: e["resource_maps"]["externally_indexed_tags"].as_bool().unwrap_or(false), deflate: e["compression_type"] == "deflate",
        alignment: e["bitmap_options"]["alignment"].as_u64().unwrap() as usize, swizzled: o("swizzled"), split_faces: o("cubemap_faces_stored_separately"), modulo_blocks: o("texture_dimension_must_modulo_block_size"),
    }
}

/// An address space being filled.
#[derive(Clone, Default)]
pub struct Buf { pub base: u32, pub bytes: Vec<u8> }
impl Buf {
    pub fn new(base: u32) -> Buf { Buf { base, bytes: vec![] } }
    pub fn room(&mut self, n: usize, align: usize) -> usize {
        while self.bytes.len() % align != 0 { self.bytes.push(JUNK) }
        let at = self.bytes.len();
        self.bytes.resize(at + n, JUNK);
        at
    }
    pub fn put32(&mut self, at: usize, v: u32) { self.bytes[at..at + 4].copy_from_slice(&v.to_le_bytes()) }
    pub fn addr(&self, at: usize) -> u32 { self.base.wrapping_add(at as u32) }
}

#[derive(Clone)]
pub enum Body {
    /// An entry only, with nothing behind it.
    Stub,
    Tree(Val),
    /// Base struct in the map; the rest (if any) in a resource map. The address field holds this number for those found by index.
    Indexed(u32),
    /// Custom Edition sound: base struct (this tree) in the map, pitch ranges in sounds.map.
    Sound(Val),
}
#[derive(Clone)]
pub struct Entry { pub group: String, pub path: String, pub body: Body }

/// A resource map (bitmaps.map, sounds.map, loc.map).
#[derive(Clone, Default)]
pub struct Resource { pub items: Vec<(String, Vec<u8>)>, pub raw: Vec<u8> }
impl Resource {
    /// Data outside of the items; returns its offset in the file.
    pub fn add_raw(&mut self, b: &[u8]) -> u32 {
        if self.raw.is_empty() { self.raw = vec![JUNK; 16] }
        let at = self.raw.len(); self.raw.extend_from_slice(b); at as u32
    }
    pub fn file(&self, kind: u32) -> Vec<u8> {
        let mut f = if self.raw.is_empty() { vec![JUNK; 16] } else { self.raw.clone() };
        let data: Vec<_> = self.items.iter().map(|i| { f.push(JUNK); let at = f.len(); f.extend(&i.1); at as u32 }).collect();
        let paths = f.len() as u32;
        f.push(JUNK);
        let names: Vec<_> = self.items.iter().map(|i| { let at = f.len() as u32 - paths; f.extend(i.0.as_bytes()); f.push(0); at }).collect();
        let array = f.len() as u32;
        for i in 0..self.items.len() { for v in [names[i], self.items[i].1.len() as u32, data[i]] { f.extend(v.to_le_bytes()) } }
        for (i, v) in [kind, paths, array, self.items.len() as u32].iter().enumerate() { f[i * 4..i * 4 + 4].copy_from_slice(&v.to_le_bytes()) }
        f
    }
}

pub struct Builder {
    pub engine: Engine,
    pub name: String,
    pub scenario: String,
    pub scenario_type: u16,
    pub entries: Vec<Entry>,
    /// First bytes of the file after the header.
    pub raw: Vec<u8>,
    pub bitmaps: Resource, pub sounds: Resource, pub loc: Resource,
    /// Samples go to sounds.map.
    pub external_samples: bool,
    /// Structure BSPs get addresses below the tag data instead of above it.
    pub bsp_below: bool,
    /// Put part of what structure BSPs point at into the tag data.
    pub spill: bool,
    /// Vertices of structure BSPs outside of them (CEA).
    pub loose_vertices: bool,
    /// The checksum in the header (None: the right one).
    pub crc: Option<u32>,
    /// An entry of no group in front of the tags.
    pub hole: bool,
    /// Null references have the identifier 0 instead of all ones.
    pub null_zero: bool,
    /// Tag array at the end of the tag data instead of after the header.
    pub array_last: bool,
    /// The address of the first structure BSP.
    pub bsp_base: Option<u32>,
    /// What the checksum has to come out as (by choosing the last four bytes).
    pub forge: Option<u32>,
    tag: Buf, bsps: Vec<(String, Buf)>, vertices: Vec<Vec<u8>>, model_vertices: Vec<u8>, model_triangles: Vec<u8>,
    ids: HashMap<(String, String), u32>, allocs: usize, bsp_at: Vec<u32>,
}

pub struct Built { pub map: Vec<u8>, pub bitmaps: Vec<u8>, pub sounds: Vec<u8>, pub loc: Vec<u8>, pub layout: Layout }
#[derive(Clone, Default)]
pub struct Layout { pub tag_data: (usize, usize), pub raw: (usize, usize), pub bsps: Vec<(usize, usize)>, pub vertices: Vec<(usize, usize)>, pub models: (usize, usize, usize), pub array: usize, pub base: u32, pub tags: Vec<usize>, pub crc: u32 }

pub fn id(i: usize) -> u32 { (((0x6174u32 ^ 0) + i as u32) | 0x8000) << 16 | i as u32 }

/// Where something is placed (buffer: None = tag data), and the address space its pointers are read in.
#[derive(Clone, Copy)]
pub struct At { buf: usize, off: usize }
const TAG: usize = usize::MAX;
const EXT: usize = usize::MAX - 1;

fn get<'a>(strukt: &str, v: &'a Val, f: &str) -> &'a Val { let Val::Struct(l) = v else { panic!() }; &l[field(strukt, f)] }
fn get_mut<'a>(strukt: &str, v: &'a mut Val, f: &str) -> &'a mut Val { let Val::Struct(l) = v else { panic!() }; &mut l[field(strukt, f)] }
pub fn field(strukt: &str, f: &str) -> usize { spec().structs[strukt].fields.iter().position(|d| d.name == f).unwrap_or_else(|| panic!("{strukt} has no {f}")) }
fn num(v: &Val) -> u32 { match v { Val::Leaf(b) => b.iter().fold(0, |a, b| a << 8 | *b as u32), v => panic!("{v:?}") } }
fn set(v: &mut Val, n: u32) { match v { Val::Leaf(b) => { let l = b.len(); b.copy_from_slice(&n.to_be_bytes()[4 - l..]) } v => panic!("{v:?}") } }

impl Builder {
    pub fn new(engine_name: &str, scenario: &str) -> Builder {
        let e = engine(engine_name);
        Builder { name: scenario.rsplit('\\').next().unwrap().into(), scenario: scenario.into(), scenario_type: 1, entries: vec![], raw: vec![JUNK; 5], bitmaps: Resource::default(), sounds: Resource::default(), loc: Resource::default(),
            external_samples: false, bsp_below: false, spill: false, loose_vertices: e.external_bsps, crc: None, hole: true, null_zero: false, array_last: false, bsp_base: None, forge: None,
            tag: Buf::new(if e.inferred { 0x5123_0000 } else { e.base }), engine: e, bsps: vec![], vertices: vec![], model_vertices: vec![], model_triangles: vec![], ids: HashMap::new(), allocs: 0, bsp_at: vec![] }
    }
    pub fn add(&mut self, group: &str, path: &str, body: Body) -> &mut Self { self.entries.push(Entry { group: group.into(), path: path.into(), body }); self }
    /// Bytes somewhere in the file; returns their offset in it.
    pub fn add_raw(&mut self, b: &[u8]) -> u32 { self.raw.push(JUNK); let at = HEADER + self.raw.len(); self.raw.extend_from_slice(b); at as u32 }

    fn buf(&mut self, b: usize, ext: &mut Option<Buf>) -> *mut Buf { match b { TAG => &mut self.tag, EXT => ext.as_mut().unwrap(), i => &mut self.bsps[i].1 } }
    fn with<R>(&mut self, b: usize, ext: &mut Option<Buf>, f: impl FnOnce(&mut Buf) -> R) -> R { let p = self.buf(b, ext); f(unsafe { &mut *p }) }
    fn alloc(&mut self, dom: usize, n: usize, ext: &mut Option<Buf>) -> (At, u32) {
        self.allocs += 1;
        let buf = if self.spill && dom != TAG && dom != EXT && self.allocs % 2 == 0 { TAG } else { dom };
        // junk between allocations, so that nothing is right by accident
        let gap = self.allocs % 3 * 4;
        self.with(buf, ext, |b| { b.room(gap, 4); let off = b.room(n, 4); (At { buf, off }, b.addr(off)) })
    }
    fn bytes(&mut self, at: At, off: usize, v: &[u8], ext: &mut Option<Buf>) { self.with(at.buf, ext, |b| b.bytes[at.off + off..at.off + off + v.len()].copy_from_slice(v)) }
    fn p32(&mut self, at: At, off: usize, v: u32, ext: &mut Option<Buf>) { self.bytes(at, off, &v.to_le_bytes(), ext) }

    /// Vertices, triangles and the fields which tell where they are.
    fn model_part(&mut self, v: &Val) -> Val {
        let st = "ModelGeometryPart";
        let mut v = v.clone();
        let e = self.engine.clone();
        let raw = |s: &str, l: &Val| -> (usize, Vec<u8>) {
            let Val::Refl(l) = l else { panic!() };
            (l.len(), l.iter().flat_map(|x| { let mut b = vec![JUNK; spec().structs[s].size]; simple(s, x, &mut b); b }).collect())
        };
        let (n, vb) = if e.compressed { raw("ModelVertexCompressed", get(st, &v, "compressed_vertices")) } else { raw("ModelVertexUncompressed", get(st, &v, "uncompressed_vertices")) };
        let (_, tb) = raw("ModelTriangleStripData", get(st, &v, "triangle_data"));
        let indices = tb.len() / 2;
        // a strip may end in the middle of a triple; what follows is not read
        let triangles = num(get(st, &v, "triangle_count")) as usize;
        let used = if indices == 0 { 0 } else if triangles != 0 { triangles + 2 } else { indices };
        let tb = &tb[..used * 2];
        set(get_mut(st, &mut v, "triangle_count"), if used == 0 { 0 } else { used as u32 - 2 });
        let (vp, tp);
        if e.external_models {
            self.model_vertices.extend([JUNK; 4]); self.model_triangles.extend([JUNK; 2]);
            vp = self.model_vertices.len() as u32; self.model_vertices.extend(&vb);
            tp = self.model_triangles.len() as u32; self.model_triangles.extend(tb);
        } else {
            let o = self.tag.room(vb.len(), 4); self.tag.bytes[o..o + vb.len()].copy_from_slice(&vb);
            let t = self.tag.room(tb.len(), 4); self.tag.bytes[t..t + tb.len()].copy_from_slice(tb);
            tp = self.tag.addr(t);
            vp = if e.compressed { let p = self.tag.room(12, 4); let a = self.tag.addr(o); self.tag.put32(p + 4, a); self.tag.addr(p) } else { self.tag.addr(o) };
        }
        set(get_mut(st, &mut v, "triangle_pointer"), tp);
        let r = get_mut(st, &mut v, "vertices");
        set(get_mut("ModelVertexReference", r, "vertex_count"), n as u32);
        set(get_mut("ModelVertexReference", r, "vertex_pointer"), vp);
        v
    }

    pub fn put(&mut self, strukt: &str, v: &Val, at: At, dom: usize, ext: &mut Option<Buf>) {
        let v = &match strukt {
            "ModelGeometryPart" => self.model_part(v),
            "ScenarioBSP" => {
                let mut v = v.clone();
                if let Val::Ref(_, Some(p)) = get(strukt, &v, "structure_bsp") {
                    let i = self.bsps.iter().position(|b| b.0 == *p).unwrap_or_else(|| panic!("no BSP {p}"));
                    let (s, n, a) = (self.bsp_at[i], self.bsps[i].1.bytes.len() as u32, self.bsps[i].1.base);
                    set(get_mut(strukt, &mut v, "bsp_start"), s); set(get_mut(strukt, &mut v, "bsp_size"), n); set(get_mut(strukt, &mut v, "bsp_address"), a);
                }
                v
            }
            _ => v.clone(),
        };
        let def = &spec().structs[strukt];
        let Val::Struct(fs) = v else { panic!("{strukt}: {v:?}") };
        for (f, x) in def.fields.iter().zip(fs) {
            if f.non_cached || f.exclude { continue }
            let list: Vec<&Val> = match (f.many, x) { (Many::One, x) => vec![x], (_, Val::Many(l)) => l.iter().collect(), _ => panic!() };
            for (i, x) in list.into_iter().enumerate() {
                let here = At { buf: at.buf, off: at.off + f.offset + i * f.ty.size() };
                match (&f.ty, x) {
                    (Ty::Struct(s), x) => self.put(s, x, here, dom, ext),
                    (Ty::Refl(s), Val::Refl(l)) => {
                        let size = spec().structs[s].size;
                        let (to, addr) = if l.is_empty() { (here, 0xDBDB_DBDB) } else { self.alloc(dom, size * l.len(), ext) };
                        self.p32(here, 0, l.len() as u32, ext);
                        self.p32(here, 4, addr, ext);
                        for (i, x) in l.iter().enumerate() { self.put(s, x, At { buf: to.buf, off: to.off + i * size }, dom, ext) }
                    }
                    (Ty::Data(t), Val::Data(b)) if t == "BSPVertexData" => {
                        if (f.name == "compressed_vertices") != self.engine.compressed { self.p32(here, 0, 77, ext); continue }
                        self.p32(here, 0, b.len() as u32, ext);
                        let n = |k: &str| { let Val::Struct(_) = v else { panic!() }; num(get("ModelVertexReference", get(strukt, v, k), "vertex_count")) as usize };
                        if self.loose_vertices && dom < EXT {
                            let (r, l) = (n("rendered_vertices") * if self.engine.compressed { 32 } else { 56 }, n("lightmap_vertices") * if self.engine.compressed { 8 } else { 20 });
                            assert_eq!(r + l, b.len(), "vertex counts");
                            // lightmap vertices somewhere else than behind the rendered ones
                            let buf = &mut self.vertices[dom];
                            buf.extend([JUNK; 3]);
                            let lo = buf.len(); buf.extend(&b[r..]);
                            let ro = buf.len(); buf.extend(&b[..r]);
                            let off = |k: &str| def.fields[field(strukt, k)].offset + spec().structs["ModelVertexReference"].fields[field("ModelVertexReference", "offset")].offset;
                            self.p32(at, off("rendered_vertices"), ro as u32, ext);
                            self.p32(at, off("lightmap_vertices"), lo as u32, ext);
                            self.p32(here, 12, 0, ext);
                        } else if !b.is_empty() {
                            let (to, addr) = self.alloc(dom, b.len(), ext);
                            self.bytes(to, 0, b, ext);
                            self.p32(here, 12, addr, ext);
                        } else { let base = self.with(dom, ext, |b| b.base); self.p32(here, 12, base, ext) }
                    }
                    (Ty::Data(t), Val::Data(b)) if t == "FileData" => {
                        self.p32(here, 0, b.len() as u32, ext);
                        let off = if self.external_samples { self.sounds.add_raw(b) } else { self.add_raw(b) };
                        self.p32(here, 4, 0xDBDB_DBDA | self.external_samples as u32, ext);
                        self.p32(here, 8, off, ext);
                    }
                    (Ty::Data(_), Val::Data(b)) => {
                        self.p32(here, 0, b.len() as u32, ext);
                        if !b.is_empty() { let (to, addr) = self.alloc(dom, b.len(), ext); self.bytes(to, 0, b, ext); self.p32(here, 12, addr, ext) }
                    }
                    (Ty::Ref { .. }, Val::Ref(g, p)) => {
                        let mut cc = fourcc(g); cc.reverse();
                        self.bytes(here, 0, &cc, ext);
                        let id = match p { Some(p) => *self.ids.get(&(g.clone(), p.clone())).unwrap_or_else(|| panic!("{p}.{g} is not in the map")), None => if self.null_zero { 0 } else { NO_TAG } };
                        self.p32(here, 12, id, ext);
                    }
                    (_, Val::Leaf(b)) => {
                        // inside a BSP's material in CEA the offsets were written with the vertices
                        let v = leaf_bytes(f, b);
                        self.bytes(here, 0, &v, ext);
                    }
                    (t, x) => panic!("{t:?} {x:?}"),
                }
            }
        }
    }

    /// Every tag something refers to gets an entry.
    fn complete(&mut self) {
        fn refs(strukt: &str, v: &Val, out: &mut Vec<(String, String)>) {
            let Val::Struct(fs) = v else { panic!() };
            for (f, x) in spec().structs[strukt].fields.iter().zip(fs) {
                if f.non_cached || f.exclude { continue }
                let list: Vec<&Val> = match (f.many, x) { (Many::One, x) => vec![x], (_, Val::Many(l)) => l.iter().collect(), _ => panic!() };
                for x in list { match (&f.ty, x) { (Ty::Struct(s), x) => refs(s, x, out), (Ty::Refl(s), Val::Refl(l)) => for x in l { refs(s, x, out) }, (_, Val::Ref(g, Some(p))) => out.push((g.clone(), p.clone())), _ => () } }
            }
        }
        let mut want = vec![];
        for e in &self.entries { if let Body::Tree(v) | Body::Sound(v) = &e.body { refs(&spec().groups[&e.group].strukt, v, &mut want) } }
        for (g, p) in want { if !self.entries.iter().any(|e| e.group == g && e.path == p) { self.entries.push(Entry { group: g, path: p, body: Body::Stub }) } }
    }

    pub fn build(mut self) -> Built {
        self.complete();
        let e = self.engine.clone();
        let entries = self.entries.clone();
        let hole = self.hole as usize;
        let count = entries.len() + hole;
        for (i, t) in entries.iter().enumerate() { assert!(self.ids.insert((t.group.clone(), t.path.clone()), id(i + hole)).is_none(), "{}.{} twice", t.path, t.group) }
        let head = if e.external_models { 40 } else { 36 };
        self.tag.room(head, 1);
        let array_last = self.array_last && !e.inferred;
        let mut array = if array_last { 0 } else { self.tag.room(32 * count, 1) };
        let paths: Vec<usize> = entries.iter().map(|t| { let o = self.tag.room(t.path.len() + 1, 1); self.tag.bytes[o..o + t.path.len()].copy_from_slice(t.path.as_bytes()); self.tag.bytes[o + t.path.len()] = 0; o }).collect();
        let mut data = vec![0u32; entries.len()];
        let mut none = None;
        let is_bsp = |t: &Entry| t.group == "scenario_structure_bsp" && matches!(t.body, Body::Tree(_));
        // structure BSPs
        for t in entries.iter().filter(|t| is_bsp(t)) {
            let i = self.bsps.len() as u32;
            let base = if let Some(b) = self.bsp_base { b } else if self.bsp_below { self.tag.base - 0x80_0000 } else { self.tag.base + 0x40_0000 } + if e.external_bsps { 0 } else { i * 0x1000 };
            self.bsps.push((t.path.clone(), Buf::new(base)));
            self.vertices.push(vec![]);
        }
        let mut k = 0;
        for t in entries.iter().filter(|t| is_bsp(t)) {
            let Body::Tree(v) = &t.body else { panic!() };
            let st = &spec().groups["scenario_structure_bsp"].strukt;
            let h = self.bsps[k].1.room(24, 4);
            let (at, addr) = { let b = &mut self.bsps[k].1; b.room(8, 4); let o = b.room(spec().structs[st].size, 4); (At { buf: k, off: o }, b.addr(o)) };
            self.bsps[k].1.put32(h, addr);
            self.bsps[k].1.bytes[h + 20..h + 24].copy_from_slice(b"psbs");
            self.put(st, v, at, k, &mut none);
            k += 1;
        }
        // everything else but the scenario, which has to know where the BSPs went
        let mut late = None;
        for (i, t) in entries.iter().enumerate() {
            let st = &spec().groups[&t.group].strukt;
            match &t.body {
                Body::Tree(_) if is_bsp(t) => data[i] = 0xDBDB_DBDB,
                Body::Tree(_) if t.group == "scenario" && t.path == self.scenario => late = Some(i),
                Body::Tree(v) => { let o = self.tag.room(spec().structs[st].size, 4); data[i] = self.tag.addr(o); self.put(st, v, At { buf: TAG, off: o }, TAG, &mut none) }
                Body::Indexed(n) => data[i] = *n,
                Body::Sound(v) => {
                    // in the map: everything but what the resource map holds
                    let o = self.tag.room(spec().structs[st].size, 4);
                    data[i] = self.tag.addr(o);
                    let mut cut = v.clone();
                    if let Val::Refl(l) = get_mut(st, &mut cut, "pitch_ranges") { l.clear() }
                    for f in ["sample_rate", "channel_count", "format"] { set(get_mut(st, &mut cut, f), 0) }
                    self.put(st, &cut, At { buf: TAG, off: o }, TAG, &mut none);
                    // in sounds.map: a base struct of which only the format and the pitch ranges count, then those, at addresses from 0
                    let mut rest = Some(Buf::new(0));
                    let mut base = vec![JUNK; spec().structs[st].size];
                    let off = |n: &str| spec().structs[st.as_str()].fields[field(st, n)].offset;
                    for f in ["sample_rate", "channel_count", "format"] { let n = num(get(st, v, f)) as u16; base[off(f)..off(f) + 2].copy_from_slice(&n.to_le_bytes()) }
                    let Val::Refl(l) = get(st, v, "pitch_ranges") else { panic!() };
                    base[off("pitch_ranges")..off("pitch_ranges") + 4].copy_from_slice(&(l.len() as u32).to_le_bytes());
                    let ps = spec().structs["SoundPitchRange"].size;
                    rest.as_mut().unwrap().room(ps * l.len(), 4);
                    for (i, x) in l.iter().enumerate() { self.put("SoundPitchRange", x, At { buf: EXT, off: i * ps }, EXT, &mut rest) }
                    base.extend(rest.unwrap().bytes);
                    self.sounds.items.push((t.path.clone(), base));
                }
                Body::Stub => data[i] = 0xDBDB_DBDB,
            }
        }
        // the order of the regions of the file: header, raw data, loose vertices, BSPs, models, tag data
        let mut at = HEADER + self.raw.len();
        let mut layout = Layout { raw: (HEADER, self.raw.len()), ..Default::default() };
        for v in &self.vertices { layout.vertices.push((at, v.len())); at += v.len() }
        for (i, b) in self.bsps.iter_mut().enumerate() {
            if e.external_bsps { b.1.put32(4, self.vertices[i].len() as u32); b.1.put32(8, layout.vertices[i].0 as u32) }
            self.bsp_at.push(at as u32); layout.bsps.push((at, b.1.bytes.len())); at += b.1.bytes.len();
        }
        let (mv, mt) = (self.model_vertices.len(), self.model_triangles.len());
        layout.models = (at, mv, mt); at += mv + mt;
        if let Some(i) = late {
            let Body::Tree(v) = &entries[i].body else { panic!() };
            let st = "Scenario";
            let o = self.tag.room(spec().structs[st].size, 4);
            data[i] = self.tag.addr(o);
            self.put(st, v, At { buf: TAG, off: o }, TAG, &mut none);
        }
        if array_last { array = self.tag.room(32 * count, 4) }
        let scenario = entries.iter().position(|t| t.group == "scenario" && t.path == self.scenario).map(|i| id(i + hole)).unwrap_or(NO_TAG);
        for (o, v) in [(0, self.tag.addr(array)), (4, scenario), (8, 0x1234_5678), (12, count as u32)] { self.tag.put32(o, v) }
        if e.external_models { for (o, v) in [(20, layout.models.0), (28, mv), (32, mv + mt)] { self.tag.put32(o, v as u32) } }
        self.tag.bytes[head - 4..head].copy_from_slice(b"sgat");
        for i in 0..count {
            let o = array + i * 32;
            if i < hole { self.tag.bytes[o..o + 12].fill(0xff); continue }
            let t = &entries[i - hole];
            let mut cc = fourcc(&t.group); cc.reverse();
            self.tag.bytes[o..o + 4].copy_from_slice(&cc);
            self.tag.bytes[o + 4..o + 12].fill(0xff);
            let (p, d) = (self.tag.addr(paths[i - hole]), data[i - hole]);
            self.tag.put32(o + 12, id(i)); self.tag.put32(o + 16, p); self.tag.put32(o + 20, d);
            self.tag.put32(o + 24, matches!(t.body, Body::Indexed(_) | Body::Sound(_)) as u32);
        }
        if self.forge.is_some() { self.tag.room(4, 4); }
        layout.tag_data = (at, self.tag.bytes.len()); layout.array = at + array; layout.base = self.tag.base;
        layout.tags = data.iter().map(|d| d.wrapping_sub(self.tag.base) as usize + at).collect();
        let mut map = vec![JUNK; HEADER];
        map.extend(&self.raw);
        for v in &self.vertices { map.extend(v) }
        for b in &self.bsps { map.extend(&b.1.bytes) }
        // checksum: per BSP its loose vertices and itself, then models, then tag data
        let mut c = 0xFFFF_FFFF;
        for (i, b) in self.bsps.iter().enumerate() { if e.external_bsps { c = crc32_raw(c, &self.vertices[i]) } c = crc32_raw(c, &b.1.bytes) }
        if e.external_models { c = crc32_raw(crc32_raw(c, &self.model_vertices), &self.model_triangles) }
        if let Some(want) = self.forge {
            let end = self.tag.bytes.len() - 4;
            let before = crc32_raw(c, &self.tag.bytes[..end]);
            let mut back = want;
            for _ in 0..32 { back = if back >> 31 == 1 { (back ^ 0xEDB8_8320) << 1 | 1 } else { back << 1 } }
            self.tag.put32(end, back ^ before);
        }
        c = crc32_raw(c, &self.tag.bytes);
        layout.crc = c;
        map.extend(&self.model_vertices); map.extend(&self.model_triangles); map.extend(&self.tag.bytes);
        let demo = e.version == 6 && !e.xbox && e.name != "pc-0268";
        let mut p = |o: usize, v: u32| map[o..o + 4].copy_from_slice(&v.to_le_bytes());
        let total = at + layout.tag_data.1;
        let crc = self.crc.unwrap_or(c);
        let (name, build, kind);
        if demo {
            (name, build, kind) = (1420, 712, 2);
            for (o, v) in [(704, 0x4568_6564), (708, layout.tag_data.1), (1416, e.version as usize), (1456, crc as usize), (1512, total), (1516, layout.tag_data.0), (1520, 0x4766_6F74)] { p(o, v as u32) }
        } else {
            (name, build, kind) = (32, 64, 96);
            for (o, v) in [(0, 0x6865_6164), (4, e.version as usize), (8, total), (12, 0), (16, layout.tag_data.0), (20, layout.tag_data.1), (100, crc as usize), (2044, 0x666F_6F74)] { p(o, v as u32) }
        }
        for (o, s) in [(name, &self.name), (build, &e.build)] { map[o..o + 32].fill(0); map[o..o + s.len()].copy_from_slice(s.as_bytes()) }
        map[kind..kind + 2].copy_from_slice(&self.scenario_type.to_le_bytes());
        let res = |r: &Resource, k: u32| if r.items.is_empty() && r.raw.is_empty() { vec![] } else { r.file(k) };
        Built { map, bitmaps: res(&self.bitmaps, 1), sounds: res(&self.sounds, 2), loc: res(&self.loc, 3), layout }
    }
}

/// The tree of a loc.map or bitmaps.map entry, at addresses from 0.
pub fn entry(engine: &str, group: &str, v: &Val) -> Vec<u8> {
    let mut b = Builder::new(engine, "none");
    let st = &spec().groups[group].strukt;
    let mut ext = Some(Buf::new(0));
    ext.as_mut().unwrap().room(spec().structs[st].size, 4);
    b.put(st, v, At { buf: EXT, off: 0 }, EXT, &mut ext);
    ext.unwrap().bytes
}

fn leaf_bytes(f: &FieldDef, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    if let Ty::Bits(n) = &f.ty {
        let m = bits_mask(n, false);
        for (b, m) in b.iter_mut().zip(&m) { *b = *b & m | JUNK & !m }
    }
    if f.shifted { let n = u16::from_be_bytes([b[0], b[1]]).wrapping_sub(1); b = n.to_be_bytes().to_vec() }
    for w in b.chunks_mut(f.ty.word()) { if !matches!(&f.ty, Ty::Prim(t) if t == "String32") { w.reverse() } }
    b
}

/// Structs without pointers, little endian.
pub fn simple(strukt: &str, v: &Val, out: &mut [u8]) {
    let Val::Struct(fs) = v else { panic!() };
    for (f, x) in spec().structs[strukt].fields.iter().zip(fs) {
        if f.exclude { continue }
        let list: Vec<&Val> = match (f.many, x) { (Many::One, x) => vec![x], (_, Val::Many(l)) => l.iter().collect(), _ => panic!() };
        for (i, x) in list.into_iter().enumerate() {
            let o = f.offset + i * f.ty.size();
            match (&f.ty, x) { (Ty::Struct(s), x) => simple(s, x, &mut out[o..]), (_, Val::Leaf(b)) => { let b = leaf_bytes(f, b); out[o..o + b.len()].copy_from_slice(&b) } (t, x) => panic!("{t:?} {x:?}") }
        }
    }
}
