//! P20: vertices of models and structure BSPs, and the indices of models. needs: invader-mc
use mc::fsmap::*;
use mc::inv::invader;
use mc::refser::*;
use mc::treeval::*;
use mc::vertex::*;
use mc::*;
use ringhopper::definitions::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::model::{downcast_model, downcast_model_mut};
use ringhopper::tag::scenario_structure_bsp::*;
use std::collections::BTreeMap;

// ---- models ----

fn run(tag: &mut dyn PrimaryTagStructDyn, op: Op) -> Result<(bool, Vec<u8>), String> {
    guard(|| {
        let m = downcast_model_mut(tag).unwrap();
        let did = match op { Op::Compressed => m.fix_compressed_vertices(), Op::Uncompressed => m.fix_uncompressed_vertices(), Op::Recompress => m.recompress_vertices() };
        (did, tag.to_tag_file().unwrap())
    })
}
fn judge(cx: &mut Cx, t: &T) {
    for first in OPS { for second in OPS {
        let mut want = t.clone();
        let mut tag = t.tag();
        for op in [first, second] {
            let did = work(&mut want, op);
            cx.step(); cx.validated();
            match run(tag.as_mut(), op) {
                Err(e) => { cx.fail("panic", format!("{first:?} {second:?}: {e}")); return }
                Ok((d, f)) => {
                    cx.check(d == did, "told", || format!("{first:?} {second:?}: {op:?} says {d}"));
                    if let Err(e) = same_file(&f, &want.file()) { cx.fail("vertices", format!("{first:?} {second:?}: {e}")); return }
                }
            }
        }
    } }
    cx.state(t.file());
}
/// Are all indices those of something which exists?
fn sane(t: &mut T) -> bool {
    let gbx = t.group == "gbxmodel";
    let local = gbx && t.flag("flags", "parts_have_local_nodes");
    let (nodes, geometries, shaders) = (t.len("nodes") as u64, t.len("geometries") as u64, t.len("shaders") as u64);
    let mut ok = true;
    let mut within = |i: u64, n: u64| ok &= i == 0xffff || i < n;
    for n in 0..nodes { for f in ["next_sibling_node_index", "first_child_node_index", "parent_node_index"] { within(t.int(&format!("nodes[{n}].{f}")), nodes) } }
    for r in 0..t.len("regions") { for p in 0..t.len(&format!("regions[{r}].permutations")) {
        let p = format!("regions[{r}].permutations[{p}]");
        for f in ["super_low", "low", "medium", "high", "super_high"] { within(t.int(&format!("{p}.{f}")), geometries) }
        for m in 0..t.len(&format!("{p}.markers")) { within(t.int(&format!("{p}.markers[{m}].node_index")), nodes) }
    } }
    for (part, p) in parts(t) {
        within(t.int(&format!("{p}.shader_index")), shaders);
        if t.flag(&format!("{p}.flags"), "zoner") != local { return false }
        let count = if local { t.int(&format!("{part}.local_node_count")) } else { 0 };
        if count > 22 { return false }
        for v in 0..t.len(&format!("{p}.uncompressed_vertices")) { for f in ["node0_index", "node1_index"] {
            let i = t.int(&format!("{p}.uncompressed_vertices[{v}].{f}"));
            if local && i != 0xffff { within(i, count); if i < count { within(t.int(&format!("{part}.local_node_indices[{i}]")), nodes) } } else { within(i, nodes) }
        } }
        for v in 0..t.len(&format!("{p}.compressed_vertices")) { for f in ["node0_index", "node1_index"] {
            let i = t.int(&format!("{p}.compressed_vertices[{v}].{f}"));
            if i < 253 { within(i / 3, nodes) }
        } }
    }
    ok
}
fn plain_vertex(t: &mut T, p: &str, v: usize, nodes: [Option<u16>; 2]) {
    let q = |x: &str| format!("{p}.uncompressed_vertices[{v}].{x}");
    t.set_floats(&q("position"), &[1.0 + v as f32, 2.0, 3.0]); t.set_floats(&q("normal"), &[0.0, 0.6, 0.8]); t.set_floats(&q("binormal"), &[1.0, 0.0, 0.0]); t.set_floats(&q("tangent"), &[0.0, -0.8, 0.6]);
    t.set_floats(&q("texture_coords"), &[0.25, -0.75]); t.set_index(&q("node0_index"), nodes[0]); t.set_index(&q("node1_index"), nodes[1]);
    t.set_floats(&q("node0_weight"), &[0.75]); t.set_floats(&q("node1_weight"), &[0.25 * v as f32]);
}
fn small_vertex(t: &mut T, p: &str, v: usize, nodes: [u64; 2]) {
    let q = |x: &str| format!("{p}.compressed_vertices[{v}].{x}");
    t.set_int(&q("normal"), 0x12345678 + v as u64); t.set_int(&q("binormal"), 0x3ff); t.set_int(&q("tangent"), 0x87654321); t.set_int(&q("node0_index"), nodes[0]); t.set_int(&q("node1_index"), nodes[1]);
    t.set_int(&q("node0_weight"), 0x4000); t.set_int(&q("texture_coordinate_u"), 0x7fff); t.set_int(&q("texture_coordinate_v"), 0x8001); t.set_floats(&q("position"), &[0.5, 0.0, -7.0]);
}
/// A model with that many nodes and parts per geometry; 0: model, 1: gbxmodel, 2: with local nodes.
fn with(kind: usize, nodes: usize, shape: &[usize]) -> T {
    let mut t = T::new(["model", "gbxmodel", "gbxmodel"][kind]);
    if kind == 2 { t.set_flag("flags", "parts_have_local_nodes", true) }
    t.grow("nodes", nodes).grow("geometries", shape.len());
    for n in 0..nodes { t.set_floats(&format!("nodes[{n}].default_rotation"), &[0.0, 0.0, 0.0, 1.0]) }
    for (g, n) in shape.iter().enumerate() { t.grow(&format!("geometries[{g}].parts"), *n); }
    for (part, p) in parts(&mut t) { if kind == 2 {
        t.set_flag(&format!("{p}.flags"), "zoner", true);
        t.set_int(&format!("{part}.local_node_count"), 4);
        for (i, n) in [41u64, 1, 0, 2, 3].iter().enumerate() { t.set_int(&format!("{part}.local_node_indices[{i}]"), *n) }
    } }
    t
}

// ---- structure BSPs ----

/// A material's vertices: rendered, lightmap; the data of both kinds.
struct Mat { r: u32, l: u32, u: Vec<u8>, c: Vec<u8> }
impl Mat {
    /// What restoring makes of it: `None` if it can't be done.
    fn restore(&mut self) -> Option<bool> {
        if self.u.is_empty() == self.c.is_empty() { return Some(false) }
        let (r, l) = (self.r as usize, self.l as usize);
        if l != 0 && l != r { return None }
        let (from, size) = if self.c.is_empty() { (&self.u, PLAIN) } else { (&self.c, SMALL) };
        if from.len() as u128 != r as u128 * size.0 as u128 + l as u128 * size.1 as u128 { return None }
        let (a, b) = from.split_at(r * size.0);
        let (f, g): (fn(&[u8]) -> Vec<u8>, fn(&[u8]) -> Vec<u8>) = if self.c.is_empty() { (compress_rendered, compress_lightmap) } else { (decompress_rendered, decompress_lightmap) };
        let out: Vec<u8> = a.chunks(size.0).flat_map(f).chain(b.chunks(size.1).flat_map(g)).collect();
        if self.c.is_empty() { self.c = out } else { self.u = out }
        Some(true)
    }
    fn put(&self, t: &mut T, m: &str) {
        t.set_int(&format!("{m}.rendered_vertices.vertex_count"), self.r as u64); t.set_int(&format!("{m}.lightmap_vertices.vertex_count"), self.l as u64);
        t.set_bytes(&format!("{m}.uncompressed_vertices"), &self.u); t.set_bytes(&format!("{m}.compressed_vertices"), &self.c);
    }
}
fn floats_le(v: &[f32]) -> Vec<u8> { v.iter().flat_map(|v| v.to_bits().to_le_bytes()).collect() }
fn bsp_judge(cx: &mut Cx, t: &T, mats: &mut [(String, Mat)]) {
    let mut tag = t.tag();
    let bsp: &mut ScenarioStructureBSP = tag.as_any_mut().downcast_mut().unwrap();
    cx.step(); cx.validated(); cx.state(t.file());
    let got = match guard(|| recompress_scenario_structure_bsp_vertices(bsp)) { Ok(g) => g, Err(e) => { cx.fail("panic", e); return } };
    let mut want = t.clone();
    let mut did = Some(false);
    for (p, m) in mats.iter_mut() { let r = m.restore(); did = match (did, r) { (Some(a), Some(b)) => Some(a | b), _ => None }; if did.is_none() { break } m.put(&mut want, p) }
    match (got, did) {
        (Err(_), None) => (),
        (Ok(g), Some(d)) => {
            cx.check(g == d, "told", || format!("{g}"));
            let f = bsp.to_tag_file().unwrap();
            if let Err(e) = close(&f, &want.file()) { cx.fail("vertices", e); return }
            let again = guard(|| recompress_scenario_structure_bsp_vertices(bsp));
            cx.check(matches!(again, Ok(Ok(false))), "idempotent", || format!("{again:?}"));
            cx.check(bsp.to_tag_file().unwrap() == f, "idempotent", || "changed again".into());
        }
        (g, d) => cx.fail("refused", format!("{g:?} instead of {d:?}")),
    }
}
fn close(a: &[u8], b: &[u8]) -> Result<(), String> {
    // the checksum in the header follows from the rest
    if a.len() != b.len() { return Err(format!("{} bytes instead of {}", a.len(), b.len())) }
    match (64..a.len()).find(|i| a[*i] != b[*i]) { Some(i) => Err(format!("{:02x?} instead of {:02x?} at {i:#x}", &a[i / 4 * 4..(i / 4 * 4 + 4).min(a.len())], &b[i / 4 * 4..(i / 4 * 4 + 4).min(a.len())])), None => Ok(()) }
}

fn main() {
    let mut ck = Check::new("P20");
    // what is there, part by part
    let shapes: Vec<Vec<usize>> = vec![vec![], vec![0], vec![1], vec![2], vec![1, 1], vec![0, 2], vec![2, 1], vec![1, 0, 2]];
    let nodes = [0usize, 1, 42, 43];
    let cases: Vec<(usize, usize, usize, usize)> = (0..3).flat_map(|k| (0..4).flat_map(move |n| (0..8).map(move |s| (k, n, s)))).flat_map(|(k, n, s)| { let p: usize = [0, 0, 1, 2, 2, 2, 3, 3][s]; (0..5usize.pow(p as u32)).map(move |c| (k, n, s, c)) }).collect();
    ck.items("parts", &cases, |c| format!("{c:?}"), |(k, n, s, c), cx| {
        let mut t = with(*k, nodes[*n], &shapes[*s]);
        let all = parts(&mut t);
        for ((_, p), d) in all.iter().zip(digits(*c, &vec![5; all.len()])) {
            // none, uncompressed, compressed, both (different), too high a node
            if d & 1 == 1 || d == 4 { t.grow(&format!("{p}.uncompressed_vertices"), 2 + d); for v in 0..2 + d { plain_vertex(&mut t, p, v, if d == 4 && v == 1 { [Some(0), Some(42)] } else { [Some(v as u16 % 2), None] }) } }
            if d & 2 == 2 { t.grow(&format!("{p}.compressed_vertices"), d); for v in 0..d { small_vertex(&mut t, p, v, [3, 253 + v as u64 % 3]) } }
        }
        judge(cx, &t);
    });
    // which node
    let some: Vec<Option<u16>> = [0u16, 1, 2, 3, 4, 5, 21, 22, 40, 41, 42, 43, 84, 85, 86, 127, 255, 256, 0x5555, 0x5556, 0x7fff, 0x8000, 0xfffe].iter().map(|n| Some(*n)).chain([None]).collect();
    let m = some.len();
    ck.family("nodes", 3 * 3 * m * m, |i| format!("{i}"), |i, cx| {
        let d = digits(i, &[3, 3, m, m]);
        let mut t = with(d[0], [1, 42, 43][d[1]], &[1]);
        let p = parts(&mut t)[0].1.clone();
        t.grow(&format!("{p}.uncompressed_vertices"), 2);
        plain_vertex(&mut t, &p, 0, [Some(0), None]); plain_vertex(&mut t, &p, 1, [some[d[2]], some[d[3]]]);
        judge(cx, &t);
    });
    let n = ck.pick(28usize, 256);
    ck.family("compressed nodes", 3 * 3 * n * n, |i| format!("{i}"), |i, cx| {
        let d = digits(i, &[3, 3, n, n]);
        let at = |i: usize| if n == 256 { i as u64 } else { [0u64, 1, 2, 3, 4, 5, 6, 7, 8, 9, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 250, 251, 252, 253, 254, 255][i] };
        let mut t = with(d[0], [1, 42, 43][d[1]], &[1]);
        let p = parts(&mut t)[0].1.clone();
        t.grow(&format!("{p}.compressed_vertices"), 2);
        small_vertex(&mut t, &p, 0, [0, 255]); small_vertex(&mut t, &p, 1, [at(d[2]), at(d[3])]);
        judge(cx, &t);
    });
    // values
    let values = [0.0f32, -0.0, 1.0, -1.0, 0.5, 0.99998, 2.0, -7.5, 1e-9, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 65504.0];
    let k = values.len();
    ck.family("values", 9 * k * k * 2, |i| format!("{i}"), |i, cx| {
        let d = digits(i, &[9, k, k, 2]);
        let (a, b) = (values[d[1]], values[d[2]]);
        let mut t = with(d[3], 1, &[1]);
        let p = parts(&mut t)[0].1.clone();
        t.grow(&format!("{p}.uncompressed_vertices"), 1);
        plain_vertex(&mut t, &p, 0, [Some(0), None]);
        let q = |x: &str| format!("{p}.uncompressed_vertices[0].{x}");
        match d[0] {
            0 => t.set_floats(&q("position"), &[a, b, 0.25]),
            n @ 1..=6 => t.set_floats(&q(["normal", "binormal", "tangent"][(n - 1) % 3]), &if n <= 3 { [a, b, 0.25] } else { [0.25, a, b] }),
            7 => t.set_floats(&q("texture_coords"), &[a, b]),
            _ => { t.set_floats(&q("node0_weight"), &[a]); t.set_floats(&q("node1_weight"), &[b]) }
        }
        judge(cx, &t);
    });
    let words: Vec<u32> = [0u32, 1, 0x3ff, 0x400, 0x7ff, 0x800, 0x8000, 0xffff, 0x1ffffff, 0x1fffff, 0x200000, 0x3fffff, 0x400000, 0x7fffffff, 0x80000000, 0xffc00000, 0xffffffff].to_vec();
    let k = words.len();
    ck.family("compressed values", 4 * k * k * 2, |i| format!("{i}"), |i, cx| {
        let d = digits(i, &[4, k, k, 2]);
        let (a, b) = (words[d[1]] as u64, words[d[2]] as u64);
        let mut t = with(d[3], 1, &[1]);
        let p = parts(&mut t)[0].1.clone();
        t.grow(&format!("{p}.compressed_vertices"), 1);
        small_vertex(&mut t, &p, 0, [0, 255]);
        let q = |x: &str| format!("{p}.compressed_vertices[0].{x}");
        match d[0] {
            0 => { t.set_int(&q("normal"), a); t.set_int(&q("binormal"), b) }
            1 => { t.set_int(&q("binormal"), a); t.set_int(&q("tangent"), b) }
            2 => { t.set_int(&q("texture_coordinate_u"), a & 0xffff); t.set_int(&q("texture_coordinate_v"), b & 0xffff) }
            _ => { t.set_int(&q("node0_weight"), a & 0xffff); t.set_int(&q("texture_coordinate_v"), b & 0xffff) }
        }
        judge(cx, &t);
    });

    // indices: one or two of them are something else, with that many nodes, geometries, shaders and local nodes
    let places: Vec<&str> = vec!["nodes[0].next_sibling_node_index", "nodes[1].first_child_node_index", "nodes[1].parent_node_index", "regions[0].permutations[0].super_low", "regions[0].permutations[0].low", "regions[1].permutations[1].medium", "regions[1].permutations[1].high", "regions[1].permutations[1].super_high", "regions[1].permutations[0].markers[1].node_index", "geometries[0].parts[0]@shader_index", "geometries[1].parts[1]@shader_index", "geometries[1].parts[1]@uncompressed_vertices[1].node0_index", "geometries[0].parts[0]@uncompressed_vertices[0].node1_index", "geometries[1].parts[1]@compressed_vertices[1].node0_index", "geometries[1].parts[0]@compressed_vertices[0].node1_index", "geometries[1].parts[1]@zoner", "geometries[1].parts[0]!local_node_count", "geometries[1].parts[1]!local_node_count", "geometries[1].parts[0]!local_node_indices[0]", "geometries[1].parts[1]!local_node_indices[1]", "geometries[1].parts[1]!local_node_indices[2]"];
    let numbers = [0u64, 1, 2, 3, 5, 6, 7, 21, 22, 23, 125, 126, 128, 129, 252, 253, 255, 256, 0x7fff, 0xfffe, 0xffff];
    let numbers: Vec<u64> = if ck.quick() { vec![0, 1, 2, 3, 22, 23, 126, 252, 253, 0xffff] } else { numbers.to_vec() };
    let (np, nn) = (places.len(), numbers.len());
    let pairs: Vec<(usize, usize)> = (0..np).flat_map(|a| (a..np).map(move |b| (a, b))).collect();
    ck.items("indices", &pairs, |(a, b)| format!("{} {}", places[*a], places[*b]), |(a, b), cx| {
        for kind in 0..3 { for nodes in [2usize, 42] { for x in 0..nn { for y in 0..nn {
            if a == b && x != y { continue }
            let mut t = with(kind, nodes, &[1, 2]);
            t.grow("shaders", 2).grow("regions", 2).grow("regions[0].permutations", 1).grow("regions[1].permutations", 2).grow("regions[1].permutations[0].markers", 2);
            for s in 0..2 { *t.at(&format!("shaders[{s}].shader")) = Val::Ref("shader_model".into(), Some("s".into())) }
            let all = parts(&mut t);
            for (part, p) in &all {
                t.grow(&format!("{p}.uncompressed_vertices"), 2); t.grow(&format!("{p}.compressed_vertices"), 2);
                if kind == 2 { for i in 0..4 { t.set_int(&format!("{part}.local_node_indices[{i}]"), (i & 1) as u64) } }
                for v in 0..2 { plain_vertex(&mut t, p, v, [Some(v as u16), None]); small_vertex(&mut t, p, v, [3, 255]) }
            }
            for (place, n) in [(places[*a], numbers[x]), (places[*b], numbers[y])] {
                if let Some((part, f)) = place.split_once('!') { if kind > 0 { let p = format!("{part}.{f}"); if n < 256 { t.set_int(&p, n) } } continue }
                let place = match place.split_once('@') { Some((part, f)) => format!("{part}{}.{f}", if kind > 0 { ".model_geometry_part" } else { "" }), None => place.into() };
                if let Some(p) = place.strip_suffix("zoner") { t.set_flag(&format!("{p}flags"), "zoner", n % 2 == 1); continue }
                if t.bytes(&place).len() == 1 && n > 255 { continue }
                t.set_int(&place, n);
            }
            let ok = sane(&mut t);
            let tag = t.tag();
            cx.step(); cx.validated(); cx.state(hash_of(&(a, b, kind, nodes, x, y)));
            match guard(|| downcast_model(tag.as_ref()).unwrap().check_indices().is_ok()) { Ok(r) => { if !cx.check(r == ok, "indices", || format!("kind {kind}, {nodes} nodes, {} {}: fine: {r}", numbers[x], numbers[y])) { return } } Err(e) => { cx.fail("panic", e); return } }
            let other = ["gbxmodel", "model", "model"][kind];
            use ringhopper::primitives::primitive::TagGroup;
            let f = ringhopper::tag::convert::get_tag_conversion_fn(TagGroup::from_str(t.group).unwrap(), TagGroup::from_str(other).unwrap()).unwrap();
            match guard(|| f(tag.as_ref()).map(|t| t.to_tag_file().unwrap())) {
                Err(e) => { cx.fail("panic", e); return }
                Ok(Err(_)) if !ok => (),
                Ok(Ok(f)) if ok => { let w = convert(&mut t, other); if let Err(e) = same_file(&f, &w.file()) { cx.fail("converted", e); return } }
                Ok(r) => { cx.fail("converted", format!("{}", r.is_ok())); return }
            }
        } } } }
    });

    // structure BSPs: sizes
    let counts = [(0u32, 0u32), (1, 0), (1, 1), (2, 0), (2, 2), (2, 1), (0, 1), (u32::MAX, 0), (u32::MAX, u32::MAX), (3, 3)];
    let data = |r: u32, l: u32, s: (usize, usize), off: i64| -> Vec<u8> { if r > 99 { return vec![5; off.max(0) as usize] } let n = (r as i64 * s.0 as i64 + if l > 99 { 0 } else { l as i64 } * s.1 as i64 + off).max(0) as usize; floats_le(&(0..n / 4 + 1).map(|i| (i as f32 * 0.37).sin()).collect::<Vec<_>>()).into_iter().take(n).collect() };
    let offs = [None, Some(0i64), Some(1), Some(-1), Some(20)];
    let nc = counts.len();
    ck.family("structure sizes", nc * 25 * nc * 25, |i| format!("{i}"), |i, cx| {
        let d = digits(i, &[nc, 5, 5, nc, 5, 5]);
        let mut t = T::new("scenario_structure_bsp");
        t.grow("lightmaps", 2).grow("lightmaps[0].materials", 1).grow("lightmaps[1].materials", 1);
        let mut mats: Vec<(String, Mat)> = vec![];
        for (n, p) in ["lightmaps[0].materials[0]", "lightmaps[1].materials[0]"].iter().enumerate() {
            let (r, l) = counts[d[n * 3]];
            let m = Mat { r, l, u: offs[d[n * 3 + 1]].map_or(vec![], |o| data(r, l, PLAIN, o)), c: offs[d[n * 3 + 2]].map_or(vec![], |o| data(r, l, SMALL, o)) };
            m.put(&mut t, p);
            mats.push((p.to_string(), m));
        }
        bsp_judge(cx, &t, &mut mats);
    });
    // structure BSPs: where the materials are and what each of them lacks
    let shapes: &[&[usize]] = &[&[1], &[2], &[3], &[4], &[2, 1], &[1, 2], &[1, 1, 1], &[0, 2], &[2, 0, 2], &[0, 0, 1], &[2, 2]];
    ck.family("structure materials", shapes.len() * 625, |i| format!("{:?} {}", shapes[i / 625], i % 625), |i, cx| {
        let shape = shapes[i / 625];
        let count: usize = shape.iter().sum();
        let d = digits(i % 625, &[5; 4]);
        if d[count..].iter().any(|x| *x != 0) { return }
        let mut t = T::new("scenario_structure_bsp");
        t.grow("lightmaps", shape.len());
        let mut mats: Vec<(String, Mat)> = vec![];
        for (l, n) in shape.iter().enumerate() {
            t.grow(&format!("lightmaps[{l}].materials"), *n);
            for m in 0..*n {
                let (r, k) = (1 + mats.len() as u32 % 2, mats.len() as u32 % 3);
                let state = d[mats.len()];
                let what = |kind: (usize, usize), bit: usize| if state & bit != 0 && state < 4 { data(r, k, kind, 0) } else if state == 4 && bit == 1 { data(r, k, kind, -1) } else { vec![] };
                let mat = Mat { r, l: k, u: what(PLAIN, 1), c: what(SMALL, 2) };
                let p = format!("lightmaps[{l}].materials[{m}]");
                mat.put(&mut t, &p);
                mats.push((p, mat));
            }
        }
        bsp_judge(cx, &t, &mut mats);
    });
    // values
    let k = values.len();
    ck.family("structure values", 7 * k * k * k, |i| format!("{i}"), |i, cx| {
        let d = digits(i, &[7, k, k, k]);
        let mut f: Vec<f32> = (0..38).map(|i| (i as f32 * 0.7).cos()).collect(); // two rendered, two lightmap vertices
        let at = [0, 3, 6, 9, 12 - 1, 14 + 3, 28 + 5 - 2][d[0]];
        for n in 0..3 { f[at + n] = values[d[1 + n]] }
        let mut t = T::new("scenario_structure_bsp");
        t.grow("lightmaps", 1).grow("lightmaps[0].materials", 1);
        let m = Mat { r: 2, l: 2, u: floats_le(&f), c: vec![] };
        let p = "lightmaps[0].materials[0]";
        m.put(&mut t, p);
        bsp_judge(cx, &t, &mut [(p.into(), m)]);
    });
    ck.family("structure compressed values", 6 * words.len() * words.len(), |i| format!("{i}"), |i, cx| {
        let d = digits(i, &[6, words.len(), words.len()]);
        let mut c: Vec<u8> = floats_le(&(0..20).map(|i| (i as f32 * 0.7).cos()).collect::<Vec<_>>());
        let at = [12, 16, 20, 32 + 12, 64, 72][d[0]];
        c[at..at + 4].copy_from_slice(&words[d[1]].to_le_bytes()); c[at + 4..at + 8].copy_from_slice(&words[d[2]].to_le_bytes());
        let mut t = T::new("scenario_structure_bsp");
        t.grow("lightmaps", 1).grow("lightmaps[0].materials", 1);
        let m = Mat { r: 2, l: 2, u: vec![], c };
        let p = "lightmaps[0].materials[0]";
        m.put(&mut t, p);
        bsp_judge(cx, &t, &mut [(p.into(), m)]);
    });

    // the command
    let n = ck.pick(40usize, 160);
    ck.family("command", n, |i| format!("{i}"), |i, cx| {
        let d = digits(i, &[5, 4, 8]);
        let mut tags: BTreeMap<String, (T, T)> = BTreeMap::new();
        for (name, kind, nodes, what) in [("a", 0, 2, d[0]), ("b", 1, 2, d[1]), ("c", 2, 2, d[0]), ("d/e", 1, 43, d[0])] {
            let mut t = with(kind, nodes, &[1, 1]);
            for (n, (_, p)) in parts(&mut t).iter().enumerate() {
                let what = if n == 0 { what } else { d[1] };
                if what & 1 == 1 || what == 4 { t.grow(&format!("{p}.uncompressed_vertices"), 2); for v in 0..2 { plain_vertex(&mut t, p, v, [Some(v as u16), if what == 4 { Some(42) } else { None }]) } }
                if what & 2 == 2 { t.grow(&format!("{p}.compressed_vertices"), 1); small_vertex(&mut t, p, 0, [3, 255]) }
            }
            let mut w = t.clone();
            work(&mut w, Op::Recompress);
            tags.insert(format!("{name}.{}", t.group), (t, w));
        }
        let mut t = T::new("scenario_structure_bsp");
        t.grow("lightmaps", 2).grow("lightmaps[0].materials", 1).grow("lightmaps[1].materials", 1);
        let mut w = t.clone();
        let mut ok = true;
        let mut mats = vec![];
        for (n, p) in ["lightmaps[0].materials[0]", "lightmaps[1].materials[0]"].iter().enumerate() {
            let what = if n == 0 { d[2] % 4 } else { d[2] / 2 };
            let mut m = Mat { r: 2, l: 2 * (n as u32), u: if what & 1 == 1 { data(2, 2 * n as u32, PLAIN, if d[2] == 5 { 1 } else { 0 }) } else { vec![] }, c: if what & 2 == 2 { data(2, 2 * n as u32, SMALL, 0) } else { vec![] } };
            m.put(&mut t, p);
            if m.u.is_empty() && !m.c.is_empty() { ok = false }
            m.c.clear();
            if m.restore().is_none() { ok = false }
            mats.push((p, m));
        }
        for (p, m) in mats { m.put(&mut w, p) }
        if !ok { w = t.clone() }
        tags.insert("levels/x.scenario_structure_bsp".into(), (t, w));
        tags.insert("z.bitmap".into(), (T::new("bitmap"), T::new("bitmap")));
        let dir = case_dir("recompress");
        for cow in [false, true] {
            let mut fs: BTreeMap<String, Vec<u8>> = tags.iter().map(|(p, t)| (format!("tags/{p}"), t.0.file())).collect();
            reset(&dir, &fs);
            let mut args = vec!["recompress-vertices", "*"];
            if cow { args.extend(["-c", "cow"]); std::fs::create_dir_all(dir.join("cow")).unwrap(); }
            let r = invader(&args, &dir, &[("MC_NOSCHED", "1".into())]);
            cx.step(); cx.state((i, cow)); cx.validated();
            cx.check(!r.panicked(), "exit", || r.brief());
            for (p, (t, w)) in &tags { if w.file() != t.file() { fs.insert(format!("{}/{p}", if cow { "cow" } else { "tags" }), w.file()); } }
            let got = files(&snapshot(&dir));
            cx.check(got == fs, "files", || format!("{} {}", differences(&got, &fs), r.brief()));
        }
    });
    ck.finish();
}

/// A model of the other kind.
fn convert(t: &mut T, to: &'static str) -> T {
    let mut o = T::new(to);
    let b = t.flag("flags", "blend_shared_normals");
    o.set_flag("flags", "blend_shared_normals", b);
    for f in ["node_list_checksum", "detail_cutoff", "base_map_u_scale", "base_map_v_scale", "runtime_markers", "nodes", "regions", "shaders"] { *o.at(f) = t.at(f).clone() }
    let n = t.len("geometries");
    o.grow("geometries", n);
    let local = t.group == "gbxmodel" && t.flag("flags", "parts_have_local_nodes");
    for g in 0..n { *o.at(&format!("geometries[{g}].flags")) = t.at(&format!("geometries[{g}].flags")).clone(); let n = t.len(&format!("geometries[{g}].parts")); o.grow(&format!("geometries[{g}].parts"), n); }
    for ((part, from), (_, to)) in parts(t).iter().zip(parts(&mut o)) {
        *o.at(&to) = t.at(from).clone();
        if local {
            o.set_flag(&format!("{to}.flags"), "zoner", false);
            for v in 0..o.len(&format!("{to}.uncompressed_vertices")) { for f in ["node0_index", "node1_index"] {
                let p = format!("{to}.uncompressed_vertices[{v}].{f}");
                if let Some(i) = o.index(&p) { let n = t.int(&format!("{part}.local_node_indices[{i}]")); o.set_int(&p, n) }
            } }
        }
    }
    o
}
