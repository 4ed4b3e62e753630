//! Vertices and their compressed counterparts, as they are stored. (That single numbers and vectors are compressed as
//! they should be is P06; here it is about which of them goes where.)
use crate::refser::*;
use crate::treeval::*;
use ringhopper::primitives::primitive::*;

fn c1(v: f64) -> u16 { CompressedFloat::from(v).data }
fn d1(v: u16) -> f32 { f64::from(CompressedFloat { data: v }) as f32 }
fn c3(v: &[f32]) -> u32 { CompressedVector3D::from(Vector3D { x: v[0] as f64, y: v[1] as f64, z: v[2] as f64 }).data }
fn d3(v: u32) -> Vec<f32> { let v = Vector3D::from(CompressedVector3D { data: v }); vec![v.x as f32, v.y as f32, v.z as f32] }
fn c2(v: &[f32]) -> u32 { CompressedVector2D::from(Vector2D { x: v[0] as f64, y: v[1] as f64 }).data }
fn d2(v: u32) -> Vec<f32> { let v = Vector2D::from(CompressedVector2D { data: v }); vec![v.x as f32, v.y as f32] }
fn leaf(v: &Val) -> &[u8] { match v { Val::Leaf(b) => b, v => panic!("{v:?}") } }
fn u32of(b: &[u8]) -> u32 { u32::from_be_bytes(b.try_into().unwrap()) }
fn u16of(b: &[u8]) -> u16 { u16::from_be_bytes(b.try_into().unwrap()) }

/// Can a vertex's nodes be named in a compressed one?
pub fn fits(v: &Val) -> bool { let Val::Struct(f) = v else { panic!() }; [5, 6].iter().all(|i| match u16of(leaf(&f[*i])) { 0xffff => true, n => n < 42 }) }
/// Position, normal, binormal, tangent, texture coordinates, node 0, node 1, weight 0, weight 1.
pub fn compress_model(v: &Val) -> Val {
    let Val::Struct(f) = v else { panic!() };
    let node = |i: usize| Val::Leaf(vec![match u16of(leaf(&f[i])) { 0xffff => 253, n => (n * 3) as u8 }]);
    let (a, b) = (f32s(leaf(&f[7]))[0] as f64, f32s(leaf(&f[8]))[0] as f64);
    let w = a / if a + b == 0.0 { 1.0 } else { a + b };
    let uv = f32s(leaf(&f[4]));
    let c = |i: usize| Val::Leaf(c3(&f32s(leaf(&f[i]))).to_be_bytes().to_vec());
    let h = |v: f64| Val::Leaf(c1(v).to_be_bytes().to_vec());
    Val::Struct(vec![f[0].clone(), c(1), c(2), c(3), h(uv[0] as f64), h(uv[1] as f64), node(5), node(6), h(w)])
}
pub fn decompress_model(v: &Val) -> Val {
    let Val::Struct(f) = v else { panic!() };
    let node = |i: usize| Val::Leaf(match leaf(&f[i])[0] { n if n >= 253 => 0xffffu16, n => n as u16 / 3 }.to_be_bytes().to_vec());
    let d = |i: usize| Val::Leaf(f32b(&d3(u32of(leaf(&f[i])))));
    let w = f64::from(CompressedFloat { data: u16of(leaf(&f[8])) });
    Val::Struct(vec![f[0].clone(), d(1), d(2), d(3), Val::Leaf(f32b(&[d1(u16of(leaf(&f[4]))), d1(u16of(leaf(&f[5])))])), node(6), node(7), Val::Leaf(f32b(&[w as f32])), Val::Leaf(f32b(&[(1.0 - w) as f32]))])
}

/// Sizes of a rendered and a lightmap vertex.
pub const PLAIN: (usize, usize) = (56, 20);
pub const SMALL: (usize, usize) = (32, 8);
fn le(b: &[u8]) -> Vec<f32> { b.chunks(4).map(|c| f32::from_bits(u32::from_le_bytes(c.try_into().unwrap()))).collect() }
fn fl(v: &[f32]) -> Vec<u8> { v.iter().flat_map(|v| v.to_bits().to_le_bytes()).collect() }
pub fn compress_rendered(b: &[u8]) -> Vec<u8> {
    let f = le(b);
    [b[..12].to_vec(), c3(&f[3..6]).to_le_bytes().to_vec(), c3(&f[6..9]).to_le_bytes().to_vec(), c3(&f[9..12]).to_le_bytes().to_vec(), b[48..56].to_vec()].concat()
}
pub fn decompress_rendered(b: &[u8]) -> Vec<u8> {
    let u = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
    [b[..12].to_vec(), fl(&d3(u(12))), fl(&d3(u(16))), fl(&d3(u(20))), b[24..32].to_vec()].concat()
}
pub fn compress_lightmap(b: &[u8]) -> Vec<u8> { let f = le(b); [c3(&f[..3]).to_le_bytes(), c2(&f[3..]).to_le_bytes()].concat() }
pub fn decompress_lightmap(b: &[u8]) -> Vec<u8> { let u = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap()); [fl(&d3(u(0))), fl(&d2(u(4)))].concat() }
/// Count the nodes of a vertex as its part does.
pub fn localise(v: &mut Val, table: &[u8]) -> bool {
    let Val::Struct(f) = v else { panic!() };
    [5, 6].iter().all(|i| match u16of(leaf(&f[*i])) { 0xffff => true, n => match table.iter().position(|l| *l as u16 == n) { Some(l) => { f[*i] = Val::Leaf((l as u16).to_be_bytes().to_vec()); true } None => false } })
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op { Compressed, Uncompressed, Recompress }
pub const OPS: [Op; 3] = [Op::Compressed, Op::Uncompressed, Op::Recompress];

pub fn parts(t: &mut T) -> Vec<(String, String)> {
    let gbx = t.group == "gbxmodel";
    let mut v = vec![];
    for g in 0..t.len("geometries") { for p in 0..t.len(&format!("geometries[{g}].parts")) { let p = format!("geometries[{g}].parts[{p}]"); v.push((p.clone(), if gbx { format!("{p}.model_geometry_part") } else { p })) } }
    v
}
/// What an operation makes of a model, and whether it had anything to do.
pub fn work(t: &mut T, op: Op) -> bool {
    let gbx = t.group == "gbxmodel";
    let local = gbx && t.flag("flags", "parts_have_local_nodes");
    let supported = t.len("nodes") <= 42 && !local;
    let mut did = false;
    for (part, p) in parts(t) {
        let (u, c) = (t.list(&format!("{p}.uncompressed_vertices")).clone(), t.list(&format!("{p}.compressed_vertices")).clone());
        let fit = !u.is_empty() && u.iter().all(fits);
        let small = || u.iter().map(compress_model).collect::<Vec<_>>();
        match op {
            Op::Compressed => if supported && c.is_empty() && fit { *t.list(&format!("{p}.compressed_vertices")) = small(); did = true },
            Op::Recompress => if supported { if fit { *t.list(&format!("{p}.compressed_vertices")) = small(); did = true } } else if !u.is_empty() { t.list(&format!("{p}.compressed_vertices")).clear(); did = true },
            Op::Uncompressed => if u.is_empty() && !c.is_empty() {
                let mut plain: Vec<Val> = c.iter().map(decompress_model).collect();
                if local {
                    let table: Vec<u8> = (0..t.int(&format!("{part}.local_node_count")).min(22)).map(|i| t.int(&format!("{part}.local_node_indices[{i}]")) as u8).collect();
                    if !plain.iter_mut().all(|v| localise(v, &table)) { continue }
                }
                *t.list(&format!("{p}.uncompressed_vertices")) = plain; did = true
            },
        }
    }
    did
}
