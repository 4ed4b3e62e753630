//! Tags as trees of values, changed by path; and as files.
use crate::refser::*;

/// A tree with access by path ("a.b[0].c").
#[derive(Clone, PartialEq)]
pub struct T { pub group: &'static str, pub v: Val }

struct Blank;
impl Chooser for Blank {
    fn leaf(&mut self, _: &[Step], ty: &Ty, _: &FieldDef) -> Val {
        match ty { Ty::Data(_) => Val::Data(vec![]), Ty::Ref { first, .. } => Val::Ref(first.clone().unwrap_or("bitmap".into()), None), Ty::Prim(t) if t == "Index" => Val::Leaf(vec![0xff; 2]), t => Val::Leaf(vec![0; t.size()]) }
    }
    fn count(&mut self, _: &[Step], _: &str) -> usize { 0 }
}
pub fn blank(strukt: &str) -> Val { generate(strukt, &mut vec![], &mut Blank) }

impl T {
    pub fn new(group: &'static str) -> Self { T { group, v: blank(&spec().groups[group].strukt) } }
    pub fn strukt(&self) -> &'static str { &spec().groups[self.group].strukt }
    fn find(&mut self, path: &str) -> (&mut Val, Ty) {
        let mut st = self.strukt();
        let mut ty = Ty::Struct(st.into());
        let mut v = &mut self.v;
        for part in path.split('.') {
            let (name, idx) = match part.split_once('[') { Some((n, i)) => (n, Some(i.trim_end_matches(']').parse::<usize>().unwrap())), None => (part, None) };
            if name == "lower" || name == "upper" { v = match v { Val::Many(l) => &mut l[(name == "upper") as usize], v => panic!("{path}: {v:?}") }; continue }
            let i = spec().structs[st].fields.iter().position(|f| f.name == name).unwrap_or_else(|| panic!("{path}: no {name} in {st}"));
            ty = spec().structs[st].fields[i].ty.clone();
            if let Ty::Struct(s) | Ty::Refl(s) = &spec().structs[st].fields[i].ty { st = s }
            v = match v { Val::Struct(l) => &mut l[i], v => panic!("{path}: {v:?}") };
            if let Some(i) = idx { v = match v { Val::Many(l) | Val::Refl(l) => &mut l[i], v => panic!("{path}: {v:?}") } }
        }
        (v, ty)
    }
    pub fn at(&mut self, path: &str) -> &mut Val { self.find(path).0 }
    pub fn list(&mut self, path: &str) -> &mut Vec<Val> { match self.at(path) { Val::Refl(l) => l, v => panic!("{path}: {v:?}") } }
    pub fn len(&mut self, path: &str) -> usize { self.list(path).len() }
    /// Add empty elements.
    pub fn grow(&mut self, path: &str, n: usize) -> &mut Self {
        let (v, ty) = self.find(path);
        match (v, ty) { (Val::Refl(l), Ty::Refl(s)) => l.extend((0..n).map(|_| blank(&s))), (v, t) => panic!("{path}: {v:?} {t:?}") }
        self
    }
    pub fn bytes(&mut self, path: &str) -> Vec<u8> { match self.at(path) { Val::Leaf(b) | Val::Data(b) => b.clone(), v => panic!("{path}: {v:?}") } }
    pub fn set_bytes(&mut self, path: &str, b: &[u8]) { match self.at(path) { Val::Leaf(x) => { assert_eq!(x.len(), b.len(), "{path}"); x.copy_from_slice(b) } Val::Data(x) => *x = b.to_vec(), v => panic!("{path}: {v:?}") } }
    pub fn int(&mut self, path: &str) -> u64 { self.bytes(path).iter().fold(0, |a, b| a << 8 | *b as u64) }
    pub fn set_int(&mut self, path: &str, v: u64) { let n = self.bytes(path).len(); self.set_bytes(path, &v.to_be_bytes()[8 - n..]) }
    /// An index; `None` is stored as all ones.
    pub fn set_index(&mut self, path: &str, v: Option<u16>) { self.set_bytes(path, &v.unwrap_or(0xffff).to_be_bytes()) }
    pub fn index(&mut self, path: &str) -> Option<u16> { match self.int(path) as u16 { 0xffff => None, n => Some(n) } }
    pub fn floats(&mut self, path: &str) -> Vec<f32> { f32s(&self.bytes(path)) }
    pub fn set_floats(&mut self, path: &str, v: &[f32]) { self.set_bytes(path, &f32b(v)) }
    pub fn set_string(&mut self, path: &str, s: &str) { let mut b = s.as_bytes().to_vec(); b.resize(32, 0); self.set_bytes(path, &b) }
    /// A flag of a bitfield by name.
    pub fn flag(&mut self, path: &str, name: &str) -> bool { let bit = self.bit(path, name); self.int(path) >> bit & 1 == 1 }
    pub fn set_flag(&mut self, path: &str, name: &str, v: bool) { let bit = self.bit(path, name); let n = self.int(path); self.set_int(path, n & !(1 << bit) | (v as u64) << bit) }
    fn bit(&mut self, path: &str, name: &str) -> usize { match self.find(path).1 { Ty::Bits(b) => spec().bits[&b].fields.iter().position(|f| f.name == name).unwrap_or_else(|| panic!("{b} has no {name}")), t => panic!("{path}: {t:?}") } }
    pub fn set_enum(&mut self, path: &str, name: &str) { let n = match self.find(path).1 { Ty::Enum(e) => spec().enums[&e].iter().position(|o| o.name == name).unwrap_or_else(|| panic!("{e} has no {name}: {:?}", spec().enums[&e].iter().map(|o| &o.name).collect::<Vec<_>>())), t => panic!("{path}: {t:?}") }; self.set_int(path, n as u64) }
    pub fn enum_name(&mut self, path: &str) -> &'static str { let n = self.int(path) as usize; match self.find(path).1 { Ty::Enum(e) => &spec().enums[&e][n].name, t => panic!("{path}: {t:?}") } }
    pub fn file(&self) -> Vec<u8> { tag_file(self.group, &serialize(self.strukt(), &canonical(self.strukt(), &self.v), None)) }
    pub fn tag(&self) -> Box<dyn ringhopper::primitives::tag::PrimaryTagStructDyn> {
        ringhopper::definitions::read_any_tag_from_file_buffer(&self.file(), ringhopper::primitives::tag::ParseStrictness::Relaxed).unwrap_or_else(|e| panic!("{}: {e:?}", self.group))
    }
}
pub fn f32s(b: &[u8]) -> Vec<f32> { b.chunks(4).map(|c| f32::from_bits(u32::from_be_bytes(c.try_into().unwrap()))).collect() }
pub fn f32b(v: &[f32]) -> Vec<u8> { v.iter().flat_map(|v| v.to_bits().to_be_bytes()).collect() }

/// All leaves of a tree which tag files hold, with their types.
pub fn each_leaf(strukt: &str, v: &mut Val, f: &mut impl FnMut(&Ty, &mut Vec<u8>)) {
    let Val::Struct(fs) = v else { panic!() };
    for (d, v) in spec().structs[strukt].fields.iter().zip(fs) {
        if d.cache_only || d.exclude { continue }
        fn one(ty: &Ty, v: &mut Val, f: &mut impl FnMut(&Ty, &mut Vec<u8>)) {
            match (ty, v) {
                (_, Val::Many(l)) => for v in l { one(ty, v, f) },
                (Ty::Struct(s), v) => each_leaf(s, v, f),
                (Ty::Refl(s), Val::Refl(l)) => for v in l { each_leaf(s, v, f) },
                (Ty::Data(_) | Ty::Ref { .. }, _) => (),
                (t, Val::Leaf(b)) => f(t, b),
                (t, v) => panic!("{t:?} {v:?}"),
            }
        }
        one(&d.ty, v, f)
    }
}

/// The same file, but for the last place of floating point numbers; differences are described.
pub fn same_file(got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want { return Ok(()) }
    if got.len() != want.len() { return Err(format!("{} bytes instead of {}", got.len(), want.len())) }
    for i in (0..got.len()).step_by(4).filter(|i| *i != 0x28) {
        let (a, b) = (&got[i..got.len().min(i + 4)], &want[i..got.len().min(i + 4)]);
        if a == b { continue }
        let ok = a.len() == 4 && { let (a, b) = (f32s(a)[0], f32s(b)[0]); a.is_normal() && b.is_normal() && (a - b).abs() <= b.abs() * 1e-6 };
        if !ok { return Err(format!("{a:02x?} instead of {b:02x?} at {i:#x}")) }
    }
    Ok(())
}
