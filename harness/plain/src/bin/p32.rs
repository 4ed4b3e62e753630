//! P32: the dynamic interface - every block, field, list and enum of every tag group, against the definitions.
use mc::refser::*;
use mc::treeval::*;
use mc::*;
use ringhopper::primitives::dynamic::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::PrimaryTagStructDyn;
use std::collections::{BTreeMap, BTreeSet};

type Tag = Box<dyn PrimaryTagStructDyn>;

fn groups() -> Vec<&'static str> { spec().groups.keys().map(|g| g.as_str()).collect() }

/// Fill every list - also those which tag files do not hold - with `n` elements by the dynamic interface.
fn fill(d: &mut dyn DynamicTagData, n: usize) {
    if let Some(r) = d.as_reflexive_mut() { while r.len() < n { let at = r.len(); r.insert_default(at) } }
    if let Some(a) = d.as_array_mut() { for i in 0..a.len() { if let Some(x) = a.get_at_index_mut(i) { fill(x, n) } } return }
    for f in d.fields() { if let Some(x) = d.get_field_mut(f) { fill(x, n) } }
}
fn at<'a>(d: &'a dyn DynamicTagData, path: &[Step]) -> &'a dyn DynamicTagData { get(d, path).unwrap_or_else(|| panic!("no {}", path_str(path))) }
fn place(d: &dyn DynamicTagData) -> usize { d as *const dyn DynamicTagData as *const u8 as usize }

/// All blocks in a filled tag, with the structure each one has.
fn blocks(strukt: &'static str, d: &dyn DynamicTagData, path: &mut Path, out: &mut Vec<(&'static str, Path)>) {
    out.push((strukt, path.clone()));
    for f in &spec().structs[strukt].fields {
        if f.exclude { continue }
        let Some(x) = d.get_field(&f.name) else { continue };
        path.push(Step::F(f.sname));
        let mut sub = |x: &dyn DynamicTagData, path: &mut Path| match &f.ty {
            Ty::Struct(s) => blocks(s, x, path, out),
            Ty::Refl(s) => if let Some(x) = x.as_array().and_then(|a| a.get_at_index(0)) { path.push(Step::I(0)); blocks(s, x, path, out); path.pop(); },
            _ => (),
        };
        if f.many == Many::One { sub(x, path) } else if let Some(a) = x.as_array() { for i in 0..a.len() { path.push(Step::I(i)); sub(a.get_at_index(i).unwrap(), path); path.pop(); } }
        path.pop();
    }
}

/// What a value of a type says it is.
fn kind(ty: &Ty) -> DynamicTagDataType {
    use DynamicTagDataType as D; use SimplePrimitiveType as S;
    let p = D::SimplePrimitive;
    match ty {
        Ty::Struct(_) | Ty::Bits(_) => D::Block, Ty::Refl(_) => D::Reflexive, Ty::Ref { .. } => D::TagReference, Ty::Enum(_) => D::Enum,
        Ty::Data(t) => match t.as_str() { "Data" => D::Data, "FileData" => D::FileData, "BSPVertexData" => D::BSPVertexData, "UTF16String" => D::UTF16String, t => panic!("{t}") },
        Ty::Prim(t) => p(match t.as_str() {
            "float" => S::Float, "uint8" => S::U8, "uint16" => S::U16, "uint32" => S::U32, "int8" => S::I8, "int16" => S::I16, "int32" => S::I32,
            "Angle" => S::Angle, "Rectangle" => S::Rectangle, "Vector2D" => S::Vector2D, "Vector3D" => S::Vector3D, "CompressedVector2D" => S::CompressedVector2D, "CompressedVector3D" => S::CompressedVector3D,
            "CompressedFloat" => S::CompressedFloat, "Euler2D" => S::Euler2D, "Euler3D" => S::Euler3D, "Plane2D" => S::Plane2D, "Plane3D" => S::Plane3D, "Quaternion" => S::Quaternion, "Matrix3x3" => S::Matrix3x3,
            "ColorRGBFloat" => S::ColorRGBFloat, "ColorARGBFloat" => S::ColorARGBFloat, "ColorARGBInt" => S::ColorARGBInt, "String32" => S::String32, "Address" => S::Address, "Index" => S::Index,
            "Vector2DInt" => S::Vector2DInt, "TagID" | "ID" => S::ID, "ScenarioScriptNodeValue" => S::ScenarioScriptNodeValue, "TagGroup" => S::TagGroup, t => panic!("{t}"),
        }),
    }
}

/// One value: what kind it is, which of the other interfaces it has, and (for bitfields) its parts.
fn value(d: &dyn DynamicTagData, ty: &Ty, what: &str, cx: &mut Cx) {
    cx.step();
    cx.check(d.data_type() == kind(ty), "kind", || format!("{what} is {:?} instead of {:?}", d.data_type(), kind(ty)));
    cx.check(d.as_array().is_some() == matches!(ty, Ty::Refl(_)), "kind", || format!("{what}: is it an array? {}", d.as_array().is_some()));
    cx.check(d.as_enum().is_some() == matches!(ty, Ty::Enum(_)), "kind", || format!("{what}: is it an enum? {}", d.as_enum().is_some()));
    match ty {
        Ty::Bits(b) => {
            let want: Vec<&str> = spec().bits[b].fields.iter().filter(|o| !o.exclude).map(|o| o.name.as_str()).collect();
            cx.check(d.fields() == want, "fields", || format!("{what}: {:?} instead of {want:?}", d.fields()));
            for o in &spec().bits[b].fields {
                let f = d.get_field(&o.name);
                if o.exclude { cx.check(f.is_none() && d.get_metadata_for_field(&o.name).is_none(), "excluded", || format!("{what} has {}", o.name)); continue }
                let Some(f) = f else { cx.fail("field", format!("{what} has no {}", o.name)); continue };
                cx.check(f.data_type() == DynamicTagDataType::SimplePrimitive(SimplePrimitiveType::Bool) && f.fields().is_empty(), "kind", || format!("{what}.{}", o.name));
                match d.get_metadata_for_field(&o.name) {
                    Some(m) => { cx.check(m.comment == o.comment.as_deref() && m.read_only == o.read_only && m.cache_only == o.cache_only && m.non_cached == o.non_cached && m.allowed_references.is_none(), "metadata", || format!("{what}.{}: {:?} read only {} cache only {} not cached {}", o.name, m.comment, m.read_only, m.cache_only, m.non_cached)); }
                    None => cx.fail("metadata", format!("{what}.{}: nothing", o.name)),
                }
            }
        }
        Ty::Struct(_) => (),
        _ => { cx.check(d.fields().is_empty() && d.get_field("").is_none() && d.get_field("lower").is_none(), "fields", || format!("{what}: {:?}", d.fields())); }
    }
}

fn block(strukt: &'static str, d: &dyn DynamicTagData, what: &str, cx: &mut Cx) {
    let def = &spec().structs[strukt];
    let want: Vec<&str> = def.fields.iter().filter(|f| !f.exclude).map(|f| f.name.as_str()).collect();
    cx.check(d.fields() == want, "fields", || format!("{what}: {:?} instead of {want:?}", d.fields()));
    cx.check(d.data_type() == DynamicTagDataType::Block && d.as_array().is_none() && d.as_enum().is_none(), "kind", || format!("{what} is {:?}", d.data_type()));
    let mut places = BTreeMap::new();
    for f in &def.fields {
        let name = format!("{what}.{}", f.name);
        cx.step();
        let x = d.get_field(&f.name);
        if f.exclude { cx.check(x.is_none() && d.get_metadata_for_field(&f.name).is_none(), "excluded", || format!("{name} is there")); continue }
        let Some(x) = x else { cx.fail("field", format!("no {name}")); continue };
        if let Some(o) = places.insert(place(x), &f.name) { cx.check(f.offset == 0 && matches!(f.ty, Ty::Struct(_)), "same place", || format!("{name} is {o}")); }
        match f.many {
            Many::One => value(x, &f.ty, &name, cx),
            m => {
                let n = match m { Many::Array(n) => n, _ => 2 };
                let want = match m { Many::Array(_) => DynamicTagDataType::Array, _ => DynamicTagDataType::Block };
                cx.check(x.data_type() == want, "kind", || format!("{name} is {:?}", x.data_type()));
                match x.as_array() {
                    Some(a) => {
                        cx.check(a.len() == n, "length", || format!("{name}: {} instead of {n}", a.len()));
                        for i in 0..n { match a.get_at_index(i) { Some(x) => value(x, &f.ty, &format!("{name}[{i}]"), cx), None => cx.fail("element", format!("no {name}[{i}]")) } }
                        for i in [n, n + 1, usize::MAX] { cx.check(a.get_at_index(i).is_none(), "element", || format!("{name} has [{i}]")); }
                        if m == Many::Bounds {
                            cx.check(x.fields() == ["lower", "upper"] && x.get_field("lower").map(place) == a.get_at_index(0).map(place) && x.get_field("upper").map(place) == a.get_at_index(1).map(place), "bounds", || name.clone());
                        }
                        let all: BTreeSet<usize> = (0..n).filter_map(|i| a.get_at_index(i).map(place)).collect();
                        cx.check(all.len() == n, "same place", || format!("{name}: {} places of {n}", all.len()));
                    }
                    None => cx.fail("kind", format!("{name} is no array")),
                }
            }
        }
        match d.get_metadata_for_field(&f.name) {
            Some(m) => {
                cx.check(m.comment == f.comment.as_deref(), "comment", || format!("{name}: {:?} instead of {:?}", m.comment, f.comment));
                cx.check((m.read_only, m.cache_only, m.non_cached) == (f.read_only, f.cache_only, f.non_cached), "metadata", || format!("{name}: read only {} cache only {} not cached {}", m.read_only, m.cache_only, m.non_cached));
                let want: Option<BTreeSet<&str>> = match &f.ty { Ty::Ref { groups, .. } => Some(if groups[0] == "*" { spec().groups.keys().map(|g| g.as_str()).collect() } else { groups.iter().map(|g| g.as_str()).collect() }), _ => None };
                let got: Option<BTreeSet<&str>> = m.allowed_references.map(|l| l.iter().map(|g| g.as_str()).collect());
                cx.check(got == want, "references", || format!("{name}: {got:?} instead of {want:?}"));
            }
            None => cx.fail("metadata", format!("{name}: nothing")),
        }
        let back = guard(|| d.name_of_field_from_ptr(x));
        cx.check(back.as_deref() == Ok(f.name.as_str()), "name of a field", || format!("{name}: {back:?}"));
    }
}

/// A value which is not the one that is there.
fn leaf_mark(n: usize) -> Vec<u8> { vec![n as u8; n % 5 + 1] }

fn main() {
    let mut ck = Check::new("P32");
    let gs = groups();
    // ---- every block of every group
    ck.items("blocks", &gs, |g| g.to_string(), |g, cx| {
        let strukt: &'static str = &spec().groups[*g].strukt;
        let mut tag: Tag = T::new(g).tag();
        fill(tag.as_mut_dynamic(), 1);
        let mut all = vec![];
        blocks(strukt, tag.as_dynamic(), &mut vec![], &mut all);
        for (s, path) in &all {
            let what = format!("{g} {}", path_str(path));
            cx.state(&(g, path));
            if let Err(p) = guard(|| block(s, at(tag.as_dynamic(), path), &what, cx)) { cx.fail("panic", format!("{what}: {p}")) }
            // by reading and by changing: the same places
            let def = &spec().structs[*s];
            for f in def.fields.iter().filter(|f| !f.exclude) {
                cx.step();
                let r = get(tag.as_dynamic(), path).and_then(|d| d.get_field(&f.name)).map(place);
                let kinds = get_mut(tag.as_mut_dynamic(), path).and_then(|d| d.get_field_mut(&f.name)).map(|d| (place(d), d.as_reflexive_mut().is_some(), d.as_array_mut().is_some(), d.as_enum_mut().is_some()));
                let one = f.many == Many::One;
                let want = r.map(|r| (r, one && matches!(f.ty, Ty::Refl(_)), !one || matches!(f.ty, Ty::Refl(_)), one && matches!(f.ty, Ty::Enum(_))));
                cx.check(r.is_some() && kinds == want, "mutable", || format!("{what}.{}: {kinds:x?} instead of {want:x?}", f.name));
                if let Ty::Bits(b) = &f.ty { if one { for o in spec().bits[b].fields.iter().filter(|o| !o.exclude) {
                    let r = at(tag.as_dynamic(), path).get_field(&f.name).and_then(|d| d.get_field(&o.name)).map(place);
                    let m = get_mut(tag.as_mut_dynamic(), path).and_then(|d| d.get_field_mut(&f.name)).and_then(|d| d.get_field_mut(&o.name)).map(|d| place(d));
                    cx.check(r.is_some() && r == m, "mutable", || format!("{what}.{}.{}", f.name, o.name));
                } } }
                if !one {
                    let n = if let Many::Array(n) = f.many { n } else { 2 };
                    for i in 0..n + 2 {
                        let r = at(tag.as_dynamic(), path).get_field(&f.name).and_then(|d| d.as_array()).and_then(|a| a.get_at_index(i)).map(place);
                        let m = get_mut(tag.as_mut_dynamic(), path).and_then(|d| d.get_field_mut(&f.name)).and_then(|d| d.as_array_mut()).and_then(|a| a.get_at_index_mut(i)).map(|d| place(d));
                        cx.check(r == m && r.is_some() == (i < n), "mutable", || format!("{what}.{}[{i}]: {r:x?} {m:x?}", f.name));
                    }
                }
            }
        }
        cx.validated_n(all.len() as u64);
    });
    // ---- names which a block does not have: those of all the others, and misspelt ones
    let names: BTreeSet<&'static str> = spec().structs.values().flat_map(|s| s.fields.iter().map(|f| f.sname)).chain(spec().bits.values().flat_map(|b| b.fields.iter().map(|f| f.name.as_str()))).chain(["", " ", ".", "[0]", "metadata", "items", "lower", "upper", "_type", "_loop"]).collect();
    let names: Vec<&str> = names.into_iter().collect();
    let owned: BTreeMap<&'static str, (&'static str, Path)> = gs.iter().flat_map(|g| {
        let mut tag: Tag = T::new(g).tag(); fill(tag.as_mut_dynamic(), 1);
        let mut all = vec![]; blocks(&spec().groups[*g].strukt, tag.as_dynamic(), &mut vec![], &mut all);
        all.into_iter().map(|(s, p)| (s, (*g, p))).collect::<Vec<_>>()
    }).collect();
    let owned: Vec<(&str, &str, Path)> = owned.into_iter().map(|(s, (g, p))| (s, g, p)).collect();
    ck.items("names", &owned, |o| o.0.to_string(), |(s, g, path), cx| {
        let mut tag: Tag = T::new(g).tag(); fill(tag.as_mut_dynamic(), 1);
        let mut def: BTreeSet<String> = BTreeSet::new();
        for f in &spec().structs[*s].fields { if !f.exclude { def.insert(f.name.clone()); } }
        let mut odd: Vec<String> = names.iter().map(|n| n.to_string()).collect();
        for n in &def { odd.extend([n.to_uppercase(), format!("{n} "), format!(" {n}"), format!("{n}."), format!("{n}[0]"), n.replace('_', " "), format!("_{n}"), n[..n.len() - 1].to_string(), format!("{n}\0")]) }
        for n in &odd {
            cx.state(&(s, n)); cx.step();
            let d = at(tag.as_dynamic(), path);
            let r = (d.get_field(n).is_some(), d.get_metadata_for_field(n).is_some());
            let m = get_mut(tag.as_mut_dynamic(), path).unwrap().get_field_mut(n).is_some();
            let want = def.contains(n);
            cx.check(r == (want, want) && m == want, "names", || format!("{s} `{n}`: there {}, {m}, described {}", r.0, r.1));
        }
        cx.validated_n(odd.len() as u64);
    });
    // ---- every list: all histories of insertions
    let depth = ck.pick(3usize, 4);
    let mut lists: Vec<(&'static str, Path)> = vec![];
    for g in &gs {
        let strukt = &spec().groups[*g].strukt;
        let v = generate(strukt, &mut vec![], &mut Distinct::new(1));
        lists.extend(containers(strukt, &v).into_iter().filter(|(_, t)| matches!(t, Ty::Refl(_))).map(|(p, _)| (*g, p)));
    }
    // every structure once as the element of a list in the quick check, every list in the thorough one
    let mut seen = BTreeSet::new();
    let quick = ck.quick();
    lists.retain(|(g, p)| !quick || seen.insert(elem(g, p)));
    ck.items("lists", &lists, |(g, p)| format!("{g} {}", path_str(p)), |(g, path), cx| {
        let strukt = &spec().groups[*g].strukt;
        // a tag with two elements everywhere on the way, those of this list being distinct
        let mut one = Distinct::new(0);
        for k in 0..path.len() { if let Step::F(_) = path[k] { one.overrides.insert(path_str(&path[..=k]), Ov::Count(1)); } }
        one.overrides.insert(path_str(path), Ov::Count(2));
        let v = canonical(strukt, &generate(strukt, &mut vec![], &mut one));
        let read = |v: &Val| ringhopper::definitions::read_any_tag_from_file_buffer(&tag_file(g, &serialize(strukt, v, None)), ringhopper::primitives::tag::ParseStrictness::Strict).unwrap();
        let start: Tag = read(&v);
        let es = elem(g, path);
        let mut default = canonical(es, &fresh(es));
        // a reference to anything is empty with the group it lists first, whichever that is
        if let Val::Struct(l) = &mut default { for (f, v) in spec().structs[es].fields.iter().zip(l) {
            if f.ty == Ty::Data("UTF16String".into()) { *v = Val::Data(vec![0, 0]) } // nothing but its end
            if let Val::Ref(k, None) = v { if k.is_empty() {
            let m = get(start.as_dynamic(), path).and_then(|d| d.as_array()).and_then(|a| a.get_at_index(0)).and_then(|d| d.get_metadata_for_field(&f.name)).and_then(|m| m.allowed_references);
                *k = m.and_then(|l| l.first()).map(|g| g.as_str().to_string()).unwrap_or_default();
            } }
        } }
        let (a, b) = { let l = val_list(&v, strukt, path); (l[0].clone(), l[1].clone()) };
        // 0: default, 1: copy of the first element as it was, 2: the second one moved
        fn go(cx: &mut Cx, tag: &Tag, model: &Val, strukt: &str, g: &str, path: &[Step], srcs: &(&dyn DynamicTagData, &dyn DynamicTagData), vals: &(Val, Val, Val), start: &Tag, left: usize, told: &mut String) {
            let n = val_list(model, strukt, path).len();
            for kind in 0..3 { for i in 0..=n {
                let mut t = tag.clone_inner();
                let mut m = model.clone();
                let mut donor = start.clone_inner();
                let r = guard(|| {
                    let l = get_mut(t.as_mut_dynamic(), path).unwrap().as_reflexive_mut().unwrap();
                    match kind { 0 => l.insert_default(i), 1 => l.insert_copy(i, srcs.0), _ => { let mut p = path.to_vec(); p.push(Step::I(1)); l.insert_moved(i, get_mut(donor.as_mut_dynamic(), &p).unwrap()) } }
                    l.len()
                });
                val_list_mut(&mut m, strukt, path).insert(i, match kind { 0 => vals.2.clone(), 1 => vals.0.clone(), _ => vals.1.clone() });
                let len = told.len();
                *told += &format!("{}{i} ", ["default ", "copy ", "move "][kind]);
                cx.step(); cx.state(&(g, path, &*told));
                match r {
                    Ok(k) => { cx.check(k == n + 1, "length", || format!("{g} {}: {told}: {k}", path_str(path))); }
                    Err(p) => { cx.fail("panic", format!("{g} {}: {told}: {p}", path_str(path))); told.truncate(len); continue }
                }
                let want = tag_file(g, &serialize(strukt, &m, None));
                let got = guard(|| t.to_tag_file());
                match got { Ok(Ok(f)) => { cx.check(f == want, "content", || format!("{g} {}: {told}: {}", path_str(path), diff(&f, &want))); } r => cx.fail("content", format!("{g} {}: {told}: {r:?}", path_str(path))) }
                // what was copied from is as it was
                cx.validated();
                if left > 1 { go(cx, &t, &m, strukt, g, path, srcs, vals, start, left - 1, told) }
                told.truncate(len);
            } }
        }
        let mut first = path.clone(); first.push(Step::I(0));
        let mut second = path.clone(); second.push(Step::I(1));
        let mut told = String::new();
        go(cx, &start, &v, strukt, g, path, &(at(start.as_dynamic(), &first), at(start.as_dynamic(), &second)), &(a, b, default), &start, depth, &mut told);
        let f = guard(|| start.to_tag_file());
        cx.check(matches!(&f, Ok(Ok(f)) if *f == tag_file(g, &serialize(strukt, &v, None))), "source", || format!("{g} {}: what was copied is not as it was", path_str(path)));
        // behind the end: refused, and nothing happens
        for (kind, i) in [(0, 3usize), (1, 3), (2, 3), (0, usize::MAX), (1, usize::MAX), (2, usize::MAX)] {
            let mut t = start.clone_inner();
            let mut donor = start.clone_inner();
            cx.step();
            let r = guard(|| { let l = get_mut(t.as_mut_dynamic(), path).unwrap().as_reflexive_mut().unwrap(); match kind { 0 => l.insert_default(i), 1 => l.insert_copy(i, at(start.as_dynamic(), &first)), _ => l.insert_moved(i, get_mut(donor.as_mut_dynamic(), &second).unwrap()) } });
            cx.check(r.is_err() && matches!(guard(|| t.to_tag_file()), Ok(Ok(x)) if x == tag_file(g, &serialize(strukt, &v, None))), "behind the end", || format!("{g} {} {kind} at {i}: {r:?}", path_str(path)));
        }
        // something else than an element: nothing is put in
        for kind in 1..3 {
            let mut t = start.clone_inner();
            let mut no = 5i8;
            let _ = guard(|| { let l = get_mut(t.as_mut_dynamic(), path).unwrap().as_reflexive_mut().unwrap(); if kind == 1 { l.insert_copy(0, &no) } else { l.insert_moved(0, &mut no) } });
            cx.check(no == 5 && matches!(guard(|| t.to_tag_file()), Ok(Ok(x)) if x == tag_file(g, &serialize(strukt, &v, None))), "wrong type", || format!("{g} {}", path_str(path)));
        }
    });
    // ---- every enum: all names, those of the others, and misspelt ones
    let mut enums: BTreeMap<&'static str, (&'static str, Path)> = BTreeMap::new();
    for g in &gs {
        let strukt: &'static str = &spec().groups[*g].strukt;
        let mut tag: Tag = T::new(g).tag(); fill(tag.as_mut_dynamic(), 1);
        let mut all = vec![]; blocks(strukt, tag.as_dynamic(), &mut vec![], &mut all);
        for (s, p) in all { for f in spec().structs[s].fields.iter().filter(|f| !f.exclude) { if let Ty::Enum(e) = &f.ty {
            let mut p = p.clone(); p.push(Step::F(f.sname)); if f.many != Many::One { p.push(Step::I(0)) }
            enums.entry(e).or_insert((g, p));
        } } }
    }
    let enums: Vec<(&str, &str, Path)> = enums.into_iter().map(|(e, (g, p))| (e, g, p)).collect();
    let every: BTreeSet<String> = spec().enums.values().flat_map(|e| e.iter().map(|o| o.name.clone())).chain(["", " ", "0", "1", "-1", "none", "None", "NONE"].map(String::from)).collect();
    ck.items("enums", &enums, |e| e.0.to_string(), |(e, g, path), cx| {
        let def = &spec().enums[*e];
        let mut tag: Tag = T::new(g).tag(); fill(tag.as_mut_dynamic(), 1);
        let want: Vec<&str> = def.iter().filter(|o| !o.exclude).map(|o| o.name.as_str()).collect();
        let got = at(tag.as_dynamic(), path).as_enum().map(|x| x.get_possible_enum_string_values()).unwrap_or(&[]);
        cx.check(got == want, "names", || format!("{e}: {got:?} instead of {want:?}"));
        let mut tries: BTreeSet<String> = every.clone();
        for n in &want { tries.extend([n.to_uppercase(), format!("{n} "), format!(" {n}"), n.replace('_', " "), n.replace('_', "-"), format!("_{n}"), format!("{n}\0")]) }
        for before in &want { for n in &tries {
            cx.step(); cx.state(&(e, before, n));
            let x = get_mut(tag.as_mut_dynamic(), path).and_then(|d| d.as_enum_mut()).unwrap();
            if x.set_enum_string_value(before).is_err() { cx.fail("set", format!("{e}: {before} is refused")); break }
            let r = x.set_enum_string_value(n).is_ok();
            let now = x.get_enum_string_value();
            let ok = want.contains(&n.as_str());
            cx.check(r == ok && now == if ok { n.as_str() } else { before }, "set", || format!("{e}: {before}, then {n}: {} and it is {now}", if r { "taken" } else { "refused" }));
        } }
        cx.validated_n((want.len() * tries.len()) as u64);
    });
    // ---- data and references: changed through the interface, and nothing else changes in the file
    let mut parts: Vec<(&'static str, Path, Ty)> = vec![];
    for g in &gs {
        let strukt = &spec().groups[*g].strukt;
        let v = generate(strukt, &mut vec![], &mut Distinct::new(1));
        parts.extend(containers(strukt, &v).into_iter().filter(|(_, t)| !matches!(t, Ty::Refl(_))).map(|(p, t)| (*g, p, t)));
    }
    ck.items("data and references", &parts, |(g, p, _)| format!("{g} {}", path_str(p)), |(g, path, ty), cx| {
        let strukt = &spec().groups[*g].strukt;
        let mut v = canonical(strukt, &generate(strukt, &mut vec![], &mut Distinct::new(1)));
        let mut tag: Tag = ringhopper::definitions::read_any_tag_from_file_buffer(&tag_file(g, &serialize(strukt, &v, None)), ringhopper::primitives::tag::ParseStrictness::Relaxed).unwrap();
        for k in 0..3usize {
            cx.step(); cx.state(&(g, path, k));
            let d = get_mut(tag.as_mut_dynamic(), path).unwrap();
            let what = format!("{g} {} {k}", path_str(path));
            let new = match ty {
                Ty::Data(t) => {
                    let bytes: Vec<u8> = match k { 0 => leaf_mark(3), 1 => vec![], _ => vec![7; 300] };
                    let ok = match t.as_str() {
                        "Data" => d.as_any_mut().downcast_mut::<Data>().map(|x| x.bytes = bytes.clone()).is_some(),
                        "FileData" => d.as_any_mut().downcast_mut::<FileData>().map(|x| x.bytes = bytes.clone()).is_some(),
                        "BSPVertexData" => d.as_any_mut().downcast_mut::<BSPVertexData>().map(|x| x.bytes = bytes.clone()).is_some(),
                        _ => { cx.validated(); continue }
                    };
                    if !cx.check(ok, "kind", || what.clone()) { continue }
                    Val::Data(bytes)
                }
                Ty::Ref { groups, .. } => {
                    let g2 = if groups[0] == "*" { gs[k * 7 % gs.len()] } else { groups[k % groups.len()].as_str() };
                    let Some(r) = d.as_any_mut().downcast_mut::<TagReference>() else { cx.fail("kind", what); continue };
                    let tg = TagGroup::from_str(g2).unwrap();
                    let p = match k { 0 => Some("a\\b c"), 1 => None, _ => Some("x") };
                    *r = match p { Some(p) => TagReference::Set(TagPath::new(p, tg).unwrap()), None => TagReference::Null(tg) };
                    Val::Ref(g2.into(), p.map(|p| p.into()))
                }
                _ => unreachable!(),
            };
            *val_at(&mut v, strukt, path) = new;
            let want = tag_file(g, &serialize(strukt, &v, None));
            match guard(|| tag.to_tag_file()) { Ok(Ok(f)) => { cx.check(f == want, "content", || format!("{what}: {}", diff(&f, &want))); } r => cx.fail("content", format!("{what}: {r:?}")) }
            cx.validated();
        }
    });
    // ---- whole tags: which type they are, and copies
    ck.items("tags", &gs, |g| g.to_string(), |g, cx| {
        let strukt = &spec().groups[*g].strukt;
        let v = canonical(strukt, &generate(strukt, &mut vec![], &mut Distinct::new(1)));
        let file = tag_file(g, &serialize(strukt, &v, None));
        let mut tag: Tag = ringhopper::definitions::read_any_tag_from_file_buffer(&file, ringhopper::primitives::tag::ParseStrictness::Strict).unwrap();
        cx.check(tag.group().as_str() == *g, "group", || format!("{g}: {}", tag.group().as_str()));
        // a copy is the same, and no longer the same tag
        let copy = tag.clone_inner();
        cx.check(copy.group() == tag.group() && matches!(copy.to_tag_file(), Ok(f) if f == file), "copy", || g.to_string());
        fill(tag.as_mut_dynamic(), 2);
        cx.check(matches!(copy.to_tag_file(), Ok(f) if f == file), "copy", || format!("{g}: the copy changes"));
        cx.steps(3); cx.state(&g); cx.validated();
        use ringhopper::definitions::*;
        macro_rules! only { ($($t:ident)*) => { [$((stringify!($t), copy.get_ref::<$t>().is_some(), { let mut c = copy.clone_inner(); c.get_mut::<$t>().is_some() })),*] } }
        for (name, r, m) in only!(Weapon Scenario Bitmap Sound Biped GBXModel Model ScenarioStructureBSP Globals Item Object) {
            let want = name == spec().groups[*g].strukt;
            cx.check(r == want && m == want, "type", || format!("{g} as {name}: {r} {m}"));
        }
    });
    // fields of tags whose type is known: their names
    ck.items("fields of typed tags", &["weapon", "bitmap", "scenario", "sound"], |g| g.to_string(), |g, cx| {
        use ringhopper::definitions::*;
        macro_rules! named { ($t:ty: $($f:ident $n:expr),*) => {{ let t = <$t>::default(); for (got, want) in [$((guard(|| t.name_of_field_from_ptr(&t.$f as &dyn DynamicTagData)), $n)),*] { cx.step(); cx.check(got.as_deref() == Ok(want), "name of a field", || format!("{g}.{want}: {got:?}")); } }} }
        match *g {
            "weapon" => named!(Weapon: item "item", secondary_trigger_mode "secondary_trigger_mode", weapon_flags "weapon_flags", label "label"),
            "bitmap" => named!(Bitmap: _type "type", usage "usage", flags "flags", processed_pixel_data "processed_pixel_data", bitmap_data "bitmap_data"),
            "scenario" => named!(Scenario: _type "type", skies "skies", flags "flags"),
            _ => named!(Sound: flags "flags", sound_class "sound_class", distance_bounds "distance_bounds", pitch_ranges "pitch_ranges"),
        }
        cx.state(g); cx.validated();
    });
    ck.finish();
}

/// The structure of the elements of a list.
fn elem(g: &str, path: &[Step]) -> &'static str {
    let mut st: &'static str = &spec().groups[g].strukt;
    for s in path { if let Step::F(n) = s { match &spec().structs[st].fields.iter().find(|f| f.sname == *n).unwrap().ty { Ty::Struct(s) | Ty::Refl(s) => st = s, _ => () } } }
    st
}
fn val_at<'a>(v: &'a mut Val, strukt: &str, path: &[Step]) -> &'a mut Val {
    let mut st = strukt.to_string();
    let mut v = v;
    for s in path {
        match s {
            Step::F(n) => { let i = spec().structs[&st].fields.iter().position(|f| f.sname == *n).unwrap(); if let Ty::Struct(s) | Ty::Refl(s) = &spec().structs[&st].fields[i].ty { st = s.clone() } v = match v { Val::Struct(l) => &mut l[i], _ => panic!() } }
            Step::I(i) => v = match v { Val::Many(l) | Val::Refl(l) => &mut l[*i], _ => panic!() },
        }
    }
    v
}
fn val_list_mut<'a>(v: &'a mut Val, strukt: &str, path: &[Step]) -> &'a mut Vec<Val> { match val_at(v, strukt, path) { Val::Refl(l) => l, _ => panic!() } }
fn val_list(v: &Val, strukt: &str, path: &[Step]) -> Vec<Val> { let mut v = v.clone(); val_list_mut(&mut v, strukt, path).clone() }
fn diff(a: &[u8], b: &[u8]) -> String { match a.iter().zip(b).position(|(a, b)| a != b) { Some(i) if a.len() == b.len() => format!("different at {i:#x}"), i => format!("{} bytes instead of {}, different from {i:x?}", a.len(), b.len()) } }
