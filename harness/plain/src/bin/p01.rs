//! P01: tag files round trip, byte for byte, for every group, against an independent serializer.
use mc::refser::*;
use mc::*;
use ringhopper::definitions::read_any_tag_from_file_buffer;
use ringhopper::primitives::dynamic::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::{ParseStrictness, PrimaryTagStructDyn};

fn read(file: &[u8], cx: &mut Cx) -> Option<Box<dyn PrimaryTagStructDyn>> {
    cx.step();
    match read_any_tag_from_file_buffer(file, ParseStrictness::Strict) {
        Ok(t) => Some(t),
        Err(e) => { cx.fail("read", format!("a valid tag file is rejected: {e}")); None }
    }
}

fn diff(got: &[u8], want: &[u8], leaves: &[LeafAt]) -> String {
    if got.len() != want.len() { return format!("length {:#x} instead of {:#x}", got.len(), want.len()) }
    let i = (0..got.len()).find(|i| got[*i] != want[*i]).unwrap_or(0);
    let at = i as isize - 0x40;
    let near = leaves.iter().find(|l| (l.offset as isize) <= at && at < (l.offset + l.ty.size()) as isize).map(|l| path_str(&l.path)).unwrap_or_default();
    format!("byte {i:#x} ({near}) is {:02x} instead of {:02x}", got[i], want[i])
}

/// Read `image`, require every value to be what the reference says and the written file to be `want`.
fn trip(group: &str, tree: &Val, dirty: Option<&Val>, cx: &mut Cx) {
    let st = &spec().groups[group].strukt;
    let mut leaves = vec![];
    let canon = canonical(st, tree);
    let want = tag_file(group, &serialize(st, &canon, Some(&mut leaves)));
    let image = match dirty { Some(d) => tag_file(group, &serialize(st, d, None)), None => want.clone() };
    cx.state(&image);
    let Some(tag) = read(&image, cx) else { return };
    cx.check(tag.group().as_str() == group, "group", || format!("read as {}", tag.group()));
    for l in &leaves {
        if l.dead { continue }
        let bytes = { let mut b = want[0x40 + l.offset..0x40 + l.offset + l.ty.size()].to_vec(); if l.le { for w in b.chunks_mut(l.ty.word()) { w.reverse() } } b };
        let got = get(tag.as_dynamic(), &l.path).and_then(|d| leaf_bytes(d, &l.ty));
        cx.check(got.as_ref() == Some(&bytes), "value", || format!("{} reads as {:?} instead of {:02x?}", path_str(&l.path), got, bytes));
    }
    containers_match(st, &canon, tag.as_dynamic(), cx);
    match tag.to_tag_file() {
        Ok(b) => { cx.step(); cx.check(b == want, "bytes", || diff(&b, &want, &leaves)); }
        Err(e) => cx.fail("write", e.to_string()),
    }
    cx.validated();
}

fn containers_match(st: &str, tree: &Val, tag: &dyn DynamicTagData, cx: &mut Cx) {
    for (path, ty) in containers(st, tree) {
        let Some(d) = get(tag, &path) else { cx.fail("missing", path_str(&path)); continue };
        let Some(want) = lookup(st, tree, &path) else { panic!() };
        match (&ty, want) {
            (Ty::Refl(_), Val::Refl(l)) => { let n = d.as_array().map(|a| a.len()); cx.check(n == Some(l.len()), "count", || format!("{} has {n:?} elements instead of {}", path_str(&path), l.len())); }
            (Ty::Data(k), Val::Data(b)) => {
                let got = match k.as_str() { "Data" => d.as_any().downcast_ref::<Data>().map(|d| d.bytes.clone()), "FileData" => d.as_any().downcast_ref::<FileData>().map(|d| d.bytes.clone()), "BSPVertexData" => d.as_any().downcast_ref::<BSPVertexData>().map(|d| d.bytes.clone()), _ => Some(b.clone()) };
                cx.check(got.as_ref() == Some(b), "data", || format!("{} is {got:02x?} instead of {b:02x?}", path_str(&path)));
            }
            (Ty::Ref { .. }, Val::Ref(g, p)) => {
                let got = d.as_any().downcast_ref::<TagReference>().map(|r| (r.group().as_str().to_string(), r.path().map(|p| p.path().to_string())));
                cx.check(got.as_ref() == Some(&(g.clone(), p.clone())), "reference", || format!("{} is {got:?} instead of {g} {p:?}", path_str(&path)));
            }
            x => panic!("{x:?}"),
        }
    }
}

fn lookup<'a>(st: &str, v: &'a Val, path: &[Step]) -> Option<&'a Val> {
    let (Val::Struct(fs), Step::F(name)) = (v, path.first()?) else { return None };
    let (f, v) = spec().structs[st].fields.iter().zip(fs).find(|(f, _)| &f.name == name)?;
    let mut rest = &path[1..];
    let mut v = v;
    while let Some(Step::I(i)) = rest.first() {
        v = match v { Val::Many(l) | Val::Refl(l) => l.get(*i)?, _ => return None };
        rest = &rest[1..];
    }
    if rest.is_empty() { return Some(v) }
    match &f.ty { Ty::Struct(s) | Ty::Refl(s) => lookup(s, v, rest), _ => None }
}

fn main() {
    let mut ck = Check::new("P01");
    ck.assume("byte layout of the format = spec/layout.json, flattened independently from the JSON definitions of the pinned tree");
    ck.assume("signalling NaN payloads, out-of-range enum values and bits without a name are outside the canonical domain");
    let groups: Vec<&str> = spec().groups.keys().map(|s| s.as_str()).collect();
    let st = |g: &str| spec().groups[g].strukt.clone();
    let tree = |g: &str, c: &mut Distinct| generate(&st(g), &mut vec![], c);

    // every group, base trees with 0..=3 elements per reflexive (2 at depth keeps it finite), clean
    let counts = ck.pick(vec![0, 1, 2], vec![0, 1, 2, 3]);
    ck.family("base", groups.len() * counts.len(), |i| format!("{} n={}", groups[i % groups.len()], counts[i / groups.len()]), |i, cx| {
        let g = groups[i % groups.len()];
        let t = tree(g, &mut Distinct::new(counts[i / groups.len()]));
        trip(g, &t, None, cx);
    });

    // content in fields tag files do not carry is dropped and nothing else moves
    ck.family("dead-fields", groups.len(), |i| groups[i].to_string(), |i, cx| {
        let g = groups[i];
        let mut c = Distinct::new(1);
        c.with_dead = true;
        let dirty = tree(g, &mut c);
        trip(g, &dirty.clone(), Some(&dirty), cx);
    });

    // every scalar through every value of its domain (rotated, so that neighbours differ)
    let rounds: Vec<(usize, usize)> = groups.iter().enumerate().flat_map(|(gi, g)| {
        let mut leaves = vec![];
        serialize(&st(g), &tree(g, &mut Distinct::new(1)), Some(&mut leaves));
        let n = leaves.iter().map(|l| domain(&l.ty).len()).max().unwrap_or(1);
        (0..n).map(move |r| (gi, r))
    }).collect();
    ck.items("values", &rounds, |(g, r)| format!("{} round={r}", groups[*g]), |(gi, r), cx| {
        let g = groups[*gi];
        let mut c = Distinct::new(1);
        c.rot = Some(*r);
        let t = tree(g, &mut c);
        trip(g, &t, None, cx);
    });

    // every container deviating alone
    let mut devs: Vec<(usize, String, Ov)> = vec![];
    for (gi, g) in groups.iter().enumerate() {
        for (p, ty) in containers(&st(g), &tree(g, &mut Distinct::new(1))) {
            let p = path_str(&p);
            match ty {
                Ty::Refl(_) => for n in ck.pick(vec![0, 2], vec![0, 2, 3, 17]) { devs.push((gi, p.clone(), Ov::Count(n))) },
                Ty::Data(_) => for n in [0usize, 1, 255, 256, 70000] { devs.push((gi, p.clone(), Ov::Data((0..n).map(|i| (i * 7) as u8).collect()))) },
                Ty::Ref { groups: allowed, .. } => {
                    let gs: Vec<String> = if allowed[0] == "*" { groups.iter().map(|s| s.to_string()).collect() } else { allowed };
                    for (k, gname) in gs.iter().enumerate() {
                        devs.push((gi, p.clone(), Ov::Ref(gname.clone(), None)));
                        if k < 2 || !ck.quick() { devs.push((gi, p.clone(), Ov::Ref(gname.clone(), Some("levels\\a10\\a b.c".into())))); }
                    }
                    devs.push((gi, p.clone(), Ov::Ref(gs[0].clone(), Some("x".repeat(300)))));
                    devs.push((gi, p.clone(), Ov::Ref(String::new(), None)));
                }
                _ => (),
            }
        }
    }
    ck.items("containers", &devs, |(g, p, o)| format!("{} {p} {}", groups[*g], match o { Ov::Count(n) => format!("count={n}"), Ov::Data(d) => format!("data={}", d.len()), Ov::Ref(g, p) => format!("ref={g}:{}", p.as_ref().map(|p| p.len()).unwrap_or(0)) }), |(gi, p, o), cx| {
        let g = groups[*gi];
        let mut c = Distinct::new(1);
        c.overrides.insert(p.clone(), o.clone());
        let t = tree(g, &mut c);
        if let Ov::Ref(gr, None) = o { if gr.is_empty() {
            // an unset group survives as unset
            let file = tag_file(g, &serialize(&st(g), &t, None));
            let Some(tag) = read(&file, cx) else { return };
            cx.check(tag.to_tag_file().ok().as_ref() == Some(&file), "bytes", || "unset reference changed".into());
            return;
        } }
        trip(g, &t, None, cx);
    });

    // editing one scalar in memory changes exactly its bytes
    let mut sets: Vec<(usize, usize)> = vec![];
    let mut unwritten: Vec<(usize, LeafAt)> = vec![];
    let bases: Vec<(Val, Vec<u8>, Vec<LeafAt>)> = groups.iter().enumerate().map(|(gi, g)| {
        let t = canonical(&st(g), &tree(g, &mut Distinct::new(1)));
        let mut leaves = vec![];
        let body = serialize(&st(g), &t, Some(&mut leaves));
        unwritten.extend(leaves.iter().filter(|l| l.dead).map(|l| (gi, l.clone())));
        leaves.retain(|l| !l.dead);
        (t, tag_file(g, &body), leaves)
    }).collect();
    for (gi, b) in bases.iter().enumerate() { for li in 0..b.2.len() { sets.push((gi, li)) } }
    ck.items("edit", &sets, |(g, l)| format!("{} {}", groups[*g], path_str(&bases[*g].2[*l].path)), |(gi, li), cx| {
        let (_, file, leaves) = &bases[*gi];
        let l = &leaves[*li];
        let dom = domain(&l.ty);
        let mut vals: Vec<Vec<u8>> = dom.clone();
        // flags of cache files can be set in memory, but are not written
        let mask = if let Ty::Bits(b) = &l.ty { vals = dom; vals.extend(memory_bits(b)); Some(bits_mask(b, true)) } else { None };
        let Some(mut tag) = read(file, cx) else { return };
        for v in &vals {
            let done = get_mut(tag.as_mut_dynamic(), &l.path).and_then(|d| leaf_set(d, &l.ty, v));
            if !cx.check(done.is_some(), "set", || format!("cannot set {}", path_str(&l.path))) { return }
            let mut body = file[0x40..].to_vec();
            let mut w = v.clone();
            if let Some(m) = &mask { for (w, m) in w.iter_mut().zip(m) { *w &= m } }
            if l.le { for w in w.chunks_mut(l.ty.word()) { w.reverse() } }
            body[l.offset..l.offset + w.len()].copy_from_slice(&w);
            let want = tag_file(groups[*gi], &body);
            cx.state(&want);
            cx.step();
            match tag.to_tag_file() { Ok(b) => { cx.check(b == want, "bytes", || diff(&b, &want, leaves)); } Err(e) => cx.fail("write", e.to_string()) }
            match read(&want, cx) { Some(t) => { cx.check(t.to_tag_file().ok() == Some(want.clone()), "again", || "not stable".into()); } None => return }
            cx.validated();
        }
    });
    // what tag files do not carry can hold anything in memory, and leaves no trace in the file
    ck.items("edit-unwritten", &unwritten, |(g, l)| format!("{} {}", groups[*g], path_str(&l.path)), |(gi, l), cx| {
        let (_, file, leaves) = &bases[*gi];
        let Some(mut tag) = read(file, cx) else { return };
        for v in domain(&l.ty) {
            if get_mut(tag.as_mut_dynamic(), &l.path).and_then(|d| leaf_set(d, &l.ty, &v)).is_none() { return }
            cx.step(); cx.state(&v);
            match tag.to_tag_file() { Ok(b) => { cx.check(&b == file, "bytes", || diff(&b, file, leaves)); } Err(e) => cx.fail("write", e.to_string()) }
            cx.validated();
        }
    });
    ck.finish()
}

/// Values of a bitfield which it can have in memory but not in tag files.
fn memory_bits(b: &str) -> Vec<Vec<u8>> {
    let d = &spec().bits[b];
    (0..d.fields.len()).filter(|i| d.fields[*i].cache_only && !d.fields[*i].exclude).flat_map(|i| [1u64 << i, u64::MAX]).map(|m| {
        let named = (0..d.fields.len()).filter(|i| !d.fields[*i].exclude).fold(0u64, |a, i| a | 1 << i);
        (m & named).to_be_bytes()[8 - d.width / 8..].to_vec()
    }).collect()
}
