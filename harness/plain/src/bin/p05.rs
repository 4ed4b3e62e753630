//! P05: codecs of the basic values, in both byte orders, against the format's rules.
use mc::refser::{domain, leaf_bytes, leaf_set, prim_words, Ty, FOURCC};
use mc::*;
use ringhopper::primitives::byteorder::{ByteOrder, BE, LE};
use ringhopper::primitives::dynamic::*;
use ringhopper::primitives::parse::*;
use ringhopper::primitives::primitive::*;

/// Encode, decode, re-encode in one byte order, at several places of a buffer, and with the buffer cut short.
fn codec<T: SimpleTagData + DynamicTagData + PartialEq + Clone, B: ByteOrder>(v: &T, want: &[u8], name: &str, cx: &mut Cx) {
    let n = want.len();
    cx.check(T::simple_size() == n && <T as TagData>::size() == n, "size", || format!("{name}: {} bytes", T::simple_size()));
    for at in [0usize, 1, 4, 7] {
        let mut buf = vec![0xA5u8; at + n + 3];
        cx.step();
        match guard(|| v.write::<B>(&mut buf, at, at + n)) {
            Ok(Ok(())) => (), Ok(Err(e)) => return cx.fail("write", format!("{name}: {e}")), Err(p) => return cx.fail("panic", p),
        }
        let mut model = vec![0xA5u8; at + n + 3]; model[at..at + n].copy_from_slice(want);
        if !cx.check(buf == model, "bytes", || format!("{name} at {at}: {buf:02x?} instead of {model:02x?}")) { return }
        match guard(|| T::read::<B>(&buf, at, at + n)) {
            Ok(Ok(r)) => { let mut again = vec![0xA5u8; at + n + 3]; let w = guard(|| r.write::<B>(&mut again, at, at + n)); cx.check(w.is_ok() && again == model, "again", || format!("{name}: {want:02x?} becomes {:02x?}", &again[at..at + n])); }
            r => cx.fail("read", format!("{name}: {want:02x?}: {:?}", r.map(|r| r.err()))),
        }
        for cut in 0..n { match guard(|| T::read::<B>(&buf[..at + cut], at, at + n).is_err()) { Ok(true) => (), r => cx.fail("short", format!("{name}: {cut} of {n} bytes: {r:?}")) } }
        cx.check(guard(|| T::read::<B>(&buf, usize::MAX - 1, usize::MAX).is_err()) == Ok(true), "far", || format!("{name}: reading at the end of memory"));
    }
    cx.check(v.as_bytes::<B>().map(|b| b.bytes().to_vec()).ok().as_deref() == Some(want), "as_bytes", || name.into());
    cx.check(v.as_bytes::<B>().map(|b| b.to_vec()).ok().as_deref() == Some(want), "as_bytes", || name.into());
    // a table of them
    let table: Vec<u8> = want.iter().copied().cycle().take(n * 3).collect();
    let got: Vec<Vec<u8>> = match T::read_chunks_to_iterator::<B>(&table) { Ok(i) => i.map(|r| r.ok().and_then(|r| r.as_bytes::<B>().ok().map(|b| b.to_vec())).unwrap_or_default()).collect(), Err(_) => vec![] };
    cx.check(got == vec![want.to_vec(); 3], "table", || format!("{name}: {got:02x?}"));
    if n > 1 { cx.check(T::read_chunks_to_iterator::<B>(&table[..n * 3 - 1]).is_err(), "table", || format!("{name}: uneven table accepted")); }
    cx.validated();
}

fn le(t: &str, be: &[u8]) -> Vec<u8> { let w = prim_words(t).0; let mut b = be.to_vec(); for c in b.chunks_mut(w) { c.reverse() } b }

fn prim<T: SimpleTagData + DynamicTagData + PartialEq + Clone + Default>(ck: &mut Check, t: &'static str) {
    let ty = Ty::Prim(t.into());
    let dom = domain(&ty);
    ck.family(&format!("codec-{t}"), dom.len(), |i| format!("{:02x?}", dom[i]), |i, cx| {
        let mut v = T::default();
        if leaf_set(&mut v, &ty, &dom[i]).is_none() { return cx.fail("set", t) }
        cx.check(leaf_bytes(&v, &ty).as_ref() == Some(&dom[i]), "value", || format!("{dom:02x?}"));
        cx.state(&dom[i]);
        codec::<T, BE>(&v, &dom[i], t, cx);
        codec::<T, LE>(&v, &le(t, &dom[i]), t, cx);
        // what is read is the value that was written
        let r = T::read::<LE>(&le(t, &dom[i]), 0, dom[i].len()).unwrap();
        cx.check(leaf_bytes(&r, &ty).as_ref() == Some(&dom[i]), "decoded", || format!("{t} {:02x?}: {:02x?}", dom[i], leaf_bytes(&r, &ty)));
        // in arrays and bounds
        let arr: [T; 3] = std::array::from_fn(|k| { let mut v = T::default(); leaf_set(&mut v, &ty, &dom[(i + k) % dom.len()]); v });
        let all: Vec<u8> = (0..3).flat_map(|k| dom[(i + k) % dom.len()].clone()).collect();
        let mut buf = vec![0; all.len()];
        let end = buf.len();
        cx.check(arr.write::<BE>(&mut buf, 0, end).is_ok() && buf == all, "array", || t.into());
        let back = <[T; 3]>::read::<BE>(&all, 0, all.len()).unwrap();
        for k in 0..6 {
            let g = (&back as &dyn DynamicTagData).as_array().unwrap().get_at_index(k).and_then(|d| leaf_bytes(d, &ty));
            cx.check(g == if k < 3 { Some(dom[(i + k) % dom.len()].clone()) } else { None }, "element", || format!("{t} element {k}: {g:02x?}"));
        }
        for cut in 0..all.len() { cx.check(<[T; 3]>::read::<BE>(&all[..cut], 0, all.len()).is_err(), "array-short", || t.into()); }
        let two: Vec<u8> = all[..dom[0].len() * 2].to_vec();
        let b = Bounds::<T>::read_from_tag_file(&two, 0, two.len(), &mut 0).unwrap();
        cx.check(leaf_bytes(&b.lower, &ty).as_ref() == Some(&dom[i]) && leaf_bytes(&b.upper, &ty).as_ref() == Some(&dom[(i + 1) % dom.len()]), "bounds", || t.into());
        let mut buf = vec![0; two.len()];
        let end = buf.len();
        cx.check(b.write_to_tag_file(&mut buf, 0, end).is_ok() && buf == two, "bounds", || t.into());
        let mut d = b;
        let d: &mut dyn DynamicTagData = &mut d;
        for (k, name) in ["lower", "upper"].iter().enumerate() {
            let want = Some(dom[(i + k) % dom.len()].clone());
            cx.check(d.get_field(name).and_then(|f| leaf_bytes(f, &ty)) == want && d.get_field_mut(name).and_then(|f| leaf_bytes(f, &ty)) == want && d.as_array().unwrap().get_at_index(k).and_then(|f| leaf_bytes(f, &ty)) == want && d.as_array_mut().unwrap().get_at_index_mut(k).and_then(|f| leaf_bytes(f, &ty)) == want, "bounds-field", || format!("{t} {name}"));
        }
        for k in [2usize, 3, usize::MAX] { cx.check(guard(|| d.as_array().unwrap().get_at_index(k).is_none() ) == Ok(true), "bounds-range", || t.into()); cx.check(d.as_array_mut().unwrap().get_at_index_mut(k).is_none(), "bounds-range", || t.into()); }
    });
}

/// Valid UTF-8 prefix rule, written out: replace each maximal ill-formed part by '_'.
fn lossy(b: &[u8]) -> String {
    let mut s = String::new();
    let mut i = 0;
    let mut bad = false;
    while i < b.len() {
        let (need, lo, hi) = match b[i] { 0..=0x7f => (0, 0, 0), 0xc2..=0xdf => (1, 0x80, 0xbf), 0xe0 => (2, 0xa0, 0xbf), 0xe1..=0xec | 0xee..=0xef => (2, 0x80, 0xbf), 0xed => (2, 0x80, 0x9f), 0xf0 => (3, 0x90, 0xbf), 0xf1..=0xf3 => (3, 0x80, 0xbf), 0xf4 => (3, 0x80, 0x8f), _ => { bad = true; s.push('_'); i += 1; continue } };
        let mut k = 0;
        while k < need && i + 1 + k < b.len() { let c = b[i + 1 + k]; let (l, h) = if k == 0 { (lo, hi) } else { (0x80, 0xbf) }; if c < l || c > h { break } k += 1 }
        if k == need { s.push_str(&String::from_utf8(b[i..=i + need].to_vec()).unwrap()) } else { s.push('_'); bad = true }
        i += 1 + k;
    }
    if bad { s = s.replace('\u{fffd}', "_") }
    s
}

fn string32(bytes: [u8; 32], cx: &mut Cx) {
    cx.step();
    let n = bytes.iter().position(|b| *b == 0).unwrap_or(31).min(31);
    let want = lossy(&bytes[..n]);
    for s in [guard(|| String32::from_bytes_lossy(&bytes)), guard(|| String32::read::<BE>(&bytes, 0, 32).unwrap()), guard(|| String32::read::<LE>(&bytes, 0, 32).unwrap())] {
        let s = match s { Ok(s) => s, Err(p) => return cx.fail("panic", format!("{bytes:02x?}: {p}")) };
        if !cx.check(std::str::from_utf8(s.as_str().as_bytes()).is_ok(), "utf8", || format!("{bytes:02x?}")) { return }
        cx.check(s.as_str() == want, "string", || format!("{bytes:02x?} is {:?} instead of {want:?}", s.as_str()));
        let mut out = [0xffu8; 32];
        s.write::<BE>(&mut out, 0, 32).unwrap();
        let mut model = [0u8; 32]; model[..want.len()].copy_from_slice(want.as_bytes());
        cx.check(out == model, "clean", || format!("{bytes:02x?} is written as {out:02x?}"));
        cx.check(String32::from_str(&want).ok() == Some(s), "equal", || format!("{bytes:02x?}: equal text is not equal"));
        cx.check(hash_of(&String32::from_str(&want).ok()) == hash_of(&Some(s)), "hash", || format!("{bytes:02x?}"));
    }
    cx.state(bytes);
    cx.validated();
}

/// What a wide string says and whether its data is well-formed.
fn wide(units: &[u16], odd: bool) -> (String, bool) {
    if odd || units.is_empty() { return (String::new(), false) }
    let mut ok = units.last() == Some(&0);
    let body = if ok { &units[..units.len() - 1] } else { units };
    let end = body.iter().position(|u| *u == 0);
    if end.is_some() { ok = false }
    let body = &body[..end.unwrap_or(body.len())];
    let mut chars = vec![];
    for c in char::decode_utf16(body.iter().copied()) { chars.push(c.unwrap_or_else(|_| { ok = false; '\u{fffd}' })) }
    let (s, fine) = clean(&chars);
    (s, ok && fine)
}
/// Line ends are CR LF, tabs are kept, other control characters are not.
fn clean(chars: &[char]) -> (String, bool) {
    let mut s = String::new();
    let mut fine = true;
    for (i, c) in chars.iter().enumerate() {
        match c {
            '\n' => { if !s.ends_with('\r') { fine = false; s.push('\r') } s.push('\n') }
            '\r' => if chars.get(i + 1) == Some(&'\n') { s.push('\r') } else { fine = false },
            '\t' => s.push('\t'),
            c if c.is_ascii_control() => fine = false,
            c => s.push(*c),
        }
    }
    (s, fine)
}

fn main() {
    let mut ck = Check::new("P05");
    ck.assume("Some(0xFFFF) is not an index (0xFFFF is the null index); debug assertions on struct bounds are programming errors, not inputs");
    prim::<f64>(&mut ck, "float"); prim::<u8>(&mut ck, "uint8"); prim::<i8>(&mut ck, "int8"); prim::<u16>(&mut ck, "uint16"); prim::<i16>(&mut ck, "int16");
    prim::<u32>(&mut ck, "uint32"); prim::<i32>(&mut ck, "int32"); prim::<Angle>(&mut ck, "Angle"); prim::<Index>(&mut ck, "Index"); prim::<ID>(&mut ck, "ID");
    prim::<Address>(&mut ck, "Address"); prim::<ScenarioScriptNodeValue>(&mut ck, "ScenarioScriptNodeValue"); prim::<ColorARGBInt>(&mut ck, "ColorARGBInt");
    prim::<CompressedFloat>(&mut ck, "CompressedFloat"); prim::<CompressedVector2D>(&mut ck, "CompressedVector2D"); prim::<CompressedVector3D>(&mut ck, "CompressedVector3D");
    prim::<TagGroup>(&mut ck, "TagGroup"); prim::<String32>(&mut ck, "String32"); prim::<Rectangle>(&mut ck, "Rectangle"); prim::<Vector2DInt>(&mut ck, "Vector2DInt");
    prim::<Vector2D>(&mut ck, "Vector2D"); prim::<Vector3D>(&mut ck, "Vector3D"); prim::<Euler2D>(&mut ck, "Euler2D"); prim::<Euler3D>(&mut ck, "Euler3D");
    prim::<Plane2D>(&mut ck, "Plane2D"); prim::<Plane3D>(&mut ck, "Plane3D"); prim::<Quaternion>(&mut ck, "Quaternion"); prim::<Matrix3x3>(&mut ck, "Matrix3x3");
    prim::<ColorRGBFloat>(&mut ck, "ColorRGBFloat"); prim::<ColorARGBFloat>(&mut ck, "ColorARGBFloat");

    // every 16-bit value of the small types
    ck.family("u16-all", 65536, |i| format!("{i:#06x}"), |i, cx| {
        let i = i as u16;
        let (b, l) = (i.to_be_bytes(), i.to_le_bytes());
        cx.step(); cx.state(i);
        cx.eq("u16", (u16::read::<BE>(&b, 0, 2).ok(), u16::read::<LE>(&l, 0, 2).ok()), (Some(i), Some(i)));
        cx.eq("i16", (i16::read::<BE>(&b, 0, 2).ok(), i16::read::<LE>(&l, 0, 2).ok()), (Some(i as i16), Some(i as i16)));
        let idx = if i == 0xffff { None } else { Some(i) };
        cx.eq("index", (Index::read::<BE>(&b, 0, 2).ok(), Index::read::<LE>(&l, 0, 2).ok()), (Some(idx), Some(idx)));
        let mut o = [0; 2];
        cx.check(SimpleTagData::write::<LE>(&idx, &mut o, 0, 2).is_ok() && o == l, "index", || format!("{idx:?}"));
        let mut o = [0x5a; 2];
        cx.check(SimpleTagData::write::<LE>(&Some(0xFFFFu16), &mut o, 0, 2).is_err(), "index", || "the null value was written as an index".into());
        cx.eq("bool", bool::read::<BE>(&b, 0, 1).ok(), Some(i > 0xff));
        // conversions of script values
        let v = ScenarioScriptNodeValue::from(i as i16);
        cx.eq("script-i16", (i16::from(v), i32::from(v) as i16, bool::from(v)), (i as i16, i as i16, i & 0xff != 0));
        let v = ScenarioScriptNodeValue::from(i as u8 as i8);
        cx.eq("script-i8", (i8::from(v), bool::from(v)), (i as u8 as i8, i as u8 != 0));
        for w in [(i as u32) << 16 | 0x1234, i as u32, (i as u32) << 8, !(i as u32)] {
            let v = ScenarioScriptNodeValue { data: w };
            cx.eq("script-32", (i32::from(v) as u32, f32::from(v).to_bits(), ID::from(v).as_u32(), ScenarioScriptNodeValue::from(w as i32).data, ScenarioScriptNodeValue::from(ID::from_u32(w)).data, ScenarioScriptNodeValue::from(f32::from_bits(w)).data), (w, w, w, w, w, w));
        }
        for t in [true, false] { cx.eq("script-bool", bool::from(ScenarioScriptNodeValue::from(t)), t); }
        cx.validated();
    });
    // identifiers: every index with every kind of salt
    let salts: Vec<u16> = { let mut v: Vec<u16> = vec![0, 1, IDType::Tag.salt(), IDType::ScriptNode.salt(), 0x7fff, 0x8000, 0xffff, 0x1234, 0x5678]; for b in 0..16 { v.push(1 << b); v.push(!(1 << b)) } if !ck.quick() { v.extend((0..65536).step_by(37).map(|s| s as u16)) } v };
    ck.items("id-new", &salts, |s| format!("salt={s:#x}"), |salt, cx| for index in 0..0xffffu16 {
        cx.step();
        let id = ID::new(Some(index), *salt);
        let want = ((salt ^ index) as u32 | 0x8000) << 16 | index as u32;
        if id.as_u32() != want || id.index() != Some(index) || id.salt() != Some(salt & 0x7fff) || !id.is_valid() || id.is_null() || ID::from_u32_checked(want).ok() != Some(id) || ID::from_u32(want) != id || u32::from(id) != want || format!("{id}") != format!("(id={index}, salt={})", salt & 0x7fff) {
            cx.fail("id", format!("index {index:#x}: {:#x} instead of {want:#x}", id.as_u32())); return
        }
        cx.validated();
    });
    // every identifier there is
    let top = ck.pick(1usize << 12, 1 << 16);
    ck.family("id-bits", top, |i| format!("high half {:#x}", i << ck_shift(top)), |i, cx| {
        let hi = (i << ck_shift(top)) as u32;
        for lo in 0..65536u32 {
            let w = hi << 16 | lo;
            let id = ID::from_u32(w);
            let null = w == u32::MAX;
            let valid = w >> 31 == 1;
            let salt = ((hi ^ lo) & 0x7fff) as u16;
            if id.is_null() != null || id.is_valid() != valid || ID::from_u32_checked(w).is_ok() != valid || id.as_u32() != w || id.index() != (if null { None } else { Some(lo as u16) }) || id.salt() != (if null { None } else { Some(salt) }) || (valid && !null && lo != 0xffff && ID::new(id.index(), id.salt().unwrap()) != id) {
                cx.fail("id", format!("{w:#010x}")); return
            }
        }
        cx.steps(65536); cx.validated_n(65536);
        cx.state(hi);
    });
    ck.family("id-null", 1, |_| "null".into(), |_, cx| { cx.check(ID::null().is_null() && ID::default().is_null() && ID::null().as_u32() == u32::MAX && ID::new(None, 5).is_null() && ID::null().index().is_none() && ID::null().salt().is_none(), "null", || "".into()); cx.validated(); });

    // fixed strings: every byte at every place of texts of several lengths; every ill-formed sequence at every distance from the end
    ck.family("string32-bytes", 32 * 256, |i| format!("byte {:#x} at {}", i / 32, i % 32), |i, cx| {
        for base in [0u8, b'a', 0xe9] { for len in [0usize, i % 32, 31, 32] {
            let mut b = [0u8; 32];
            for x in b.iter_mut().take(len) { *x = base }
            b[i % 32] = (i / 32) as u8;
            string32(b, cx);
            let mut c = b; if i % 32 < 31 { c[i % 32 + 1] = 0; for x in c.iter_mut().skip(i % 32 + 2) { *x = 0x77 } } string32(c, cx);
        } }
    });
    let seqs: Vec<Vec<u8>> = words(&[b'a', 0x80, 0xbf, 0xc2, 0xc0, 0xe0, 0xa0, 0xed, 0xef, 0xf0, 0x90, 0xf4, 0xff, 0], ck.pick(4, 5));
    ck.items("string32-sequences", &seqs, |s| format!("{s:02x?}"), |s, cx| for at in [0usize, 5, 26, 27, 28, 29, 30, 31] {
        let mut b = [b'x'; 32];
        for (k, v) in s.iter().enumerate() { if at + k < 32 { b[at + k] = *v } }
        string32(b, cx);
    });
    let toks = ["a", "é", "日", "𝄞", "_", "\u{fffd}", " ", "\n", "\0", "0123456789"];
    let strings: Vec<String> = words(&toks, ck.pick(5, 6)).iter().map(|w| w.concat()).collect();
    ck.items("string32-text", &strings, |s| format!("{s:?}"), |s, cx| {
        cx.step(); cx.state(s);
        let got = String32::from_str(s);
        if s.len() > 31 { cx.check(got.is_err(), "long", || "accepted".into()); return }
        let Ok(t) = got else { return cx.fail("refused", s.clone()) };
        let text = s.split('\0').next().unwrap();
        cx.check(t.as_str() == text && t == *text && format!("{t}") == text && text == t, "text", || format!("{:?}", t.as_str()));
        let mut b = [1u8; 32];
        t.write::<BE>(&mut b, 0, 32).unwrap();
        let back = String32::read::<BE>(&b, 0, 32).unwrap();
        cx.check(back == t && back.as_str() == text, "round-trip", || format!("{b:02x?} {back:?}"));
        cx.validated();
    });
    ck.family("string32-lengths", 70, |i| format!("{i} bytes"), |i, cx| for c in ["a", "é", "日", "𝄞"] {
        let s = c.repeat(i / c.len()) + &"z".repeat(i % c.len());
        cx.step();
        cx.check(String32::from_str(&s).map(|t| t.as_str().to_string()).ok() == if i < 32 { Some(s.clone()) } else { None }, "limit", || s.clone());
        cx.validated();
    });
    // wide strings
    let units: Vec<Vec<u16>> = words(&[0, b'a' as u16, 10, 13, 9, 1, 0x7f, 0xd834, 0xdd1e, 0xfeff, 0xe9], ck.pick(5, 6));
    ck.items("utf16-data", &units, |u| format!("{u:04x?}"), |u, cx| for odd in [false, true] {
        let mut bytes: Vec<u8> = u.iter().flat_map(|u| u.to_le_bytes()).collect();
        if odd { bytes.push(0) }
        let mut file = vec![0u8; 20]; file[..4].copy_from_slice(&(bytes.len() as u32).to_be_bytes()); file.extend(&bytes);
        let mut cursor = 20;
        let w = UTF16String::read_from_tag_file(&file, 0, 20, &mut cursor).unwrap();
        let mut out = vec![0u8; 20];
        cx.check(w.write_to_tag_file(&mut out, 0, 20).is_ok() && out == file && cursor == file.len(), "file", || format!("{out:02x?}"));
        cx.step(); cx.state((u, odd));
        let (s, ok) = wide(u, odd);
        for round in 0..2 {
            let got = w.get_string().map(|s| s.to_string()).ok();
            cx.check(got == if ok { Some(s.clone()) } else { None }, "strict", || format!("{got:?} instead of {s:?} ok={ok} round {round}"));
            let got = match w.get_string_lossy() { Ok(s) => (s.to_string(), true), Err(s) => (s.to_string(), false) };
            cx.check(got == (s.clone(), ok), "lossy", || format!("{got:?} instead of {s:?} {ok}"));
            cx.check(format!("{w}") == s, "display", || format!("{w}"));
        }
        cx.check(w.get_utf16_bytes() == bytes && w.clone() == w && w.clone().get_utf16_bytes() == bytes, "data", || "changed".into());
        cx.check((w == UTF16String::from_str(&s)) == (ok || bytes == UTF16String::from_str(&s).get_utf16_bytes()), "equal", || format!("{s:?}"));
        cx.validated();
    });
    let texts: Vec<String> = words(&["a", "é", "𝄞", "\n", "\r", "\r\n", "\t", "\u{1}", "\0", "\u{feff}", "\u{7f}"], ck.pick(4, 6)).iter().map(|w| w.concat()).collect();
    ck.items("utf16-text", &texts, |s| format!("{s:?}"), |s, cx| {
        cx.step(); cx.state(s);
        let w = UTF16String::from_str(s);
        let chars: Vec<char> = s.split('\0').next().unwrap().chars().collect();
        let want = clean(&chars).0;
        cx.check(w.get_string().map(|s| s.to_string()).ok() == Some(want.clone()), "text", || format!("{:?} instead of {want:?}", w.get_string_lossy()));
        let bytes: Vec<u8> = want.encode_utf16().chain([0]).flat_map(|u| u.to_le_bytes()).collect();
        cx.check(w.get_utf16_bytes() == bytes, "bytes", || format!("{:02x?}", w.get_utf16_bytes()));
        cx.check(s.parse::<UTF16String>().ok() == Some(w), "parse", || s.clone());
        cx.validated();
    });
    // the low-level forms of arrays, data and references
    let w: Vec<u32> = vec![0, 1, 0xff, 0x01020304, 0x7fffffff, 0x80000000, u32::MAX];
    ck.family("low-level", w.len().pow(4), |i| format!("{:x?}", digits(i, &[7, 7, 7, 7]).iter().map(|d| w[*d]).collect::<Vec<_>>()), |i, cx| {
        let d = digits(i, &[7, 7, 7, 7]);
        let (a, b, c, e) = (w[d[0]], w[d[1]], w[d[2]], w[d[3]]);
        fn both<T: SimpleTagData + PartialEq + std::fmt::Debug>(v: &T, words: &[(usize, u32)], n: usize, cx: &mut Cx) {
            let mut be = vec![0xee; n]; let mut le = vec![0xee; n];
            cx.check(T::simple_size() == n, "size", || format!("{v:?}"));
            if v.write::<BE>(&mut be, 0, n).is_err() || v.write::<LE>(&mut le, 0, n).is_err() { return cx.fail("write", format!("{v:?}")) }
            let mut wb = vec![0; n]; let mut wl = vec![0; n];
            for (o, x) in words { wb[*o..*o + 4].copy_from_slice(&x.to_be_bytes()); wl[*o..*o + 4].copy_from_slice(&x.to_le_bytes()); }
            cx.check(be == wb && le == wl, "layout", || format!("{v:?} is {be:02x?} instead of {wb:02x?}"));
            for r in [T::read::<BE>(&be, 0, n), T::read::<LE>(&le, 0, n)] { cx.check(r.as_ref().ok() == Some(v), "back", || format!("{v:?} becomes {r:?}")); }
        }
        cx.steps(6); cx.state(i);
        both(&ReflexiveC::<u32>::with_params(a, b.into()), &[(0, a), (4, b)], 12, cx);
        both(&DataC { size: a, flags: b, file_offset: c, address: e.into(), ..Default::default() }, &[(0, a), (4, b), (8, c), (12, e)], 20, cx);
        if e != 0 { both(&TagReferenceC { tag_group: TagGroup::Bitmap, path_address: a.into(), path_length: b, tag_id: ID::from_u32(e) }, &[(0, 0x6269746d), (4, a), (8, b), (12, e)], 16, cx); }
        cx.validated();
    });
    ck.items("reference-groups", FOURCC, |g| g.0.into(), |(name, cc), cx| {
        for id in [0u32, u32::MAX, 0x80000000, 0xe1740000] { for code in [**cc, *b"XXXX", [0xff; 4], [0; 4]] {
            let mut b = [0u8; 16]; b[..4].copy_from_slice(&code); b[12..].copy_from_slice(&id.to_be_bytes());
            cx.step();
            let r = TagReferenceC::read::<BE>(&b, 0, 16).unwrap();
            let want = FOURCC.iter().find(|g| *g.1 == code).map(|g| g.0).unwrap_or("<unset>");
            cx.check(r.tag_group.as_str() == want && r.tag_id == if id == 0 { ID::null() } else { ID::from_u32(id) }, "group", || format!("{name} {code:02x?}: {r:?}"));
            cx.validated();
        } }
    });
    ck.family("size", 3, |i| format!("{i}"), |i, cx| {
        let mut b = [0u8; 4];
        let v = [u32::MAX as usize, u32::MAX as usize + 1, usize::MAX][i];
        cx.step();
        cx.check(guard(|| SimpleTagData::write::<BE>(&v, &mut b, 0, 4).is_ok()) == Ok(i == 0), "limit", || format!("{v:#x}"));
        cx.validated();
    });
    // padding to alignments
    let amax = ck.pick(300, 1100);
    ck.family("alignment", amax, |a| format!("to {}", a + 1), |a, cx| for size in 0..3000usize {
        let a = a + 1;
        let p = calculate_padding_for_alignment(size, a);
        cx.step(); cx.validated();
        if !((size + p) % a == 0 && p < a) { cx.fail("padding", format!("{size}: {p}")); return }
    });
    ck.finish()
}
fn ck_shift(top: usize) -> usize { 16 - top.trailing_zeros() as usize }
