//! P02: damaged tag files: no panic, no disproportionate allocation; strict reading detects damage; what is accepted is stable.
use mc::refser::*;
use mc::*;
use ringhopper::definitions::read_any_tag_from_file_buffer;
use ringhopper::primitives::primitive::TagPath;
use ringhopper::primitives::primitive::TagReference;
use ringhopper::primitives::tag::{for_each_field, ParseStrictness, PrimaryTagStructDyn};

/// Everything a reader may hold on to: memory proportional to the file (in-memory values are at most a few times larger than
/// their stored form, and vectors may double).
fn allowance(len: usize) -> usize { (1 << 16) + 16 * len }

fn read(file: &[u8], strict: bool, cx: &mut Cx) -> Option<Box<dyn PrimaryTagStructDyn>> {
    cx.step();
    let s = if strict { ParseStrictness::Strict } else { ParseStrictness::Relaxed };
    let (r, largest, peak) = alloc::track(|| guard(|| read_any_tag_from_file_buffer(file, s)));
    cx.check(largest <= allowance(file.len()) && peak <= 4 * allowance(file.len()), "allocation", || format!("{} byte file: one allocation of {largest} bytes, {peak} bytes held", file.len()));
    match r {
        Err(p) => { cx.fail("panic", p); None }
        Ok(Err(e)) => { let _ = guard(|| e.to_string()).map_err(|p| cx.fail("panic", p)); None }
        Ok(Ok(t)) => Some(t),
    }
}

/// Accepted: it can be written, and what was written reads back as the same thing; references stay inside the tags directory.
fn stable(t: &dyn PrimaryTagStructDyn, cx: &mut Cx) {
    cx.validated();
    let w = match guard(|| t.to_tag_file()) {
        Err(p) => return cx.fail("panic", format!("writing: {p}")),
        Ok(Err(e)) => return cx.fail("write", format!("an accepted tag cannot be written: {e}")),
        Ok(Ok(w)) => w,
    };
    match guard(|| read_any_tag_from_file_buffer(&w, ParseStrictness::Strict)) {
        Err(p) => cx.fail("panic", format!("reading again: {p}")),
        Ok(Err(e)) => cx.fail("again", format!("what was written is rejected: {e}")),
        Ok(Ok(t2)) => match t2.to_tag_file() { Ok(w2) => { cx.check(w2 == w, "unstable", || "written twice with different contents".into()); } Err(e) => cx.fail("write", e.to_string()) }
    }
    for_each_field(t.as_dynamic(), |_, f| if let Some(r) = f.as_any().downcast_ref::<TagReference>() {
        if let Some(p) = r.path() {
            let ok = TagPath::new(p.path(), p.group()).map(|q| &q == p).unwrap_or(false);
            if !ok { cx.fail("reference-path", format!("accepted a reference to {:?}", p.path())) }
        }
    });
}

fn rejected(file: &[u8], what: &str, cx: &mut Cx) {
    if let Some(_) = read(file, true, cx) { cx.fail("accepted", format!("strict reading accepted a file with {what}")) }
    cx.validated();
}

fn main() {
    let mut ck = Check::new("P02");
    ck.assume("allocations up to 64 KiB + 16 x the file's length count as proportionate");
    let groups: Vec<&str> = spec().groups.keys().map(|s| s.as_str()).collect();
    let base = |g: &str, n: usize| { let st = &spec().groups[g].strukt; let t = canonical(st, &generate(st, &mut vec![], &mut Distinct::new(n))); tag_file(g, &serialize(st, &t, None)) };
    let bases: Vec<Vec<u8>> = groups.iter().map(|g| base(g, 1)).collect();
    let bases2: Vec<Vec<u8>> = groups.iter().map(|g| base(g, 2)).collect();
    let ignore_crc = |f: &[u8]| { let mut f = f.to_vec(); f[0x28..0x2c].fill(0xff); f };
    let chunks = |n: usize, by: usize| (0..n.div_ceil(by)).map(move |i| (i * by, ((i + 1) * by).min(n)));

    // every truncation point, with the checksum in place, ignored, and recomputed
    let cuts: Vec<(usize, usize, usize)> = groups.iter().enumerate().flat_map(|(g, _)| chunks(bases[g].len(), 256).map(move |(a, b)| (g, a, b))).collect();
    ck.items("truncate", &cuts, |(g, a, b)| format!("{} {a:#x}..{b:#x}", groups[*g]), |(g, a, b), cx| for at in *a..*b {
        let f = &bases[*g][..at];
        cx.state((g, at));
        rejected(f, &format!("its end cut off at {at:#x}"), cx);
        let nocrc = ignore_crc(&bases[*g]);
        rejected(&nocrc[..at], &format!("its end cut off at {at:#x} and no checksum"), cx);
        if read(f, false, cx).is_some() { cx.fail("accepted", format!("accepted a file cut off at {at:#x}")) }
    });

    // every extension by 1..=32 bytes
    ck.family("extend", groups.len(), |g| groups[g].into(), |g, cx| for n in 1..=32 { for fill in [0u8, 0xff, 0x41] {
        let mut f = ignore_crc(&bases[g]);
        f.extend(std::iter::repeat(fill).take(n));
        cx.state((g, n, fill));
        rejected(&f, &format!("{n} bytes after its end"), cx);
        if read(&f, false, cx).is_some() { cx.fail("accepted", format!("accepted a file with {n} bytes after its end")) }
        let mut f = bases[g].clone();
        f.extend(std::iter::repeat(fill).take(n));
        rejected(&f, &format!("{n} bytes after its end"), cx);
    }});

    // every bit of the header
    ck.family("header", groups.len(), |g| groups[g].into(), |g, cx| for bit in 0..0x40 * 8 {
        let mut f = bases[g].clone();
        f[bit / 8] ^= 0x80 >> (bit % 8);
        cx.state((g, bit));
        let significant = matches!(bit / 8, 0x24..=0x2f | 0x38..=0x3f);
        if significant { rejected(&f, &format!("bit {} of header byte {:#x} flipped", bit % 8, bit / 8), cx) }
        else if let Some(t) = read(&f, true, cx) { cx.check(t.to_tag_file().ok().as_ref() == Some(&bases[g]), "bytes", || format!("header byte {:#x} changed the tag", bit / 8)); cx.validated(); }
        if significant && !matches!(bit / 8, 0x28..=0x2b) && read(&f, false, cx).is_some() { cx.fail("accepted", format!("relaxed reading accepted header byte {:#x} damaged", bit / 8)) }
    });

    // every byte of the body set to boundary values / every bit flipped: strict rejects; relaxed survives and is stable
    let quick = ck.quick();
    let body: Vec<(usize, usize, usize)> = groups.iter().enumerate().flat_map(|(g, _)| chunks(bases[g].len() - 0x40, 128).map(move |(a, b)| (g, a + 0x40, b + 0x40))).collect();
    ck.items("body", &body, |(g, a, b)| format!("{} {a:#x}..{b:#x}", groups[*g]), |(g, a, b), cx| for at in *a..*b {
        let old = bases[*g][at];
        let mut vals: Vec<u8> = if quick { vec![0, 0xff, old ^ 0x80, old.wrapping_add(1)] } else { (0..8).map(|i| old ^ (1 << i)).chain([0, 1, 0x7f, 0x80, 0xff, b'.', b'\\', b'/', b'A', 10, old.wrapping_add(1), old.wrapping_sub(1)]).collect() };
        vals.retain(|v| *v != old); vals.sort(); vals.dedup();
        for v in vals {
            let mut f = bases[*g].clone();
            f[at] = v;
            cx.state((g, at, v));
            rejected(&f, &format!("byte {at:#x} set to {v:#x}"), cx);
            if let Some(t) = read(&f, false, cx) { stable(&*t, cx) }
            if !quick { let f = ignore_crc(&f); if let Some(t) = read(&f, true, cx) { stable(&*t, cx) } }
        }
    });

    // every count, size and length with boundary values, no checksum in the way
    let words: Vec<(usize, usize, usize)> = groups.iter().enumerate().flat_map(|(g, _)| chunks(bases2[g].len() / 4 - 0x10, 64).map(move |(a, b)| (g, a * 4 + 0x40, b * 4 + 0x40))).collect();
    ck.items("words", &words, |(g, a, b)| format!("{} {a:#x}..{b:#x}", groups[*g]), |(g, a, b), cx| for at in (*a..*b).step_by(if quick { 4 } else { 2 }) {
        if at + 4 > bases2[*g].len() { continue }
        let old = u32::from_be_bytes(bases2[*g][at..at + 4].try_into().unwrap());
        let len = bases2[*g].len() as u32;
        for v in [0, 1, old.wrapping_add(1), old.wrapping_sub(1), 0xff, 0x1000, len, 0x10000, 0x0fffffff, 0x10000000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff] {
            if v == old { continue }
            let mut f = ignore_crc(&bases2[*g]);
            f[at..at + 4].copy_from_slice(&v.to_be_bytes());
            cx.state((g, at, v));
            if let Some(t) = read(&f, true, cx) { stable(&*t, cx) }
        }
    });

    // an overwrite of one version of a tag by another, torn at every byte: strict reading sees the old one, the new one or an error
    let torn: Vec<(usize, usize, usize)> = groups.iter().enumerate().flat_map(|(g, _)| (0..2).flat_map(move |k| [(g, k, 0), (g, k, 1)])).collect();
    ck.items("torn", &torn, |(g, k, m)| format!("{} {} {}", groups[*g], ["to-longer", "same-length"][*k], ["over-old", "truncated-first"][*m]), |(g, k, m), cx| {
        let st = &spec().groups[groups[*g]].strukt;
        let old = &bases[*g];
        let new = if *k == 0 { bases2[*g].clone() } else { let mut c = Distinct::new(1); c.next = 1000; let t = canonical(st, &generate(st, &mut vec![], &mut c)); tag_file(groups[*g], &serialize(st, &t, None)) };
        for at in (0..=new.len()).step_by(if quick && new.len() > 4000 { 3 } else { 1 }) {
            let mut f = new[..at].to_vec();
            if *m == 0 && at < old.len() { f.extend_from_slice(&old[at..]) }
            cx.state((g, k, m, at));
            if &f == old || f == new { continue }
            rejected(&f, &format!("an overwrite torn at {at:#x}"), cx);
        }
    });
    ck.finish()
}
