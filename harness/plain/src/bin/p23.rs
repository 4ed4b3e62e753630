//! P23: nudging: decimal rounding of numbers, exhaustively over stored numbers in a range, and which fields it applies to.
//! needs: invader-mc
use mc::fsmap::{files, reset, snapshot};
use mc::inv::invader;
use mc::refser::*;
use mc::*;
use ringhopper::definitions::{read_any_tag_from_file_buffer, Light};
use ringhopper::primitives::primitive::TagGroup;
use ringhopper::primitives::tag::*;
use ringhopper::tag::nudge::{is_nudgeable, nudge_tag};
use std::collections::BTreeMap;

/// The nearest number of six significant decimal digits (by the digits of the shortest form, ties away from zero).
fn six(x: f64) -> f64 {
    if !x.is_finite() || x == 0.0 { return x }
    let text = format!("{:e}", x.abs());
    let (m, e) = text.split_once('e').unwrap();
    let digits: Vec<u8> = m.bytes().filter(|b| *b != b'.').map(|b| b - b'0').collect();
    if digits.len() <= 6 { return x }
    let mut n: u64 = digits[..6].iter().fold(0, |a, d| a * 10 + *d as u64);
    if digits[6] >= 5 { n += 1 }
    format!("{n}e{}", e.parse::<i32>().unwrap() - 5).parse::<f64>().unwrap().copysign(x)
}
struct Nudger(Light);
impl Nudger {
    fn nudge(&mut self, x: f64) -> (f64, bool) { self.0.effect_parameters.duration = x; let b = nudge_tag(&mut self.0); (self.0.effect_parameters.duration, b) }
}
fn judge(n: &mut Nudger, x: f64, cx: &mut Cx) -> bool {
    let Ok((got, changed)) = guard(|| n.nudge(x)) else { cx.fail("panic", format!("{x:?}")); return false };
    let want = six(x);
    if got.to_bits() != want.to_bits() && !(got.is_nan() && want.is_nan()) { cx.fail("value", format!("{x:?} becomes {got:?} instead of {want:?}")); return false }
    if changed != (got.to_bits() != x.to_bits() && !x.is_nan()) { cx.fail("truth", format!("{x:?} becomes {got:?}, which is said to be {}", if changed { "a change" } else { "none" })); return false }
    true
}

/// The fields which are nudged, by group.
fn fields(group: &str) -> Vec<&'static str> {
    match group {
        "actor_variant" => vec!["grenades.grenade_velocity"], "continuous_damage_effect" | "damage_effect" => vec!["camera_shaking.wobble_period"], "point_physics" => vec!["air_friction", "water_friction"],
        "projectile" => vec!["minimum_velocity", "initial_velocity", "final_velocity", "material_response[0].potential_and", "material_response[1].potential_and"],
        "scenario" => vec!["cutscene_titles[0].fade_in_time", "cutscene_titles[0].fade_out_time", "cutscene_titles[0].up_time", "cutscene_titles[1].fade_in_time", "cutscene_titles[1].fade_out_time", "cutscene_titles[1].up_time"],
        "light" => vec!["effect_parameters.duration"], "sound" => vec!["maximum_bend_rate"], _ => vec![],
    }
}
fn object_prefix(group: &str) -> Option<&'static str> {
    Some(match group {
        "object" => "", "unit" | "item" | "device" => "object.", "scenery" | "placeholder" | "sound_scenery" => "basic_object.object.",
        "biped" | "vehicle" => "unit.object.", "weapon" | "garbage" | "equipment" => "item.object.", "device_machine" | "device_control" | "device_light_fixture" => "device.object.", "projectile" => "object.",
        _ => return None
    })
}

fn main() {
    let mut ck = Check::new("P23");
    ck.assume("numbers are rounded by the digits of their shortest decimal form, halves away from zero");
    let thorough = !ck.quick();
    let next = |x: f32, d: i32| f32::from_bits((x.to_bits() as i32 + d) as u32);

    // what a person types with up to six digits comes back, from the nearest stored number and its neighbours
    let step = ck.pick(17u64, 1);
    let typed: Vec<(i32, u64)> = (-9..=9).flat_map(|e| (1..10u64).map(move |d| (e, d))).collect();
    ck.items("typed", &typed, |(e, d)| format!("{d}.xxxxxe{e}"), |(e, d), cx| {
        let mut n = Nudger(Light::default());
        let mut count = 0;
        let mut one = |k: u64, cx: &mut Cx| -> bool {
            let want: f64 = format!("{k}e{}", e - 5).parse().unwrap();
            for w in [-1, 0, 1] { for sign in [1.0f32, -1.0] {
                let x = next(want as f32, w) * sign;
                count += 1;
                let (got, _) = n.nudge(x as f64);
                // one unit away from the last digit is still the same number
                let close = w == 0 || ((x.abs() as f64) - want).abs() * 10f64.powi(5 - e) < 0.499;
                if close && got != want * sign as f64 { cx.fail("typed", format!("{want:?} was stored as {x:?} and becomes {got:?}")); return false }
                if (got as f32).to_bits() != (six(x as f64) as f32).to_bits() { cx.fail("stored", format!("{x:?} becomes {got:?}")); return false }
                if n.nudge(got as f32 as f64).0 != got { cx.fail("again", format!("{x:?}, stored again as {:?}", got as f32)); return false }
            } }
            true
        };
        // the ends and everything with many nines or zeroes, and a lattice of the rest
        let base = d * 100_000;
        let mut keys: Vec<u64> = (base..base + 100_000).step_by(step as usize).collect();
        for k in base..base + 100_000 { let s = k.to_string(); if s.ends_with("99") || s.ends_with("00") || s.ends_with("01") || s[1..].starts_with("000") || s[1..].starts_with("999") { keys.push(k) } }
        for k in keys { if !one(k, cx) { break } }
        cx.steps(count); cx.validated_n(count); cx.state((e, d));
    });

    // every stored number of some ranges
    let ranges: Vec<(u32, u32)> = {
        let exps: Vec<u32> = if thorough { (110..152).collect() } else { vec![] };
        let parts = 16u32;
        let mut v: Vec<(u32, u32)> = exps.iter().flat_map(|e| (0..parts).map(move |p| ((e << 23) + p * (0x80_0000 / parts), 0x80_0000 / parts))).collect();
        // around every power of ten and two, and at the ends
        for e in -38i32..=38 { let c = format!("1e{e}").parse::<f32>().unwrap().to_bits(); v.push((c.saturating_sub(300), 600)); }
        for e in 0..255u32 { v.push(((e << 23).saturating_sub(100), 200)); }
        v.push((0x7f7f_ff00, 0x200)); v.push((0, 512));
        v
    };
    ck.items("stored", &ranges, |(a, n)| format!("{a:#x}+{n:#x}"), |(a, count), cx| {
        let mut n = Nudger(Light::default());
        for b in *a..*a + *count {
            let x = f32::from_bits(b) as f64;
            if !judge(&mut n, x, cx) || !judge(&mut n, -x, cx) { break }
            let r = six(x);
            // what was rounded stays
            if n.nudge(r).0.to_bits() != r.to_bits() && !r.is_nan() { cx.fail("again", format!("{x:?}")); break }
        }
        cx.state(a); cx.steps(*count as u64 * 3); cx.validated_n(*count as u64 * 3);
    });
    // numbers which are not 32-bit ones: all runs of digits around the seventh
    let tails = ["", "4", "5", "49", "50", "51", "499999999", "999999999", "000001"];
    let heads: Vec<(u64, i32)> = [100_000u64, 100_009, 100_099, 100_999, 109_999, 199_999, 999_999, 123_456, 900_000, 999_989, 899_999, 909_090].iter().flat_map(|h| (-12..=12).map(move |e| (*h, e))).collect();
    ck.items("digits", &heads, |(h, e)| format!("{h}e{e}"), |(h, e), cx| {
        let mut n = Nudger(Light::default());
        for t in tails { for sign in ["", "-"] {
            let x: f64 = format!("{sign}{h}{t}e{}", e - t.len() as i32).parse().unwrap();
            cx.step(); cx.state(x.to_bits());
            judge(&mut n, x, cx);
        } }
        cx.validated();
    });
    let special = [0.0f64, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e300, 1e-300, 0.1 + 0.2, 1.0 / 3.0, 2f64.powi(60)];
    ck.items("special", &special, |x| format!("{x:?}"), |x, cx| { let mut n = Nudger(Light::default()); judge(&mut n, *x, cx); cx.state(x.to_bits()); cx.step(); cx.validated(); });

    // which fields
    let groups: Vec<&'static str> = spec().groups.keys().map(|s| s.as_str()).collect();
    let bit = |v: f32| v.to_bits().to_be_bytes().to_vec();
    let noisy = [33.333332f32, 0.9999999, 9.999999, 1.000005, 0.1];
    ck.items("fields", &(0..groups.len()).collect::<Vec<_>>(), |g| groups[*g].into(), |g, cx| {
        let group = groups[*g];
        let st = &spec().groups[group].strukt;
        let mut list = fields(group);
        let prefix = object_prefix(group);
        let weights: Vec<String> = prefix.map(|p| (0..2).flat_map(|c| (0..2).map(move |k| format!("{p}change_colors[{c}].permutations[{k}].weight"))).collect()).unwrap_or_default();
        list.extend(weights.iter().map(|w| &*Box::leak(w.clone().into_boxed_str())));
        cx.eq("nudgeable", is_nudgeable(TagGroup::from_str(group).unwrap()), !list.is_empty());
        for v in noisy {
            // every number of the tag is noisy
            struct Noisy(Distinct, f32);
            impl Chooser for Noisy { fn leaf(&mut self, p: &[Step], ty: &Ty, f: &FieldDef) -> Val { match ty { Ty::Prim(t) if is_float(t) => Val::Leaf((0..prim_words(t).1).flat_map(|_| self.1.to_bits().to_be_bytes()).collect()), _ => self.0.leaf(p, ty, f) } } fn count(&mut self, p: &[Step], s: &str) -> usize { self.0.count(p, s) } }
            let val = canonical(st, &generate(st, &mut vec![], &mut Noisy(Distinct::new(2), v)));
            let mut leaves = vec![];
            let body = serialize(st, &val, Some(&mut leaves));
            let file = tag_file(group, &body);
            let mut tag = read_any_tag_from_file_buffer(&file, ParseStrictness::Strict).unwrap();
            let changed = nudge_tag(tag.as_mut());
            cx.step(); cx.state((group, v.to_bits()));
            let mut want = body.clone();
            for l in leaves.iter().filter(|l| !l.dead) {
                let p = path_str(&l.path);
                let hit = list.iter().any(|f| p == *f || p.starts_with(f) && p.as_bytes()[f.len()] == b'[');
                let d = get(tag.as_dynamic(), &l.path.iter().map(|s| s.clone()).collect::<Vec<_>>());
                if hit { let w = six(v as f64); want[l.offset..l.offset + 4].copy_from_slice(&bit(w as f32)); if let Some(d) = d.and_then(|d| d.as_any().downcast_ref::<f64>().copied()) { cx.check(d.to_bits() == w.to_bits(), "field", || format!("{p} = {v:?} becomes {d:?}")); } }
            }
            cx.check(tag.to_tag_file().ok() == Some(tag_file(group, &want)), "others", || format!("something else changes with {v:?}"));
            cx.check(changed == !list.is_empty(), "changed", || format!("{changed}"));
            cx.validated();
        }
    });

    // each of them alone, and none of them: is it said that something changed?
    let calm = [0.5f32, 2.0, f32::NAN, 0.0];
    ck.items("one of them", &groups.iter().copied().filter(|g| !fields(g).is_empty() || object_prefix(g).is_some()).collect::<Vec<_>>(), |g| g.to_string(), |group, cx| {
        let st = &spec().groups[*group].strukt;
        let mut list: Vec<String> = fields(group).iter().map(|f| f.to_string()).collect();
        if let Some(p) = object_prefix(group) { for c in 0..2 { for k in 0..2 { list.push(format!("{p}change_colors[{c}].permutations[{k}].weight")) } } }
        struct Calm(Distinct, f32);
        impl Chooser for Calm { fn leaf(&mut self, p: &[Step], ty: &Ty, f: &FieldDef) -> Val { match ty { Ty::Prim(t) if is_float(t) => Val::Leaf((0..prim_words(t).1).flat_map(|_| self.1.to_bits().to_be_bytes()).collect()), _ => self.0.leaf(p, ty, f) } } fn count(&mut self, p: &[Step], s: &str) -> usize { self.0.count(p, s) } }
        for base in calm {
            // weights of 0.5 of two permutations would all mean the same
            let base = if base == 0.5 && object_prefix(group).is_some() { 3.0 } else { base };
            let val = canonical(st, &generate(st, &mut vec![], &mut Calm(Distinct::new(2), base)));
            let mut leaves = vec![];
            let body = serialize(st, &val, Some(&mut leaves));
            let hits: Vec<(String, usize)> = leaves.iter().filter(|l| !l.dead).map(|l| (path_str(&l.path), l.offset)).filter(|(p, _)| list.iter().any(|f| p == f || p.starts_with(f) && p.as_bytes()[f.len()] == b'[')).collect();
            cx.check(hits.len() >= list.len(), "MACHINERY", || format!("{} of {}", hits.len(), list.len()));
            for one in std::iter::once(None).chain(hits.iter().map(Some)) { for v in [33.333332f32, 0.1, f32::INFINITY] {
                let mut b = body.clone();
                if let Some((_, at)) = one { b[*at..*at + 4].copy_from_slice(&bit(v)) }
                let mut tag = read_any_tag_from_file_buffer(&tag_file(group, &b), ParseStrictness::Strict).unwrap();
                let said = nudge_tag(tag.as_mut());
                let real = one.is_some() && v != f32::INFINITY;
                if let Some((_, at)) = one { b[*at..*at + 4].copy_from_slice(&bit(six(v as f64) as f32)) }
                cx.step(); cx.state((group, base.to_bits(), v.to_bits(), one)); cx.validated();
                let at = || one.map(|o| o.0.clone()).unwrap_or("nothing".into());
                cx.check(said == real, "truth", || format!("{v:?} in {} among {base:?}: said {said}", at()));
                cx.check(tag.to_tag_file().ok() == Some(tag_file(group, &b)), "others", || format!("{v:?} in {} among {base:?}", at()));
                // and again, there is nothing left to do
                cx.check(!nudge_tag(tag.as_mut()), "again", || format!("{v:?} in {} among {base:?}", at()));
            } }
        }
    });

    // weights of change colours: if all mean the same, all become 1
    let objects: Vec<&'static str> = groups.iter().copied().filter(|g| object_prefix(g).is_some()).collect();
    ck.items("weights", &objects, |g| g.to_string(), |group, cx| {
        let prefix = object_prefix(group).unwrap();
        let st = &spec().groups[*group].strukt;
        let n_max = if thorough { 4 } else { 3 };
        for n in 1..=n_max { for case in 0..9usize.pow(n as u32) {
            let share = 1.0 / n as f32;
            let pick = |k: usize| [share, share + 0.0004 / n as f32, share + 0.002 / n as f32, -share, 1.0, 0.0, f32::NAN, 0.3000001, share - 0.0009 / n as f32][k];
            let ws: Vec<f32> = (0..n).map(|i| pick(case / 9usize.pow(i as u32) % 9)).collect();
            let mut d = Distinct::new(1);
            d.overrides.insert(format!("{prefix}change_colors[0].permutations"), Ov::Count(n));
            let val = canonical(st, &generate(st, &mut vec![], &mut d));
            let mut leaves = vec![];
            let mut body = serialize(st, &val, Some(&mut leaves));
            let at: Vec<usize> = (0..n).map(|i| leaves.iter().find(|l| path_str(&l.path) == format!("{prefix}change_colors[0].permutations[{i}].weight")).unwrap().offset).collect();
            for i in 0..n { body[at[i]..at[i] + 4].copy_from_slice(&bit(ws[i])) }
            let mut tag = read_any_tag_from_file_buffer(&tag_file(group, &body), ParseStrictness::Strict).unwrap();
            let said = nudge_tag(tag.as_mut());
            cx.step(); cx.state((group, n, case));
            let rounded: Vec<f64> = ws.iter().map(|w| six(*w as f64)).collect();
            let same = rounded.iter().all(|w| *w >= 0.0 && (w * n as f64 - 1.0).abs() <= 0.001);
            for i in 0..n { body[at[i]..at[i] + 4].copy_from_slice(&bit(if same { 1.0 } else { rounded[i] as f32 })) }
            if !cx.check(tag.to_tag_file().ok() == Some(tag_file(group, &body)), "weights", || format!("{ws:?} (all the same: {same})")) { return }
            let real = (0..n).any(|i| { let w = if same { 1.0 } else { rounded[i] }; w != ws[i] as f64 && !ws[i].is_nan() });
            if !cx.check(said == real, "truth", || format!("{ws:?}: said {said}, and it is {real}")) { return }
            cx.validated();
        } }
    });

    // the command
    ck.family("command", 1, |_| "all".into(), |_, cx| {
        let dir = case_dir("nudge");
        let make = |g: &str, v: f32| { let st = &spec().groups[g].strukt; let mut l = vec![]; let val = canonical(st, &generate(st, &mut vec![], &mut Distinct::new(2))); let mut b = serialize(st, &val, Some(&mut l)); for f in fields(g) { for at in l.iter().filter(|l| path_str(&l.path).starts_with(f) && !l.dead) { b[at.offset..at.offset + 4].copy_from_slice(&bit(v)) } } tag_file(g, &b) };
        for v in noisy {
            let groups: Vec<&str> = groups.iter().copied().filter(|g| !fields(g).is_empty() || *g == "bitmap").collect();
            let start: BTreeMap<String, Vec<u8>> = groups.iter().map(|g| (format!("a.{g}"), make(g, v))).collect();
            let want: BTreeMap<String, Vec<u8>> = groups.iter().map(|g| (format!("a.{g}"), make(g, six(v as f64) as f32))).collect();
            std::fs::create_dir_all(dir.join("tags")).unwrap();
            reset(&dir.join("tags"), &start);
            for round in 0..2 {
                let r = invader(&["nudge", "*", "-t", "tags"], &dir, &[("MC_NOSCHED", "1".into())]);
                cx.step(); cx.state((v.to_bits(), round));
                let got = files(&snapshot(&dir.join("tags")));
                cx.check(r.ok() && got == want, "command", || format!("{v:?}: {}; {:?} differ", r.brief(), want.iter().filter(|w| got.get(w.0) != Some(w.1)).map(|w| w.0).collect::<Vec<_>>()));
                cx.validated();
            }
        }
    });
    ck.finish();
}
