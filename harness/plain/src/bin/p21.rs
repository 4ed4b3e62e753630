//! P21: decompiled scripts say what the compiled nodes say. needs: invader-mc
use mc::fsmap::*;
use mc::inv::invader;
use mc::*;
use ringhopper::definitions::*;
use ringhopper::primitives::dynamic::DynamicEnumImpl;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::scenario::decompile_scripts;
use std::collections::BTreeMap;

// ---- text ----

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
enum S { Atom(String), List(Vec<S>) }
use S::*;
fn atom(s: &str) -> S { Atom(s.into()) }
/// Read source text: lists, words, strings, comments. In strings, \" is a quotation mark if `escapes`.
fn read(text: &str, escapes: bool) -> Result<Vec<S>, String> {
    let b: Vec<char> = text.chars().collect();
    let mut stack: Vec<Vec<S>> = vec![vec![]];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            ' ' | '\t' | '\r' | '\n' => i += 1,
            ';' if b.get(i + 1) == Some(&'*') => { i += 2; loop { if i + 1 >= b.len() { return Err("comment without end".into()) } if b[i] == '*' && b[i + 1] == ';' { i += 2; break } i += 1 } }
            ';' => while i < b.len() && b[i] != '\n' && b[i] != '\r' { i += 1 },
            '(' => { stack.push(vec![]); i += 1 }
            ')' => { let l = stack.pop().unwrap(); stack.last_mut().ok_or("unbalanced")?.push(List(l)); i += 1 }
            '"' => {
                let mut s = String::new();
                i += 1;
                loop { match b.get(i) { None => return Err("string without end".into()), Some('"') => { i += 1; break } Some('\\') if escapes && b.get(i + 1) == Some(&'"') => { s.push('"'); i += 2 } Some(c) => { s.push(*c); i += 1 } } }
                stack.last_mut().unwrap().push(Atom(s));
            }
            _ => { let mut s = String::new(); while i < b.len() && !" \t\r\n();\"".contains(b[i]) { s.push(b[i]); i += 1 } stack.last_mut().unwrap().push(Atom(s)) }
        }
    }
    if stack.len() != 1 { return Err("unbalanced".into()) }
    Ok(stack.pop().unwrap())
}

// ---- compiled ----

/// An expression.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
enum X {
    /// Function (or script) and what it is given.
    Call(String, Vec<X>),
    /// Type, bits and string.
    Lit(&'static str, u32, Vec<u8>),
    /// Global (or local, if `true`) of a type.
    Var(bool, &'static str, String),
}
#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
struct Node { primitive: bool, flags: u16, kind: u16, next: Option<u16>, at: u32, data: u32 }
#[derive(Clone, Default)]
struct Code { nodes: Vec<Node>, strings: Vec<u8> }
fn kind(s: &str) -> u16 { ScenarioScriptValueType::str_vals().iter().position(|v| *v == s).unwrap() as u16 }
fn id(n: Option<u16>) -> u32 { match n { Some(n) => (0xe174u32 + n as u32) << 16 & 0x7fff0000 | 0x80000000 | n as u32, None => 0xffffffff } }
impl Code {
    fn string(&mut self, s: &[u8]) -> u32 { let at = self.strings.len() as u32; self.strings.extend_from_slice(s); self.strings.push(0); at }
    /// Put a list of expressions in; where it starts.
    fn block(&mut self, l: &[X], place: &mut dyn FnMut(usize) -> u16) -> Option<u16> {
        let mut next = None;
        for x in l.iter().rev() {
            let mut n = match x {
                X::Call(f, args) => {
                    let at = self.string(f.as_bytes());
                    let first = { let rest = self.block(args, place); let n = Node { primitive: true, flags: 1, kind: kind("function_name"), next: rest, at, data: 0xcdcdcdcd }; self.put(n, place) };
                    Node { primitive: false, flags: if f.starts_with('s') { 2 } else { 0 }, kind: kind("void"), next: None, at: 0, data: id(Some(first)) }
                }
                X::Lit(k, bits, s) => { let at = if s.is_empty() && *k != "string" { 0xffffff } else { self.string(s) }; Node { primitive: true, flags: 1 | if bits & 1 == 1 { 8 } else { 0 }, kind: kind(k), next: None, at, data: *bits } }
                X::Var(local, k, s) => { let at = self.string(s.as_bytes()); Node { primitive: true, flags: if *local { 17 } else { 5 }, kind: kind(k), next: None, at, data: 0x00070007 } }
            };
            n.next = next;
            next = Some(self.put(n, place));
        }
        next
    }
    fn put(&mut self, n: Node, place: &mut dyn FnMut(usize) -> u16) -> u16 {
        let at = place(self.nodes.len()) as usize;
        // all nodes which were put so far are where they should be; others are garbage
        self.nodes.push(Node { at: 0xfffffff, kind: 0, ..n.clone() });
        let _ = at;
        *self.nodes.last_mut().unwrap() = n;
        (self.nodes.len() - 1) as u16
    }
    /// Turn the order of the nodes around.
    fn mirror(&mut self, root: Option<u16>) -> Option<u16> {
        let n = self.nodes.len() as u16;
        let m = |i: Option<u16>| i.map(|i| n - 1 - i);
        self.nodes.reverse();
        for x in &mut self.nodes { x.next = m(x.next); if !x.primitive { x.data = id(m(Some(x.data as u16))) } }
        m(root)
    }
    fn syntax(&self, spare: usize) -> Vec<u8> {
        let max = self.nodes.len() + spare;
        let mut b = vec![0u8; 56 + max * 20];
        b[..11].copy_from_slice(b"script node");
        b[32..34].copy_from_slice(&(max as u16).to_be_bytes()); b[34..36].copy_from_slice(&20u16.to_be_bytes()); b[36] = 1; b[40..44].copy_from_slice(b"d@t@");
        b[46..48].copy_from_slice(&(self.nodes.len() as u16).to_be_bytes()); b[48..50].copy_from_slice(&(self.nodes.len() as u16).to_be_bytes());
        for (i, n) in self.nodes.iter().enumerate() {
            let o = 56 + i * 20;
            b[o..o + 2].copy_from_slice(&(0xe174u16.wrapping_add(i as u16)).to_be_bytes());
            b[o + 4..o + 6].copy_from_slice(&n.kind.to_be_bytes()); b[o + 6..o + 8].copy_from_slice(&n.flags.to_be_bytes());
            b[o + 8..o + 12].copy_from_slice(&id(n.next).to_be_bytes()); b[o + 12..o + 16].copy_from_slice(&n.at.to_be_bytes()); b[o + 16..o + 20].copy_from_slice(&n.data.to_be_bytes());
        }
        for o in 56 + self.nodes.len() * 20..b.len() { b[o] = 0xca }
        b
    }
}
/// What an expression says; nothing for a value which is nothing.
fn say(x: &X) -> Option<S> {
    Some(match x {
        X::Call(f, a) => List(std::iter::once(atom(f)).chain(a.iter().filter_map(say)).collect()),
        X::Var(_, _, n) => atom(n),
        X::Lit(k, bits, s) => match *k {
            "void" => return None,
            "boolean" => atom(if bits & 0xff != 0 { "true" } else { "false" }),
            "short" => atom(&(*bits as u16 as i16).to_string()), "long" => atom(&(*bits as i32).to_string()),
            "real" => atom(&format!("#{:08x}", bits)),
            _ => atom(&String::from_utf8_lossy(s).replace('\u{FFFD}', "?")),
        }
    })
}
#[derive(Clone)]
struct Script { name: String, kind: &'static str, returns: &'static str, params: Vec<(String, &'static str)>, body: Vec<X> }
#[derive(Clone)]
struct Global { name: String, kind: &'static str, value: Vec<X> }
#[derive(Clone, Default)]
struct Source { globals: Vec<Global>, scripts: Vec<Script> }
impl Source {
    fn scenario(&self, mirror: bool, spare: usize) -> Scenario {
        let mut s = Scenario::default();
        let mut code = Code::default();
        let mut roots = vec![];
        for g in &self.globals { roots.push(code.block(&g.value, &mut |i| i as u16)); }
        for g in &self.scripts { roots.push(code.block(&g.body, &mut |i| i as u16)); }
        if mirror { let n = code.nodes.len() as u16; code.mirror(None); for r in &mut roots { *r = r.map(|r| n - 1 - r) } }
        let mut r = roots.into_iter();
        for g in &self.globals { let mut x = ScenarioGlobal::default(); x.name = String32::from_str(&g.name).unwrap(); x._type = ScenarioScriptValueType::from_str(g.kind).unwrap(); x.initialization_expression_index = id_of(r.next().unwrap()); s.globals.items.push(x) }
        for g in &self.scripts {
            let mut x = ScenarioScript::default(); x.name = String32::from_str(&g.name).unwrap(); x.script_type = ScenarioScriptType::from_str(g.kind).unwrap(); x.return_type = ScenarioScriptValueType::from_str(g.returns).unwrap();
            x.root_expression_index = id_of(r.next().unwrap());
            for p in &g.params { let mut y = ScenarioScriptParameter::default(); y.name = String32::from_str(&p.0).unwrap(); y.return_type = ScenarioScriptValueType::from_str(p.1).unwrap(); x.parameters.items.push(y) }
            s.scripts.items.push(x)
        }
        s.script_syntax_data.bytes = code.syntax(spare); s.script_string_data.bytes = code.strings;
        s
    }
    fn want(&self) -> Vec<S> {
        let mut l = vec![];
        for g in &self.globals { l.push(List(["global", g.kind, &g.name].iter().map(|s| atom(s)).chain(g.value.iter().filter_map(say)).collect())) }
        for s in &self.scripts {
            let mut v = vec![atom("script"), atom(s.kind)];
            if matches!(s.kind, "static" | "stub") { v.push(atom(s.returns)) }
            if s.params.is_empty() { v.push(atom(&s.name)) } else { v.push(List(std::iter::once(atom(&s.name)).chain(s.params.iter().map(|p| List(vec![atom(p.1), atom(&p.0)]))).collect())) }
            // what is done one after the other in a script needs no begin
            for x in &s.body { match x { X::Call(f, a) if f == "begin" => v.extend(a.iter().filter_map(say)), x => v.extend(say(x)) } }
            l.push(List(v))
        }
        l
    }
}
fn id_of(n: Option<u16>) -> ID { ID::from_u32(id(n)) }
/// The numbers in a text are those?
fn matches(got: &S, want: &S) -> bool {
    match (got, want) {
        (Atom(g), Atom(w)) if w.starts_with('#') && w.len() == 9 => { let b = u32::from_str_radix(&w[1..], 16).unwrap(); let f = f32::from_bits(b); g.parse::<f32>().is_ok_and(|g| g.to_bits() == b || g.is_nan() && f.is_nan()) }
        (Atom(g), Atom(w)) => g == w,
        (List(g), List(w)) => g.len() == w.len() && g.iter().zip(w).all(|(g, w)| matches(g, w)),
        _ => false
    }
}
/// All source text, put together.
fn text(s: &Scenario) -> Result<(Vec<String>, String), String> {
    let mut all = String::new();
    let mut names = vec![];
    for f in &s.source_files.items { names.push(f.name.as_str().to_string()); all += std::str::from_utf8(&f.source.bytes).map_err(|_| "not text")?; }
    Ok((names, all))
}
fn judge(cx: &mut Cx, src: &Source, what: impl Fn() -> String) -> bool {
    for mirror in [false, true] { for spare in [0, 3] {
        let mut s = src.scenario(mirror, spare);
        let before = s.to_tag_file().unwrap();
        cx.step(); cx.validated(); if !mirror && spare == 0 { cx.state(hash_of(&before)) }
        match guard(|| decompile_scripts(&mut s, "bsp test")) {
            Err(e) => { cx.fail("panic", format!("{}: {e}", what())); return false }
            Ok(Err(e)) => { cx.fail("refused", format!("{}: {e}", what())); return false }
            Ok(Ok(())) => ()
        }
        let (names, t) = match text(&s) { Ok(t) => t, Err(e) => { cx.fail("text", e); return false } };
        let want = src.want();
        let n = s.source_files.items.len();
        if want.is_empty() { if n != 0 { cx.fail("text", "text without scripts"); return false } continue }
        if names != ["bsp test"] { cx.fail("names", format!("{names:?}")); return false }
        let escapes = src_has_quotes(&want);
        match read(&t, escapes) { Ok(got) if got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| matches(a, b)) => (), got => { cx.fail("text", format!("{}: {}\nis {got:?}\nnot {want:?}", what(), t.split("*;").nth(1).unwrap_or(""))); return false } }
        // nothing else is changed
        s.source_files.items.clear();
        if s.to_tag_file().unwrap() != before { cx.fail("changed", what()); return false }
    } }
    true
}
fn src_has_quotes(l: &[S]) -> bool { l.iter().any(|s| match s { Atom(a) => a.contains('"'), List(l) => src_has_quotes(l) }) }

// ---- shapes ----

/// All lists of expressions of exactly that many nodes.
fn lists(n: usize, leaves: &[X], names: &[&str]) -> Vec<Vec<X>> {
    if n == 0 { return vec![vec![]] }
    let mut out = vec![];
    for first in 1..=n {
        for x in exprs(first, leaves, names) { for rest in lists(n - first, leaves, names) { let mut v = vec![x.clone()]; v.extend(rest); out.push(v) } }
    }
    out
}
fn exprs(n: usize, leaves: &[X], names: &[&str]) -> Vec<X> {
    match n { 1 => leaves.to_vec(), _ => lists(n - 2, leaves, names).into_iter().flat_map(|l| names.iter().map(move |f| X::Call(f.to_string(), l.clone()))).collect() }
}
fn script(body: Vec<X>) -> Script { Script { name: "me".into(), kind: "startup", returns: "void", params: vec![], body } }
fn one(x: X) -> Source { Source { globals: vec![], scripts: vec![script(vec![x])] } }
fn call(f: &str, a: Vec<X>) -> X { X::Call(f.into(), a) }
fn string(s: &[u8]) -> X { X::Lit("string", 0, s.to_vec()) }

fn main() {
    let mut ck = Check::new("P21");
    let leaves = [X::Lit("boolean", 1, vec![]), X::Lit("void", 0, vec![]), X::Var(false, "short", "count".into()), X::Lit("string", 0, b"a b".to_vec())];
    let names = ["begin", "if", "some_script"];
    let most = ck.pick(8usize, 10);
    for n in 0..=most {
        let few = if n > 6 { &leaves[..2] } else { &leaves[..] };
        let all = lists(n, few, &names);
        ck.items(&format!("bodies of {n} nodes"), &all, |l| format!("{l:?}"), |l, cx| {
            let g = |v: Vec<X>| Global { name: "g".into(), kind: "boolean", value: v };
            if l.is_empty() { judge(cx, &Source::default(), || "nothing".into()); return }
            judge(cx, &Source { globals: vec![], scripts: vec![script(l.clone())] }, || format!("script {l:?}"));
            judge(cx, &Source { globals: vec![g(l.clone())], scripts: vec![] }, || format!("global {l:?}"));
            if n < 4 { judge(cx, &Source { globals: vec![g(l.clone()), Global { name: "h".into(), kind: "real", value: vec![X::Lit("real", 0, vec![])] }], scripts: vec![script(vec![leaves[3].clone()]), Script { name: "last".into(), ..script(l.clone()) }] }, || format!("both {l:?}")); }
        });
    }
    // values
    let bits: Vec<u32> = vec![0, 1, 2, 0xff, 0x100, 0x1_0000, 0xffff, 0x7fff, 0x8000, 0x7fffffff, 0x80000000, 0xffffffff, 0x3f800000, 0x3dcccccd, 0xbf800000, 0x00800000, 0x007fffff, 0x7f7fffff, 0x4b800001, 0x3eaaaaab, 0x501502f9, 0x80000001, 0x12345678, 0xff7fffff];
    let kinds = ScenarioScriptValueType::str_vals();
    ck.items("values", kinds, |k| k.to_string(), |k, cx| for b in &bits { for s in [&b"0"[..], b"none", b"", b"weapons\\gun\\gun", b"\xe9\xff", "\u{1F600}x".as_bytes()] {
        if s.is_empty() && !matches!(*k, "boolean" | "real" | "short" | "long" | "void" | "string") { continue }
        let x = X::Lit(k, *b, s.to_vec());
        judge(cx, &one(call("f", vec![x.clone(), X::Lit("short", 7, vec![])])), || format!("{x:?}"));
        judge(cx, &Source { globals: vec![Global { name: "g".into(), kind: k, value: vec![x.clone()] }], scripts: vec![] }, || format!("{x:?}"));
        let v = [X::Var(false, k, "number".into()), X::Var(true, k, "local".into())];
        judge(cx, &one(call("f", v.to_vec())), || format!("{v:?}"));
    } });
    // all strings of a few characters, in all places
    let alphabet: Vec<&[u8]> = vec![b"a", b" ", b"(", b")", b";", b"*", b"\"", b"\t", b"\n", b"\\", b"0"];
    let len = ck.pick(5usize, 6);
    let total: usize = (0..=len).map(|n| alphabet.len().pow(n as u32)).sum();
    let nth = |mut i: usize| -> Vec<u8> { let mut n = 0; while i >= alphabet.len().pow(n) { i -= alphabet.len().pow(n); n += 1 } digits(i, &vec![alphabet.len(); n as usize]).into_iter().flat_map(|d| alphabet[d].to_vec()).collect() };
    // the text has no way to say a backslash before a quotation mark
    let sayable = |s: &[u8]| !s.contains(&b'"') || !s.contains(&b'\\');
    ck.family("strings", total, |i| format!("{:?}", String::from_utf8_lossy(&nth(i))), |i, cx| {
        let s = nth(i);
        if !sayable(&s) { return }
        judge(cx, &one(call("print", vec![string(&s), X::Lit("short", 5, vec![])])), || format!("{:?}", String::from_utf8_lossy(&s)));
        if s.len() < 4 && !s.is_empty() {
            let t = String::from_utf8(s.clone()).unwrap();
            judge(cx, &one(X::Lit("sound", 0, s.clone())), || format!("value {t:?}"));
            judge(cx, &one(call("f", vec![X::Var(s.len() % 2 == 1, "real", t.clone())])), || format!("variable {t:?}"));
            judge(cx, &one(call("g", vec![call(&t, vec![])])), || format!("function {t:?}"));
            judge(cx, &Source { globals: vec![Global { name: t.clone(), kind: "short", value: vec![X::Lit("short", 1, vec![])] }], scripts: vec![] }, || format!("global {t:?}"));
            for k in ["startup", "static"] { for p in [vec![], vec![(t.clone(), "real")]] {
                judge(cx, &Source { globals: vec![], scripts: vec![Script { name: t.clone(), kind: k, returns: "short", params: p.clone(), body: vec![X::Lit("short", 1, vec![])] }] }, || format!("script {t:?} {p:?}"));
            } }
        }
    });
    // headers
    let words = ["s", "script", "static", "stub", "global", "begin", "name-with-31-characters-in-it-o"];
    let kinds5 = ScenarioScriptType::str_vals();
    ck.family("headers", kinds5.len() * kinds.len() * words.len() * 4, |i| format!("{i}"), |i, cx| {
        let d = digits(i, &[kinds5.len(), kinds.len(), words.len(), 4]);
        for long in [1usize, 8, 30] {
            let body = vec![call("begin", (0..long).map(|i| X::Lit("short", i as u32, vec![])).collect())];
            let params = (0..d[3]).map(|p| (format!("{}{p}", &words[d[2]][..words[d[2]].len().min(30)]), kinds[(d[1] + p) % kinds.len()])).collect();
            let s = Script { name: words[d[2]].into(), kind: kinds5[d[0]], returns: kinds[d[1]], params, body };
            judge(cx, &Source { globals: vec![Global { name: words[d[2]].into(), kind: kinds[d[1]], value: vec![X::Lit("short", 1, vec![])] }], scripts: vec![s.clone(), Script { name: "other".into(), ..s.clone() }] }, || format!("{:?} {} {}", d, s.kind, s.name));
        }
    });
    // lengths and depths around where text is broken into lines
    ck.family("lines", 40 * 12 * 4, |i| format!("{i}"), |i, cx| {
        let d = digits(i, &[40, 12, 4]);
        let flat: Vec<X> = (0..d[0]).map(|i| match d[2] { 0 => X::Lit("short", i as u32, vec![]), 1 => string(b"("), 2 => call("f", vec![]), _ => if i % 3 == 0 { call("and", vec![string(b")")]) } else { string(b"") } }).collect();
        let mut x = call("deep", flat);
        for k in 0..d[1] { let mut a = vec![x.clone()]; if k % 3 == 0 { a.push(X::Lit("boolean", 0, vec![])) } if k % 4 == 2 { a.insert(0, X::Var(false, "real", "v".into())) } x = call(["if", "begin", "+"][k % 3], a) }
        judge(cx, &one(x.clone()), || format!("{d:?}"));
        judge(cx, &Source { globals: vec![Global { name: "g".into(), kind: "real", value: vec![x.clone()] }], scripts: vec![] }, || format!("{d:?}"));
    });
    // names of files, and how many there are
    let scenario_names: Vec<String> = (0..=33).map(|n| "abcdefghijklmnopqrstuvwxyz0123456789"[..n].to_string()).chain(["é".repeat(15), "é".repeat(16), format!("{}é", "x".repeat(29)), "\u{1F600}".repeat(7), format!("{}{}", "y".repeat(15), "\u{1F600}".repeat(4))]).collect();
    let sizes = ck.pick(vec![1usize, 3], vec![1, 2, 3, 11]);
    let items: Vec<(String, usize)> = scenario_names.iter().flat_map(|n| sizes.iter().map(move |s| (n.clone(), *s))).collect();
    ck.items("files", &items, |(n, s)| format!("{n} {s}"), |(name, pages), cx| {
        // each script is a bit more than half a page
        let body = |i: usize| vec![call("begin", (0..300).map(|k| string(format!("{i} {k} {}", "long ".repeat(180)).as_bytes())).collect())];
        let count = if *pages == 1 { 1 } else { 2 * pages - 1 };
        let src = Source { globals: vec![], scripts: (0..count).map(|i| Script { name: format!("s{i}"), ..script(body(i)) }).collect() };
        let mut s = src.scenario(false, 0);
        s.source_files.items.push(ScenarioSourceFile { name: String32::from_str("old").unwrap(), source: Data::new(vec![1]) });
        cx.step(); cx.validated(); cx.state((name, pages));
        match guard(|| decompile_scripts(&mut s, name)) {
            Err(e) => cx.fail("panic", e),
            Ok(Err(e)) => { cx.check(name.len() > 31, "refused", || format!("{e}")); cx.check(s.source_files.items.len() == 1, "changed", || "text was lost".into()); }
            Ok(Ok(())) => {
                if name.len() > 31 { cx.fail("names", "too long, but not refused"); return }
                let n = s.source_files.items.len();
                cx.check(n == *pages, "files", || format!("{n} files"));
                let mut got = vec![];
                for f in &s.source_files.items { match read(&String::from_utf8_lossy(&f.source.bytes), false) { Ok(g) => got.extend(g), Err(e) => cx.fail("text", e) } cx.check(n == 1 || f.source.bytes.len() < 1 << 20, "files", || format!("{} bytes", f.source.bytes.len())); }
                let want = src.want();
                cx.check(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| matches(a, b)), "text", || "differs".into());
                for (i, f) in s.source_files.items.iter().enumerate() {
                    let f = f.name.as_str();
                    let ok = if n == 1 { f == name } else { f.strip_suffix(&format!("-{}", i + 1)).is_some_and(|p| name.starts_with(p) && (p == name || p.len() > 16)) };
                    cx.check(ok, "names", || format!("{f:?} of {name:?}"));
                }
            }
        }
    });
    // two things of a name
    ck.family("names", 3usize.pow(6), |i| format!("{i}"), |i, cx| {
        let d = digits(i, &[3; 6]);
        let n = |k: usize| ["a", "A", "b"][d[k]].to_string();
        let g = |k| Global { name: n(k), kind: "short", value: vec![X::Lit("short", 0, vec![])] };
        let s = |k| Script { name: n(k), ..script(vec![X::Lit("short", 0, vec![])]) };
        let src = Source { globals: vec![g(0), g(1), g(2)], scripts: vec![s(3), s(4), s(5)] };
        let twice = |a: usize| (a..a + 3).any(|i| (a..i).any(|j| d[i] == d[j]));
        let mut sc = src.scenario(false, 0);
        cx.step(); cx.validated(); cx.state(i);
        match guard(|| decompile_scripts(&mut sc, "x")) { Err(e) => cx.fail("panic", e), Ok(r) => { cx.check(r.is_err() == (twice(0) || twice(3)), "duplicate", || format!("{d:?}: {r:?}")); } }
    });
    // all graphs of a few nodes
    let n = 4usize;
    let roots = ck.pick(2, n + 2);
    let per = (n + 2) + (n + 2) * (n + 2);
    let links = |d: usize| -> Option<u16> { if d == 0 { None } else { Some(d as u16 - 1) } };
    let graph = move |i: usize| -> (Vec<(bool, usize, usize)>, usize) { let mut w = vec![per; n]; w.push(n + 2); let d = digits(i, &w); (d[..n].iter().map(|d| if *d < n + 2 { (true, *d, 0) } else { (false, (*d - n - 2) / (n + 2), (*d - n - 2) % (n + 2)) }).collect(), d[n]) };
    ck.family("graphs", per.pow(n as u32) * roots, |i| format!("{:?}", graph(i)), |i, cx| {
        let (g, root) = graph(i);
        let mut code = Code::default();
        code.strings = b"n0\0n1\0n2\0n3\0".to_vec();
        for (k, (primitive, next, child)) in g.iter().enumerate() { code.nodes.push(Node { primitive: *primitive, flags: *primitive as u16, kind: kind("string"), next: links(*next), at: k as u32 * 3, data: if *primitive { 0 } else { id(links(*child)) } }) }
        let mut s = Scenario::default();
        let mut x = ScenarioScript::default(); x.name = String32::from_str("me").unwrap(); x.root_expression_index = id_of(links(root)); s.scripts.items.push(x);
        s.script_syntax_data.bytes = code.syntax(1); s.script_string_data.bytes = code.strings.clone();
        // unroll it
        fn unroll(g: &[(bool, usize, usize)], at: usize, on: &mut Vec<usize>, seen: &mut Vec<usize>, out: &mut Vec<S>) -> bool {
            let mut at = at;
            let depth = on.len();
            loop {
                if at == 0 { break }
                let k = at - 1;
                if k >= g.len() || on.contains(&k) { on.truncate(depth); return false }
                on.push(k); seen.push(k);
                if g[k].0 { out.push(atom(&format!("n{k}"))) } else { let mut l = vec![]; if g[k].2 == 0 || !unroll(g, g[k].2, on, seen, &mut l) { on.truncate(depth); return false } out.push(List(l)) }
                at = g[k].1;
            }
            on.truncate(depth);
            true
        }
        let (mut seen, mut body) = (vec![], vec![]);
        let fine = root != 0 && unroll(&g, root, &mut vec![], &mut seen, &mut body);
        let shared = (0..seen.len()).any(|i| seen[..i].contains(&seen[i]));
        cx.step(); cx.validated(); cx.state(i);
        match guard(|| decompile_scripts(&mut s, "x")) {
            Err(e) => cx.fail("panic", format!("{g:?} {root}: {e}")),
            Ok(Err(e)) => { cx.check(!fine || shared, "refused", || format!("{g:?} {root}: {e}")); }
            Ok(Ok(())) => if !fine { cx.fail("malformed", format!("{g:?} {root} is taken")) } else {
                let want = vec![List([atom("script"), atom("startup"), atom("me")].into_iter().chain(body).collect())];
                let got = text(&s).and_then(|t| read(&t.1, false));
                cx.check(got.as_ref() == Ok(&want), "text", || format!("{g:?} {root}: {got:?}"));
            }
        }
    });
    // broken data: each byte of the table and nodes, each string offset, each length
    let src = Source { globals: vec![Global { name: "g".into(), kind: "boolean", value: vec![X::Lit("boolean", 1, vec![])] }], scripts: vec![script(vec![call("begin", vec![call("if", vec![X::Var(false, "boolean", "g".into()), string(b"yes"), call("sleep", vec![X::Lit("short", 30, vec![])])])])])] };
    let base = src.scenario(false, 2);
    let size = base.script_syntax_data.bytes.len();
    ck.family("bytes", size, |i| format!("{i}"), |i, cx| for v in 0..=255u8 {
        let mut s = base.clone();
        if s.script_syntax_data.bytes[i] == v { continue }
        s.script_syntax_data.bytes[i] = v;
        cx.step(); cx.validated(); cx.state((i, v));
        let r = guard(|| decompile_scripts(&mut s, "x"));
        if let Err(e) = &r { cx.fail("panic", format!("byte {i} is {v}: {e}")) }
        // the name of the table, what it says about memory, and unused nodes are all the same
        let node = i.wrapping_sub(56) % 20;
        let used = (size - 56) / 20 - 2;
        if i < 32 || (36..46).contains(&i) || (48..56).contains(&i) || i >= 56 + used * 20 || i >= 56 && node < 4 { cx.check(matches!(r, Ok(Ok(()))), "refused", || format!("byte {i} is {v}: {r:?}")); }
        if (32..36).contains(&i) { cx.check(matches!(r, Ok(Err(_))), "table", || format!("byte {i} is {v}")); }
    });
    ck.family("cut", size * 2 + base.script_string_data.bytes.len() + 1, |i| format!("{i}"), |i, cx| {
        let mut s = base.clone();
        let whole = if i < size { s.script_syntax_data.bytes.truncate(i); false } else if i < 2 * size { s.script_syntax_data.bytes.resize(i + 1, 0); i + 1 == size } else { s.script_string_data.bytes.truncate(i - 2 * size); i - 2 * size == base.script_string_data.bytes.len() };
        cx.step(); cx.validated(); cx.state(i);
        match guard(|| decompile_scripts(&mut s, "x")) { Err(e) => cx.fail("panic", format!("{i}: {e}")), Ok(r) => { cx.check(whole == r.is_ok(), "cut", || format!("{i}: {r:?}")); } }
    });
    // graphs on which it is easy to spend forever, or to run out of stack or memory: through the program, which says whether it can be repaired
    let sizes = ck.pick(vec![1usize, 2, 16, 64, 200, 1000, 20000, 65535], vec![1, 2, 3, 8, 16, 30, 40, 64, 100, 200, 250, 256, 300, 500, 1000, 5000, 20000, 40000, 65534, 65535]);
    let items: Vec<(usize, usize)> = (0..8).flat_map(|k| sizes.iter().map(move |s| (k, *s))).collect();
    ck.items("large", &items, |(k, n)| format!("{k} {n}"), |(k, n), cx| {
        let (k, n) = (*k, *n);
        let mut code = Code { nodes: vec![], strings: b"f\0".to_vec() };
        let p = |next: Option<usize>| Node { primitive: true, flags: 1, kind: kind("string"), next: next.map(|n| n as u16), at: 0, data: 0 };
        let c = |child: usize, next: Option<usize>| Node { primitive: false, flags: 0, kind: kind("void"), next: next.map(|n| n as u16), at: 0, data: id(Some(child as u16)) };
        match k {
            0 => for i in 0..n { code.nodes.push(p(if i + 1 < n { Some(i + 1) } else { None })) }, // a long list
            1 => { for i in 0..n - 1 { code.nodes.push(c(i + 1, None)) } code.nodes.push(p(None)) } // deep
            2 => { let m = n / 2; for i in 0..m { code.nodes.push(c(2 * i + 2, Some(2 * i + 1))); code.nodes.push(c(2 * i + 2, None)) } code.nodes.push(p(None)); } // everything twice
            3 => for i in 0..n { code.nodes.push(c(0, if i + 1 < n { Some(i + 1) } else { None })) }, // each calls the first
            4 => for i in 0..n { code.nodes.push(p(Some((i + 1) % n))) }, // a loop
            5 => { for i in 0..n { code.nodes.push(c(n - 1, if i + 1 < n { Some(i + 1) } else { None })) } let l = code.nodes.len() - 1; code.nodes[l] = p(None) } // the last one over and over
            7 => for i in 0..60000 { code.nodes.push(p(if i + 1 < 60000 { Some(i + 1) } else { None })) }, // the same list in many scripts
            _ => { let m = n.div_ceil(3); for i in 0..m { code.nodes.push(c(m + 2 * i, if i + 1 < m { Some(i + 1) } else { None })) } for i in 0..m { code.nodes.push(p(Some(m + 2 * i + 1))); code.nodes.push(p(None)) } } // many small calls
        }
        if code.nodes.len() > 65535 { return }
        let mut s = Scenario::default();
        let mut x = ScenarioScript::default(); x.name = String32::from_str("me").unwrap(); x.root_expression_index = id_of(Some(0)); s.scripts.items.push(x);
        s.script_syntax_data.bytes = code.syntax(0); s.script_string_data.bytes = code.strings;
        if k == 7 { if n > 5000 { return } for i in 0..n { let mut x = s.scripts.items[0].clone(); x.name = String32::from_str(&format!("s{i}")).unwrap(); s.scripts.items.push(x) } }
        let dir = case_dir("p21");
        let tree: BTreeMap<String, Vec<u8>> = BTreeMap::from([("tags/a/b.scenario".to_string(), s.to_tag_file().unwrap())]);
        reset(&dir, &tree);
        let start = std::time::Instant::now();
        let r = invader(&["bludgeon", "a/b.scenario"], &dir, &[("MC_NOSCHED", "1".into())]);
        cx.step(); cx.validated(); cx.state((k, n));
        cx.check(!r.panicked(), "crash", || r.brief());
        cx.check(start.elapsed().as_secs() < 60, "endless", || format!("{:?}", start.elapsed()));
        let got = files(&snapshot(&dir));
        let changed = got != tree;
        // lists and small calls are fine; loops are not
        match k { 0 | 6 => { cx.check(changed, "refused", || r.brief()); } 1 if n <= 200 => { cx.check(changed, "refused", || r.brief()); } 3 | 4 => { cx.check(!changed, "loop", || r.brief()); } _ => () }
        cx.check(got.values().map(|v| v.len()).sum::<usize>() < (1 << 28), "memory", || "a very large file".into());
        let _ = std::fs::remove_dir_all(&dir);
    });
    ck.finish();
}
