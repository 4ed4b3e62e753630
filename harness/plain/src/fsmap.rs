//! A directory tree as a map from relative paths to contents (`None`: a directory).
use std::collections::BTreeMap;
use std::path::Path;

pub type Fs = BTreeMap<String, Option<Vec<u8>>>;

pub fn snapshot(root: &Path) -> Fs {
    fn go(root: &Path, rel: String, out: &mut Fs) {
        for e in std::fs::read_dir(root).unwrap() {
            let e = e.unwrap();
            let r = if rel.is_empty() { e.file_name().to_string_lossy().into_owned() } else { format!("{rel}/{}", e.file_name().to_string_lossy()) };
            if e.file_type().unwrap().is_dir() { out.insert(r.clone(), None); go(&e.path(), r, out) } else { out.insert(r, Some(std::fs::read(e.path()).unwrap())); }
        }
    }
    let mut out = Fs::new(); go(root, String::new(), &mut out); out
}
/// Only the files.
pub fn files(fs: &Fs) -> BTreeMap<String, Vec<u8>> { fs.iter().filter_map(|(k, v)| v.clone().map(|v| (k.clone(), v))).collect() }
pub fn write_files<'a>(root: &Path, files: impl IntoIterator<Item = (&'a String, &'a Vec<u8>)>) {
    for (p, b) in files { let p = root.join(p); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(p, b).unwrap(); }
}
/// Empty the directory, then fill it.
pub fn reset<'a>(root: &Path, files: impl IntoIterator<Item = (&'a String, &'a Vec<u8>)>) {
    for e in std::fs::read_dir(root).unwrap() { let e = e.unwrap(); if e.file_type().unwrap().is_dir() { std::fs::remove_dir_all(e.path()).unwrap() } else { std::fs::remove_file(e.path()).unwrap() } }
    write_files(root, files)
}
/// What differs, for people.
pub fn differences(got: &BTreeMap<String, Vec<u8>>, want: &BTreeMap<String, Vec<u8>>) -> String {
    let mut v = vec![];
    for k in got.keys().chain(want.keys()).collect::<std::collections::BTreeSet<_>>() {
        match (got.get(k), want.get(k)) {
            (Some(_), None) => v.push(format!("+{k}")), (None, Some(_)) => v.push(format!("-{k}")),
            (Some(a), Some(b)) if a != b => v.push(format!("~{k} ({}/{} bytes, first at {:?}; {:?} / {:?})", a.len(), b.len(), a.iter().zip(b).position(|(x, y)| x != y), tail(a), tail(b))), _ => (),
        }
    }
    v.join(", ")
}
fn tail(b: &[u8]) -> String { String::from_utf8_lossy(&b[b.len().saturating_sub(40)..]).chars().map(|c| if c.is_control() { '.' } else { c }).collect() }
