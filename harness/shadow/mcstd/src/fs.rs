pub use ::std::fs::*;

use ::std::convert::AsRef;
use ::std::io::{self, IoSlice, IoSliceMut, Read, Seek, SeekFrom, Write};
use ::std::option::Option::{self, None, Some};
use ::std::path::{Path, PathBuf};
use ::std::result::Result::{self, Err, Ok};
use ::std::string::String;
use ::std::time::SystemTime;
use ::std::vec::Vec;
use crate::rt::{active, Fault};

fn broken() -> io::Error {
    io::Error::from_raw_os_error(5)
}

/// Run one file-system action under the explorer.
fn action<T>(what: &str, path: &Path, f: impl FnOnce() -> io::Result<T>) -> io::Result<T> {
    let Some(rt) = active() else { return f() };
    match rt.fs(what, path, false) {
        Fault::None => f(),
        Fault::Error => Err(broken()),
        Fault::CrashBefore => rt.crash(),
        _ => {
            let _ = f();
            rt.crash()
        }
    }
}

pub fn read<P: AsRef<Path>>(path: P) -> io::Result<Vec<u8>> {
    let path = path.as_ref();
    action("read", path, || ::std::fs::read(path))
}

pub fn read_to_string<P: AsRef<Path>>(path: P) -> io::Result<String> {
    let path = path.as_ref();
    action("read", path, || ::std::fs::read_to_string(path))
}

fn write_all(path: &Path, contents: &[u8]) -> io::Result<()> {
    let Some(rt) = active() else { return ::std::fs::write(path, contents) };
    let part = |n: usize| { let _ = ::std::fs::write(path, &contents[..n]); };
    match rt.fs("write", path, true) {
        Fault::None => ::std::fs::write(path, contents),
        Fault::Error => Err(broken()),
        Fault::CrashBefore => rt.crash(),
        Fault::CrashAfter => { part(contents.len()); rt.crash() },
        Fault::TornEmpty => { part(0); rt.crash() },
        Fault::TornHalf => { part(contents.len() / 2); rt.crash() },
        Fault::TornMost => { part(contents.len().saturating_sub(1)); rt.crash() },
        Fault::TornError => { part(contents.len() / 2); Err(io::Error::from_raw_os_error(28)) }
    }
}

pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(path: P, contents: C) -> io::Result<()> {
    write_all(path.as_ref(), contents.as_ref())
}

pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q) -> io::Result<()> {
    let (from, to) = (from.as_ref(), to.as_ref());
    action("rename", from, || ::std::fs::rename(from, to))
}
pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q) -> io::Result<u64> {
    let (from, to) = (from.as_ref(), to.as_ref());
    action("copy", to, || ::std::fs::copy(from, to))
}
pub fn hard_link<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q) -> io::Result<()> {
    let (from, to) = (from.as_ref(), to.as_ref());
    action("link", to, || ::std::fs::hard_link(from, to))
}
pub fn create_dir<P: AsRef<Path>>(path: P) -> io::Result<()> {
    let path = path.as_ref();
    action("mkdir", path, || ::std::fs::create_dir(path))
}
pub fn create_dir_all<P: AsRef<Path>>(path: P) -> io::Result<()> {
    let path = path.as_ref();
    action("mkdir", path, || ::std::fs::create_dir_all(path))
}
pub fn remove_file<P: AsRef<Path>>(path: P) -> io::Result<()> {
    let path = path.as_ref();
    action("unlink", path, || ::std::fs::remove_file(path))
}
pub fn remove_dir<P: AsRef<Path>>(path: P) -> io::Result<()> {
    let path = path.as_ref();
    action("rmdir", path, || ::std::fs::remove_dir(path))
}
pub fn remove_dir_all<P: AsRef<Path>>(path: P) -> io::Result<()> {
    let path = path.as_ref();
    action("rmtree", path, || ::std::fs::remove_dir_all(path))
}
pub fn metadata<P: AsRef<Path>>(path: P) -> io::Result<Metadata> {
    ::std::fs::metadata(path)
}
pub fn exists<P: AsRef<Path>>(path: P) -> io::Result<bool> {
    path.as_ref().try_exists()
}

// ---------------------------------------------------------------- directories

/// Directory entries, in a repeatable order.
pub struct ReadDir(::std::vec::IntoIter<io::Result<DirEntry>>);
impl Iterator for ReadDir {
    type Item = io::Result<DirEntry>;
    fn next(&mut self) -> Option<Self::Item> { self.0.next() }
}

pub fn read_dir<P: AsRef<Path>>(path: P) -> io::Result<ReadDir> {
    let path = path.as_ref();
    let mut entries: Vec<io::Result<DirEntry>> = action("readdir", path, || ::std::fs::read_dir(path))?.collect();
    if active().is_some() {
        entries.sort_by_key(|e| e.as_ref().ok().map(|e| e.file_name()));
        if ::std::env::var("MC_DIR_REVERSE").is_ok() {
            entries.reverse();
        }
    }
    Ok(ReadDir(entries.into_iter()))
}

// ---------------------------------------------------------------- open files

#[derive(Debug)]
pub struct File {
    inner: ::std::fs::File,
    path: PathBuf
}

impl File {
    pub fn open<P: AsRef<Path>>(path: P) -> io::Result<File> {
        let path = path.as_ref();
        action("open", path, || ::std::fs::File::open(path)).map(|inner| File { inner, path: path.to_path_buf() })
    }
    pub fn create<P: AsRef<Path>>(path: P) -> io::Result<File> {
        let path = path.as_ref();
        action("create", path, || ::std::fs::File::create(path)).map(|inner| File { inner, path: path.to_path_buf() })
    }
    pub fn create_new<P: AsRef<Path>>(path: P) -> io::Result<File> {
        let path = path.as_ref();
        action("create", path, || ::std::fs::File::create_new(path)).map(|inner| File { inner, path: path.to_path_buf() })
    }
    pub fn options() -> OpenOptions { OpenOptions::new() }
    pub fn metadata(&self) -> io::Result<Metadata> { self.inner.metadata() }
    pub fn set_len(&self, n: u64) -> io::Result<()> { action("write", &self.path, || self.inner.set_len(n)) }
    pub fn sync_all(&self) -> io::Result<()> { action("sync", &self.path, || self.inner.sync_all()) }
    pub fn sync_data(&self) -> io::Result<()> { action("sync", &self.path, || self.inner.sync_data()) }
    pub fn set_modified(&self, t: SystemTime) -> io::Result<()> { self.inner.set_modified(t) }
    pub fn try_clone(&self) -> io::Result<File> { self.inner.try_clone().map(|inner| File { inner, path: self.path.clone() }) }
}

fn write_part(mut file: &::std::fs::File, path: &Path, contents: &[u8]) -> io::Result<usize> {
    let Some(rt) = active() else { return file.write(contents) };
    let mut part = |n: usize| { let _ = file.write_all(&contents[..n]); };
    match rt.fs("write", path, true) {
        Fault::None => file.write(contents),
        Fault::Error => Err(broken()),
        Fault::CrashBefore | Fault::TornEmpty => rt.crash(),
        Fault::CrashAfter => { part(contents.len()); rt.crash() },
        Fault::TornHalf => { part(contents.len() / 2); rt.crash() },
        Fault::TornMost => { part(contents.len().saturating_sub(1)); rt.crash() },
        Fault::TornError => { part(contents.len() / 2); Err(io::Error::from_raw_os_error(28)) }
    }
}

impl Read for File {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.inner.read(b) }
    fn read_vectored(&mut self, b: &mut [IoSliceMut<'_>]) -> io::Result<usize> { self.inner.read_vectored(b) }
    fn read_to_end(&mut self, b: &mut Vec<u8>) -> io::Result<usize> { action("read", &self.path.clone(), || self.inner.read_to_end(b)) }
}
impl Read for &File {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { (&self.inner).read(b) }
}
impl Write for File {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { write_part(&self.inner, &self.path, b) }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> io::Result<usize> {
        match b.iter().find(|b| !b.is_empty()) {
            Some(b) => write_part(&self.inner, &self.path, b),
            None => Ok(0)
        }
    }
    fn flush(&mut self) -> io::Result<()> { self.inner.flush() }
}
impl Write for &File {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { write_part(&self.inner, &self.path, b) }
    fn flush(&mut self) -> io::Result<()> { (&self.inner).flush() }
}
impl Seek for File {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> { self.inner.seek(s) }
}
impl Seek for &File {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> { (&self.inner).seek(s) }
}

#[derive(Clone, Debug)]
pub struct OpenOptions(::std::fs::OpenOptions, bool);
impl OpenOptions {
    pub fn new() -> Self { Self(::std::fs::OpenOptions::new(), false) }
    pub fn read(&mut self, v: bool) -> &mut Self { self.0.read(v); self }
    pub fn write(&mut self, v: bool) -> &mut Self { self.0.write(v); self }
    pub fn append(&mut self, v: bool) -> &mut Self { self.0.append(v); self }
    pub fn truncate(&mut self, v: bool) -> &mut Self { self.0.truncate(v); self.1 |= v; self }
    pub fn create(&mut self, v: bool) -> &mut Self { self.0.create(v); self.1 |= v; self }
    pub fn create_new(&mut self, v: bool) -> &mut Self { self.0.create_new(v); self.1 |= v; self }
    pub fn open<P: AsRef<Path>>(&self, path: P) -> io::Result<File> {
        let path = path.as_ref();
        action(if self.1 { "create" } else { "open" }, path, || self.0.open(path)).map(|inner| File { inner, path: path.to_path_buf() })
    }
}

#[allow(unused)]
fn _unused() -> Result<(), Option<()>> { Err(None) }
