//! Running the real command-line tool (`invader-mc`: the unchanged sources over a controlled `std`), one process per execution.
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub struct Run { pub code: Option<i32>, pub signal: Option<i32>, pub out: String, pub err: String }
impl Run {
    pub fn ok(&self) -> bool { self.code == Some(0) }
    pub fn panicked(&self) -> bool { self.signal.is_some() || self.code == Some(101) || self.err.contains("MC-PANIC") }
    pub fn lines(&self) -> Vec<&str> { self.out.lines().collect() }
    pub fn brief(&self) -> String { crate::clip(&format!("exit {:?}{} out {:?} err {:?}", self.code, self.signal.map(|s| format!(" signal {s}")).unwrap_or_default(), self.out, self.err)) }
}
pub fn binary() -> PathBuf { std::env::var_os("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or_else(|| crate::verif_dir().join("target")).join("debug/invader-mc") }


/// Longest a single execution may take.
const PATIENCE_MS: i32 = 20_000;

pub fn invader<S: AsRef<std::ffi::OsStr>>(args: &[S], cwd: &Path, env: &[(&str, String)]) -> Run {
    let base = crate::scratch_root().join(format!("out{}", crate::slot()));
    let (fo, fe) = (base.with_extension("o"), base.with_extension("e"));
    let mut c = Command::new(binary());
    c.args(args).current_dir(cwd).env_clear().stdin(Stdio::null()).stdout(std::fs::File::create(&fo).unwrap()).stderr(std::fs::File::create(&fe).unwrap());
    c.env("RUST_BACKTRACE", "0");
    for (k, v) in env { c.env(k, v); }
    // no pre_exec: it would have to fork this whole process
    let mut child = c.spawn().unwrap_or_else(|e| panic!("{}: {e}", binary().display()));
    let mut late = false;
    unsafe {
        let fd = libc::syscall(libc::SYS_pidfd_open, child.id() as libc::pid_t, 0) as i32;
        if fd >= 0 {
            let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            let mut r; loop { r = libc::poll(&mut p, 1, PATIENCE_MS); if r >= 0 || *libc::__errno_location() != libc::EINTR { break } }
            if r == 0 { late = true; let _ = child.kill(); }
            libc::close(fd);
        }
    }
    let st = child.wait().unwrap();
    let read = |p: &Path| { let mut b = vec![]; let _ = std::fs::File::open(p).and_then(|f| f.take(1 << 22).read_to_end(&mut b)); String::from_utf8_lossy(&b).into_owned() };
    let mut err = read(&fe);
    if late { err += "MC-HANG: still running after 20 s\n" }
    Run { code: st.code(), signal: st.signal(), out: read(&fo), err }
}
