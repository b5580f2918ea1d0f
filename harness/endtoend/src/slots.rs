//! Copies of /repo's working tree in which the generators run on generated descriptions.
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

/// Output of a command that ends within the limit: (success, output); None when it does not
pub fn run(cmd: &mut Command, limit: Duration) -> Option<(bool, String)> {
    let mut c = fw::die_together(cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped())).spawn().unwrap_or_else(|e| panic!("harness: cannot run {cmd:?}: {e}"));
    let mut e = c.stderr.take().unwrap();
    let t = std::thread::spawn(move || { let mut s = vec![]; let _ = e.read_to_end(&mut s); String::from_utf8_lossy(&s).into_owned() });
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            // ended from outside: no answer
            if let Some(9 | 15) = std::os::unix::process::ExitStatusExt::signal(&st) { return None; }
            return Some((st.success(), t.join().unwrap_or_default()));
        }
        if t0.elapsed() > limit { let _ = c.kill(); let _ = c.wait(); return None; }
        std::thread::sleep(Duration::from_millis(5));
    }
}
pub fn first_error(s: &str) -> String {
    let l: Vec<&str> = s.lines().collect();
    match l.iter().position(|l| l.starts_with("error") || l.contains("panicked at")) { Some(k) => l[k..(k + 6).min(l.len())].join(" ").chars().take(500).collect(), None => s.chars().take(300).collect() }
}

/// with at most so much memory
fn limited(c: &mut Command, bytes: u64) -> &mut Command {
    unsafe { std::os::unix::process::CommandExt::pre_exec(c, move || { libc::setrlimit(libc::RLIMIT_AS, &libc::rlimit { rlim_cur: bytes, rlim_max: bytes }); libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 }); Ok(()) }) }
}
pub struct Slot { pub dir: PathBuf, _lock: std::fs::File }
fn root(kind: &str) -> PathBuf { PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../..").to_string())).join("target").join(kind) }
fn stub(dir: &Path) {
    // the generators run rustfmt on what they write; that takes long and does not change what is written
    let d = dir.join("bin");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("rustfmt"), "#!/bin/sh\nexit 0\n").unwrap();
    std::fs::set_permissions(d.join("rustfmt"), <std::fs::Permissions as std::os::unix::fs::PermissionsExt>::from_mode(0o755)).unwrap();
}
impl Slot {
    /// one that no other thread or process uses
    pub fn acquire(kind: &str) -> Slot {
        static TAKEN: OnceLock<Mutex<()>> = OnceLock::new();
        let _g = TAKEN.get_or_init(Default::default).lock().unwrap_or_else(|e| e.into_inner());
        let sum = std::env::var("REPO_SUM").unwrap_or_else(|_| format!("{}", std::process::id()));
        for k in 0..64 {
            let dir = root(kind).join(k.to_string());
            std::fs::create_dir_all(&dir).unwrap();
            let lock = std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(dir.join("lock")).unwrap();
            if unsafe { libc::flock(lock.as_raw_fd(), libc::LOCK_EX | libc::LOCK_NB) } != 0 { continue; }
            if std::fs::read_to_string(dir.join(".sum")).ok().as_ref() != Some(&sum) {
                let ok = Command::new("bash").args(["-c", "set -e; rm -rf \"$1/tree\"; mkdir -p \"$1/tree\"; cd /repo; tar -cf - --exclude=target --exclude=node_modules --exclude=pkg Cargo.toml crates | tar -xmf - -C \"$1/tree\"; cp Cargo.lock \"$1/tree/\" 2>/dev/null || cp /opt/vp/Cargo.lock \"$1/tree/\" 2>/dev/null || true", "copy"]).arg(&dir).status().unwrap().success();
                assert!(ok, "harness: cannot copy the tree");
                stub(&dir);
                // the dependencies are built once
                let first = root(kind).join("deps");
                if k > 0 && !dir.join("t").exists() && first.exists() { let _ = Command::new("cp").arg("-a").arg(&first).arg(dir.join("t")).status(); }
                std::fs::write(dir.join(".sum"), &sum).unwrap();
            }
            return Slot { dir, _lock: lock };
        }
        panic!("harness: no slot");
    }
    pub fn tree(&self, p: &str) -> PathBuf { self.dir.join("tree").join(p) }
    pub fn put(&self, p: &str, text: &str) { std::fs::write(self.tree(p), text).unwrap_or_else(|e| panic!("harness: {p}: {e}")) }
    fn path(&self) -> String { format!("{}:{}", self.dir.join("bin").display(), std::env::var("PATH").unwrap_or_default()) }
    /// cargo build of a package of the tree
    pub fn cargo(&self, package: &str) -> Option<(bool, String)> {
        run(Command::new("cargo").current_dir(self.tree("")).args(["build", "--offline", "-q", "-p", package, "--target-dir"]).arg(self.dir.join("t"))
            .args(["--config", "profile.dev.debug=0", "--config", "profile.dev.package.automata.opt-level=1", "--config", "profile.dev.incremental=false"])
            .env_remove("RUSTFLAGS").env("CARGO_BUILD_JOBS", "4"), Duration::from_secs(400))
    }
    /// a generator of the tree
    pub fn generator(&self, name: &str) -> Option<(bool, String)> {
        run(limited(Command::new(self.dir.join("t/debug").join(name)).current_dir(self.tree("")).env("PATH", self.path()), 6 << 30), Duration::from_secs(60))
    }
    /// keep slot 0's build as the start of the others'
    pub fn share(&self, kind: &str) {
        let first = root(kind).join("deps");
        if self.dir.ends_with("0") { let _ = std::fs::remove_dir_all(&first); let _ = Command::new("cp").arg("-a").arg(self.dir.join("t")).arg(&first).status(); }
    }
}

/// A process that answers texts over pipes
pub struct Asked { child: Child, answers: std::sync::mpsc::Receiver<String> }
impl Asked {
    pub fn start(bin: &Path) -> Asked {
        let t0 = Instant::now();
        let mut child = loop {
            match fw::die_together(limited(&mut Command::new(bin), 2 << 30)).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
                Ok(c) => break c,
                // another thread's new process still holds the file open for writing until it runs its own program
                Err(e) if e.raw_os_error() == Some(libc::ETXTBSY) && t0.elapsed() < Duration::from_secs(20) => std::thread::sleep(Duration::from_millis(20)),
                Err(e) => panic!("harness: {}: {e}", bin.display()),
            }
        };
        let mut o = child.stdout.take().unwrap();
        let (tx, answers) = std::sync::mpsc::channel();
        std::thread::spawn(move || loop {
            let mut n = [0u8; 4];
            if o.read_exact(&mut n).is_err() { return; }
            let mut b = vec![0; u32::from_le_bytes(n) as usize];
            if o.read_exact(&mut b).is_err() || tx.send(String::from_utf8_lossy(&b).into_owned()).is_err() { return; }
        });
        Asked { child, answers }
    }
    /// Err: "died" or "hangs"; the process is of no more use then
    pub fn ask(&mut self, text: &str) -> Result<String, &'static str> {
        let mut b = (text.len() as u32).to_le_bytes().to_vec();
        b.extend(text.as_bytes());
        let i = self.child.stdin.as_mut().unwrap();
        if i.write_all(&b).is_err() || i.flush().is_err() { return Err("died"); }
        match self.answers.recv_timeout(Duration::from_secs(15)) {
            Ok(s) => Ok(s),
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => Err("hangs"),
            Err(_) => Err("died"),
        }
    }
}
impl Drop for Asked { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
