//! Runs an unmodified binary on the simulated OS (libsimos, preloaded) and reads back its history.
use crate::rng::hash_bytes;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::process::{Command, Stdio};

pub fn root() -> PathBuf {
    let base = std::env::var("NSIM_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| {
        let shm = PathBuf::from("/dev/shm");
        let b = if shm.is_dir() { shm } else { std::env::temp_dir() };
        b.join("nsim-lone")
    });
    base.join(format!("p{:08}", std::process::id()))
}

/// A fresh, empty scratch directory of this process.
pub fn fresh() -> std::io::Result<PathBuf> {
    let d = root();
    let run = d.join("run");
    if run.exists() {
        std::fs::remove_dir_all(&run)?;
    }
    std::fs::create_dir_all(&run)?;
    Ok(d)
}

pub fn done() {
    let _ = std::fs::remove_dir_all(root());
}

pub fn target(p: &str) -> PathBuf {
    crate::runner::verif_dir().join("target").join(p)
}

#[derive(Clone, Debug)]
pub struct HLine {
    pub t: u64,
    pub k: String,
    pub a: String,
}

#[derive(Clone, Debug, Default)]
pub struct Hist {
    pub lines: Vec<HLine>,
    /// how the run ended: done, exit, abort, deadlock, time, steps, hang, signal-N
    pub end: String,
    pub code: i32,
    pub counters: BTreeMap<String, u64>,
    /// hash of everything recorded
    pub print: u64,
    /// hash of the schedule
    pub sched: u64,
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let d = |c: u8| (c as char).to_digit(16).unwrap_or(0) as u8;
    b.chunks_exact(2).map(|p| d(p[0]) << 4 | d(p[1])).collect()
}

const CPU_LIMIT: u64 = 60;

/// Run `bin args` with the simulator configuration `conf`; the working directory is scratch/run.
pub fn run(bin: &PathBuf, args: &[&str], conf: &str) -> Result<Hist, String> {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let d = root();
    let cf = d.join("conf");
    let hf = d.join("hist");
    std::fs::write(&cf, conf).map_err(|e| e.to_string())?;
    let so = target("simos/release/libsimos.so");
    if !so.exists() || !bin.exists() {
        return Err(format!("not built: {} or {}", so.display(), bin.display()));
    }
    let mut c = Command::new(bin);
    c.args(args)
        .env_clear()
        .env("LD_PRELOAD", &so)
        .env("SIMOS_CONF", &cf)
        .env("SIMOS_HIST", &hf)
        .current_dir(d.join("run"))
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            libc::personality(0x0040000);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let l = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            libc::alarm(400);
            Ok(())
        });
    }
    let mut child = c.spawn().map_err(|e| e.to_string())?;
    let st = child.wait().map_err(|e| e.to_string())?;
    let raw = read_history(&hf)?;
    let mut h = Hist { code: st.code().unwrap_or(-1), ..Default::default() };
    h.print = hash_bytes(&raw);
    let text = String::from_utf8_lossy(&raw);
    for l in text.lines() {
        let mut p = l.splitn(3, ' ');
        let t: u64 = p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
        let k = p.next().unwrap_or("").to_string();
        let a = p.next().unwrap_or("").to_string();
        match k.as_str() {
            "N" => {
                if let Some((n, v)) = a.split_once(' ') {
                    *h.counters.entry(n.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                }
            }
            "H" => h.sched = hash_bytes(a.as_bytes()),
            "X" => h.end = a.clone(),
            _ => {}
        }
        h.lines.push(HLine { t, k, a });
    }
    if let Some(s) = st.signal() {
        if s == libc::SIGALRM {
            return Err("the simulated run did not end within 400 s of real time".into());
        }
        h.end = if s == libc::SIGXCPU { "hang".into() } else { format!("signal {}", s) };
    } else {
        match h.code {
            94..=99 => return Err(format!("simulator error {}", h.code)),
            _ => {}
        }
    }
    if h.end.is_empty() {
        // exit without the simulator's end marker: _exit or the like
        h.end = format!("exit status {}", h.code);
    }
    Ok(h)
}

/// The mapped history: a length and that many bytes (the file itself is larger, but sparse).
fn read_history(f: &PathBuf) -> Result<Vec<u8>, String> {
    use std::io::Read;
    let mut f = std::fs::File::open(f).map_err(|e| format!("no history: {}", e))?;
    let mut n = [0u8; 8];
    f.read_exact(&mut n).map_err(|e| e.to_string())?;
    let mut b = vec![0u8; u64::from_le_bytes(n) as usize];
    f.read_exact(&mut b).map_err(|e| e.to_string())?;
    Ok(b)
}
