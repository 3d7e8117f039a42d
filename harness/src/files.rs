//! File and pipe simulator: seeded scenarios for loading word lists (L01, L02) and for the
//! unmodified command-line tool (C01, C02) on the simulated OS.
use crate::engine::{v, Stats, Violation};
use crate::rng::Rng;
use crate::sim::{self, unhex, Hist};
use crate::web::{self, ListFile, Opt, QKind, Q};
use crate::webgen;
use noodle::parser::QueryAst;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Knobs {
    pub seed: u64,
    pub rshort: (u64, u64),
    pub reintr: (u64, u64),
    pub oshort: (u64, u64),
    pub oeintr: (u64, u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Pack {
    pub level: i32,
    pub checksum: bool,
    /// sizes of the frames, in lines; the last one takes what is left
    pub frames: Vec<usize>,
    /// a frame to skip after the n-th frame
    pub skippable: Option<usize>,
}

/// Positions are in millionths of the size of the file (or output).
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    None,
    Truncate(u64),
    Empty,
    Flip(u64, u8),
    /// garbage after the end
    Append(u64, u8),
    Eio(u64),
    EioOnce(u64),
    OpenFail(i32),
    Missing,
    Directory,
    OutFail(u64, i32),
    /// the n-th allocation fails, and some after it
    Alloc(u64, u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Run {
    Load,
    Cli { n: Option<usize>, m: Option<usize>, q: Q, dashes: bool, long: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FScn {
    pub prop: String,
    pub knobs: Knobs,
    pub list: ListFile,
    /// many more lines: seed and number
    pub bulk: Option<(u64, usize)>,
    /// lines before which an invalid line is put
    pub invalid: Vec<usize>,
    pub pack: Pack,
    pub fault: Fault,
    pub run: Run,
}

fn bulk_lines(seed: u64, n: usize) -> Vec<String> {
    let mut r = Rng::new(seed);
    let counted = r.chance(1, 2);
    (0..n)
        .map(|_| {
            let l = r.range(1, 9);
            let mut w: String = (0..l).map(|_| *r.pick(&['a', 'e', 'i', 'n', 't', 's', 'r', 'o'])).collect();
            match r.below(60) {
                0 => w.push('3'),
                1 => w = w.to_uppercase(),
                2 => w.push('\u{e9}'),
                3 => w.insert(w.len() / 2, '\''),
                _ => {}
            }
            if counted && !r.chance(1, 30) {
                format!("{}\t{}", r.loguniform(4_000_000_000), w)
            } else {
                w
            }
        })
        .collect()
}

impl FScn {
    fn lines(&self) -> Vec<String> {
        let mut v = self.list.lines.clone();
        if let Some((s, n)) = self.bulk {
            v.extend(bulk_lines(s, n));
        }
        v
    }

    /// The text of the list, and where its lines end.
    fn plain(&self, lines: &[String]) -> (Vec<u8>, Vec<usize>) {
        let nl: &[u8] = if self.list.crlf { b"\r\n" } else { b"\n" };
        let mut b = vec![];
        let mut cuts = vec![];
        for (i, l) in lines.iter().enumerate() {
            if self.invalid.contains(&i) {
                b.extend([b'a', b'b', 0xff, b'c']);
                b.extend(nl);
            }
            b.extend(l.as_bytes());
            if i + 1 < lines.len() || self.list.last_nl {
                b.extend(nl);
            }
            cuts.push(b.len());
        }
        (b, cuts)
    }

    pub fn content(&self, lines: &[String]) -> Vec<u8> {
        let (b, cuts) = self.plain(lines);
        let mut out = b;
        if self.list.zst {
            let b = std::mem::take(&mut out);
            let (mut p, mut at, mut k) = (0, 0, 0);
            loop {
                let e = match self.pack.frames.get(k) {
                    // frames end anywhere, also inside of a line
                    Some(n) if at + n < cuts.len() => {
                        at += n;
                        cuts[at].saturating_sub(n % 4).max(p)
                    }
                    _ => b.len(),
                };
                let mut enc = zstd::Encoder::new(vec![], self.pack.level).unwrap();
                enc.include_checksum(self.pack.checksum).unwrap();
                std::io::Write::write_all(&mut enc, &b[p..e]).unwrap();
                out.extend(enc.finish().unwrap());
                if self.pack.skippable == Some(k) {
                    out.extend([0x53, 0x2a, 0x4d, 0x18, 5, 0, 0, 0, 1, 2, 3, 4, 5]);
                }
                p = e;
                k += 1;
                if p >= b.len() && k > self.pack.frames.len() {
                    break;
                }
            }
        }
        let n = out.len();
        let at = |p: u64| (n as u64 * p / 1_000_000) as usize;
        match self.fault {
            Fault::Truncate(p) => out.truncate(at(p)),
            Fault::Empty => out.clear(),
            Fault::Flip(p, m) if n > 0 => out[at(p).min(n - 1)] ^= m,
            Fault::Append(k, x) => out.extend(vec![x; k as usize]),
            _ => {}
        }
        out
    }

    fn conf(&self, size: usize, outsize: usize) -> String {
        let k = &self.knobs;
        let mut o = String::new();
        let _ = writeln!(
            o,
            "seed {}\nrshort {} {}\nreintr {} {}\noshort {} {}\noeintr {} {}\nprefix lists",
            k.seed, k.rshort.0, k.rshort.1, k.reintr.0, k.reintr.1, k.oshort.0, k.oshort.1, k.oeintr.0, k.oeintr.1
        );
        let at = |p: u64| size as u64 * p / 1_000_000;
        let f = &self.list.file;
        let _ = match self.fault {
            Fault::Eio(p) => writeln!(o, "eio {} {}", at(p), f),
            Fault::EioOnce(p) => writeln!(o, "eioonce {} {}", at(p), f),
            Fault::OpenFail(e) => writeln!(o, "openfail {} {}", e, f),
            Fault::OutFail(p, e) => writeln!(o, "ofail {} {}", outsize as u64 * p / 1_000_000, e),
            Fault::Alloc(n, k) => writeln!(o, "alloc {} {}", n, k),
            _ => Ok(()),
        };
        o
    }

    /// Is there no way to get the list?
    fn unreadable(&self) -> bool {
        match self.fault {
            Fault::OpenFail(_) | Fault::Missing | Fault::Directory | Fault::Eio(_) => true,
            // a compressed file has at least one frame
            Fault::Empty => self.list.zst,
            _ => false,
        }
    }
}

fn stdout_of(h: &Hist) -> Vec<u8> {
    h.lines.iter().filter(|l| l.k == "O").flat_map(|l| unhex(&l.a)).collect()
}

/// A line which reports on the work, not a result.
fn diagnostic(l: &str) -> bool {
    l.chars().any(|c| c.is_ascii_digit()) || ["Loaded ", "Warning", "warning", "Unexpected", "Skipping"].iter().any(|p| l.starts_with(p) || p.starts_with(l) && l.len() > 3)
}

/// Lines of results and the unfinished last line (which may end inside of a letter).
fn results_of(out: &[u8]) -> (Vec<String>, Vec<u8>) {
    let mut ls: Vec<&[u8]> = out.split(|b| *b == b'\n').collect();
    let tail = ls.pop().unwrap_or(b"").to_vec();
    (ls.into_iter().map(|l| String::from_utf8_lossy(l).to_string()).filter(|l| !diagnostic(l)).collect(), tail)
}

pub fn simulate(s: &FScn, outsize: usize) -> Result<Hist, String> {
    let io = |e: std::io::Error| e.to_string();
    let d = sim::fresh().map_err(io)?.join("run");
    std::fs::create_dir_all(d.join("lists")).map_err(io)?;
    let b = s.content(&s.lines());
    let f = d.join("lists").join(&s.list.file);
    match s.fault {
        Fault::Missing => {}
        Fault::Directory => std::fs::create_dir_all(&f).map_err(io)?,
        _ => std::fs::write(&f, &b).map_err(io)?,
    }
    let path = format!("lists/{}", s.list.file);
    let conf = s.conf(b.len(), outsize);
    match &s.run {
        Run::Load => sim::run(&sim::target("harness/release/nload"), &[&path], &conf),
        Run::Cli { n, m, q, dashes, long } => {
            let text = q.text();
            let (ns, ms) = (n.map(|x| x.to_string()).unwrap_or_default(), m.map(|x| x.to_string()).unwrap_or_default());
            let mut a: Vec<&str> = vec![if *long { "--input" } else { "-i" }, &path];
            if n.is_some() {
                a.extend([if *long { "--count" } else { "-n" }, &ns]);
            }
            if m.is_some() {
                a.extend([if *long { "--phrase-length" } else { "-m" }, &ms]);
            }
            if *dashes || text.starts_with('-') {
                a.push("--");
            }
            a.push(&text);
            sim::run(&sim::target("repo/release/noodle"), &a, &conf)
        }
    }
}

fn short(s: &str) -> String {
    let t: String = s.chars().take(200).collect();
    if t.len() < s.len() {
        format!("{:?}...", t)
    } else {
        format!("{:?}", t)
    }
}

/// What the command-line tool has to print; None: too much to tell.
fn wanted(s: &FScn) -> Result<Option<Vec<String>>, String> {
    let Run::Cli { n, m, q, .. } = &s.run else { return Ok(None) };
    let mut q2 = q.clone();
    if let Some(m) = m {
        q2.opts.push(Opt::Words(*m, 0));
    }
    let words = q.own_words().unwrap_or_else(|| web::ref_load(&s.lines()));
    let limit = n.unwrap_or_else(|| q.limit(usize::MAX));
    let (w, all) = web::expect(&q2, &words, limit, 30_000, 20_000_000)?;
    if !all {
        return Ok(None);
    }
    Ok(Some(w.iter().map(|r| r.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" ")).collect()))
}

pub fn judge(s: &FScn, st: &mut Stats) -> Result<Option<Violation>, String> {
    let mut want = None;
    let mut bad = false;
    if let Run::Cli { q, .. } = &s.run {
        bad = q.kind == QKind::Bad;
        if bad && QueryAst::new_from_str(&q.text()).is_ok() {
            return Ok(None);
        }
        if !bad {
            want = wanted(s)?;
            if want.is_none() {
                st.add("skipped_too_large", 1);
                return Ok(None);
            }
        }
    }
    let outsize = want.as_ref().map_or(100, |w| w.iter().map(|l| l.len() + 1).sum::<usize>() + 40);
    let h = simulate(s, outsize)?;
    st.history = Some(h.print);
    if s.knobs.seed % 64 == 0 {
        let again = simulate(s, outsize)?;
        st.add("runs_repeated", 1);
        if again.print != h.print {
            st.add("runs_which_differed_when_repeated", 1);
        }
    }
    for (k, n) in &h.counters {
        if k.starts_with("fault.") || k == "bytes_from_disk" {
            st.add(k, *n);
        }
    }
    let name = match s.fault {
        Fault::Truncate(_) => "truncated_file",
        Fault::Empty => "empty_file",
        Fault::Flip(..) => "corrupted_byte",
        Fault::Append(..) => "garbage_at_end",
        Fault::Missing => "missing_file",
        Fault::Directory => "directory_instead_of_file",
        _ => "",
    };
    if !name.is_empty() {
        st.add(&format!("fault.{}", name), 1);
    }
    st.add("simulated_ns", h.lines.last().map_or(0, |l| l.t));
    st.distinct.insert(h.print);
    let nlines = s.list.lines.len() + s.bulk.map_or(0, |b| b.1);
    let err: Vec<u8> = h.lines.iter().filter(|l| l.k == "P").flat_map(|l| unhex(&l.a)).collect();
    let err: String = String::from_utf8_lossy(&err).chars().take(300).collect();
    if ["steps", "time", "deadlock", "hang"].contains(&h.end.as_str()) {
        return Ok(Some(v("no-end", format!("did not end ({}) with {:?} of {} lines; {:?}", h.end, s.fault, nlines, err))));
    }
    let out = stdout_of(&h);
    let ok = h.end == "exit" && h.code == 0;
    st.add(if ok { "runs_which_succeeded" } else { "runs_which_failed" }, 1);
    Ok(match &s.run {
        Run::Load => {
            if !ok {
                if s.fault != Fault::None {
                    return Ok(None);
                }
                return Ok(Some(v("load-failed", format!("loading an undamaged list of {} lines failed: {} (status {}); {:?}", nlines, h.end, h.code, err))));
            }
            if s.unreadable() {
                let d = format!("{:?} of {} ({} lines{}) was not noticed: loading succeeded", s.fault, s.list.file, nlines, if s.list.zst { ", compressed" } else { "" });
                return Ok(Some(v("damage-ignored", d)));
            }
            let t = String::from_utf8_lossy(&out).to_string();
            let Some(got) = t.split_once("\n===\n").and_then(|x| x.1.strip_suffix("=== end\n")) else {
                return Err(format!("nload wrote no list: {}", short(&t)));
            };
            let loaded = web::ref_load(&s.lines());
            let mut wants = String::new();
            for w in &loaded {
                let _ = writeln!(wants, "{}\t{}\t{}", w.1, w.2, w.0);
            }
            st.add("words_compared", loaded.len() as u64);
            if got != wants {
                let (a, b): (Vec<&str>, Vec<&str>) = (got.split('\n').collect(), wants.split('\n').collect());
                let k = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
                return Ok(Some(v(
                    if s.fault == Fault::None { "wrong-list" } else { "damage-ignored" },
                    format!("word {} of {} is {:?} instead of {:?} ({} instead of {} words), {:?}", k, s.list.file, a.get(k), b.get(k), a.len() - 1, b.len() - 1, s.fault),
                )));
            }
            None
        }
        Run::Cli { q, .. } => {
            let (got, tail) = results_of(&out);
            let what = format!("{} on {} lines, {:?}", short(&q.text()), nlines, s.fault);
            if bad {
                if ok {
                    return Ok(Some(v("parse-error-ignored", format!("a query which does not parse ended with success: {}", what))));
                }
                if !got.is_empty() {
                    return Ok(Some(v("wrong-output", format!("results {:?} for a query which does not parse: {}", got, what))));
                }
                return Ok(None);
            }
            let want = want.unwrap();
            let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            if k < got.len() {
                return Ok(Some(v("wrong-output", format!("line {} is {:?} instead of {:?}: {}", k, got[k], want.get(k), what))));
            }
            let end = String::from_utf8_lossy(&tail).to_string();
            let fine = ["Loaded", "Warning", "warning", "Unexpected", "Skipping"].iter().any(|p| p.starts_with(&end));
            if !fine && !diagnostic(&end) && !want.get(k).map_or(tail.is_empty(), |w| w.as_bytes().starts_with(&tail)) {
                return Ok(Some(v("wrong-output", format!("the output ends with {:?} instead of {:?}: {}", end, want.get(k), what))));
            }
            st.add("results_compared", got.len() as u64);
            if !ok && s.fault == Fault::None {
                return Ok(Some(v("failed", format!("the tool failed: {} (status {}); {:?}: {}", h.end, h.code, err, what))));
            }
            // (the notice about the list is no result: losing it does not make the answer partial)
            if ok && (got.len() < want.len() || !(fine || diagnostic(&end))) {
                return Ok(Some(v("partial-success", format!("{} of {} results were printed, yet the tool ended with success: {}", got.len(), want.len(), what))));
            }
            if ok && s.unreadable() {
                return Ok(Some(v("damage-ignored", format!("the unreadable list was not noticed: {}", what))));
            }
            None
        }
    })
}

// ------------------------------------------------------------------------------ generation

pub fn gen(prop: &str, seed: u64) -> FScn {
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    let odds = |r: &mut Rng, least: u64| if r.chance(1, 3) { (0, 1) } else { (1, (1u64 << r.range(0, 6)).max(least)) };
    let knobs = Knobs { seed: r.next(), rshort: odds(r, 1), reintr: odds(r, 2), oshort: odds(r, 1), oeintr: odds(r, 2) };
    let load = prop.starts_with('L');
    let size = match r.below(6) {
        _ if !load => (0, 25),
        0 => (0, 2),
        1 => (100, 2000),
        _ => (0, 60),
    };
    let mut list = webgen::gen_list(r, "list", size);
    let mut bulk = None;
    if load {
        bulk = match r.below(12) {
            0 => Some((r.next(), r.range(9_990, 10_050))),
            1 => Some((r.next(), r.range(10_000, 45_000))),
            2 => Some((r.next(), r.range(500, 5000))),
            _ => None,
        };
    }
    if prop == "L02" && !list.zst && r.chance(1, 2) {
        list.zst = true;
        list.file = "list.txt.zst".into();
    }
    let nlines = list.lines.len() + bulk.map_or(0, |b| b.1);
    let mut invalid = vec![];
    if load && r.chance(1, 8) {
        for _ in 0..r.range(1, 3) {
            invalid.push(r.below(nlines + 1));
        }
    }
    let pack = Pack {
        level: *r.pick(&[1, 3, 3, 9]),
        checksum: prop == "L02" || prop == "C02" || r.chance(1, 2),
        frames: if r.chance(1, 3) { (0..r.range(1, 3)).map(|_| r.loguniform(nlines as u64) as usize).collect() } else { vec![] },
        skippable: if r.chance(1, 8) { Some(0) } else { None },
    };
    let one_frame = pack.frames.is_empty() && pack.skippable.is_none();
    let zst = list.zst;
    let file_fault = |r: &mut Rng| -> Fault {
        let p = if r.chance(1, 5) { *r.pick(&[0u64, 1, 999_999]) } else { r.below(1_000_000) as u64 };
        match r.below(12) {
            0..=3 if zst && one_frame => Fault::Truncate(p),
            4 if zst => Fault::Empty,
            5 | 6 if zst => Fault::Flip(p, 1 << r.below(8)),
            7 if zst => Fault::Append(r.range(1, 40) as u64, r.next() as u8),
            8 => Fault::OpenFail(*r.pick(&[libc::EACCES, libc::EIO, libc::EMFILE, libc::ENOMEM])),
            9 => *r.pick(&[Fault::Missing, Fault::Directory]),
            10 => Fault::EioOnce(p),
            _ => Fault::Eio(p),
        }
    };
    let alloc = |r: &mut Rng| Fault::Alloc(1 + r.loguniform(2500), *r.pick(&[1, 1, 3, 1_000_000_000]));
    let run;
    let mut fault = Fault::None;
    if load {
        run = Run::Load;
        if prop == "L02" {
            fault = if r.chance(1, 12) { alloc(r) } else { file_fault(r) };
        }
    } else {
        let mut loaded = BTreeMap::new();
        loaded.insert("default".to_string(), web::ref_load(&list.lines));
        let mut q = if prop == "C02" && r.chance(1, 6) { webgen::gen_bad(r) } else { webgen::gen_small(r, &loaded, false) };
        if r.chance(1, 20) && q.kind != QKind::Bad {
            // means nothing here
            q.opts.push(Opt::Dict("nosuch".into(), 0));
        }
        let n = match r.below(4) {
            0 => Some(r.loguniform(2000) as usize),
            1 => Some(r.range(0, 4)),
            _ => None,
        };
        let words = web::words_for(&q, &loaded).len();
        let mut m = if r.chance(1, 3) || words > 1 && !q.opts.iter().any(|o| matches!(o, Opt::Words(..))) { Some(r.range(0, 4)) } else { None };
        while m.map_or(false, |m| m > 1 && words.pow(m as u32) > 60_000) {
            m = m.map(|m| m - 1);
        }
        if prop == "C02" && q.kind != QKind::Bad {
            fault = match r.below(4) {
                0 => file_fault(r),
                1 if r.chance(1, 4) => alloc(r),
                _ => Fault::OutFail(if r.chance(1, 4) { *r.pick(&[0, 999_999]) } else { r.below(1_000_000) as u64 }, *r.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO])),
            };
        }
        run = Run::Cli { n, m, q, dashes: r.chance(1, 2), long: r.chance(1, 3) };
    }
    FScn { prop: prop.into(), knobs, list, bulk, invalid, pack, fault, run }
}

pub fn shrinks(s: &FScn) -> Vec<FScn> {
    let mut out = vec![];
    let mut put = |f: &dyn Fn(&mut FScn)| {
        let mut n = s.clone();
        f(&mut n);
        if n != *s {
            out.push(n);
        }
    };
    put(&|n| n.bulk = None);
    if let Some((a, k)) = s.bulk {
        put(&|n| n.bulk = Some((a, k / 2)));
        put(&|n| n.bulk = Some((a, k - k / 10)));
        put(&|n| n.bulk = Some((a, k - 1)));
    }
    let l = s.list.lines.len();
    put(&|n| n.list.lines.clear());
    put(&|n| n.list.lines.truncate(l / 2));
    put(&|n| {
        n.list.lines.drain(..l / 2);
    });
    if l <= 30 {
        for i in 0..l {
            put(&|n| {
                n.list.lines.remove(i);
            });
        }
    }
    put(&|n| n.invalid.clear());
    put(&|n| n.pack.frames.clear());
    put(&|n| n.pack.skippable = None);
    put(&|n| n.pack.level = 3);
    put(&|n| n.list.crlf = false);
    put(&|n| n.list.last_nl = true);
    put(&|n| n.knobs.rshort = (0, 1));
    put(&|n| n.knobs.reintr = (0, 1));
    put(&|n| n.knobs.oshort = (0, 1));
    put(&|n| n.knobs.oeintr = (0, 1));
    put(&|n| n.knobs.seed = 1);
    if s.fault == Fault::None || matches!(s.fault, Fault::OutFail(..)) {
        put(&|n| {
            n.list.zst = false;
            n.list.file = "list.txt".into();
        });
    }
    if let Run::Cli { n, m, q, .. } = &s.run {
        let mut cli = |f: &dyn Fn(&mut Option<usize>, &mut Option<usize>, &mut Q, &mut bool)| {
            put(&|x| {
                if let Run::Cli { n, m, q, long, dashes } = &mut x.run {
                    *dashes = true;
                    f(n, m, q, long);
                }
            })
        };
        if n.is_some() {
            cli(&|n, _, _, _| *n = None);
        }
        if m.is_some() && q.opts.iter().any(|o| matches!(o, Opt::Words(..))) {
            cli(&|_, m, _, _| *m = None);
        }
        cli(&|_, _, _, long| *long = false);
        for t in webgen::talk_shrinks(&web::Talk::Http(vec![web::Req::Get(q.clone())])) {
            if let web::Talk::Http(v) = t {
                if let Some(web::Req::Get(q2)) = v.first() {
                    cli(&|_, _, q, _| *q = q2.clone());
                }
            }
        }
    }
    out
}

pub fn describe(s: &FScn) -> Value {
    let run = match &s.run {
        Run::Load => json!("load"),
        Run::Cli { n, m, q, .. } => json!({"count": n, "phrase_length": m, "query": q.text().chars().take(300).collect::<String>()}),
    };
    let lines: Vec<&String> = s.list.lines.iter().take(20).collect();
    json!({"run": run, "file": s.list.file, "lines": lines, "line_count": s.list.lines.len(), "more_lines": s.bulk, "invalid_lines": s.invalid,
        "crlf": s.list.crlf, "newline_at_end": s.list.last_nl, "compression": if s.list.zst { json!(s.pack) } else { json!(null) }, "fault": format!("{:?}", s.fault), "knobs": s.knobs})
}
