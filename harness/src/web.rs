//! Server simulator: seeded scenarios for the unmodified noodle-webapp on the simulated OS, and the
//! oracles over the recorded history (W01-W07).
use crate::clock::{clock, instant};
use crate::engine::{self, v, How, Stats, Violation};
use crate::gen::*;
use crate::refmodel::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::sim::{self, hex, unhex, Hist};
use noodle::parser::QueryAst;
use noodle::{QueryEvaluator, QueryResponse, Word};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::time::Duration;

pub const S: u64 = 1_000_000_000;
pub const MS: u64 = 1_000_000;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Knobs {
    pub seed: u64,
    pub switch: (u64, u64),
    pub stall: (u64, u64, u64),
    pub tick: (u64, u64),
    pub jump: (u64, u64, u64),
    pub rtstep: (u64, u64, u64),
    pub spurious: (u64, u64),
    pub lat: (u64, u64),
    pub sndcap: u64,
    pub acceptfail: (u64, u64),
    pub rshort: (u64, u64),
    pub reintr: (u64, u64),
    pub shuffle: bool,
    /// writing the log fails with this error after so many bytes
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub logfail: Option<(u64, i32)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ListFile {
    pub file: String,
    pub lines: Vec<String>,
    pub zst: bool,
    pub crlf: bool,
    pub last_nl: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Opt {
    Limit(usize, u8),
    Words(usize, u8),
    Dict(String, u8),
    Quiet,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum QKind {
    Small,
    Slow,
    Flood,
    Bad,
    /// anything at all: only survival is judged
    Junk,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Q {
    pub kind: QKind,
    pub opts: Vec<Opt>,
    pub body: Vec<String>,
    pub own: Option<Vec<String>>,
    pub semi: bool,
    pub late: bool,
    /// the lines of `body` for the reference model (empty: not modelled)
    pub model: Vec<Line>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Ws {
    pub q: Q,
    /// frames sent before the query: opcode
    pub pre: Vec<u8>,
    /// sizes of the fragments of the query message
    pub frag: Vec<usize>,
    /// a ping between the fragments
    pub midping: bool,
    /// after so many received frames: a ping of this size
    pub pings: Vec<(usize, usize)>,
    /// opcodes of those, if they are not pings
    #[serde(default)]
    pub chat: Vec<u8>,
    pub mask: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Req {
    Get(Q),
    Post(Q),
    List(String),
    Js,
    Metrics,
    Static,
    Nowhere,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Talk {
    Http(Vec<Req>),
    Ws(Ws),
    /// raw bytes with pauses in front
    Junk(Vec<(u64, String)>),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Read {
    Fast,
    Slow(u64, u64),
    /// stop after so many frames (WebSocket) or at once (HTTP), for so long
    Pause(usize, u64),
    /// stop after so many frames for good
    Stop(usize),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum At {
    Sent(usize),
    Recv(usize),
    Msgs(usize),
    Time(u64),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cut {
    Close,
    Rst,
    Fin,
    Vanish,
    WsClose,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cl {
    pub phase: usize,
    pub delay: u64,
    pub talk: Talk,
    pub seg: u64,
    pub gap: u64,
    pub read: Read,
    pub cut: Option<(At, Cut)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scn {
    pub prop: String,
    pub knobs: Knobs,
    pub lists: Vec<ListFile>,
    pub extra_entries: bool,
    /// idle time after each phase
    pub settle: Vec<u64>,
    pub clients: Vec<Cl>,
}

// ------------------------------------------------------------------------------ queries and lists

fn cased(s: &str, st: u8) -> String {
    match st & 3 {
        1 => s.to_uppercase(),
        2 => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
        _ => s.to_string(),
    }
}

impl Opt {
    fn render(&self) -> String {
        match self {
            Opt::Limit(n, st) => format!("{}{}{}{}", if st & 16 > 0 { " " } else { "" }, cased("#limit", *st), if st & 4 > 0 { "  " } else { " " }, n) + if st & 8 > 0 { " // at most" } else { "" },
            Opt::Words(n, st) => format!("{} {}{}", cased("#words", *st), n, if st & 4 > 0 { " " } else { "" }),
            Opt::Dict(n, st) => format!("{} {}{}", cased(if st & 4 > 0 { "#dictionary" } else { "#dict" }, *st), n, if st & 8 > 0 { " " } else { "" }),
            Opt::Quiet => "#quiet".into(),
        }
    }
}

impl Q {
    pub fn text(&self) -> String {
        let o = self.opts.iter().map(|o| o.render());
        let b = self.body.iter().cloned();
        let mut v: Vec<String> = if self.late { b.chain(o).collect() } else { o.chain(b).collect() };
        if let Some(own) = &self.own {
            v.push("#wordlist".into());
            v.extend(own.iter().cloned());
        }
        v.join(if self.semi { ";" } else { "\n" })
    }
    pub fn limit(&self, default: usize) -> usize {
        self.opts.iter().rev().find_map(|o| if let Opt::Limit(n, _) = o { Some(*n) } else { None }).unwrap_or(default)
    }
    pub fn max_words(&self) -> usize {
        self.opts.iter().rev().find_map(|o| if let Opt::Words(n, _) = o { Some(*n) } else { None }).unwrap_or(10)
    }
    pub fn dict(&self) -> &str {
        self.opts.iter().rev().find_map(|o| if let Opt::Dict(n, _) = o { Some(n.as_str()) } else { None }).unwrap_or("default")
    }
    pub fn own_words(&self) -> Option<Vec<W>> {
        let own = self.own.as_ref()?;
        let base = self.opts.len() + self.body.len() + 1;
        let mut v: Vec<W> = own
            .iter()
            .enumerate()
            .map(|(i, w)| (w.trim().to_string(), 1u8, (base + i) as u32))
            .filter(|w| !w.0.is_empty())
            .collect();
        sort_words(&mut v);
        Some(v)
    }
}

/// What `load_wordlist` promises for a file of these lines.
pub fn ref_load(lines: &[String]) -> Vec<W> {
    let mut out = vec![];
    let (mut size, mut count, mut tier) = (10000usize, 0usize, 0u8);
    for l in lines {
        let mut word = l.as_str();
        let mut score = (l.len() * 200) as u32;
        if let Some((a, b)) = l.split_once('\t') {
            if !a.is_empty() && a.strip_prefix('+').unwrap_or(a).bytes().all(|c| c.is_ascii_digit()) {
                if let Ok(n) = a.parse::<u32>() {
                    score = n;
                    word = b;
                }
            }
        }
        if (normalise(word).len() <= 2 && word != "I" && word != "a") || word.bytes().any(|c| c.is_ascii_digit()) {
            continue;
        }
        let plain = word.bytes().all(|c| c.is_ascii_lowercase());
        out.push((word.to_string(), if plain { tier } else { tier + 1 }, score));
        count += 1;
        if count > size {
            size += size / 2;
            count = 0;
            tier += 1;
        }
    }
    sort_words(&mut out);
    out
}

impl ListFile {
    pub fn name(&self) -> String {
        self.file.split('.').next().unwrap().to_string()
    }
    pub fn bytes(&self) -> Vec<u8> {
        let nl = if self.crlf { "\r\n" } else { "\n" };
        let mut s = self.lines.join(nl);
        if self.last_nl && !self.lines.is_empty() {
            s.push_str(nl);
        }
        if self.zst {
            zstd::encode_all(s.as_bytes(), 3).unwrap()
        } else {
            s.into_bytes()
        }
    }
}

impl Scn {
    pub fn loaded(&self) -> BTreeMap<String, Vec<W>> {
        self.lists.iter().map(|l| (l.name(), ref_load(&l.lines))).collect()
    }
}

pub fn words_for(q: &Q, loaded: &BTreeMap<String, Vec<W>>) -> Vec<W> {
    if let Some(w) = q.own_words() {
        return w;
    }
    loaded.get(q.dict()).or_else(|| loaded.get("default")).cloned().unwrap_or_default()
}

pub type Res = Vec<(String, u32)>;

/// The first `need` results (or all) of a query, evaluated alone and without interruption.
/// The flag says whether the query completed.
pub fn expect(q: &Q, words: &[W], limit: usize, need: usize, budget: u64) -> Result<(Vec<Res>, bool), String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let ws: Vec<Word> = words.iter().map(|w| Word::new(&w.0, w.1, w.2)).collect();
        let ast = QueryAst::new_from_str(&q.body.join("\n")).map_err(|e| format!("parse: {}", e))?;
        let c = clock();
        c.now = 1_000_000_000_000;
        c.ticks = vec![1];
        c.reads = 0;
        c.deadline = None;
        c.on = true;
        let d = instant() + Duration::from_nanos(budget);
        let mut ev = QueryEvaluator::from_ast(&ast, &ws);
        ev.set_results_limit(Some(limit));
        ev.set_search_depth_limit(q.max_words());
        let mut out = vec![];
        loop {
            if out.len() >= need {
                return Ok((out, false));
            }
            match ev.next_within_deadline(Some(d)) {
                QueryResponse::Match(p) => out.push(p.iter().map(|w| (w.text.to_string(), w.score)).collect()),
                QueryResponse::Logs(_) => {}
                QueryResponse::Timeout => return Ok((out, false)),
                QueryResponse::Complete(_) => return Ok((out, true)),
            }
        }
    }));
    clock().on = false;
    match r {
        Ok(x) => x,
        Err(_) => Err("the evaluator panicked".into()),
    }
}

// ------------------------------------------------------------------------------ bytes on the wire

fn pct(q: &str, seed: u64) -> String {
    let mut r = Rng::new(seed);
    let eager = r.chance(1, 4);
    let mut s = String::new();
    for &b in q.as_bytes() {
        let plain = b.is_ascii_alphanumeric() || b"-._~!$&'()*+,;=:@".contains(&b);
        let keep = b.is_ascii_alphanumeric() || plain && r.chance(1, 2);
        if keep && !(eager && r.chance(1, 3)) {
            s.push(b as char);
        } else if r.chance(1, 2) {
            let _ = write!(s, "%{:02X}", b);
        } else {
            let _ = write!(s, "%{:02x}", b);
        }
    }
    s
}

impl Req {
    fn bytes(&self, last: bool) -> Vec<u8> {
        let conn = if last { "Connection: close\r\n" } else { "" };
        let get = |p: &str| format!("GET {} HTTP/1.1\r\nHost: sim\r\n{}\r\n", p, conn).into_bytes();
        match self {
            Req::Get(q) => {
                let t = q.text();
                get(&format!("/query/{}", pct(&t, hash_bytes(t.as_bytes()))))
            }
            Req::Post(q) => {
                let t = q.text();
                format!("POST /query HTTP/1.1\r\nHost: sim\r\nContent-Length: {}\r\n{}\r\n{}", t.len(), conn, t).into_bytes()
            }
            Req::List(n) => get(&format!("/wordlist/{}", pct(n, hash_bytes(n.as_bytes())))),
            Req::Js => get("/wordlists.js"),
            Req::Metrics => get("/metrics"),
            Req::Static => get("/app.js"),
            Req::Nowhere => get("/no/such/page"),
        }
    }
    pub fn query(&self) -> Option<&Q> {
        match self {
            Req::Get(q) | Req::Post(q) => Some(q),
            _ => None,
        }
    }
}

pub const UPGRADE: &str = "GET /ws HTTP/1.1\r\nHost: sim\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n";
const ACCEPT: &str = "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=";

pub fn frame(fin: bool, op: u8, payload: &[u8], mask: u64) -> Vec<u8> {
    let mut b = vec![if fin { 0x80 } else { 0 } | op];
    let n = payload.len();
    if n < 126 {
        b.push(0x80 | n as u8);
    } else if n < 65536 {
        b.push(0x80 | 126);
        b.extend((n as u16).to_be_bytes());
    } else {
        b.push(0x80 | 127);
        b.extend((n as u64).to_be_bytes());
    }
    let k = (mask as u32).to_be_bytes();
    b.extend(k);
    b.extend(payload.iter().enumerate().map(|(i, x)| x ^ k[i % 4]));
    b
}

impl Ws {
    fn query_frames(&self) -> Vec<u8> {
        let t = self.q.text().into_bytes();
        let mut out = vec![];
        for (i, op) in self.pre.iter().enumerate() {
            out.extend(frame(true, *op, format!("pre{}", i).as_bytes(), mix(self.mask, i as u64)));
        }
        let mut p = 0;
        let mut first = true;
        let mut sizes = self.frag.iter();
        loop {
            let n = sizes.next().copied().unwrap_or(usize::MAX).min(t.len() - p);
            let fin = p + n >= t.len();
            out.extend(frame(fin, if first { 1 } else { 0 }, &t[p..p + n], mix(self.mask, p as u64 + 7)));
            first = false;
            p += n;
            if fin {
                break;
            }
            if self.midping {
                out.extend(frame(true, 9, b"mid", mix(self.mask, 5)));
            }
        }
        out
    }
}

impl Cl {
    /// offsets in the client's byte stream at which each of its queries is complete
    pub fn query_ends(&self) -> Vec<usize> {
        match &self.talk {
            Talk::Http(rs) => {
                let mut at = 0;
                let mut v = vec![];
                for (i, r) in rs.iter().enumerate() {
                    at += r.bytes(i + 1 == rs.len()).len();
                    if r.query().is_some() {
                        v.push(at);
                    }
                }
                v
            }
            Talk::Ws(w) => vec![UPGRADE.len() + w.query_frames().len()],
            Talk::Junk(_) => vec![],
        }
    }
    /// offsets in the client's byte stream at which each of its HTTP requests is complete
    pub fn request_ends(&self) -> Vec<usize> {
        match &self.talk {
            Talk::Http(rs) => {
                let mut at = 0;
                rs.iter()
                    .enumerate()
                    .map(|(i, r)| {
                        at += r.bytes(i + 1 == rs.len()).len();
                        at
                    })
                    .collect()
            }
            _ => vec![],
        }
    }

    fn ops(&self, o: &mut String) {
        let _ = writeln!(o, "client {} {}\nconnect", self.phase, self.delay);
        let send = |o: &mut String, b: &[u8]| {
            let _ = writeln!(o, "send {} {} {}", self.seg, self.gap, hex(b));
        };
        match self.read {
            Read::Slow(c, i) => {
                let _ = writeln!(o, "read {} {}", c, i);
            }
            Read::Pause(_, _) if matches!(self.talk, Talk::Http(_)) => {
                let _ = writeln!(o, "stopread");
            }
            _ => {}
        }
        let mut budget = match self.cut {
            Some((At::Sent(n), _)) => n,
            _ => usize::MAX,
        };
        let mut limited = |o: &mut String, b: &[u8]| {
            let n = b.len().min(budget);
            budget -= n;
            if n > 0 {
                send(o, &b[..n]);
            }
            n == b.len()
        };
        let whole = match &self.talk {
            Talk::Http(rs) => {
                let mut b = vec![];
                for (i, r) in rs.iter().enumerate() {
                    b.extend(r.bytes(i + 1 == rs.len()));
                }
                limited(o, &b)
            }
            Talk::Ws(w) => {
                if limited(o, UPGRADE.as_bytes()) {
                    let _ = writeln!(o, "waitpat {}", hex(b"\r\n\r\n"));
                    limited(o, &w.query_frames())
                } else {
                    false
                }
            }
            Talk::Junk(v) => {
                for (d, b) in v {
                    if *d > 0 {
                        let _ = writeln!(o, "sleep {}", d);
                    }
                    limited(o, &unhex(b));
                }
                true
            }
        };
        match (&self.talk, self.read) {
            (Talk::Http(_), Read::Pause(_, ns)) => {
                let _ = writeln!(o, "sleep {}\nread 65536 1000", ns);
            }
            (Talk::Ws(_), Read::Pause(n, ns)) if whole => {
                let _ = writeln!(o, "waitmsg {}\nstopread\nsleep {}\nread 65536 1000", n.max(1), ns);
            }
            (Talk::Ws(_), Read::Stop(n)) if whole => {
                let _ = writeln!(o, "waitmsg {}\nstopread", n.max(1));
            }
            _ => {}
        }
        // the server waits 30 s for the client to close: writing to it later would reset the
        // connection, with whatever has not been read yet
        let asleep = matches!(self.read, Read::Pause(_, ns) if ns > 20 * S) || matches!(self.read, Read::Stop(_));
        let late = if matches!(self.read, Read::Slow(..)) { 3 } else { usize::MAX };
        if let (Talk::Ws(w), true) = (&self.talk, whole && !asleep) {
            for (i, (n, len)) in w.pings.iter().enumerate() {
                if *n >= late {
                    continue;
                }
                if *n > 0 {
                    let _ = writeln!(o, "waitmsg {}", n);
                }
                let op = if w.chat.is_empty() { 9 } else { w.chat[i % w.chat.len()] };
                send(o, &frame(true, op, &vec![b'p'; *len], mix(w.mask, 90 + i as u64)));
            }
        }
        match self.cut {
            None => match &self.talk {
                Talk::Ws(w) => {
                    o.push_str("waitwsclose\n");
                    if w.mask & 1 == 1 {
                        send(o, &frame(true, 8, &1000u16.to_be_bytes(), w.mask));
                    }
                    o.push_str("waiteof\nclose\n");
                }
                Talk::Http(_) => o.push_str("waiteof\nclose\n"),
                Talk::Junk(_) => o.push_str("sleep 3000000000\nclose\n"),
            },
            Some((at, how)) => {
                match at {
                    At::Sent(_) => {}
                    At::Recv(n) => {
                        let _ = writeln!(o, "waitlen {}", n);
                    }
                    At::Msgs(n) => {
                        let _ = writeln!(o, "waitmsg {}", n);
                    }
                    At::Time(ns) => {
                        let _ = writeln!(o, "sleep {}", ns);
                    }
                }
                match how {
                    Cut::Close => o.push_str("close\n"),
                    Cut::Rst => o.push_str("rst\n"),
                    Cut::Vanish => o.push_str("vanish\n"),
                    Cut::Fin => o.push_str("fin\nsleep 1000000000\nclose\n"),
                    Cut::WsClose => {
                        send(o, &frame(true, 8, &1000u16.to_be_bytes(), 77));
                        o.push_str("waiteof\nclose\n");
                    }
                }
            }
        }
    }
}

impl Scn {
    pub fn conf(&self) -> String {
        let k = &self.knobs;
        let mut o = String::from("server\n");
        let _ = writeln!(o, "seed {}\nswitch {} {}\nstall {} {} {}\ntick {} {}", k.seed, k.switch.0, k.switch.1, k.stall.0, k.stall.1, k.stall.2, k.tick.0, k.tick.1);
        let _ = writeln!(o, "jump {} {} {}\nrtstep {} {} {}\nspurious {} {}", k.jump.0, k.jump.1, k.jump.2, k.rtstep.0, k.rtstep.1, k.rtstep.2, k.spurious.0, k.spurious.1);
        let _ = writeln!(o, "lat {} {}\nsndcap {}\nacceptfail {} {}", k.lat.0, k.lat.1, k.sndcap, k.acceptfail.0, k.acceptfail.1);
        let _ = writeln!(o, "rshort {} {}\nreintr {} {}\nprefix lists", k.rshort.0, k.rshort.1, k.reintr.0, k.reintr.1);
        if k.shuffle {
            o.push_str("shuffle\n");
        }
        if let Some((n, e)) = k.logfail {
            let _ = writeln!(o, "ofail {} {}", n, e);
        }
        for s in &self.settle {
            let _ = writeln!(o, "phase {} {}", s, 20_000 * S);
        }
        for c in &self.clients {
            c.ops(&mut o);
        }
        o
    }
}

// ------------------------------------------------------------------------------ reading answers

#[derive(Debug, Clone)]
pub struct Resp {
    pub status: u16,
    pub body: Vec<u8>,
    pub start: usize,
    pub end: usize,
    pub headers: Vec<(String, String)>,
}

/// Complete HTTP responses at the start of `b`; the rest is what follows the last one.
pub fn parse_http(b: &[u8], eof: bool) -> Result<(Vec<Resp>, usize), String> {
    let mut out = vec![];
    let mut p = 0;
    loop {
        let h = match b[p..].windows(4).position(|w| w == b"\r\n\r\n") {
            Some(h) => h,
            None => return Ok((out, p)),
        };
        let head = String::from_utf8_lossy(&b[p..p + h]).to_string();
        let mut ls = head.split("\r\n");
        let first = ls.next().unwrap_or("");
        let status: u16 = match first.strip_prefix("HTTP/1.1 ").and_then(|s| s.get(..3)).and_then(|s| s.parse().ok()) {
            Some(s) => s,
            None => return Err(format!("not an HTTP response: {:?}", first)),
        };
        let headers: Vec<(String, String)> = ls.filter_map(|l| l.split_once(':').map(|(a, b)| (a.trim().to_lowercase(), b.trim().to_string()))).collect();
        let get = |n: &str| headers.iter().find(|h| h.0 == n).map(|h| h.1.clone());
        let start = p;
        let mut q = p + h + 4;
        let body;
        if status == 101 {
            out.push(Resp { status, body: vec![], start, end: q, headers });
            return Ok((out, q));
        } else if get("transfer-encoding").map_or(false, |t| t.to_lowercase().contains("chunked")) {
            let mut d = vec![];
            loop {
                let e = match b[q..].windows(2).position(|w| w == b"\r\n") {
                    Some(e) => e,
                    None => return Ok((out, p)),
                };
                let n = usize::from_str_radix(String::from_utf8_lossy(&b[q..q + e]).split(';').next().unwrap().trim(), 16).map_err(|_| "bad chunk size".to_string())?;
                q += e + 2;
                if b.len() < q + n + 2 {
                    return Ok((out, p));
                }
                d.extend_from_slice(&b[q..q + n]);
                if &b[q + n..q + n + 2] != b"\r\n" {
                    return Err("bad chunk end".into());
                }
                q += n + 2;
                if n == 0 {
                    break;
                }
            }
            body = d;
        } else if let Some(n) = get("content-length") {
            let n: usize = n.parse().map_err(|_| "bad content-length".to_string())?;
            if b.len() < q + n {
                return Ok((out, p));
            }
            body = b[q..q + n].to_vec();
            q += n;
        } else {
            if !eof {
                return Ok((out, p));
            }
            body = b[q..].to_vec();
            q = b.len();
        }
        out.push(Resp { status, body, start, end: q, headers });
        p = q;
    }
}

#[derive(Debug, Clone)]
pub struct Fr {
    pub op: u8,
    pub data: Vec<u8>,
    pub end: usize,
}

pub fn parse_frames(b: &[u8], mut p: usize) -> Result<(Vec<Fr>, usize), String> {
    let mut out = vec![];
    loop {
        let s = &b[p..];
        if s.len() < 2 {
            return Ok((out, p));
        }
        let mut n = (s[1] & 127) as usize;
        let mut h = 2;
        if n == 126 {
            if s.len() < 4 {
                return Ok((out, p));
            }
            n = (s[2] as usize) << 8 | s[3] as usize;
            h = 4;
        } else if n == 127 {
            if s.len() < 10 {
                return Ok((out, p));
            }
            n = s[2..10].iter().fold(0usize, |a, &x| a << 8 | x as usize);
            h = 10;
        }
        if s[1] & 128 != 0 || s[0] & 0x70 != 0 || s[0] & 0x80 == 0 {
            return Err(format!("unexpected frame header {:02x} {:02x}", s[0], s[1]));
        }
        if s.len() < h + n {
            return Ok((out, p));
        }
        out.push(Fr { op: s[0] & 15, data: s[h..h + n].to_vec(), end: p + h + n });
        p += h + n;
    }
}

/// What happened to one client.
#[derive(Clone, Debug, Default)]
pub struct Obs {
    pub connect: Option<u64>,
    pub recv: Vec<u8>,
    pub r: Vec<(u64, usize)>,
    /// bytes that reached the server / that the server wrote (time, cumulative)
    pub s: Vec<(u64, usize)>,
    pub y: Vec<(u64, usize)>,
    pub eof: Option<(u64, bool)>,
    pub stuck: bool,
    pub done: bool,
    pub closed_by_server: Option<u64>,
    pub gone: Option<u64>,
    pub fin: Option<u64>,
    pub rst: Option<u64>,
}

pub fn when(v: &[(u64, usize)], off: usize) -> Option<u64> {
    v.iter().find(|x| x.1 >= off).map(|x| x.0)
}

pub struct Obss {
    pub c: Vec<Obs>,
    /// (time, steps, clock reads)
    pub phases: Vec<(u64, u64, u64)>,
    pub last: u64,
    pub stderr: String,
}

pub fn observe(h: &Hist, n: usize) -> Obss {
    let mut o = Obss { c: vec![Obs::default(); n], phases: vec![], last: 0, stderr: String::new() };
    for l in &h.lines {
        o.last = l.t;
        let mut w = l.a.split(' ');
        let id: usize = w.next().and_then(|x| x.parse().ok()).unwrap_or(usize::MAX);
        match l.k.as_str() {
            "PHASE" => {
                let a = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                let b = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                o.phases.push((l.t, a, b));
            }
            "P" if o.stderr.len() < 4000 => o.stderr.push_str(&String::from_utf8_lossy(&unhex(&l.a))),
            _ => {}
        }
        if id >= n {
            continue;
        }
        let c = &mut o.c[id];
        match l.k.as_str() {
            "C" => c.connect = Some(l.t),
            "R" => {
                c.recv.extend(unhex(w.next().unwrap_or("")));
                c.r.push((l.t, c.recv.len()));
            }
            "S" | "Y" => {
                let k: usize = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                let v = if l.k == "S" { &mut c.s } else { &mut c.y };
                let at = v.last().map_or(0, |x| x.1) + k;
                v.push((l.t, at));
            }
            "E" => c.eof = Some((l.t, w.next() == Some("rst"))),
            "K" => c.closed_by_server = c.closed_by_server.or(Some(l.t)),
            "F" => c.fin = c.fin.or(Some(l.t)),
            "RST" => c.rst = c.rst.or(Some(l.t)),
            "GONE" => c.gone = Some(l.t),
            "STUCK" => c.stuck = true,
            "D" => c.done = true,
            _ => {}
        }
    }
    o
}

// ------------------------------------------------------------------------------ judging

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tag {
    Http,
    Ws,
    List,
    Other,
}

pub struct Finding {
    pub client: usize,
    pub tag: Tag,
    /// about the results themselves, not about when or how they arrive
    pub content: bool,
    pub v: Violation,
}

pub struct Judge<'a> {
    pub s: &'a Scn,
    pub loaded: BTreeMap<String, Vec<W>>,
    pub h: &'a Hist,
    pub o: Obss,
    pub slack: u64,
    pub out: Vec<Finding>,
    /// metrics answers: client, request arrival, answer written, gauge, total
    pub metrics: Vec<(usize, u64, u64, u64, u64)>,
    /// write time of the first and the final message of each WebSocket query
    /// first message, final status, close
    pub ws_span: HashMap<usize, (u64, Option<u64>, Option<u64>)>,
    pub modelled: u64,
    pub compared: u64,
}

fn short(s: &str) -> String {
    let t: String = s.chars().take(160).collect();
    if t.len() < s.len() {
        format!("{:?}...", t)
    } else {
        format!("{:?}", t)
    }
}

impl<'a> Judge<'a> {
    pub fn new(s: &'a Scn, h: &'a Hist) -> Judge<'a> {
        let o = observe(h, s.clients.len());
        let k = &s.knobs;
        let (a, b) = (k.tick.0.max(1) as f64, k.tick.1.max(2) as f64);
        let mean = if b > a { (b - a) / (b / a).ln().max(1.0) } else { a };
        let nq = s.clients.iter().filter(|c| !matches!(c.talk, Talk::Junk(_))).count() as f64 + 1.0;
        // without forced switches a thread runs until it waits
        let p = if k.switch.0 == 0 { 0.001 } else { k.switch.0 as f64 / k.switch.1.max(1) as f64 };
        let c = |n: &str| h.counters.get(n).copied().unwrap_or(0);
        let slack = 3 * S + ((60.0 + 16.0 * (nq - 6.0).max(0.0)) * nq / p * mean) as u64 + c("stall_ns") + c("jump_ns") + 200 * k.lat.1
            // hyper waits for a second after a failed accept
            + c("fault.accept_error") * 1100 * MS;
        Judge { s, loaded: s.loaded(), h, o, slack, out: vec![], metrics: vec![], ws_span: HashMap::new(), modelled: 0, compared: 0 }
    }

    fn find(&mut self, client: usize, tag: Tag, content: bool, class: &str, d: String) {
        let what = match &self.s.clients[client].talk {
            Talk::Http(_) => "HTTP",
            Talk::Ws(_) => "WebSocket",
            Talk::Junk(_) => "junk",
        };
        self.out.push(Finding { client, tag, content, v: v(class, format!("client {} ({}): {}", client, what, d)) });
    }

    /// Results `got` of query `q` as received: must be the first ones, and all if `complete`.
    fn results(&mut self, i: usize, tag: Tag, q: &Q, default_limit: usize, got: &[String], score: bool, complete: bool) {
        let words = words_for(q, &self.loaded);
        let limit = q.limit(default_limit);
        if got.len() > limit {
            self.find(i, tag, true, "too-many", format!("{} results for {} with limit {}", got.len(), short(&q.text()), limit));
            return;
        }
        let need = if complete { usize::MAX } else { got.len() };
        let budget = self.h.counters.get("clock_reads").copied().unwrap_or(0) * 4 + 20_000;
        let (want, all) = match expect(q, &words, limit, need, budget) {
            Ok(x) => x,
            Err(e) => {
                self.find(i, tag, true, "evaluator", format!("{} for {}", e, short(&q.text())));
                return;
            }
        };
        self.compared += got.len() as u64;
        let render = |r: &Res| -> String {
            if score {
                r.iter().map(|w| format!("{}/{} ", w.0, w.1)).collect()
            } else {
                r.iter().map(|w| format!("{} ", w.0)).collect()
            }
        };
        for (k, g) in got.iter().enumerate() {
            let w = want.get(k).map(render);
            if w.as_deref() != Some(g.as_str()) {
                self.find(i, tag, true, "wrong-result", format!("result {} of {} is {:?} instead of {:?}", k, short(&q.text()), g, w));
                return;
            }
        }
        if complete && (!all || want.len() > got.len()) {
            let d = format!("{} ended as complete after {} results, the query has {}{}", short(&q.text()), got.len(), if all { "" } else { "at least " }, want.len());
            self.find(i, tag, true, "missing-result", d);
            return;
        }
        if complete && !q.model.is_empty() && got.len() < limit && words.len().pow(q.max_words().min(4) as u32) < 60_000 {
            // the reference model must agree
            let sc = engine::Scenario {
                prop: "Q03".into(),
                words: words.clone(),
                in_query: false,
                lines: q.model.clone(),
                macros: vec![],
                chain: 0,
                extra: vec![],
                semicolons: false,
                depth: How::Setter(q.max_words()),
                limit: How::SetterNone,
                iterator: false,
                schedule: engine::Schedule { ticks: vec![], deadlines: vec![], idle: vec![], max_pauses: 0 },
            };
            let p = sc.prep();
            if let Some(w) = engine::want(&p, 300_000) {
                self.modelled += 1;
                let matches = want
                    .iter()
                    .map(|m| {
                        m.iter()
                            .map(|x| {
                                let mut it = p.words.iter().filter(|w| w.0 == x.0 && w.2 == x.1);
                                let k = it.next().map(|w| (w.0.clone(), w.1, w.2));
                                k.and_then(|k| p.keys.get(&k).copied()).unwrap_or(u32::MAX)
                            })
                            .collect()
                    })
                    .collect();
                let t = engine::Trace { matches, completes: vec!["x".into()], ..Default::default() };
                if let Some(f) = engine::check_sound(&p, &w, &t).or_else(|| engine::check_complete(&p, &w, &t)) {
                    self.find(i, tag, true, "wrong-answer", format!("{} on {}: {}", short(&q.text()), short(&format!("{:?}", words.iter().take(12).map(|w| &w.0).collect::<Vec<_>>())), f.detail));
                }
            }
        }
    }

    fn phrase(v: &Value) -> Option<String> {
        let a = v.get("phrase")?.as_array()?;
        let mut s = String::new();
        for w in a {
            let _ = write!(s, "{}/{} ", w.get("text")?.as_str()?, w.get("score")?.as_u64()?);
        }
        Some(s)
    }

    fn http(&mut self, i: usize) {
        let c = &self.s.clients[i];
        let rs = match &c.talk {
            Talk::Http(r) => r.clone(),
            _ => return,
        };
        let ob = self.o.c[i].clone();
        let tag_of = |r: &Req| match r {
            Req::Get(_) | Req::Post(_) => Tag::Http,
            Req::List(_) | Req::Js => Tag::List,
            _ => Tag::Other,
        };
        let (resps, _) = match parse_http(&ob.recv, ob.eof.is_some()) {
            Ok(x) => x,
            Err(e) => {
                self.find(i, tag_of(&rs[0]), false, "malformed", e);
                return;
            }
        };
        let ends = c.request_ends();
        let mut prev_written = 0;
        for (k, r) in rs.iter().enumerate() {
            let resp = match resps.get(k) {
                Some(x) => x,
                None => {
                    if c.cut.is_none() {
                        let part = String::from_utf8_lossy(&ob.recv[resps.last().map_or(0, |r| r.end)..]).to_string();
                        self.find(
                            i,
                            tag_of(r),
                            false,
                            "no-answer",
                            format!(
                                "request {} of {} was not answered in full ({}{}); received {}",
                                k + 1,
                                rs.len(),
                                if ob.stuck { "still waiting at the end" } else { "connection ended" },
                                if ob.eof.map_or(false, |e| e.1) { ", reset" } else { "" },
                                short(&part)
                            ),
                        );
                    }
                    return;
                }
            };
            // an answer to a request which never arrived in full can be anything
            let Some(arrived) = when(&ob.s, ends[k]) else { return };
            let written = when(&ob.y, resp.start + 1).unwrap_or(u64::MAX);
            let all = when(&ob.y, resp.end).unwrap_or(written);
            self.one(i, r, resp, arrived, arrived.max(prev_written), written, all);
            prev_written = all;
        }
        if c.cut.is_none() && resps.len() > rs.len() {
            self.find(i, tag_of(&rs[0]), false, "malformed", "more answers than requests".into());
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn one(&mut self, i: usize, r: &Req, resp: &Resp, arrived: u64, may_start: u64, written: u64, all_written: u64) {
        let body = String::from_utf8_lossy(&resp.body).to_string();
        let code = |j: &mut Self, want: u16, tag: Tag| -> bool {
            if resp.status != want {
                j.find(i, tag, false, "status", format!("status {} instead of {}: {}", resp.status, want, short(&body)));
                return false;
            }
            true
        };
        match r {
            Req::Get(q) | Req::Post(q) => {
                if q.kind == QKind::Junk || !code(self, 200, Tag::Http) {
                    return;
                }
                let plain = matches!(r, Req::Get(_));
                let limit = if plain { 10 * S } else { 150 * S };
                if written > may_start.saturating_add(limit + self.slack) {
                    self.find(i, Tag::Http, false, "late", format!("answered {:.1} s after the request, the limit is {} s (allowing {:.1} s more): {}", (written - may_start) as f64 / 1e9, limit / S, self.slack as f64 / 1e9, short(&q.text())));
                }
                if q.kind == QKind::Bad {
                    match QueryAst::new_from_str(&q.text()) {
                        Ok(_) => {}
                        Err(e) => {
                            if body != e.to_string() {
                                self.find(i, Tag::Http, true, "parse-error", format!("answer to {} is {} instead of the parse error", short(&q.text()), short(&body)));
                            }
                        }
                    }
                    return;
                }
                if !body.is_empty() && !body.ends_with('\n') {
                    self.find(i, Tag::Http, true, "malformed", format!("the answer does not end with a line end: {}", short(&body)));
                    return;
                }
                let mut lines: Vec<&str> = body.split('\n').collect();
                lines.pop();
                let timed = lines.last().map_or(false, |l| l.starts_with("# Timeout"));
                if timed {
                    lines.pop();
                    if written < arrived + limit {
                        self.find(i, Tag::Http, false, "early-timeout", format!("timed out {:.3} s after the request arrived, the limit is {} s", (written - arrived) as f64 / 1e9, limit / S));
                    }
                }
                let mut got = vec![];
                for l in &lines {
                    if plain {
                        got.push(l.to_string());
                    } else {
                        let x: Option<Value> = serde_json::from_str(l).ok();
                        match x.as_ref().and_then(|x| x.get("match")).and_then(Self::phrase) {
                            Some(p) => got.push(p),
                            None => {
                                self.find(i, Tag::Http, true, "malformed", format!("not a result: {}", short(l)));
                                return;
                            }
                        }
                    }
                }
                self.results(i, Tag::Http, q, if plain { 15 } else { 300 }, &got, !plain, !timed);
            }
            Req::List(n) => {
                if !code(self, 200, Tag::List) {
                    return;
                }
                let words = self.loaded.get(n).or_else(|| self.loaded.get("default")).cloned().unwrap_or_default();
                let want: String = words.iter().map(|w| format!("{}\n", w.0)).collect();
                self.compared += words.len() as u64;
                if want != body {
                    let k = want.lines().zip(body.lines()).take_while(|(a, b)| a == b).count();
                    self.find(
                        i,
                        Tag::List,
                        true,
                        "wrong-list",
                        format!("list {:?}: word {} is {:?} instead of {:?} ({} bytes instead of {})", n, k, body.lines().nth(k), want.lines().nth(k), body.len(), want.len()),
                    );
                }
            }
            Req::Js => {
                if !code(self, 200, Tag::List) {
                    return;
                }
                match list_index(&body) {
                    Some(got) => self.sizes(i, got, "list index"),
                    None => self.find(i, Tag::List, false, "list-index", "the list index is not a script that makes WORDLISTS an array and fills it".into()),
                };
            }
            Req::Metrics => {
                if !code(self, 200, Tag::Other) {
                    return;
                }
                let mut got = vec![];
                let (mut g, mut t) = (None, None);
                for l in body.lines() {
                    if l.starts_with('#') {
                        continue;
                    }
                    let Some((n, x)) = l.rsplit_once(' ') else { continue };
                    if n == "noodle_queries_active" {
                        g = x.parse::<u64>().ok();
                    } else if n == "noodle_queries_total" {
                        t = x.parse::<u64>().ok();
                    } else if let Some(n) = n.strip_prefix("noodle_wordlist_size{wordlist=\"").and_then(|n| n.strip_suffix("\"}")) {
                        // label values escape \, " and line ends
                        let mut name = String::new();
                        let mut esc = false;
                        for c in n.chars() {
                            match (esc, c) {
                                (false, '\\') => esc = true,
                                (true, 'n') => (name.push('\n'), esc = false).1,
                                _ => (name.push(c), esc = false).1,
                            }
                        }
                        got.push((name, x.parse().unwrap_or(usize::MAX)));
                    }
                }
                self.sizes(i, got, "metrics");
                match (g, t) {
                    (Some(g), Some(t)) => self.metrics.push((i, arrived, all_written, g, t)),
                    _ => self.find(i, Tag::Other, false, "metrics", format!("no counters in {}", short(&body))),
                }
            }
            Req::Static => {
                if code(self, 200, Tag::Other) && body != STATIC {
                    self.find(i, Tag::Other, false, "static", format!("wrong static file: {}", short(&body)));
                }
            }
            // any answer will do
            Req::Nowhere => {}
        }
    }

    fn sizes(&mut self, i: usize, mut got: Vec<(String, usize)>, what: &str) {
        got.sort();
        let want: Vec<(String, usize)> = self.loaded.iter().map(|(n, w)| (n.clone(), w.len())).collect();
        if got != want {
            self.find(i, Tag::List, true, "wrong-sizes", format!("{} says {:?}, loaded are {:?}", what, got, want));
        }
    }

    fn ws(&mut self, i: usize) {
        let c = &self.s.clients[i];
        let w = match &c.talk {
            Talk::Ws(w) => w.clone(),
            _ => return,
        };
        let ob = self.o.c[i].clone();
        let t = Tag::Ws;
        let (resps, at) = match parse_http(&ob.recv, ob.eof.is_some()) {
            Ok(x) => x,
            Err(e) => return self.find(i, t, false, "malformed", e),
        };
        if resps.is_empty() {
            if c.cut.is_none() {
                self.find(i, t, false, "no-answer", format!("the upgrade was not answered; received {}", short(&String::from_utf8_lossy(&ob.recv))));
            }
            return;
        }
        if resps[0].status != 101 || !resps[0].headers.iter().any(|h| h.0 == "sec-websocket-accept" && h.1 == ACCEPT) {
            return self.find(i, t, false, "status", format!("upgrade refused: {:?}", resps[0]));
        }
        let (frames, end) = match parse_frames(&ob.recv, at) {
            Ok(x) => x,
            Err(e) => return self.find(i, t, false, "malformed", e),
        };
        let q = &w.q;
        if q.kind == QKind::Junk {
            return;
        }
        let arrived = when(&ob.s, c.query_ends()[0]);
        let mut got = vec![];
        let mut finals: Vec<(String, usize)> = vec![];
        let mut first = None;
        let mut closed = false;
        for f in &frames {
            match f.op {
                1 => {}
                8 => {
                    closed = true;
                    continue;
                }
                9 | 10 => continue,
                _ => return self.find(i, t, false, "malformed", format!("frame with opcode {}", f.op)),
            }
            if closed {
                return self.find(i, t, false, "after-close", "a message came after the close".into());
            }
            first = first.or(Some(f.end));
            let m: Option<Value> = serde_json::from_slice(&f.data).ok();
            let Some(m) = m else {
                return self.find(i, t, true, "malformed", format!("not JSON: {}", short(&String::from_utf8_lossy(&f.data))));
            };
            if let Some(x) = m.get("match") {
                match Self::phrase(x) {
                    Some(p) => got.push(p),
                    None => return self.find(i, t, true, "malformed", format!("not a result: {}", m)),
                }
                if !finals.is_empty() {
                    return self.find(i, t, true, "after-end", format!("result {} came after the final status {:?}", m, finals));
                }
            } else if let Some(x) = m.get("status").and_then(|x| x.as_str()) {
                if x.starts_with("Processing") || x.starts_with("Running query") || x.starts_with("Parsed query") {
                    if !finals.is_empty() {
                        return self.find(i, t, false, "after-end", format!("status {:?} came after the final status {:?}", x, finals));
                    }
                } else {
                    finals.push((x.to_string(), f.end));
                }
            } else if m.get("log").and_then(|l| l.get("message")).and_then(|x| x.as_str()).is_none() {
                return self.find(i, t, true, "malformed", format!("unknown message {}", m));
            }
        }
        if let Some(f) = first {
            let fin = finals.last().and_then(|x| when(&ob.y, x.1));
            // what ends a query is over when the connection is being closed
            let close = frames.iter().find(|f| f.op == 8).and_then(|f| when(&ob.y, f.end));
            self.ws_span.insert(i, (when(&ob.y, f).unwrap_or(u64::MAX), fin, close));
        }
        let bad = q.kind == QKind::Bad && QueryAst::new_from_str(&q.text()).is_err();
        if c.cut.is_none() {
            if finals.len() != 1 {
                return self.find(
                    i,
                    t,
                    false,
                    "final-status",
                    format!(
                        "{} final status messages {:?} ({} frames, {} results{}{}{}) for {}",
                        finals.len(),
                        finals.iter().map(|f| &f.0).collect::<Vec<_>>(),
                        frames.len(),
                        got.len(),
                        if ob.stuck { ", still waiting at the end" } else { "" },
                        if ob.eof.map_or(false, |e| e.1) { ", connection reset" } else { "" },
                        if closed { ", closed" } else { "" },
                        short(&q.text())
                    ),
                );
            }
            if !closed {
                return self.find(
                    i,
                    t,
                    false,
                    "no-close",
                    format!("no close after the final status {:?}{}", finals[0].0, if ob.stuck { ", still waiting at the end" } else if ob.eof.map_or(false, |e| e.1) { " (connection reset)" } else { "" }),
                );
            }
            if ob.stuck {
                return self.find(i, t, false, "no-close", "the connection was not released after the close".into());
            }
            if end != ob.recv.len() {
                return self.find(i, t, false, "malformed", "bytes of an incomplete frame at the end".into());
            }
        }
        let status = finals.first().map(|f| f.0.to_lowercase()).unwrap_or_default();
        let timed = status.contains("timeout");
        let parse = status.contains("parse error");
        if !finals.is_empty() {
            if parse != bad {
                return self.find(i, t, true, "parse-error", format!("final status {:?} for {}", finals[0].0, short(&q.text())));
            }
            if bad && !got.is_empty() {
                return self.find(i, t, true, "parse-error", "results for a query which does not parse".into());
            }
            if let (Some(a), Some(d)) = (arrived, when(&ob.y, finals[0].1)) {
                if timed && d + S < a + 150 * S {
                    self.find(i, t, false, "early-timeout", format!("{:?} after {:.3} s", finals[0].0, (d - a) as f64 / 1e9));
                }
                if c.read == Read::Fast && d > a + 150 * S + self.slack {
                    self.find(i, t, false, "late", format!("final status {:?} came after {:.1} s (allowing {:.1} s more than the limit)", finals[0].0, (d - a) as f64 / 1e9, self.slack as f64 / 1e9));
                }
            }
        }
        if bad {
            return;
        }
        self.results(i, t, q, 300, &got, true, !finals.is_empty() && !timed);
    }

    fn all(&mut self) {
        for i in 0..self.s.clients.len() {
            self.http(i);
            self.ws(i);
        }
    }

    /// W01
    fn counters(&self) -> Option<Violation> {
        for &(m, asked, told, gauge, total) in &self.metrics {
            let phase = self.s.clients[m].phase;
            let (mut lo, mut hi) = (0u64, 0u64);
            let (mut glo, mut ghi) = (0u64, 0u64);
            for (i, c) in self.s.clients.iter().enumerate() {
                let ob = &self.o.c[i];
                let resps = parse_http(&ob.recv, ob.eof.is_some()).map(|x| x.0).unwrap_or_default();
                for (k, e) in c.query_ends().iter().enumerate() {
                    let Some(arrived) = when(&ob.s, *e) else { continue };
                    if arrived > told {
                        continue;
                    }
                    hi += 1;
                    let (began, ended) = match &c.talk {
                        Talk::Ws(_) => {
                            let s = self.ws_span.get(&i);
                            (s.map(|s| s.0), s.and_then(|s| s.2).or(ob.closed_by_server))
                        }
                        _ => {
                            // the k-th query of this connection: find its response
                            let mut idx = usize::MAX;
                            if let Talk::Http(rs) = &c.talk {
                                let mut seen = 0;
                                for (j, r) in rs.iter().enumerate() {
                                    if r.query().is_some() {
                                        if seen == k {
                                            idx = j;
                                        }
                                        seen += 1;
                                    }
                                }
                            }
                            let w = resps.get(idx).and_then(|r| when(&ob.y, r.start + 1));
                            (w, resps.get(idx).and_then(|r| when(&ob.y, r.end)).or(ob.closed_by_server))
                        }
                    };
                    if began.map_or(false, |b| b < asked) {
                        lo += 1;
                    }
                    let idle_by_now = c.phase < phase;
                    if !idle_by_now && ended.map_or(true, |e| e >= asked) {
                        ghi += 1;
                    }
                    if let (Talk::Ws(_), Some(b)) = (&c.talk, began) {
                        if let Some((_, Some(f), _)) = self.ws_span.get(&i) {
                            if b < asked && *f > told {
                                glo += 1;
                            }
                        }
                    }
                }
            }
            if gauge > ghi {
                return Some(v("gauge-high", format!("the active-query gauge says {} at {:.3} s (phase {}) when at most {} can be in progress", gauge, told as f64 / 1e9, phase, ghi)));
            }
            if gauge < glo {
                return Some(v("gauge-low", format!("the active-query gauge says {} at {:.3} s (phase {}) when at least {} are in progress", gauge, told as f64 / 1e9, phase, glo)));
            }
            if total < lo || total > hi {
                return Some(v("total", format!("the query counter says {} at {:.3} s (phase {}), {} to {} queries were received", total, told as f64 / 1e9, phase, lo, hi)));
            }
        }
        None
    }

    /// W04
    fn stops(&self) -> Option<Violation> {
        let grace = 4 * S + self.slack;
        let mut last_end: Option<u64> = None;
        for (i, c) in self.s.clients.iter().enumerate() {
            let (Talk::Ws(_), Some((_, how))) = (&c.talk, c.cut) else { continue };
            let ob = &self.o.c[i];
            let end = match how {
                Cut::Close | Cut::Fin => ob.fin.or(ob.rst),
                Cut::Rst => ob.rst,
                Cut::Vanish => ob.gone,
                // the close frame is the last thing sent
                Cut::WsClose => ob.s.last().map(|x| x.0),
            };
            let Some(end) = end else { continue };
            last_end = last_end.max(Some(end));
            match ob.closed_by_server {
                Some(k) if k <= end + grace => {}
                x => {
                    if x.is_none() && self.o.last < end + grace {
                        continue;
                    }
                    return Some(v(
                        "not-released",
                        format!(
                            "client {}: the connection ended ({:?}) at {:.3} s, the server released it {} (allowed: {:.1} s)",
                            i,
                            how,
                            end as f64 / 1e9,
                            x.map_or("never".to_string(), |k| format!("{:.1} s later", (k - end) as f64 / 1e9)),
                            grace as f64 / 1e9
                        ),
                    ));
                }
            }
        }
        let last_end = last_end?;
        for &(m, asked, _, gauge, _) in &self.metrics {
            if self.s.clients[m].phase > 0 && gauge > 0 && asked > last_end + grace {
                return Some(v("still-active", format!("{} queries still count as active {:.1} s after the last client was gone", gauge, (asked - last_end) as f64 / 1e9)));
            }
        }
        // phases 1 and 2 are one idle minute apart
        if self.o.phases.len() >= 3 {
            let (a, b) = (self.o.phases[1], self.o.phases[2]);
            let reads = b.2 - a.2;
            if reads > IDLE_READS {
                return Some(v("still-computing", format!("the server looked at the clock {} times in a minute in which it had nothing to do", reads)));
            }
        }
        None
    }
}

const IDLE_READS: u64 = 2000;
const STATIC: &str = "console.log('static file');\n";

pub fn prepare(s: &Scn) -> Result<(), String> {
    let io = |e: std::io::Error| e.to_string();
    let d = sim::fresh().map_err(io)?.join("run");
    let l = d.join("lists");
    std::fs::create_dir_all(&l).map_err(io)?;
    std::fs::create_dir_all(d.join("static")).map_err(io)?;
    std::fs::write(d.join("static/app.js"), STATIC).map_err(io)?;
    std::fs::write(d.join("index.html"), "<html></html>").map_err(io)?;
    for f in ["static/app.js", "index.html"] {
        // the time goes into the answers
        let t = std::time::UNIX_EPOCH + Duration::from_secs(1_600_000_000);
        std::fs::File::options().write(true).open(d.join(f)).and_then(|f| f.set_modified(t)).map_err(io)?;
    }
    for f in &s.lists {
        std::fs::write(l.join(&f.file), f.bytes()).map_err(io)?;
    }
    if s.extra_entries {
        std::fs::create_dir_all(l.join("folder.txt")).map_err(io)?;
        let _ = std::os::unix::fs::symlink("nowhere", l.join("link.txt"));
    }
    Ok(())
}

pub fn simulate(s: &Scn) -> Result<Hist, String> {
    prepare(s)?;
    sim::run(&sim::target("repo/release/noodle-webapp"), &["lists"], &s.conf())
}

pub fn judge(s: &Scn, st: &mut Stats) -> Result<Option<Violation>, String> {
    let h = simulate(s)?;
    if s.knobs.seed % 64 == 0 {
        // the same seed must be the same run
        let again = simulate(s)?;
        st.add("runs_repeated", 1);
        if again.print != h.print {
            st.add("runs_which_differed_when_repeated", 1);
        }
    }
    let mut j = Judge::new(s, &h);
    st.history = Some(h.print);
    for (k, n) in &h.counters {
        if k.starts_with("fault.") || ["switches", "steps", "clock_reads", "bytes_to_server"].contains(&k.as_str()) {
            st.add(k, *n);
        }
    }
    for c in &s.clients {
        match c.cut {
            Some((_, Cut::WsClose)) => st.add("fault.client_ws_close", 1),
            Some((At::Sent(_), _)) => st.add("fault.cut_while_sending", 1),
            _ => {}
        }
        match c.read {
            Read::Slow(..) => st.add("fault.slow_reader", 1),
            _ => {}
        }
        if c.seg > 0 {
            st.add("fault.split_delivery", 1);
        }
    }
    if s.knobs.shuffle {
        st.add("fault.shuffled_directory", 1);
    }
    st.add("simulated_ns", j.o.last);
    st.add("clients", s.clients.len() as u64);
    st.distinct.insert(h.sched);
    if h.end == "output" {
        // it sends without end; the other properties have nothing to say about that
        if ["W03", "W04", "W05"].contains(&s.prop.as_str()) {
            return Ok(Some(v("no-end", format!("the server was still sending after {:.3} s and {} steps: it has filled the record of the run", j.o.last as f64 / 1e9, h.counters.get("steps").copied().unwrap_or(0)))));
        }
        return Ok(None);
    }
    if h.end != "done" {
        let last: String = j.o.stderr.trim().chars().take(600).collect();
        return Ok(Some(v("server-died", format!("the server did not survive: {} (status {}) after {:.3} s; {:?}", h.end, h.code, j.o.last as f64 / 1e9, last))));
    }
    j.all();
    st.add("results_compared", j.compared);
    st.add("answers_checked_against_model", j.modelled);
    st.add("metrics_read", j.metrics.len() as u64);
    let pick = |f: &dyn Fn(&Finding) -> bool| j.out.iter().find(|x| f(x)).map(|x| x.v.clone());
    let r = match s.prop.as_str() {
        "W01" => j.counters(),
        "W02" => pick(&|f| s.clients[f.client].phase > 0 && s.clients[f.client].cut.is_none()),
        "W03" => pick(&|f| f.tag == Tag::Ws),
        "W04" => j.stops().or_else(|| pick(&|f| f.tag == Tag::Ws && f.content && s.clients[f.client].cut.is_some())),
        "W05" => pick(&|f| f.tag == Tag::Http),
        "W06" => pick(&|f| f.content && (f.tag == Tag::Http || f.tag == Tag::Ws)),
        "W07" => pick(&|f| f.tag == Tag::List),
        p => return Err(format!("unknown property {}", p)),
    };
    Ok(r)
}

/// What /wordlists.js makes of WORDLISTS: an array, assigned first and then added to.
fn list_index(js: &str) -> Option<Vec<(String, usize)>> {
    let mut all: Option<Vec<Value>> = None;
    let mut rest = js;
    while let Some(k) = rest.find("WORDLISTS") {
        rest = rest[k + 9..].trim_start();
        if let Some(r) = rest.strip_prefix(".push(") {
            let mut it = serde_json::Deserializer::from_str(r).into_iter::<Value>();
            all.as_mut()?.push(it.next()?.ok()?);
            rest = &r[it.byte_offset()..];
        } else if let Some(r) = rest.strip_prefix('=') {
            let mut it = serde_json::Deserializer::from_str(r).into_iter::<Value>();
            match it.next() {
                Some(Ok(Value::Array(v))) => {
                    all = Some(v);
                    rest = &r[it.byte_offset()..];
                }
                // an expression: taken to be an array when it mentions one
                _ => {
                    let e = r.find([';', '\n']).unwrap_or(r.len());
                    if r[..e].contains('[') {
                        all.get_or_insert_with(Vec::new);
                    }
                    rest = &r[e..];
                }
            }
        }
    }
    let one = |x: &Value| (x["name"].as_str().unwrap_or("?").to_string(), x["len"].as_u64().unwrap_or(u64::MAX) as usize);
    Some(all?.iter().map(one).collect())
}
