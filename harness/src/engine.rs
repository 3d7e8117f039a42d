//! Engine simulator: runs the real query evaluator under a virtual clock and a seeded
//! pause/resume schedule, and judges the recorded history (Q01-Q06).
use crate::clock::{clock, instant};
use crate::gen::*;
use crate::refmodel::*;
use crate::rng::{hash_bytes, mix, Rng};
use noodle::parser::QueryAst;
use noodle::{QueryEvaluator, QueryResponse, Word};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Schedule {
    /// clock movement per clock read, in ns (cycled)
    pub ticks: Vec<u64>,
    /// per call: deadline relative to the clock at the call in ns (None: no deadline); cycled
    pub deadlines: Vec<Option<i64>>,
    /// idle time between a pause and the next call, in ns (cycled)
    pub idle: Vec<u64>,
    /// after this many pauses the query is no longer interrupted
    pub max_pauses: usize,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    Default,
    Pragma(usize),
    Setter(usize),
    /// pragma in the text, then overridden by the caller
    Both(usize, usize),
    SetterNone,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scenario {
    pub prop: String,
    pub words: Vec<(String, u8, u32)>,
    /// the list is given in the query text with #wordlist
    pub in_query: bool,
    pub lines: Vec<Line>,
    /// (macro name, start, len) replacements in the rendered line i
    pub macros: Vec<(usize, usize, usize)>,
    /// macros that are made up of an earlier macro (0: none, otherwise where it is cut out)
    #[serde(default)]
    pub chain: usize,
    /// lines that mean nothing for the result: (before which line, which of MEANINGLESS)
    #[serde(default)]
    pub extra: Vec<(usize, usize)>,
    pub semicolons: bool,
    pub depth: How,
    pub limit: How,
    /// results are taken through the Iterator interface
    pub iterator: bool,
    pub schedule: Schedule,
}

pub type Key = (String, u8, u32);

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Match(Vec<u32>),
    Pause,
    Logs,
    Complete(String),
}

#[derive(Clone, Debug, Default)]
pub struct Trace {
    pub evs: Vec<Ev>,
    pub matches: Vec<Vec<u32>>,
    pub completes: Vec<String>,
    pub pauses: usize,
    pub calls: usize,
    pub reads: u64,
    pub sim_ns: u64,
    pub early: Option<String>,
    pub late: Option<String>,
    pub after: Vec<String>,
    pub truncated: bool,
    pub livelock: bool,
    /// (matches so far, in phrase phase?) at each pause
    pub pause_points: Vec<(usize, u64)>,
    /// most search work between two looks at the clock with a deadline running, and in which call
    pub max_work: u64,
    pub max_work_call: usize,
    pub expressions: usize,
}

pub struct Prep {
    pub text: String,
    pub words: Vec<W>,
    pub keys: HashMap<Key, u32>,
    /// key id -> list positions
    pub dups: Vec<usize>,
    pub lines: Option<Vec<LineRef>>,
    pub max_words: usize,
    pub limit: Option<usize>,
}

/// Lines that do not change what is searched for
pub const MEANINGLESS: [&str; 7] = [
    "",
    "  ",
    "// nothing to see",
    "/* [^x]* /* !_ **/ ",
    "#quiet",
    " -- old: abc",
    "#QUIET // twice",
];

impl Scenario {
    pub fn text(&self) -> String {
        let mut v: Vec<String> = vec![];
        if let How::Pragma(n) | How::Both(n, _) = self.depth {
            v.push(format!("#words {}", n));
        }
        if let How::Pragma(n) | How::Both(n, _) = self.limit {
            v.push(format!("#limit {}", n));
        }
        let names = ["ZQ", "QZ_1", "zzQ"];
        let mut rendered: Vec<String> = self.lines.iter().map(|l| l.render()).collect();
        let plain = rendered.clone();
        let mut defs: Vec<(String, String)> = vec![];
        for (k, &(li, s, n)) in self.macros.iter().enumerate() {
            if li >= rendered.len() || k >= names.len() || rendered[li].contains("/*") {
                continue;
            }
            let body = rendered[li].split(" //").next().unwrap().to_string();
            if s + n > body.len() || n == 0 {
                continue;
            }
            let val = &body[s..s + n];
            if val.starts_with(' ') || val.ends_with(' ') || val.contains('Q') || val.contains("zz") || val.contains("ZZ") {
                continue;
            }
            let val = val.to_string();
            if (s + n) % 2 == 0 {
                rendered[li].replace_range(s..s + n, names[k]);
            } else {
                // everywhere
                for l in rendered.iter_mut() {
                    *l = l.replace(&val, names[k]);
                }
            }
            defs.push((names[k].into(), val));
        }
        if self.chain > 0 {
            // a macro cut out of the value of another one, which is defined after it
            let k = self.chain % defs.len().max(1);
            if let Some((_, val)) = defs.get_mut(k) {
                let at = self.chain / 3 % val.len();
                let len = 1 + self.chain / 60 % (val.len() - at);
                let cut = val[at..at + len].to_string();
                if !cut.starts_with(' ') && !cut.ends_with(' ') {
                    val.replace_range(at..at + len, "KQ_k");
                    defs.insert(0, ("KQ_k".into(), cut));
                }
            }
        }
        // the documented find-and-replace must give back the lines (a name may appear by chance)
        let mut known: Vec<(String, String)> = vec![];
        let expand = |known: &[(String, String)], l: &str| {
            known.iter().fold(l.to_string(), |l, (n, val)| l.replace(n.as_str(), val))
        };
        let mut names_kept = true;
        for (name, val) in &defs {
            let whole = expand(&known, &format!("{}={}", name, val));
            match whole.split_once('=') {
                Some((n, val)) if n == name => known.push((n.into(), val.into())),
                _ => names_kept = false,
            }
        }
        let same = rendered.iter().zip(&plain).all(|(l, p)| expand(&known, l) == *p);
        if names_kept && same {
            v.extend(defs.iter().map(|(n, val)| format!("{}={}", n, val)));
        } else {
            rendered = plain;
        }
        for (i, l) in rendered.into_iter().enumerate() {
            for &(_, e) in self.extra.iter().filter(|e| e.0 == i) {
                let e = MEANINGLESS[e % MEANINGLESS.len()];
                if expand(&known, e) == e {
                    v.push(e.into());
                }
            }
            v.push(l);
        }
        if self.in_query {
            v.push("#wordlist".into());
            for w in &self.words {
                v.push(w.0.clone());
            }
        }
        v.join(if self.semicolons { ";" } else { "\n" })
    }

    pub fn prep(&self) -> Prep {
        let text = self.text();
        let words = if self.in_query {
            // a list given in the query: one tier, score = line number
            let base = text.split(&['\n', ';'][..]).count() - self.words.len();
            let mut v: Vec<W> = self
                .words
                .iter()
                .enumerate()
                .map(|(i, w)| (w.0.trim().to_string(), 1, (base + i) as u32))
                .filter(|w| !w.0.is_empty())
                .collect();
            sort_words(&mut v);
            v
        } else {
            let mut v = self.words.clone();
            sort_words(&mut v);
            v
        };
        let mut keys = HashMap::new();
        let mut dups = vec![];
        for w in &words {
            let n = keys.len() as u32;
            let id = *keys.entry((w.0.clone(), w.1, w.2)).or_insert(n);
            if id as usize == dups.len() {
                dups.push(1);
            } else {
                dups[id as usize] += 1;
            }
        }
        let lines: Option<Vec<LineRef>> = self.lines.iter().map(LineRef::new).collect();
        let max_words = match self.depth {
            How::Default | How::SetterNone => 10,
            How::Pragma(n) | How::Setter(n) | How::Both(_, n) => n,
        };
        let limit = match self.limit {
            How::Default => Some(300),
            How::SetterNone => None,
            How::Pragma(n) | How::Setter(n) | How::Both(_, n) => Some(n),
        };
        Prep { text, words, keys, dups, lines, max_words, limit }
    }
}

pub const MAX_EVENTS: usize = 60_000;

/// Run the real evaluator. `paused`: follow the schedule, otherwise no deadlines.
pub fn run(sc: &Scenario, p: &Prep, paused: bool, reference: bool, iterator: bool) -> Result<Trace, String> {
    let c = clock();
    c.now = 1_000_000_000_000;
    c.reads = 0;
    c.ticks = sc.schedule.ticks.clone();
    c.deadline = None;
    c.on = true;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_inner(sc, p, paused, reference, iterator)));
    let c = clock();
    c.on = false;
    c.deadline = None;
    match r {
        Ok(x) => x,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            Err(format!("panic: {}", m))
        }
    }
}

fn run_inner(sc: &Scenario, p: &Prep, paused: bool, reference: bool, iterator: bool) -> Result<Trace, String> {
    let words: Vec<Word> = p.words.iter().map(|w| Word::new(&w.0, w.1, w.2)).collect();
    let mut ast = QueryAst::new_from_str(&p.text).map_err(|e| format!("parse: {}", e))?;
    if reference {
        ast.options.results_limit = Some(usize::MAX);
    }
    let other = vec![];
    let mut ev = QueryEvaluator::from_ast(&ast, if sc.in_query { &other } else { &words });
    match sc.depth {
        How::Setter(n) | How::Both(_, n) => ev.set_search_depth_limit(n),
        _ => {}
    }
    match sc.limit {
        _ if reference => {}
        How::Setter(n) | How::Both(_, n) => ev.set_results_limit(Some(n)),
        How::SetterNone => ev.set_results_limit(None),
        _ => {}
    }
    let mut t = Trace::default();
    t.expressions = ev.expressions().len();
    let key = |ws: &[Word]| -> Vec<u32> {
        ws.iter()
            .map(|w| *p.keys.get(&(w.text.to_string(), w.tranche, w.score)).unwrap_or(&u32::MAX))
            .collect()
    };
    let s = &sc.schedule;
    if iterator {
        for r in ev {
            t.calls += 1;
            match r {
                QueryResponse::Match(m) => {
                    let k = key(&m);
                    t.matches.push(k.clone());
                    t.evs.push(Ev::Match(k));
                    if !t.completes.is_empty() {
                        t.after.push("match after completion".into());
                    }
                }
                QueryResponse::Logs(_) => t.evs.push(Ev::Logs),
                QueryResponse::Timeout => t.evs.push(Ev::Pause),
                QueryResponse::Complete(m) => {
                    t.completes.push(m.clone());
                    t.evs.push(Ev::Complete(m));
                }
            }
            if t.evs.len() > MAX_EVENTS {
                t.truncated = true;
                break;
            }
        }
        t.reads = clock().reads;
        return Ok(t);
    }
    let call_cap = MAX_EVENTS + 200_000;
    loop {
        let c = clock();
        let interrupting = paused && t.pauses < s.max_pauses;
        let dl = if interrupting && !s.deadlines.is_empty() {
            s.deadlines[t.calls % s.deadlines.len()]
        } else {
            None
        };
        let deadline = dl.map(|d| {
            let now = instant();
            if d >= 0 {
                now + Duration::from_nanos(d as u64)
            } else {
                now - Duration::from_nanos(d.unsigned_abs())
            }
        });
        c.deadline = dl.map(|d| (c.now as i64 + d) as u64);
        c.reads_after_deadline = 0;
        t.calls += 1;
        crate::clock::work_mark();
        clock().max_work = 0;
        let r = ev.next_within_deadline(deadline);
        crate::clock::work_mark();
        let c = clock();
        if c.max_work > t.max_work {
            t.max_work = c.max_work;
            t.max_work_call = t.calls;
        }
        if let Some(d) = c.deadline {
            if matches!(r, QueryResponse::Timeout) && c.now <= d && t.early.is_none() {
                t.early = Some(format!("call {} reported a timeout {} ns before its deadline", t.calls, d - c.now));
            }
            if c.reads_after_deadline > 8 && t.late.is_none() {
                t.late = Some(format!("call {} read the clock {} times after its deadline had passed and went on", t.calls, c.reads_after_deadline));
            }
        } else if matches!(r, QueryResponse::Timeout) && t.early.is_none() {
            t.early = Some(format!("call {} had no deadline but reported a timeout", t.calls));
        }
        c.deadline = None;
        match r {
            QueryResponse::Match(m) => {
                let k = key(&m);
                t.matches.push(k.clone());
                t.evs.push(Ev::Match(k));
            }
            QueryResponse::Logs(_) => t.evs.push(Ev::Logs),
            QueryResponse::Timeout => {
                t.pauses += 1;
                t.pause_points.push((t.matches.len(), c.reads));
                t.evs.push(Ev::Pause);
                if !s.idle.is_empty() {
                    c.now += s.idle[t.pauses % s.idle.len()];
                }
                // the server asks for progress after every pause
                let _ = ev.progress();
            }
            QueryResponse::Complete(m) => {
                t.completes.push(m.clone());
                t.evs.push(Ev::Complete(m));
                break;
            }
        }
        if t.evs.len() > MAX_EVENTS && t.matches.len() > MAX_EVENTS / 2 {
            t.truncated = true;
            break;
        }
        if t.calls > call_cap || sc.prop == "probe" && matches!(t.evs.last(), Some(Ev::Pause)) && t.evs.contains(&Ev::Logs) {
            t.livelock = true;
            break;
        }
    }
    let c = clock();
    t.reads = c.reads;
    t.sim_ns = c.now - 1_000_000_000_000;
    if !t.completes.is_empty() {
        // consuming further must produce nothing new
        if let Some(x) = ev.next() {
            t.after.push(format!("iterator yields {:?} after completion", short(&x)));
        }
        if let QueryResponse::Match(_) = ev.next_within_deadline(None) {
            t.after.push("match after completion".into());
        }
    }
    Ok(t)
}

fn short(r: &QueryResponse) -> String {
    let s = format!("{:?}", r);
    s.chars().take(100).collect()
}

/// The number printed in a completion notice ("final completion notice count").
pub fn numbers(s: &str) -> Vec<u64> {
    let mut v = vec![];
    let mut cur: Option<u64> = None;
    for c in s.chars().chain(" ".chars()) {
        if let Some(d) = c.to_digit(10) {
            cur = Some(cur.unwrap_or(0).saturating_mul(10).saturating_add(d as u64));
        } else if let Some(x) = cur.take() {
            v.push(x);
        }
    }
    v
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

pub fn v(class: &str, detail: String) -> Violation {
    Violation { class: class.into(), detail }
}

#[derive(Default, Clone, Serialize, Deserialize)]
pub struct Stats {
    pub counters: std::collections::BTreeMap<String, u64>,
    #[serde(skip)]
    pub distinct: std::collections::HashSet<u64>,
    /// hash of the recorded history of the last run
    #[serde(skip)]
    pub history: Option<u64>,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    /// Keeps the biggest value; the name must begin with "most_".
    pub fn max(&mut self, k: &str, n: u64) {
        let c = self.counters.entry(k.to_string()).or_insert(0);
        *c = (*c).max(n);
    }
}

fn phrase_text(p: &Prep, k: &[u32]) -> String {
    let mut rev: Vec<&str> = vec!["?"; p.keys.len()];
    for (key, &id) in &p.keys {
        rev[id as usize] = &key.0;
    }
    k.iter()
        .map(|&i| rev.get(i as usize).copied().unwrap_or("<not in list>"))
        .collect::<Vec<_>>()
        .join(" ")
}

/// key ids per list position
pub fn key_of_pos(p: &Prep) -> Vec<u32> {
    p.words.iter().map(|w| p.keys[&(w.0.clone(), w.1, w.2)]).collect()
}

pub fn tier_of_key(p: &Prep) -> Vec<u8> {
    let mut t = vec![0; p.keys.len()];
    for (k, &id) in &p.keys {
        t[id as usize] = k.1;
    }
    t
}

/// Positions in the word list at which each key occurs.
fn positions(p: &Prep) -> Vec<Vec<usize>> {
    let mut pos = vec![vec![]; p.keys.len()];
    for (i, k) in key_of_pos(p).iter().enumerate() {
        pos[*k as usize].push(i);
    }
    pos
}

/// The smallest tuple of list positions of the words `m` that lies after `last` (entries which are
/// listed twice may be used at any of their positions).
fn next_positions(pos: &[Vec<usize>], m: &[u32], last: Option<&Vec<usize>>) -> Option<Vec<usize>> {
    fn go(pos: &[Vec<usize>], m: &[u32], last: Option<&[usize]>, out: &mut Vec<usize>) -> bool {
        let i = out.len();
        if i == m.len() {
            return match last {
                Some(l) => &out[..] > l,
                None => true,
            };
        }
        let tied = last.map(|l| out[..] == l[..i]).unwrap_or(false);
        for &x in &pos[m[i] as usize] {
            if tied && x < last.unwrap()[i] {
                continue;
            }
            out.push(x);
            if go(pos, m, last, out) {
                return true;
            }
            out.pop();
        }
        false
    }
    let mut out = vec![];
    if go(pos, m, last.map(|l| &l[..]), &mut out) {
        Some(out)
    } else {
        None
    }
}

/// Order promised by Q06.
pub fn check_order(p: &Prep, ms: &[Vec<u32>]) -> Option<Violation> {
    let tier = tier_of_key(p);
    let pos = positions(p);
    let mut phrases_started = false;
    // a later phrase must not be strictly better in both length and tier than an earlier one
    let mut best: Vec<(usize, u8)> = vec![];
    let mut last_of: HashMap<(usize, u8), Vec<usize>> = HashMap::new();
    for (i, m) in ms.iter().enumerate() {
        if m.is_empty() || m.iter().any(|&k| k == u32::MAX) {
            continue;
        }
        let t = m.iter().map(|&k| tier[k as usize]).max().unwrap();
        let group = if m.len() == 1 { (1, 0) } else { (m.len(), t) };
        if m.len() == 1 {
            if phrases_started {
                return Some(v("order", format!("single word {:?} (result {}) came after a phrase", phrase_text(p, m), i)));
            }
        } else {
            phrases_started = true;
            for &(l2, t2) in &best {
                if (l2, t2) != (m.len(), t) && m.len() <= l2 && t <= t2 {
                    return Some(v(
                        "order",
                        format!("phrase {:?} ({} words, tier {}; result {}) came after a phrase of {} words and tier {}", phrase_text(p, m), m.len(), t, i, l2, t2),
                    ));
                }
            }
            if !best.contains(&group) {
                best.push(group);
            }
        }
        match next_positions(&pos, m, last_of.get(&group)) {
            Some(q) => {
                last_of.insert(group, q);
            }
            None => return Some(v("order", format!("{:?} (result {}) came out of word-list order", phrase_text(p, m), i))),
        }
    }
    None
}

fn counts(ms: impl Iterator<Item = Vec<u32>>) -> HashMap<Vec<u32>, u64> {
    let mut h = HashMap::new();
    for m in ms {
        *h.entry(m).or_insert(0) += 1;
    }
    h
}

/// Reference enumeration by key ids with multiplicity.
pub struct Want {
    pub must: HashMap<Vec<u32>, u64>,
    pub may: HashMap<Vec<u32>, u64>,
    pub visited: u64,
}

pub fn want(p: &Prep, cap: u64) -> Option<Want> {
    let lines = p.lines.as_ref()?;
    let ws: Vec<Vec<u8>> = p.words.iter().map(|w| normalise(&w.0)).collect();
    let e = enumerate(lines, &ws, p.max_words, cap)?;
    let kp = key_of_pos(p);
    let f = |v: &Vec<u32>| v.iter().map(|&i| kp[i as usize]).collect::<Vec<u32>>();
    Some(Want {
        must: counts(e.must.iter().map(f)),
        may: counts(e.must.iter().chain(e.extra.iter()).map(f)),
        visited: e.visited,
    })
}

pub fn check_sound(p: &Prep, w: &Want, t: &Trace) -> Option<Violation> {
    for m in &t.matches {
        if m.iter().any(|&k| k == u32::MAX) {
            return Some(v("not-in-list", format!("a reported word is not an entry of the list in use: {:?}", phrase_text(p, m))));
        }
        if m.is_empty() || m.len() > p.max_words.max(1) {
            return Some(v("too-long", format!("reported phrase of {} words, at most {} allowed: {:?}", m.len(), p.max_words, phrase_text(p, m))));
        }
        if !w.may.contains_key(m) {
            // with a depth limit of 0 single words are still reported
            if p.max_words == 0 && m.len() == 1 {
                continue;
            }
            return Some(v("unsound", format!("reported {:?} which does not satisfy the query", phrase_text(p, m))));
        }
    }
    None
}

pub fn check_complete(p: &Prep, w: &Want, t: &Trace) -> Option<Violation> {
    let got = counts(t.matches.iter().cloned());
    let mut bad: Vec<(&Vec<u32>, u64, u64)> = vec![];
    for (m, &n) in &got {
        let max = w.may.get(m).copied().unwrap_or(u64::MAX);
        if n > max {
            bad.push((m, n, max));
        }
    }
    if let Some((m, n, max)) = bad.iter().min() {
        return Some(v("repeated", format!("{:?} was reported {} times instead of {}", phrase_text(p, m), n, max)));
    }
    if t.completes.is_empty() || t.truncated {
        return None;
    }
    if let Some(l) = p.limit {
        if t.matches.len() >= l {
            return None;
        }
    }
    let mut missing: Vec<(&Vec<u32>, u64, u64)> = vec![];
    for (m, &n) in &w.must {
        let g = got.get(m).copied().unwrap_or(0);
        if g < n {
            missing.push((m, g, n));
        }
    }
    if let Some((m, g, n)) = missing.iter().min() {
        return Some(v("missing", format!("{:?} satisfies the query but was reported {} times instead of {} ({} missing in all)", phrase_text(p, m), g, n, missing.len())));
    }
    None
}

/// Everything the engine can be judged on for scenario `sc`, restricted to property `prop`.
pub fn judge(sc: &Scenario, stats: &mut Stats) -> Result<Option<Violation>, String> {
    let p = sc.prep();
    let prop = sc.prop.as_str();
    let fail = |stats: &mut Stats, e: String| -> Result<Option<Violation>, String> {
        if e.starts_with("parse:") {
            rejected(prop, &p, stats, e)
        } else {
            Ok(Some(v("crash", format!("query {:?}: {}", p.text, e))))
        }
    };
    match prop {
        "Q01" => {
            let base = match run(sc, &p, false, false, false) {
                Ok(t) => t,
                Err(e) => return fail(stats, e),
            };
            let t = match run(sc, &p, true, false, false) {
                Ok(t) => t,
                Err(e) => return fail(stats, e),
            };
            note(stats, sc, &t);
            stats.add("compared_results", t.matches.len() as u64);
            if t.livelock {
                return Ok(Some(v("livelock", format!("no completion after {} resumed calls", t.calls))));
            }
            if base.truncated || t.truncated {
                return Ok(None);
            }
            if base.matches != t.matches {
                let i = base.matches.iter().zip(&t.matches).take_while(|(a, b)| a == b).count();
                return Ok(Some(v(
                    "diverged",
                    format!(
                        "with {} pauses result {} is {:?}, without pauses {:?} ({} results against {})",
                        t.pauses,
                        i,
                        t.matches.get(i).map(|m| phrase_text(&p, m)),
                        base.matches.get(i).map(|m| phrase_text(&p, m)),
                        t.matches.len(),
                        base.matches.len()
                    ),
                )));
            }
            let a: Vec<Vec<u64>> = base.completes.iter().map(|s| numbers(s)).collect();
            let b: Vec<Vec<u64>> = t.completes.iter().map(|s| numbers(s)).collect();
            if a != b {
                return Ok(Some(v("completion", format!("completion notice {:?} with pauses, {:?} without", t.completes, base.completes))));
            }
            Ok(None)
        }
        "Q02" | "Q03" => {
            let w = match want(&p, 3_000_000) {
                Some(w) => w,
                None => {
                    stats.add("skipped_reference_too_big", 1);
                    return Ok(None);
                }
            };
            let t = match run(sc, &p, true, false, false) {
                Ok(t) => t,
                Err(e) => return fail(stats, e),
            };
            note(stats, sc, &t);
            stats.add("reference_nodes", w.visited);
            stats.add("results_checked", t.matches.len() as u64);
            stats.add("required_results", w.must.len() as u64);
            if !w.must.is_empty() {
                stats.add("runs_with_required_results", 1);
            }
            if prop == "Q02" {
                return Ok(check_sound(&p, &w, &t));
            }
            if t.livelock {
                return Ok(Some(v("livelock", format!("no completion after {} resumed calls", t.calls))));
            }
            Ok(check_complete(&p, &w, &t))
        }
        "Q04" => judge_limits(sc, &p, stats),
        "Q05" => judge_deadlines(sc, &p, stats),
        "Q06" => {
            let t = match run(sc, &p, true, false, false) {
                Ok(t) => t,
                Err(e) => return fail(stats, e),
            };
            note(stats, sc, &t);
            stats.add("results_checked", t.matches.len() as u64);
            let lens: std::collections::HashSet<usize> = t.matches.iter().map(|m| m.len()).collect();
            if lens.len() > 1 {
                stats.add("runs_with_several_lengths", 1);
            }
            Ok(check_order(&p, &t.matches))
        }
        _ => Err(format!("unknown property {}", prop)),
    }
}

/// A documented query was refused: no results at all, which is for Q03 to complain about.
fn rejected(prop: &str, p: &Prep, stats: &mut Stats, e: String) -> Result<Option<Violation>, String> {
    stats.add("rejected_queries", 1);
    if prop == "Q03" {
        let e: String = e.chars().take(300).collect();
        return Ok(Some(v("rejected", format!("query {:?}: {}", p.text, e))));
    }
    Ok(None)
}

fn judge_limits(sc: &Scenario, p: &Prep, stats: &mut Stats) -> Result<Option<Violation>, String> {
    macro_rules! tr {
        ($e:expr) => {
            match $e {
                Ok(t) => t,
                Err(e) if e.starts_with("parse:") => return rejected("Q04", p, stats, e),
                Err(e) => return Ok(Some(v("crash", format!("query {:?}: {}", p.text, e)))),
            }
        };
    }
    let full = tr!(run(sc, p, false, true, false));
    let t = tr!(run(sc, p, true, false, false));
    note(stats, sc, &t);
    if full.matches.len() > 300 {
        stats.add("runs_with_more_results_than_the_default_limit", 1);
    }
    let lim = p.limit.unwrap_or(usize::MAX);
    let mut traces = vec![("paused", &t)];
    let it;
    if sc.iterator {
        it = tr!(run(sc, p, false, false, true));
        traces.push(("iterator", &it));
        stats.add("iterator_runs", 1);
    }
    for (what, t) in traces {
        if t.livelock {
            return Ok(Some(v("livelock", format!("no completion after {} resumed calls", t.calls))));
        }
        if t.matches.len() > lim {
            return Ok(Some(v("over-limit", format!("{}: {} results with a limit of {}", what, t.matches.len(), lim))));
        }
        if t.truncated || full.truncated && lim > full.matches.len() {
            continue;
        }
        let expect = &full.matches[..full.matches.len().min(lim)];
        if t.matches != expect {
            let i = t.matches.iter().zip(expect).take_while(|(a, b)| a == b).count();
            return Ok(Some(v(
                "not-a-prefix",
                format!(
                    "{}: limit {}: {} results, expected {}; first difference at {}: {:?} against {:?}",
                    what,
                    lim,
                    t.matches.len(),
                    expect.len(),
                    i,
                    t.matches.get(i).map(|m| phrase_text(p, m)),
                    expect.get(i).map(|m| phrase_text(p, m))
                ),
            )));
        }
        if t.completes.len() != 1 {
            return Ok(Some(v("completion", format!("{}: completion announced {} times", what, t.completes.len()))));
        }
        if !matches!(t.evs.last(), Some(Ev::Complete(_))) {
            return Ok(Some(v("completion", format!("{}: something follows the completion notice", what))));
        }
        if let Some(a) = t.after.first() {
            return Ok(Some(v("completion", format!("{}: {}", what, a))));
        }
        if let Some(m) = t.matches.iter().find(|m| m.len() > p.max_words.max(1)) {
            return Ok(Some(v("too-long", format!("{}: phrase of {} words, at most {} allowed: {:?}", what, m.len(), p.max_words, phrase_text(p, m)))));
        }
        if t.matches.len() == lim {
            stats.add("runs_cut_by_limit", 1);
        }
    }
    Ok(None)
}

/// Candidate words or phrases the engine may examine for each expression between two looks at the clock.
pub const BURST: u64 = 1024;

fn judge_deadlines(sc: &Scenario, p: &Prep, stats: &mut Stats) -> Result<Option<Violation>, String> {
    let t = match run(sc, p, true, false, false) {
        Ok(t) => t,
        Err(e) if e.starts_with("parse:") => return rejected("Q05", p, stats, e),
        Err(e) => return Ok(Some(v("crash", format!("query {:?}: {}", p.text, e)))),
    };
    note(stats, sc, &t);
    if let Some(e) = t.early {
        return Ok(Some(v("early", e)));
    }
    if let Some(e) = t.late {
        return Ok(Some(v("late", e)));
    }
    let allowed = BURST * t.expressions.max(1) as u64;
    stats.max("most_candidates_between_two_looks_at_the_clock", t.max_work);
    if t.max_work > allowed {
        return Ok(Some(v(
            "blind",
            format!("call {} examined {} candidates without looking at the clock while a deadline was running (at most {} allowed)", t.max_work_call, t.max_work, allowed),
        )));
    }
    if t.livelock {
        return Ok(Some(v("livelock", format!("no completion after {} resumed calls", t.calls))));
    }
    // With time left on every deadline each pause must have been preceded by progress. The search
    // can examine at most `bound` candidates in all.
    let n = p.words.len() as u128;
    let tiers = {
        let mut v: Vec<u8> = p.words.iter().map(|w| w.1).collect();
        v.dedup();
        v.len().max(1) as u128
    };
    let mut bound = n + 16;
    let mut pw = 1u128;
    for _ in 1..=p.max_words {
        pw = pw.saturating_mul(n);
        bound = bound.saturating_add(pw.saturating_mul(tiers * p.max_words as u128));
    }
    let tick = sc.schedule.ticks.iter().copied().max().unwrap_or(0) as i64;
    let fair = sc.schedule.deadlines.iter().all(|d| d.map_or(true, |d| d > 2 * tick.min(1 << 60)));
    if fair && (t.pauses as u128) > bound {
        return Ok(Some(v("no-progress", format!("{} pauses for at most {} candidates", t.pauses, bound))));
    }
    // Work known to be unavoidable: see `gen_deadline_scenario`.
    if let Some(work) = known_work(sc, p) {
        stats.add("known_work_candidates", work);
        // every look at the clock covers at most BURST candidates, every returned result one more
        let looks = t.reads + t.matches.len() as u64 + 4;
        if work / looks.max(1) > BURST {
            return Ok(Some(v(
                "unresponsive",
                format!("{} candidates had to be examined but the clock was read only {} times while deadlines were running", work, t.reads),
            )));
        }
        stats.add("runs_with_known_work", 1);
    }
    Ok(None)
}

/// For queries made of the two lines `.*x.*` style that accept every prefix but no complete phrase,
/// all n^d phrases of the deepest admissible length must be examined: a lower bound on work.
fn known_work(sc: &Scenario, p: &Prep) -> Option<u64> {
    if !sc.schedule.deadlines.iter().all(|d| d.is_some()) || sc.schedule.max_pauses < 1_000_000 {
        return None;
    }
    let w = sc.lines.len();
    // Every word satisfies each line but the last, and no word satisfies that: all the lines have to
    // be tried with all the words.
    if w >= 1 && sc.lines[w - 1].root == dead_end_single() && p.words.iter().all(|w| !w.0.contains('z')) {
        let all = p.words.iter().fold(0u32, |m, w| m | letters_of(&w.0));
        let ok = |l: &Line| {
            l.fuzz.is_none()
                && match &l.root {
                    R::Rep(t, 0, None) => matches!(**t, R::Set(m, _) if m & all == all),
                    _ => false,
                }
        };
        if sc.lines[..w - 1].iter().all(ok) && p.words.iter().all(|w| w.0.chars().all(|c| c.is_ascii_lowercase())) {
            return Some(p.words.len() as u64 * w as u64);
        }
        return None;
    }
    if w == 2 && sc.lines[0].root == dead_end(0) && sc.lines[1].root == dead_end(1) {
        let n = p.words.len() as u64;
        // both lines can be satisfied on their own with this list, so that no phrase can be ruled
        // out without looking at it
        let ends = |c: char| p.words.iter().any(|w| w.0.ends_with(c));
        let plain = p.words.iter().all(|w| !w.0.is_empty() && w.0.chars().all(|c| c == 'a' || c == 'e'));
        if !plain || !ends('a') || !ends('e') || p.words.iter().any(|w| w.1 != p.words[0].1) {
            return None;
        }
        let mut work = n;
        for d in 2..=p.max_words as u32 {
            work = work.saturating_add(n.saturating_pow(d));
        }
        return Some(work);
    }
    None
}

/// `.*z`-like lines: every prefix may still match, the two together never do.
pub fn dead_end(i: usize) -> R {
    let any = R::Rep(Box::new(R::Set(LETTERS, false)), 0, None);
    R::Seq(vec![any, R::Set(1 << if i == 0 { 0 } else { 4 }, false)])
}
pub fn dead_end_single() -> R {
    R::Seq(vec![
        R::Rep(Box::new(R::Set(LETTERS, false)), 0, None),
        R::Set(1 << 25, false),
    ])
}

fn letters_of(w: &str) -> u32 {
    w.chars().filter(|c| c.is_ascii_lowercase()).fold(0, |m, c| m | 1 << (c as u32 - 'a' as u32))
}

fn note(stats: &mut Stats, sc: &Scenario, t: &Trace) {
    stats.add("simulated_ns", t.sim_ns);
    stats.add("fault.pause", t.pauses as u64);
    stats.add("clock_reads", t.reads);
    stats.add("calls", t.calls as u64);
    stats.add("results", t.matches.len() as u64);
    if t.truncated {
        stats.add("truncated_runs", 1);
    }
    if t.pauses > 0 {
        stats.add("runs_with_pauses", 1);
        let first_phrase = t.matches.iter().position(|m| m.len() > 1).unwrap_or(usize::MAX);
        let mid = t.pause_points.iter().filter(|(m, _)| *m >= first_phrase).count();
        stats.add("pauses_in_phrase_search_after_a_result", mid as u64);
    }
    if t.evs.iter().any(|e| matches!(e, Ev::Logs)) {
        stats.add("runs_reaching_phrase_search", 1);
    }
    let big = sc.schedule.ticks.iter().filter(|&&x| x > 1_000_000_000).count();
    if big > 0 {
        stats.add("fault.clock_jump_runs", 1);
    }
    if sc.schedule.deadlines.iter().any(|d| matches!(d, Some(x) if *x <= 0)) {
        stats.add("fault.expired_deadline_runs", 1);
    }
    // distinct interleavings: the sequence of events (results, pauses) with the query
    let mut h = hash_bytes(sc.text().as_bytes());
    for (m, r) in &t.pause_points {
        h = mix(h, (*m as u64) << 32 ^ *r);
    }
    stats.distinct.insert(h);
}

/// A query whose preparation for the phrase search takes seconds: does it look at the clock?
/// Returns the CPU time used between two looks while a deadline was running (or had passed).
pub fn probe_preparation(text: &str, nwords: usize, list: Option<Vec<(String, u8, u32)>>) -> Result<f64, String> {
    let mut r = Rng::new(5);
    let words = if let Some(l) = list { l } else { (0..nwords)
        .map(|_| {
            let n = r.range(3, 9);
            ((0..n).map(|_| (b'a' + r.below(20) as u8) as char).collect::<String>(), 0u8, 1u32)
        })
        .collect() };
    let sc = Scenario {
        prop: "probe".into(),
        words,
        in_query: false,
        lines: vec![],
        macros: vec![],
        chain: 0,
        extra: vec![],
        semicolons: false,
        depth: How::Setter(10),
        limit: How::Setter(1),
        iterator: false,
        schedule: Schedule { ticks: vec![1000], deadlines: vec![Some(1_000)], idle: vec![], max_pauses: usize::MAX / 2 },
    };
    let mut p = sc.prep();
    p.text = text.to_string();
    let c = clock();
    c.measure = true;
    c.last_cpu = 0.0;
    c.max_gap = 0.0;
    let r = run(&sc, &p, true, false, false);
    crate::clock::cpu_mark();
    clock().measure = false;
    r?;
    Ok(clock().max_gap)
}

// ---------------------------------------------------------------- scenario generation

pub fn gen_schedule(r: &mut Rng) -> Schedule {
    let n = r.range(1, 6);
    let mut ticks: Vec<u64> = (0..n).map(|_| r.loguniform(2_000_000)).collect();
    if ticks.iter().all(|&t| t == 0) {
        ticks.push(1000);
    }
    if r.chance(1, 5) {
        ticks.push(r.loguniform(200_000_000_000)); // a stall or a clock jump
    }
    let n = r.range(1, 6);
    let mut deadlines: Vec<Option<i64>> = (0..n)
        .map(|_| match r.below(10) {
            0 => None,
            1 => Some(0),
            2 => Some(-(r.loguniform(5_000_000_000) as i64)),
            3 | 4 => Some(r.loguniform(100_000_000) as i64),
            _ => Some(r.loguniform(1_000_000) as i64),
        })
        .collect();
    // make sure the schedule as a whole leaves time to make progress
    if r.chance(1, 2) {
        deadlines.push(Some(ticks.iter().max().unwrap().saturating_mul(r.range(1, 4) as u64).min(1 << 60) as i64 + 1));
    } else {
        deadlines.push(None);
    }
    let idle = (0..r.range(0, 3)).map(|_| r.loguniform(60_000_000_000)).collect();
    Schedule { ticks, deadlines, idle, max_pauses: 1 + r.loguniform(3000) as usize }
}

/// Deadlines that always leave at least one tick.
fn gen_fair_schedule(r: &mut Rng) -> Schedule {
    let n = r.range(1, 4);
    let ticks: Vec<u64> = (0..n).map(|_| 1 + r.loguniform(2_000_000)).collect();
    let max = *ticks.iter().max().unwrap();
    let deadlines = (0..r.range(1, 4)).map(|_| Some((max * r.range(2, 5) as u64 + 1) as i64)).collect();
    Schedule { ticks, deadlines, idle: vec![], max_pauses: usize::MAX / 2 }
}

pub fn gen_scenario(prop: &str, seed: u64) -> Scenario {
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    loop {
        let sc = gen_once(prop, r);
        let p = sc.prep();
        if let Some(lines) = &p.lines {
            let total: usize = lines.iter().map(|l| l.must.len() + l.may.iter().map(|g| g.len()).sum::<usize>()).sum();
            // very deep searches: only those with few candidates
            let cap = if p.words.len() > 20 { 600_000 } else { 6_000 };
            if total <= 24 && (p.max_words <= 6 || want(&p, cap).is_some()) {
                return sc;
            }
        }
    }
}

/// A line with long phrases, but not many: a few of the words, each any number of times
fn few_phrases(r: &mut Rng, words: &[W]) -> Line {
    let mut v = vec![];
    let mut unbounded = 0;
    for _ in 0..r.range(1, 4) {
        let w = normalise(&words[r.below(words.len())].0);
        let letters: Vec<R> = w.iter().filter(|&&c| c < 26).map(|&c| R::Set(1 << c, false)).collect();
        if letters.is_empty() {
            continue;
        }
        let most = match r.below(3) {
            0 if unbounded < 2 => {
                unbounded += 1;
                None
            }
            1 => Some(r.range(2, 12)),
            _ => Some(1),
        };
        v.push(R::Rep(Box::new(R::Seq(letters)), r.below(2), most));
    }
    if v.is_empty() {
        v.push(R::Rep(Box::new(R::Set(LETTERS, false)), 0, Some(r.range(5, 20))));
    }
    Line { root: R::Seq(v), wb: false, punct: false, fuzz: None, style: r.next() }
}

fn gen_once(prop: &str, r: &mut Rng) -> Scenario {
    // shape: many short words (deep phrases), or long lists (many clock checks)
    let shape = match prop {
        "Q01" | "Q05" => r.below(5) + 1,
        _ => r.below(6),
    };
    let deep = r.chance(1, 12);
    let tiling = ["Q01", "Q03", "Q04", "Q06"].contains(&prop) && r.chance(1, if prop == "Q06" { 120 } else { 400 });
    let shape = if deep { 6 } else { shape };
    let (profile, max_words) = match shape {
        0 | 1 => (Profile { words: (1, 8), word_len: (1, 4), letters: (2, 4), tiers: (1, 3), odd: true, long: false }, r.range(1, 4)),
        2 => (Profile { words: (8, 24), word_len: (1, 5), letters: (2, 4), tiers: (1, 3), odd: true, long: false }, r.range(1, 3)),
        3 => (Profile { words: (200, 900), word_len: (2, 6), letters: (3, 6), tiers: (1, 4), odd: true, long: false }, r.range(1, 2)),
        4 => (Profile { words: (20, 60), word_len: (1, 4), letters: (2, 4), tiers: (1, 3), odd: false, long: false }, r.range(2, 4)),
        6 => (Profile { words: (1, 3), word_len: (1, 3), letters: (2, 4), tiers: (1, 3), odd: true, long: false }, r.range(7, 40)),
        _ => (Profile { words: (0, 12), word_len: (1, 3), letters: (1, 3), tiers: (1, 3), odd: true, long: false }, r.range(1, 6)),
    };
    // automata that span several machine words, long words, sparse tiers
    let long = r.chance(1, 6) && shape != 3;
    let profile = Profile { long, ..profile };
    let words = gen_words(r, profile);
    let mut schedule = gen_schedule(r);
    let mut lines = vec![];
    let nlines = match r.below(10) {
        0..=4 => 1,
        5..=7 => 2,
        8 => 3,
        _ => 4,
    };
    let mut max_words = max_words;
    let mut limit = match r.below(8) {
        0 => How::Default,
        1 => How::Pragma(r.loguniform(40) as usize),
        2 => How::Setter(r.loguniform(40) as usize),
        _ => How::SetterNone,
    };
    let mut special = false;
    if prop == "Q05" {
        if r.chance(2, 3) {
            schedule = gen_fair_schedule(r);
        }
        special = !deep && r.chance(1, 2);
    }
    let mut words = words;
    if special {
        schedule = gen_fair_schedule(r);
        limit = How::SetterNone;
        if r.chance(1, 5) {
            // long passes through the list in which next to nothing continues the phrase
            let len = r.range(3, 4);
            let n = r.range(1500, 6000);
            let tiers = r.range(1, 2);
            words = (0..n)
                .map(|_| ((0..len).map(|_| (b'a' + r.below(12) as u8) as char).collect::<String>(), r.below(tiers) as u8, 1))
                .collect();
            max_words = r.range(3, 7);
            for _ in 0..r.range(1, 2) {
                let mut v = vec![];
                for _ in 1..max_words {
                    if r.chance(1, 3) && !v.is_empty() {
                        let w = words[r.below(n)].0.bytes().map(|c| R::Set(1 << (c - b'a'), false)).collect();
                        let x = words[r.below(n)].0.bytes().map(|c| R::Set(1 << (c - b'a'), false)).collect();
                        v.push(R::Alt(vec![R::Seq(w), R::Seq(x)]));
                    } else {
                        v.extend(words[r.below(n)].0.bytes().map(|c| R::Set(1 << (c - b'a'), false)));
                    }
                }
                v.extend((0..len).map(|_| R::Set(LETTERS, false)));
                lines.push(Line { root: R::Seq(v), wb: false, punct: false, fuzz: if r.chance(1, 4) { Some(1) } else { None }, style: r.next() });
            }
        } else if r.chance(1, 3) {
            words = gen_words(r, Profile { words: (3000, 12000), word_len: (3, 8), letters: (4, 8), tiers: (1, 3), odd: false, long: false });
            words.retain(|w| !w.0.is_empty());
            for w in words.iter_mut() {
                w.0 = w.0.replace('z', "a");
            }
            if r.chance(2, 3) {
                let all = words.iter().fold(0u32, |m, w| m | letters_of(&w.0));
                for i in 0..r.range(1, 9) {
                    let m = all | 1 << (i + 9) % 25;
                    let root = R::Rep(Box::new(R::Set(m, false)), 0, None);
                    lines.push(Line { root, wb: false, punct: false, fuzz: None, style: 0 });
                }
            }
            lines.push(Line { root: dead_end_single(), wb: false, punct: false, fuzz: None, style: 0 });
            max_words = r.range(1, 3);
        } else {
            // words over {a, e}: each line alone can always be completed, both never
            let n = r.range(20, 50);
            words = (0..n)
                .map(|i| {
                    let mut s = String::new();
                    let mut x = i + 1;
                    while x > 0 {
                        s.push(if x % 2 == 0 { 'a' } else { 'e' });
                        x /= 2;
                    }
                    (s.chars().rev().collect(), 0u8, 1u32)
                })
                .collect();
            lines.push(Line { root: dead_end(0), wb: false, punct: false, fuzz: None, style: 0 });
            lines.push(Line { root: dead_end(1), wb: false, punct: false, fuzz: None, style: 0 });
            max_words = if n > 30 { 3 } else { r.range(3, 4) };
        }
        sort_words(&mut words);
        words.dedup();
    } else {
        let fuzz_ok = words.len() < 100;
        if deep && r.chance(2, 3) {
            lines.push(few_phrases(r, &words));
        }
        let more = if lines.is_empty() { nlines } else { r.below(2) };
        let mut g = QGen::new(r, &words, long);
        for _ in 0..more {
            lines.push(g.line(max_words, fuzz_ok));
        }
    }
    if tiling {
        // a long text put together from its pieces: phrases of many different lengths
        let piece = r.range(2, 3);
        let n = if piece == 2 { r.range(14, 18) } else { r.range(11, 14) };
        let mut text: Vec<u8> = (b'a'..=b'z').collect();
        for i in (1..26).rev() {
            text.swap(i, r.below(i + 1));
        }
        text.truncate(n);
        let tiers = r.range(1, 2);
        words = vec![];
        for len in 1..=piece {
            for i in 0..=n - len {
                if !r.chance(1, 25) {
                    words.push((String::from_utf8(text[i..i + len].to_vec()).unwrap(), r.below(tiers) as u8, 1));
                }
            }
        }
        sort_words(&mut words);
        let root = R::Seq(text.iter().map(|c| R::Set(1 << (c - b'a'), false)).collect());
        lines = vec![Line { root, wb: false, punct: false, fuzz: None, style: r.next() }];
        max_words = n;
        limit = How::SetterNone;
    }
    let depth = match r.below(4) {
        0 => How::Pragma(max_words),
        1 => How::Both(r.below(5), max_words),
        _ => How::Setter(max_words),
    };
    if prop == "Q04" {
        let top = if r.chance(1, 3) { 5000 } else { 60 };
        limit = match r.below(8) {
            0 | 1 => How::Pragma(r.loguniform(top) as usize),
            2 => How::Both(r.loguniform(top) as usize, r.loguniform(top) as usize),
            3 => How::Default,
            4 => How::SetterNone,
            _ => How::Setter(r.loguniform(top) as usize),
        };
    } else if (prop == "Q02" || prop == "Q03") && r.chance(4, 5) {
        limit = How::SetterNone;
    }
    // (a word in a query may have at most 256 bytes)
    let in_query = !special && r.chance(1, 8) && words.len() < 200 && words.iter().all(|w| w.0.len() <= 256);
    let mut macros = vec![];
    for (i, l) in lines.iter().enumerate() {
        if r.chance(1, 10) {
            let t = l.render();
            let body = t.split(" //").next().unwrap();
            if body.is_ascii() && body.len() >= 2 {
                let s = r.below(body.len() - 1);
                let most = if r.chance(1, 2) { (body.len() - s).min(3) } else { body.len() - s };
                let n = r.range(1, most);
                macros.push((i, s, n));
            }
        }
    }
    let chain = if !macros.is_empty() && r.chance(1, 2) { 1 + r.below(10_000) } else { 0 };
    let extra = if r.chance(1, 5) {
        (0..r.range(1, 3)).map(|_| (r.below(lines.len()), r.below(MEANINGLESS.len()))).collect()
    } else {
        vec![]
    };
    Scenario {
        prop: prop.to_string(),
        words,
        in_query,
        lines,
        macros,
        chain,
        extra,
        semicolons: r.chance(1, 3),
        depth,
        limit,
        iterator: r.chance(1, 3),
        schedule,
    }
}

// ---------------------------------------------------------------- minimisation

fn shrink_r(x: &R) -> Vec<R> {
    let mut out = vec![];
    match x {
        R::Seq(v) | R::Alt(v) | R::Substr(v) | R::Subset(v) | R::Superset(v) => {
            let mk = |w: Vec<R>| match x {
                R::Seq(_) => R::Seq(w),
                R::Alt(_) => R::Alt(w),
                R::Substr(_) => R::Substr(w),
                R::Subset(_) => R::Subset(w),
                _ => R::Superset(w),
            };
            let min = if matches!(x, R::Alt(_)) { 2 } else { 1 };
            if v.len() == 1 {
                out.push(v[0].clone());
            }
            for i in 0..v.len() {
                if v.len() > min {
                    let mut w = v.clone();
                    w.remove(i);
                    out.push(mk(w));
                }
                if matches!(x, R::Alt(_)) {
                    out.push(v[i].clone());
                }
            }
            for i in 0..v.len() {
                for s in shrink_r(&v[i]) {
                    let mut w = v.clone();
                    w[i] = s;
                    out.push(mk(w));
                }
            }
        }
        R::Rep(t, a, b) => {
            out.push((**t).clone());
            for s in shrink_r(t) {
                out.push(R::Rep(Box::new(s), *a, *b));
            }
            if *a > 0 && *b != Some(*a) {
                out.push(R::Rep(t.clone(), a - 1, *b));
            }
            if let Some(m) = b {
                if *m > *a && *m > 1 {
                    out.push(R::Rep(t.clone(), *a, Some(m - 1)));
                }
            }
        }
        R::Anag(k, bank) => {
            if bank.len() > 1 {
                for i in 0..bank.len() {
                    let mut b = bank.clone();
                    b.remove(i);
                    out.push(R::Anag(*k, b));
                }
            }
            if *k != Kind::Std {
                out.push(R::Anag(Kind::Std, bank.clone()));
            }
        }
        R::Set(m, _) => {
            if m.count_ones() > 1 && *m != LETTERS {
                out.push(R::Set(1 << m.trailing_zeros(), false));
            }
        }
        R::Enum(n) => {
            if *n > 1 {
                out.push(R::Enum(n - 1));
            }
        }
    }
    out
}

/// Candidate simplifications, biggest first.
pub fn shrinks(sc: &Scenario) -> Vec<Scenario> {
    let mut out = vec![];
    let mut push = |f: &dyn Fn(&mut Scenario)| {
        let mut s = sc.clone();
        f(&mut s);
        if s != *sc {
            out.push(s);
        }
    };
    // lines
    if sc.lines.len() > 1 {
        for i in 0..sc.lines.len() {
            push(&|s| {
                s.lines.remove(i);
                s.macros.clear();
            });
        }
    }
    // words: halves, quarters, single
    let n = sc.words.len();
    let mut chunk = n / 2;
    while chunk >= 1 {
        let mut i = 0;
        let mut tried = 0;
        while i < n && tried < 64 {
            let hi = (i + chunk).min(n);
            push(&|s| {
                s.words.drain(i..hi);
            });
            i += chunk;
            tried += 1;
        }
        chunk /= 2;
    }
    push(&|s| s.chain = 0);
    push(&|s| s.extra.clear());
    push(&|s| s.macros.clear());
    push(&|s| s.semicolons = false);
    push(&|s| s.in_query = false);
    push(&|s| s.iterator = false);
    // schedule
    push(&|s| s.schedule.max_pauses = 0);
    push(&|s| s.schedule.idle.clear());
    for d in 0..6 {
        push(&|s| {
            if s.schedule.max_pauses > 1 << d && s.schedule.max_pauses < usize::MAX / 4 {
                s.schedule.max_pauses = 1 << d
            }
        });
    }
    if sc.schedule.max_pauses < 4000 {
        push(&|s| s.schedule.max_pauses = s.schedule.max_pauses.saturating_sub(1));
    }
    for i in 0..sc.schedule.ticks.len() {
        if sc.schedule.ticks.len() > 1 {
            push(&|s| {
                s.schedule.ticks.remove(i);
            });
        }
        push(&|s| s.schedule.ticks[i] = 1);
    }
    for i in 0..sc.schedule.deadlines.len() {
        if sc.schedule.deadlines.len() > 1 {
            push(&|s| {
                s.schedule.deadlines.remove(i);
            });
        }
        push(&|s| s.schedule.deadlines[i] = None);
        push(&|s| {
            if s.schedule.deadlines[i].is_some() {
                s.schedule.deadlines[i] = Some(1)
            }
        });
    }
    // limits and depth
    push(&|s| s.limit = How::SetterNone);
    if let How::Pragma(n) | How::Both(n, _) | How::Setter(n) = sc.limit {
        push(&|s| s.limit = How::Setter(n / 2));
    }
    let d = match sc.depth {
        How::Pragma(n) | How::Setter(n) | How::Both(_, n) => n,
        _ => 10,
    };
    push(&|s| s.depth = How::Setter(d));
    if d > 1 {
        push(&|s| s.depth = How::Setter(d - 1));
    }
    // line contents
    for i in 0..sc.lines.len() {
        push(&|s| s.lines[i].style = 0);
        push(&|s| s.lines[i].wb = false);
        push(&|s| s.lines[i].punct = false);
        if let Some(f) = sc.lines[i].fuzz {
            push(&|s| s.lines[i].fuzz = if f == 0 { None } else { Some(f - 1) });
        }
        for r in shrink_r(&sc.lines[i].root) {
            push(&|s| {
                s.lines[i].root = r.clone();
                s.macros.clear();
            });
        }
    }
    // words: tiers, scores, text
    if n <= 40 {
        for i in 0..n {
            push(&|s| s.words[i].1 = 0);
            push(&|s| s.words[i].2 = 0);
            if sc.words[i].0.chars().count() > 1 {
                let k = sc.words[i].0.chars().count();
                for j in 0..k {
                    push(&|s| {
                        s.words[i].0 = sc.words[i].0.chars().enumerate().filter(|(x, _)| *x != j).map(|(_, c)| c).collect()
                    });
                }
            }
        }
    }
    out
}
