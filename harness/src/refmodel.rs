//! Independent reference model of the query language: own AST, own rendering to query text, own
//! automata, own phrase enumeration.  Nothing here calls into noodle.
//!
//! Every line has a *must* language (what the documentation promises is matched) and a *may*
//! language (what may be reported without breaking a promise).  They coincide except where the
//! documentation leaves latitude (empty substring/subset, anagrams that are only part of a line,
//! anagrams on fuzzy lines, superset lines' effect on spacing).
use serde::{Deserialize, Serialize};

pub const LETTERS: u32 = (1 << 26) - 1;
pub const PUNCT: u32 = 1 << 26;
pub const SPACE: u32 = 1 << 27;
pub const ALL: u32 = (1 << 28) - 1;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    Std,
    Super,
    Sub,
    Add(usize),
    Del(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum R {
    /// character class, and whether to write it inverted
    Set(u32, bool),
    Seq(Vec<R>),
    Alt(Vec<R>),
    Rep(Box<R>, usize, Option<usize>),
    Substr(Vec<R>),
    Subset(Vec<R>),
    Superset(Vec<R>),
    Anag(Kind, Vec<u8>),
    /// a bare number: n letters and a space
    Enum(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Line {
    pub root: R,
    pub wb: bool,
    pub punct: bool,
    pub fuzz: Option<usize>,
    /// how the line is decorated when written out (comments, case, spaces): a rendering seed
    pub style: u64,
}

fn sym(i: u32) -> char {
    match i {
        26 => '\'',
        27 => '_',
        _ => (b'a' + i as u8) as char,
    }
}

fn upper(c: char, style: u64) -> char {
    if style & 1 == 1 {
        c.to_ascii_uppercase()
    } else {
        c
    }
}

/// Comments that may stand wherever a space may
const COMMENTS: [&str; 5] = ["/* or: b[^e] */", "/**/", " /* !1 * / */", "/* // ** **/ ", "/*x*//* - */"];

fn mix(st: u64, i: usize) -> usize {
    let x = (st ^ i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    (x >> 40) as usize
}

impl R {
    fn is_atom(&self) -> bool {
        !matches!(self, R::Seq(_) | R::Rep(..) | R::Alt(_))
    }
    fn render_term(&self, st: u64, out: &mut String) {
        // a term must be directly repeatable
        if self.is_atom() {
            self.render(st, out)
        } else {
            out.push('(');
            self.render(st, out);
            out.push(')');
        }
    }
    pub fn render(&self, st: u64, out: &mut String) {
        match self {
            R::Set(m, inv) => {
                if *m == LETTERS && !*inv {
                    out.push('.');
                } else if m.count_ones() == 1 && !*inv {
                    out.push(upper(sym(m.trailing_zeros()), st));
                } else {
                    out.push('[');
                    let mut w = *m;
                    if *inv {
                        out.push('^');
                        w = !m & LETTERS;
                    }
                    let mut i = 0;
                    while i < 28 {
                        if w >> i & 1 == 1 {
                            let mut j = i;
                            while j + 1 < 26 && w >> (j + 1) & 1 == 1 {
                                j += 1;
                            }
                            if i < 26 && j >= i + 2 {
                                out.push(upper(sym(i), st));
                                out.push_str(if st >> 7 & 7 == 1 { " - " } else { "-" });
                                out.push(upper(sym(j), if st >> 10 & 7 == 1 { !st } else { st }));
                                i = j;
                            } else {
                                out.push(upper(sym(i), st));
                            }
                        }
                        i += 1;
                    }
                    out.push(']');
                }
            }
            R::Seq(v) => {
                for (i, x) in v.iter().enumerate() {
                    if i > 0 && (st >> 1 & 3 == 1 || matches!(x, R::Enum(_))) {
                        out.push(' ');
                    }
                    if i > 0 && st >> 17 & 7 == 1 && mix(st, i) % 4 == 0 {
                        out.push_str(COMMENTS[mix(st, i + 99) % COMMENTS.len()]);
                    }
                    if let R::Seq(_) | R::Alt(_) = x {
                        x.render_term(st, out)
                    } else {
                        x.render(st, out)
                    }
                }
            }
            R::Alt(v) => {
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push_str(if st >> 3 & 3 == 1 { " | " } else { "|" });
                    }
                    if let R::Alt(_) = x {
                        x.render_term(st, out)
                    } else {
                        x.render(st, out)
                    }
                }
            }
            R::Rep(t, min, max) => {
                t.render_term(st, out);
                match (min, max) {
                    (0, Some(1)) => out.push('?'),
                    (0, None) => out.push('*'),
                    (1, None) => out.push('+'),
                    (0, Some(m)) if st >> 5 & 1 == 0 => out.push_str(&format!("{{,{}}}", m)),
                    (n, Some(m)) if n == m && st >> 6 & 1 == 0 => out.push_str(&format!("{{{}}}", n)),
                    (n, Some(m)) => out.push_str(&format!("{{{},{}}}", n, m)),
                    (n, None) => out.push_str(&format!("{{{},}}", n)),
                }
            }
            R::Substr(v) | R::Subset(v) | R::Superset(v) => {
                out.push('(');
                for x in v {
                    x.render_term(st, out);
                }
                out.push_str(match self {
                    R::Substr(_) => ":^)",
                    R::Subset(_) => ":-)",
                    _ => ":+)",
                });
            }
            R::Anag(k, bank) => {
                out.push('<');
                for &b in bank {
                    out.push(upper(sym(b as u32), st));
                }
                match k {
                    Kind::Std => {}
                    Kind::Super => out.push('+'),
                    Kind::Sub => out.push('-'),
                    Kind::Add(n) => out.push_str(&format!("+{}", n)),
                    Kind::Del(n) => out.push_str(&format!("-{}", n)),
                }
                out.push('>');
            }
            R::Enum(n) => out.push_str(&n.to_string()),
        }
    }
    fn any(&self, f: &dyn Fn(&R) -> bool) -> bool {
        if f(self) {
            return true;
        }
        match self {
            R::Seq(v) | R::Alt(v) | R::Substr(v) | R::Subset(v) | R::Superset(v) => {
                v.iter().any(|x| x.any(f))
            }
            R::Rep(t, _, _) => t.any(f),
            _ => false,
        }
    }
    fn uses(&self, bit: u32) -> bool {
        self.any(&|r| match r {
            R::Set(m, _) => m & bit != 0,
            R::Enum(_) => bit == SPACE,
            _ => false,
        })
    }
    pub fn has_superset(&self) -> bool {
        self.any(&|r| matches!(r, R::Superset(_)))
    }
    pub fn has_anagram(&self) -> bool {
        self.any(&|r| matches!(r, R::Anag(..)))
    }
    fn anagrams(&self, out: &mut Vec<(Kind, Vec<u8>)>) {
        match self {
            R::Seq(v) | R::Alt(v) | R::Substr(v) | R::Subset(v) | R::Superset(v) => {
                v.iter().for_each(|x| x.anagrams(out))
            }
            R::Rep(t, _, _) => t.anagrams(out),
            R::Anag(k, b) => out.push((*k, b.clone())),
            _ => {}
        }
    }
}

impl Line {
    pub fn render(&self) -> String {
        let mut s = String::new();
        let st = self.style;
        if st >> 8 & 15 == 1 {
            s.push(' ');
        }
        self.root.render(st, &mut s);
        let mut opts = vec![];
        if self.wb {
            opts.push("!_".to_string());
        }
        if self.punct {
            opts.push("!'".to_string());
        }
        if let Some(f) = self.fuzz {
            opts.push(format!("!{}", f));
        }
        if st >> 12 & 1 == 1 {
            opts.reverse();
        }
        for o in opts {
            s.push(' ');
            if st >> 17 & 7 == 1 && mix(st, 7) % 3 == 0 {
                s.push_str(COMMENTS[mix(st, 8) % COMMENTS.len()]);
            }
            s.push_str(&o);
        }
        if st >> 17 & 15 == 2 {
            s.push_str(" /* to the end // */");
        }
        if st >> 13 & 15 == 1 {
            s.push_str(" // note: .* !_");
        }
        s
    }
    pub fn explicit_wb(&self) -> bool {
        self.wb || self.root.uses(SPACE)
    }
    pub fn explicit_punct(&self) -> bool {
        self.punct || self.root.uses(PUNCT)
    }
}

// ---------------------------------------------------------------- automata

pub const MAXW: usize = 8;
pub const MAX_STATES: usize = MAXW * 64;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Bs([u64; MAXW]);
impl Bs {
    const ZERO: Bs = Bs([0; MAXW]);
    #[inline]
    fn set(&mut self, i: usize) {
        self.0[i / 64] |= 1 << (i % 64)
    }
    #[inline]
    fn get(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    #[inline]
    fn or(&mut self, o: &Bs) {
        for i in 0..MAXW {
            self.0[i] |= o.0[i]
        }
    }
    #[inline]
    fn empty(&self) -> bool {
        self.0.iter().all(|&x| x == 0)
    }
}

#[derive(Clone, Default)]
struct Nfa {
    eps: Vec<Vec<usize>>,
    tr: Vec<Vec<(u32, usize)>>,
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Must,
    May,
}

/// How anagram number `i` of the line is represented in a relaxed automaton.
#[derive(Clone, Copy, PartialEq)]
enum Relax {
    Exact,
    /// only constraint `c` of anagram `i` is enforced: c < unique letters: count of that letter,
    /// otherwise the length
    Only(usize, usize),
}

struct Builder {
    n: Nfa,
    mode: Mode,
    relax: Relax,
    anag_index: usize,
}

impl Builder {
    fn st(&mut self) -> usize {
        self.n.eps.push(vec![]);
        self.n.tr.push(vec![]);
        self.n.eps.len() - 1
    }
    fn e(&mut self, a: usize, b: usize) {
        self.n.eps[a].push(b)
    }
    fn t(&mut self, a: usize, m: u32, b: usize) {
        if m != 0 {
            self.n.tr[a].push((m, b))
        }
    }
    fn set(&mut self, m: u32) -> (usize, usize) {
        let a = self.st();
        let b = self.st();
        self.t(a, m, b);
        (a, b)
    }
    fn seq(&mut self, v: &[R]) -> (usize, usize) {
        let a = self.st();
        let mut cur = a;
        for x in v {
            let (s, t) = self.frag(x);
            self.e(cur, s);
            cur = t;
        }
        (a, cur)
    }
    /// `min` copies, then up to `max-min` optional ones (or a loop)
    fn rep(&mut self, f: &mut dyn FnMut(&mut Builder) -> (usize, usize), min: usize, max: Option<usize>) -> (usize, usize) {
        let a = self.st();
        let mut cur = a;
        for _ in 0..min {
            let (s, t) = f(self);
            self.e(cur, s);
            cur = t;
        }
        let end = self.st();
        self.e(cur, end);
        match max {
            None => {
                let l = self.st();
                self.e(cur, l);
                let (s, t) = f(self);
                self.e(l, s);
                self.e(t, l);
                self.e(l, end);
            }
            Some(m) => {
                for _ in min..m {
                    let (s, t) = f(self);
                    self.e(cur, s);
                    self.e(t, end);
                    cur = t;
                    if self.n.eps.len() > MAX_STATES {
                        break;
                    }
                }
            }
        }
        (a, end)
    }
    fn frag(&mut self, r: &R) -> (usize, usize) {
        if self.n.eps.len() > MAX_STATES {
            let a = self.st();
            return (a, a);
        }
        match r {
            R::Set(m, _) => self.set(*m),
            R::Seq(v) => self.seq(v),
            R::Alt(v) => {
                let a = self.st();
                let b = self.st();
                for x in v {
                    let (s, t) = self.frag(x);
                    self.e(a, s);
                    self.e(t, b);
                }
                (a, b)
            }
            R::Rep(x, min, max) => {
                let ai = self.anag_index;
                let r = self.rep(
                    &mut |b| {
                        b.anag_index = ai; // every copy is the same anagram
                        b.frag(x)
                    },
                    *min,
                    *max,
                );
                // account for anagrams inside, even if zero copies were built
                let mut v = vec![];
                x.anagrams(&mut v);
                self.anag_index = ai + v.len();
                r
            }
            R::Substr(v) => {
                let ai = self.anag_index;
                if self.mode == Mode::Must {
                    let a = self.st();
                    let b = self.st();
                    for i in 0..v.len() {
                        for j in i..v.len() {
                            let (s, t) = self.seq(&v[i..=j]);
                            self.e(a, s);
                            self.e(t, b);
                            self.anag_index = ai;
                        }
                    }
                    (a, b)
                } else {
                    let a = self.st();
                    let b = self.st();
                    let lo = self.n.eps.len();
                    let (s, t) = self.seq(v);
                    self.e(a, s);
                    self.e(t, b);
                    for i in lo..self.n.eps.len() {
                        self.e(a, i);
                        self.e(i, b);
                    }
                    (a, b)
                }
            }
            R::Subset(v) => {
                let ai = self.anag_index;
                if self.mode == Mode::Must {
                    let a = self.st();
                    let b = self.st();
                    for i in 0..v.len() {
                        let (s, t) = self.frag(&v[i]);
                        self.e(a, s);
                        let mut cur = t;
                        for y in &v[i + 1..] {
                            let (s2, t2) = self.frag(y);
                            let nx = self.st();
                            self.e(cur, s2);
                            self.e(t2, nx);
                            self.e(cur, nx);
                            cur = nx;
                        }
                        self.e(cur, b);
                        self.anag_index = ai;
                    }
                    (a, b)
                } else {
                    let lo = self.n.eps.len();
                    let (s, t) = self.seq(v);
                    for i in lo..self.n.eps.len() {
                        let tr = self.n.tr[i].clone();
                        for (_, to) in tr {
                            self.e(i, to);
                        }
                    }
                    (s, t)
                }
            }
            R::Superset(v) => {
                let a = self.st();
                self.t(a, ALL, a);
                let mut cur = a;
                for x in v {
                    let (s, t) = self.frag(x);
                    self.e(cur, s);
                    let l = self.st();
                    self.e(t, l);
                    self.t(l, ALL, l);
                    cur = l;
                }
                (a, cur)
            }
            R::Enum(n) => {
                let a = self.st();
                let mut cur = a;
                for _ in 0..*n {
                    let b = self.st();
                    self.t(cur, LETTERS, b);
                    cur = b;
                }
                let b = self.st();
                self.t(cur, SPACE, b);
                (a, b)
            }
            R::Anag(k, bank) => {
                let idx = self.anag_index;
                self.anag_index += 1;
                match self.relax {
                    Relax::Exact => self.multiset(*k, bank),
                    Relax::Only(i, c) => self.relaxed(*k, bank, if i == idx { Some(c) } else { None }),
                }
            }
        }
    }
    /// Product automaton over (letters used so far, wildcards used so far).
    fn multiset(&mut self, k: Kind, bank: &[u8]) -> (usize, usize) {
        let (letters, counts) = hist(bank);
        let total = bank.len();
        let wild: usize = match k {
            Kind::Add(n) => n,
            _ => 0,
        };
        let mut dims: Vec<usize> = counts.iter().map(|c| c + 1).collect();
        dims.push(wild + 1);
        let n: usize = dims.iter().product();
        let base = self.n.eps.len();
        for _ in 0..n {
            self.st();
        }
        let end = self.st();
        for idx in 0..n {
            // decode
            let mut v = vec![];
            let mut x = idx;
            for d in &dims {
                v.push(x % d);
                x /= d;
            }
            let mut stride = 1;
            let mut used = 0;
            for li in 0..letters.len() {
                used += v[li];
                if v[li] < counts[li] {
                    self.t(base + idx, 1 << letters[li], base + idx + stride);
                }
                stride *= dims[li];
            }
            let w = v[letters.len()];
            if w < wild {
                self.t(base + idx, LETTERS, base + idx + stride);
            }
            if k == Kind::Super {
                self.t(base + idx, LETTERS, base + idx);
            }
            let ok = match k {
                Kind::Std | Kind::Super => used == total,
                Kind::Add(_) => used == total && w == wild,
                Kind::Sub => used > 0 || self.mode == Mode::May,
                Kind::Del(n) => used == total.saturating_sub(n),
            };
            if ok {
                self.e(base + idx, end);
            }
        }
        (base, end)
    }
    fn relaxed(&mut self, k: Kind, bank: &[u8], only: Option<usize>) -> (usize, usize) {
        let (letters, counts) = hist(bank);
        let bankmask = letters.iter().fold(0, |m, &l| m | 1u32 << l);
        let fill = match k {
            Kind::Std | Kind::Sub | Kind::Del(_) => bankmask,
            _ => LETTERS,
        };
        let a = self.st();
        match only {
            None => {
                self.t(a, fill, a);
                let b = self.st();
                self.e(a, b);
                (a, b)
            }
            Some(c) if c < letters.len() => {
                let m = 1u32 << letters[c];
                let cnt = counts[c];
                let mut cur = a;
                let end = self.st();
                for i in 0..=cnt {
                    match k {
                        Kind::Super | Kind::Add(_) => self.t(cur, LETTERS, cur),
                        _ => self.t(cur, fill & !m, cur),
                    }
                    let at_most = matches!(k, Kind::Sub | Kind::Del(_));
                    if i == cnt || at_most {
                        self.e(cur, end);
                    }
                    if i < cnt {
                        let nx = self.st();
                        self.t(cur, m, nx);
                        cur = nx;
                    }
                }
                (a, end)
            }
            Some(_) => {
                let total = bank.len();
                let (lo, hi) = match k {
                    Kind::Std => (total, Some(total)),
                    Kind::Super => (total, None),
                    Kind::Sub => (0, Some(total)),
                    Kind::Add(n) => (total + n, Some(total + n)),
                    Kind::Del(n) => (total.saturating_sub(n), Some(total.saturating_sub(n))),
                };
                self.rep(&mut |b| b.set(fill), lo, hi)
            }
        }
    }
}

fn hist(bank: &[u8]) -> (Vec<u8>, Vec<usize>) {
    let mut letters: Vec<u8> = vec![];
    let mut counts: Vec<usize> = vec![];
    for &b in bank {
        match letters.iter().position(|&l| l == b) {
            Some(i) => counts[i] += 1,
            None => {
                letters.push(b);
                counts.push(1);
            }
        }
    }
    (letters, counts)
}

/// A compiled automaton with its text pre-processing and edit-distance rules.
#[derive(Clone)]
pub struct Auto {
    /// per state: closure, and (mask, closure of target) edges
    edges: Vec<Vec<(u32, Bs)>>,
    start: Bs,
    fin: usize,
    drop: u32,
    fuzz: usize,
    lenient: bool,
}

pub type Sets = Vec<Bs>;

impl Auto {
    fn build(root: &R, mode: Mode, relax: Relax, drop: u32, fuzz: usize) -> Option<Auto> {
        let mut b = Builder { n: Nfa::default(), mode, relax, anag_index: 0 };
        let (s, t) = b.frag(root);
        let fin = b.st();
        b.e(t, fin);
        b.t(fin, SPACE, fin); // trailing spaces are never significant
        let n = b.n.eps.len();
        if n > MAX_STATES {
            return None;
        }
        // eps closures
        let mut clo = vec![Bs::ZERO; n];
        for i in 0..n {
            let mut stack = vec![i];
            while let Some(x) = stack.pop() {
                if !clo[i].get(x) {
                    clo[i].set(x);
                    stack.extend(b.n.eps[x].iter().copied());
                }
            }
        }
        let edges = (0..n)
            .map(|i| b.n.tr[i].iter().map(|&(m, to)| (m, clo[to])).collect())
            .collect();
        Some(Auto { edges, start: clo[s], fin, drop, fuzz, lenient: mode == Mode::May })
    }
    fn step(&self, s: &Bs, mask: u32) -> Bs {
        let mut out = Bs::ZERO;
        for w in 0..MAXW {
            let mut x = s.0[w];
            while x != 0 {
                let i = w * 64 + x.trailing_zeros() as usize;
                x &= x - 1;
                for (m, to) in &self.edges[i] {
                    if m & mask != 0 {
                        out.or(to);
                    }
                }
            }
        }
        out
    }
    fn insertions(&self, v: &mut Sets) {
        let pm = if self.lenient { ALL } else { LETTERS };
        for f in 1..v.len() {
            let prev = v[f - 1];
            let add = self.step(&prev, pm);
            v[f].or(&add);
        }
    }
    pub fn init(&self) -> Sets {
        let mut v = vec![Bs::ZERO; self.fuzz + 1];
        v[0] = self.start;
        self.insertions(&mut v);
        v
    }
    /// consume one symbol (0..28); returns false if nothing can match any more
    pub fn feed(&self, v: &mut Sets, c: u8) -> bool {
        let bit = 1u32 << c;
        if bit & self.drop != 0 {
            return true;
        }
        let editable = self.lenient || bit & LETTERS != 0;
        let pm = if self.lenient { ALL } else { LETTERS };
        let mut nv = vec![Bs::ZERO; v.len()];
        for f in 0..v.len() {
            nv[f] = self.step(&v[f], bit);
            if f > 0 && editable {
                let p = v[f - 1];
                nv[f].or(&p); // deletion of a text symbol
                let sub = self.step(&p, pm);
                nv[f].or(&sub);
            }
        }
        self.insertions(&mut nv);
        let alive = nv.iter().any(|s| !s.empty());
        *v = nv;
        alive
    }
    pub fn accepts(&self, v: &Sets) -> bool {
        v.iter().any(|s| s.get(self.fin))
    }
    pub fn matches(&self, text: &[u8]) -> bool {
        let mut v = self.init();
        text.iter().all(|&c| self.feed(&mut v, c)) && self.accepts(&v)
    }
}

/// must = all automata of `must` accept; may = some group of `may` in which all accept.
#[derive(Clone)]
pub struct LineRef {
    pub must: Vec<Auto>,
    pub may: Vec<Vec<Auto>>,
}

impl LineRef {
    pub fn new(l: &Line) -> Option<LineRef> {
        let fuzz = l.fuzz.unwrap_or(0);
        let expl_wb = l.explicit_wb();
        let expl_p = l.explicit_punct();
        let d = |wb: bool, p: bool| (if wb { 0 } else { SPACE }) | (if p { 0 } else { PUNCT });
        let drops: Vec<u32> = if l.root.has_superset() {
            // a superset group makes the whole line explicit; the documentation does not say so
            let mut v = vec![d(true, true)];
            if !expl_wb && !expl_p {
                v.push(d(false, false));
            } else if !expl_wb {
                v.push(d(false, true));
            } else if !expl_p {
                v.push(d(true, false));
            }
            v
        } else {
            vec![d(expl_wb, expl_p)]
        };
        let mut must = vec![];
        for &dr in &drops {
            must.push(Auto::build(&l.root, Mode::Must, Relax::Exact, dr, fuzz)?);
        }
        let mut anags = vec![];
        l.root.anagrams(&mut anags);
        let whole = matches!(&l.root, R::Anag(..));
        let mut may = vec![];
        for &dr in &drops {
            if anags.is_empty() || (whole && fuzz == 0) {
                may.push(vec![Auto::build(&l.root, Mode::May, Relax::Exact, dr, fuzz)?]);
            } else {
                let mut group = vec![];
                for (i, (_, bank)) in anags.iter().enumerate() {
                    let n = hist(bank).0.len();
                    for c in 0..=n {
                        group.push(Auto::build(&l.root, Mode::May, Relax::Only(i, c), dr, fuzz)?);
                    }
                }
                may.push(group);
            }
        }
        Some(LineRef { must, may })
    }
}

/// What a word reduces to: symbols 0..28 including the final space.
pub fn normalise(text: &str) -> Vec<u8> {
    let mut v = vec![];
    for c in text.chars() {
        match c {
            'a'..='z' => v.push(c as u8 - b'a'),
            'A'..='Z' => v.push(c as u8 - b'A'),
            ' ' | '_' => v.push(27),
            'é' | 'è' | 'É' => v.push(4),
            'ü' | 'Ü' => v.push(20),
            'ñ' => v.push(13),
            'ö' => v.push(14),
            'ç' => v.push(2),
            // combining marks
            '\u{300}'..='\u{36f}' => {}
            'à' | 'Å' => v.push(0),
            'æ' | 'Æ' => v.extend([0, 4]),
            'œ' => v.extend([14, 4]),
            'ﬁ' => v.extend([5, 8]),
            _ => v.push(26),
        }
    }
    v.push(27);
    v
}

/// More automaton steps than this are not taken for one scenario (about a second)
const MAX_WORK: u64 = 50_000_000;

pub struct Enumeration {
    /// every phrase (as word-list indices) that must be reported
    pub must: Vec<Vec<u32>>,
    /// every phrase that may be reported and is not in `must`
    pub extra: Vec<Vec<u32>>,
    pub visited: u64,
    /// automaton states left
    work: u64,
}

/// All phrases of 1..=max_words entries. Returns None if more than `cap` nodes are visited.
pub fn enumerate(lines: &[LineRef], words: &[Vec<u8>], max_words: usize, cap: u64) -> Option<Enumeration> {
    let mut out = Enumeration { must: vec![], extra: vec![], visited: 0, work: 0 };
    let autos: Vec<&Auto> = lines
        .iter()
        .flat_map(|l| l.must.iter().chain(l.may.iter().flatten()))
        .collect();
    // positions of each line's automata in `autos`
    let mut pos = vec![];
    let mut p = 0;
    for l in lines {
        let must: Vec<usize> = (p..p + l.must.len()).collect();
        p += l.must.len();
        let mut may = vec![];
        for g in &l.may {
            may.push((p..p + g.len()).collect::<Vec<usize>>());
            p += g.len();
        }
        pos.push((must, may));
    }
    let init: Vec<Option<Sets>> = autos.iter().map(|a| Some(a.init())).collect();
    let mut stack: Vec<u32> = vec![];
    fn go(
        autos: &[&Auto],
        pos: &[(Vec<usize>, Vec<Vec<usize>>)],
        words: &[Vec<u8>],
        cur: &[Option<Sets>],
        stack: &mut Vec<u32>,
        depth: usize,
        out: &mut Enumeration,
        cap: u64,
    ) -> bool {
        for wi in 0..words.len() {
            out.visited += 1;
            if out.visited > cap || out.work > MAX_WORK {
                return false;
            }
            let mut nx: Vec<Option<Sets>> = Vec::with_capacity(autos.len());
            for (a, c) in autos.iter().zip(cur) {
                nx.push(c.as_ref().and_then(|c| {
                    let mut v = c.clone();
                    for &ch in &words[wi] {
                        out.work += v.iter().map(|s| s.0.iter().map(|x| x.count_ones() as u64).sum::<u64>()).sum::<u64>();
                        if !a.feed(&mut v, ch) {
                            return None;
                        }
                    }
                    Some(v)
                }));
            }
            let may_live = pos.iter().all(|(mu, ma)| {
                mu.iter().all(|&i| nx[i].is_some()) || ma.iter().any(|g| g.iter().all(|&i| nx[i].is_some()))
            });
            if !may_live {
                continue;
            }
            let acc = |i: usize| nx[i].as_ref().map_or(false, |v| autos[i].accepts(v));
            stack.push(wi as u32);
            let must = pos.iter().all(|(mu, _)| mu.iter().all(|&i| acc(i)));
            if must {
                out.must.push(stack.clone());
            } else if pos.iter().all(|(mu, ma)| mu.iter().all(|&i| acc(i)) || ma.iter().any(|g| g.iter().all(|&i| acc(i)))) {
                out.extra.push(stack.clone());
            }
            if depth > 1 && !go(autos, pos, words, &nx, stack, depth - 1, out, cap) {
                return false;
            }
            stack.pop();
        }
        true
    }
    if max_words > 0 && !go(&autos, &pos, words, &init, &mut stack, max_words, &mut out, cap) {
        return None;
    }
    Some(out)
}

// ---------------------------------------------------------------- self check

/// Second, naive implementation of the must semantics without edits: set of end positions.
fn ends(r: &R, t: &[u8], at: usize) -> Vec<usize> {
    let mut v = match r {
        R::Set(m, _) => {
            if at < t.len() && m >> t[at] & 1 == 1 {
                vec![at + 1]
            } else {
                vec![]
            }
        }
        R::Seq(x) => x.iter().fold(vec![at], |cur, y| {
            let mut o: Vec<usize> = cur.iter().flat_map(|&c| ends(y, t, c)).collect();
            o.sort();
            o.dedup();
            o
        }),
        R::Alt(x) => x.iter().flat_map(|y| ends(y, t, at)).collect(),
        R::Rep(x, min, max) => {
            let mut cur = vec![at];
            let mut out = vec![];
            let lim = max.unwrap_or(t.len() + 1 + min);
            for i in 0..=lim {
                if i >= *min {
                    out.extend(cur.iter().copied());
                }
                if i < lim {
                    let mut nx: Vec<usize> = cur.iter().flat_map(|&c| ends(x, t, c)).collect();
                    nx.sort();
                    nx.dedup();
                    cur = nx;
                }
            }
            out
        }
        R::Substr(x) => {
            let mut o = vec![];
            for i in 0..x.len() {
                for j in i..x.len() {
                    o.extend(ends(&R::Seq(x[i..=j].to_vec()), t, at));
                }
            }
            o
        }
        R::Subset(x) => {
            let mut o = vec![];
            for m in 1..1u32 << x.len() {
                let v: Vec<R> = (0..x.len()).filter(|i| m >> i & 1 == 1).map(|i| x[i].clone()).collect();
                o.extend(ends(&R::Seq(v), t, at));
            }
            o
        }
        R::Superset(x) => {
            let mut v = vec![];
            let any = R::Rep(Box::new(R::Set(ALL, false)), 0, None);
            for y in x {
                v.push(any.clone());
                v.push(y.clone());
            }
            v.push(any);
            ends(&R::Seq(v), t, at)
        }
        R::Enum(n) => {
            let mut v = vec![R::Set(LETTERS, false); *n];
            v.push(R::Set(SPACE, false));
            ends(&R::Seq(v), t, at)
        }
        R::Anag(k, bank) => {
            let mut o = vec![];
            for e in at..=t.len() {
                let s = &t[at..e];
                if s.iter().any(|&c| c >= 26) {
                    break;
                }
                let cnt = |l: u8| s.iter().filter(|&&c| c == l).count();
                let (ls, cs) = hist(bank);
                let all_ge = ls.iter().zip(&cs).all(|(&l, &c)| cnt(l) >= c);
                let all_le = (0..26u8).all(|l| {
                    cnt(l) <= ls.iter().position(|&x| x == l).map_or(0, |i| cs[i])
                });
                let ok = match k {
                    Kind::Std => all_ge && all_le,
                    Kind::Super => all_ge,
                    Kind::Sub => all_le && !s.is_empty(),
                    Kind::Add(n) => all_ge && s.len() == bank.len() + n,
                    Kind::Del(n) => all_le && s.len() == bank.len().saturating_sub(*n),
                };
                if ok {
                    o.push(e);
                }
            }
            o
        }
    };
    v.sort();
    v.dedup();
    v
}

fn naive_plain(l: &Line, t: &[u8]) -> bool {
    ends(&l.root, t, 0).iter().any(|&e| t[e..].iter().all(|&c| c == 27))
}

/// Compares `Auto` (must, no superset lines) with the naive matcher on `text`; edits by brute force.
pub fn selfcheck(l: &Line, text: &[u8]) -> Result<(), String> {
    if l.root.has_superset() {
        return Ok(());
    }
    let lr = match LineRef::new(l) {
        Some(x) => x,
        None => return Ok(()),
    };
    let drop = lr.must[0].drop;
    let t: Vec<u8> = text.iter().copied().filter(|&c| 1u32 << c & drop == 0).collect();
    let got = lr.must[0].matches(text);
    // all strings within `fuzz` letter edits, over the letters that occur plus one that does not
    let mut alphabet: Vec<u8> = vec![];
    for &c in &t {
        if c < 26 && !alphabet.contains(&c) {
            alphabet.push(c);
        }
    }
    l.root.any(&|_| false);
    let mut extra = vec![];
    collect_letters(&l.root, &mut extra);
    for c in extra {
        if !alphabet.contains(&c) {
            alphabet.push(c);
        }
    }
    if !alphabet.contains(&25) {
        alphabet.push(25);
    }
    let mut frontier = vec![t.clone()];
    let mut want = naive_plain(l, &t);
    for _ in 0..l.fuzz.unwrap_or(0).min(2) {
        if want {
            break;
        }
        let mut nx: Vec<Vec<u8>> = vec![];
        for s in &frontier {
            for i in 0..=s.len() {
                for &c in &alphabet {
                    let mut x = s.clone();
                    x.insert(i, c);
                    nx.push(x);
                }
                if i < s.len() && s[i] < 26 {
                    let mut x = s.clone();
                    x.remove(i);
                    nx.push(x);
                    for &c in &alphabet {
                        let mut x = s.clone();
                        x[i] = c;
                        nx.push(x);
                    }
                }
            }
        }
        nx.sort();
        nx.dedup();
        want = nx.iter().any(|s| naive_plain(l, s));
        frontier = nx;
    }
    if l.fuzz.unwrap_or(0) <= 2 && want != got {
        return Err(format!("reference disagreement: line {:?} text {:?}: automaton {} naive {}", l.render(), text, got, want));
    }
    // may must contain must
    let may = lr.may.iter().any(|g| g.iter().all(|a| a.matches(text)));
    if got && !may {
        return Err(format!("may does not contain must: {:?} {:?}", l.render(), text));
    }
    Ok(())
}

fn collect_letters(r: &R, out: &mut Vec<u8>) {
    match r {
        R::Set(m, _) => {
            if m.count_ones() < 12 {
                out.extend((0..26u8).filter(|i| m >> i & 1 == 1))
            } else if m & LETTERS != 0 {
                out.push((m & LETTERS).trailing_zeros() as u8)
            }
        }
        R::Seq(v) | R::Alt(v) | R::Substr(v) | R::Subset(v) | R::Superset(v) => v.iter().for_each(|x| collect_letters(x, out)),
        R::Rep(t, _, _) => collect_letters(t, out),
        R::Anag(_, b) => out.extend(b.iter().copied()),
        R::Enum(_) => {}
    }
}
