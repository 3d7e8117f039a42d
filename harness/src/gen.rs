//! Seeded generation of word lists and queries for the engine simulator (and for the queries the
//! simulated clients send to the server).
use crate::refmodel::*;
use crate::rng::Rng;

#[derive(Clone, Copy)]
pub struct Profile {
    pub words: (usize, usize),
    pub word_len: (usize, usize),
    pub letters: (usize, usize),
    pub tiers: (usize, usize),
    pub odd: bool,
    /// long words, sparse tiers, large repeat counts: automata of several machine words
    pub long: bool,
}

pub type W = (String, u8, u32);

/// A list, sorted the way `load_wordlist` promises: tier, then spelling, then text, then score.
pub fn gen_words(r: &mut Rng, p: Profile) -> Vec<W> {
    let nl = r.range(p.letters.0, p.letters.1);
    let letters: Vec<u8> = {
        let pool = b"aeiotsrnlbcd";
        let mut v: Vec<u8> = vec![];
        while v.len() < nl {
            let c = pool[r.below(pool.len())];
            if !v.contains(&c) {
                v.push(c);
            }
        }
        v
    };
    let n = r.range(p.words.0, p.words.1);
    let tiers = r.range(p.tiers.0, p.tiers.1);
    let sparse: Option<Vec<u8>> = if p.long && r.chance(1, 2) {
        let mut v: Vec<u8> = (0..tiers).map(|_| [0, 1, 7, 100, 200, 254, 255][r.below(7)]).collect();
        v.sort();
        Some(v)
    } else {
        None
    };
    let mut out: Vec<W> = vec![];
    for _ in 0..n {
        let mut len = r.range(p.word_len.0, p.word_len.1);
        if p.long && r.chance(1, 3) {
            len = r.range(len, 34);
            if r.chance(1, 40) {
                len = r.range(100, 600);
            }
        }
        let mut s = String::new();
        for i in 0..len {
            let c = letters[r.below(nl)] as char;
            let odd = p.odd && r.chance(1, 25);
            if odd {
                match r.below(8) {
                    0 => s.push('\''),
                    7 => s.push(*r.pick(&['"', '\\', '&', '<', '%', '’', 'ñ', 'É', 'ﬁ', 'œ', 'Æ', '\u{1f600}', '\u{301}', 'ö', 'ç'])),
                    1 => s.push('-'),
                    2 => s.push(c.to_ascii_uppercase()),
                    3 => s.push('é'),
                    4 if i > 0 && i + 1 < len => s.push(' '),
                    5 => s.push('æ'),
                    _ => s.push('ü'),
                }
            } else {
                s.push(c);
            }
        }
        if r.chance(1, 40) && !out.is_empty() {
            s = out[r.below(out.len())].0.clone(); // duplicate text, maybe in another tier
        }
        let tier = match &sparse {
            Some(v) => v[r.below(v.len())],
            None => r.below(tiers) as u8 * if r.chance(1, 10) { 2 } else { 1 },
        };
        let score = if p.long { [0, 1, 2, 255, 256, 257, u32::MAX][r.below(7)] } else { r.below(3) as u32 };
        out.push((s, tier, score));
    }
    sort_words(&mut out);
    out
}

pub fn sort_words(v: &mut Vec<W>) {
    v.sort_by(|a, b| (a.1, normalise(&a.0), &a.0, a.2).cmp(&(b.1, normalise(&b.0), &b.0, b.2)));
}

pub struct QGen<'a> {
    pub r: &'a mut Rng,
    pub words: &'a [W],
    pub letters: Vec<u8>,
    pub long: bool,
}

impl<'a> QGen<'a> {
    pub fn new(r: &'a mut Rng, words: &'a [W], long: bool) -> Self {
        let mut letters: Vec<u8> = vec![];
        for w in words.iter().take(400) {
            for c in normalise(&w.0) {
                if c < 26 && !letters.contains(&c) {
                    letters.push(c);
                }
            }
        }
        if letters.is_empty() {
            letters.push(0);
        }
        QGen { r, words, letters, long }
    }
    fn letter(&mut self) -> u8 {
        if self.r.chance(1, 25) {
            self.r.below(26) as u8
        } else {
            self.letters[self.r.below(self.letters.len())]
        }
    }
    fn class_with(&mut self, c: u8) -> R {
        let bit = 1u32 << c;
        if c >= 26 {
            return R::Set(bit | if self.r.chance(1, 4) { 1 << self.letter() } else { 0 }, false);
        }
        match self.r.below(8) {
            0 | 1 => R::Set(LETTERS, false),
            2 => {
                let mut m = bit;
                for _ in 0..self.r.range(1, 3) {
                    m |= 1 << self.letter();
                }
                R::Set(m, false)
            }
            3 => {
                // inverted
                let mut m = 0u32;
                for _ in 0..self.r.range(1, 3) {
                    m |= 1 << self.letter();
                }
                if m & bit != 0 {
                    m &= !bit;
                }
                if m == 0 {
                    R::Set(LETTERS, false)
                } else {
                    R::Set(LETTERS & !m, true)
                }
            }
            4 => {
                let lo = c.saturating_sub(self.r.below(3) as u8);
                let hi = (c + self.r.below(3) as u8).min(25);
                let mut m = 0;
                for i in lo..=hi {
                    m |= 1 << i;
                }
                R::Set(m, false)
            }
            _ => R::Set(bit, false),
        }
    }
    fn lit(&mut self, c: u8) -> R {
        R::Set(1 << c, false)
    }
    fn random_term(&mut self, depth: usize) -> R {
        let c = self.letter();
        match self.r.below(if depth > 0 { 12 } else { 5 }) {
            0..=2 => self.class_with(c),
            3 | 4 => self.lit(c),
            5 => {
                let t = self.random_term(depth - 1);
                self.repeat(t)
            }
            6 => {
                let n = self.r.range(2, 3);
                R::Seq((0..n).map(|_| self.random_term(depth - 1)).collect())
            }
            7 => {
                let n = self.r.range(2, 3);
                R::Alt((0..n).map(|_| self.random_term(depth - 1)).collect())
            }
            8 => {
                let n = self.r.range(1, 3);
                R::Subset((0..n).map(|_| self.atom(depth - 1)).collect())
            }
            9 => {
                let n = self.r.range(1, 4);
                R::Substr((0..n).map(|_| self.atom(depth - 1)).collect())
            }
            10 => {
                let n = self.r.range(1, 4);
                let bank = (0..n).map(|_| self.letter()).collect();
                self.anag(bank)
            }
            _ => self.class_with(c),
        }
    }
    fn atom(&mut self, depth: usize) -> R {
        let c = self.letter();
        if depth > 0 && self.r.chance(1, 6) {
            let a = self.lit(c);
            let d = self.letter();
            let b = self.class_with(d);
            if self.r.chance(1, 2) {
                R::Seq(vec![a, b])
            } else {
                R::Alt(vec![a, b])
            }
        } else {
            self.class_with(c)
        }
    }
    fn anag(&mut self, bank: Vec<u8>) -> R {
        let n = bank.len();
        let k = match self.r.below(8) {
            0..=3 => Kind::Std,
            4 => Kind::Super,
            5 => Kind::Sub,
            6 => Kind::Add(if self.r.chance(1, 4) { self.r.range(3, 9) } else { self.r.below(3) }),
            _ => Kind::Del(self.r.below(n.max(2))),
        };
        R::Anag(k, bank)
    }
    fn repeat(&mut self, t: R) -> R {
        let (a, b) = match self.r.below(9) {
            0 | 1 => (0, None),
            2 | 3 => (1, None),
            4 => (0, Some(1)),
            5 => {
                let n = self.r.range(1, 4);
                (n, Some(n))
            }
            6 => (self.r.range(0, 3), None),
            7 => (0, Some(self.r.range(1, 4))),
            _ => {
                let a = self.r.range(0, 2);
                (a, Some(a + self.r.range(if a == 0 { 1 } else { 0 }, 3)))
            }
        };
        if self.r.chance(1, 60) {
            return R::Rep(Box::new(t), 0, Some(0));
        }
        if self.long && self.r.chance(1, 6) {
            let n = self.r.range(5, 40);
            let a = [0, 0, 1, n / 2, n][self.r.below(5)];
            return R::Rep(Box::new(t), a, if self.r.chance(1, 3) { None } else { Some(n) });
        }
        R::Rep(Box::new(t), a, b)
    }
    /// an expression that matches the symbol string (mostly)
    fn generalise(&mut self, s: &[u8], depth: usize) -> Vec<R> {
        let mut out = vec![];
        let mut i = 0;
        while i < s.len() {
            let left = s.len() - i;
            let run = |k: usize| s[i..i + k].iter().all(|&c| c < 26);
            match self.r.below(if self.long { 80 } else { 34 }) {
                0 if left >= 2 && depth > 0 => {
                    let k = self.r.range(2, left.min(4));
                    let v = self.generalise(&s[i..i + k], depth - 1);
                    let g = R::Seq(v);
                    let g = if self.r.chance(1, 2) { self.repeat(g) } else { g };
                    out.push(g);
                    i += k;
                    continue;
                }
                1 if left >= 1 && depth > 0 => {
                    let k = self.r.range(1, left.min(3));
                    let mut alts = vec![R::Seq(self.generalise(&s[i..i + k], depth - 1))];
                    for _ in 0..self.r.range(1, 2) {
                        let n = self.r.range(1, 3);
                        alts.push(R::Seq((0..n).map(|_| self.random_term(0)).collect()));
                    }
                    if self.r.chance(1, 2) {
                        alts.reverse();
                    }
                    out.push(R::Alt(alts));
                    i += k;
                    continue;
                }
                2 => {
                    let k = self.r.range(1, left.min(6));
                    let m = if s[i..i + k].iter().any(|&c| c >= 26) { ALL } else { LETTERS };
                    let t = R::Set(m, false);
                    out.push(match self.r.below(3) {
                        0 => R::Rep(Box::new(t), 0, None),
                        1 => R::Rep(Box::new(t), 1, None),
                        _ => R::Rep(Box::new(t), k.saturating_sub(self.r.below(2)), Some(k + self.r.below(2))),
                    });
                    i += k;
                    continue;
                }
                3 | 4 if left >= 2 && run(2) => {
                    let mut k = 2;
                    while k < left.min(5) && s[i + k] < 26 && self.r.chance(2, 3) {
                        k += 1;
                    }
                    let mut bank = s[i..i + k].to_vec();
                    for j in (1..bank.len()).rev() {
                        bank.swap(j, self.r.below(j + 1));
                    }
                    out.push(self.anag(bank));
                    i += k;
                    continue;
                }
                5 if left >= 2 && run(2) => {
                    let k = self.r.range(2, left.min(4));
                    if run(k) {
                        let mut v: Vec<R> = vec![];
                        for j in 0..k {
                            v.push(self.lit(s[i + j]));
                            if self.r.chance(1, 3) {
                                let c = self.letter();
                                v.push(self.class_with(c));
                            }
                        }
                        out.push(if self.r.chance(1, 2) { R::Subset(v) } else { R::Substr(v) });
                        i += k;
                        continue;
                    }
                }
                6 => {
                    let t = self.random_term(1);
                    out.push(R::Rep(Box::new(t), 0, Some(1)));
                    continue;
                }
                7 => {
                    let t = self.lit(s[i]);
                    let r = self.repeat(t);
                    out.push(r);
                    i += 1;
                    continue;
                }
                8 if self.r.chance(1, 3) && depth > 1 => {
                    let k = self.r.range(1, left.min(4));
                    let v = (0..k).filter(|_| true).map(|j| self.lit(s[i + j])).collect();
                    out.push(R::Superset(v));
                    i += k;
                    continue;
                }
                _ => {}
            }
            let t = if self.r.chance(1, 2) { self.lit(s[i]) } else { self.class_with(s[i]) };
            out.push(t);
            i += 1;
        }
        out
    }
    /// the symbols of a phrase of up to `k` words, as the line sees them
    fn target(&mut self, k: usize, wb: bool, punct: bool) -> Vec<u8> {
        let n = self.r.range(1, k.max(1));
        let mut s = vec![];
        for _ in 0..n {
            let w = &self.words[self.r.below(self.words.len())];
            s.extend(normalise(&w.0));
        }
        if self.r.chance(3, 4) {
            s.pop(); // trailing space is optional
        }
        s.retain(|&c| c < 26 || (c == 27 && wb) || (c == 26 && punct));
        let most = if self.long { self.r.range(10, 75) } else { 22 };
        s.truncate(most);
        s
    }
    pub fn line(&mut self, max_words: usize, allow_fuzz: bool) -> Line {
        let style = self.r.next();
        let mut wb = self.r.chance(1, 10);
        let mut punct = self.r.chance(1, 12);
        let fuzz = if allow_fuzz && self.r.chance(1, 5) {
            Some(match self.r.below(6) {
                0 => 0,
                1 | 2 | 3 => 1,
                4 if self.long => self.r.range(3, 6),
                _ => 2,
            })
        } else {
            None
        };
        let root = if self.words.is_empty() || self.r.chance(1, 10) {
            let n = self.r.range(1, 4);
            R::Seq((0..n).map(|_| self.random_term(2)).collect())
        } else {
            match self.r.below(20) {
                0 | 1 => {
                    // enumeration taken from a phrase, or random
                    let mut v = vec![];
                    for _ in 0..self.r.range(1, max_words.max(1)) {
                        v.push(R::Enum(self.r.range(1, 6)));
                    }
                    R::Seq(v)
                }
                2 | 3 => {
                    let mut s = self.target(max_words, false, false);
                    s.truncate(if self.r.chance(1, 6) { 14 } else { 6 });
                    if s.is_empty() {
                        s.push(self.letter());
                    }
                    for j in (1..s.len()).rev() {
                        s.swap(j, self.r.below(j + 1));
                    }
                    self.anag(s)
                }
                4 => {
                    let mut v = vec![];
                    for _ in 0..self.r.range(1, 3) {
                        v.push(self.atom(1));
                    }
                    R::Superset(v)
                }
                5 => {
                    // weak line: .*x.*
                    let c = self.letter();
                    let l = self.class_with(c);
                    let any = R::Rep(Box::new(R::Set(LETTERS, false)), 0, None);
                    R::Seq(vec![any.clone(), l, any])
                }
                6 => {
                    let lo = self.r.range(1, 6) * if self.long { 5 } else { 1 };
                    let hi = lo + self.r.below(6);
                    R::Seq(vec![R::Rep(Box::new(R::Set(LETTERS, false)), lo, Some(hi))])
                }
                7 => {
                    let mut v: Vec<R> = self.letters.clone().iter().map(|&c| R::Set(1 << c, false)).collect();
                    v.truncate(self.r.range(1, 4).max(1));
                    let m = v.iter().fold(0, |m, x| if let R::Set(b, _) = x { m | b } else { m });
                    R::Seq(vec![R::Rep(Box::new(R::Set(m, false)), self.r.below(3), None)])
                }
                _ => {
                    wb = self.r.chance(1, 6);
                    punct = self.r.chance(1, 8);
                    let s = self.target(max_words, wb, punct);
                    let mut v = self.generalise(&s, 2);
                    if fuzz.is_some() && v.len() > 2 {
                        for _ in 0..self.r.range(0, 2) {
                            let j = self.r.below(v.len());
                            match self.r.below(3) {
                                0 => {
                                    v.remove(j);
                                }
                                1 => {
                                    let c = self.letter();
                                    v.insert(j, R::Set(1 << c, false));
                                }
                                _ => {
                                    let c = self.letter();
                                    v[j] = R::Set(1 << c, false);
                                }
                            }
                        }
                    }
                    if v.is_empty() {
                        let c = self.letter();
                        v.push(self.lit(c));
                    }
                    if v.len() == 1 && self.r.chance(1, 2) {
                        v.pop().unwrap()
                    } else {
                        R::Seq(v)
                    }
                }
            }
        };
        Line { root, wb, punct, fuzz, style }
    }
}
