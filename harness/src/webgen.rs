//! Seeded scenarios for the server simulator, and their minimisation.
use crate::engine::dead_end;
use crate::gen::*;
use crate::refmodel::*;
use crate::rng::Rng;
use crate::sim::hex;
use crate::web::*;
use noodle::parser::QueryAst;
use std::collections::BTreeMap;

fn ae_words(n: usize) -> Vec<String> {
    (0..n)
        .map(|i| {
            let mut s = String::new();
            let mut x = i + 2;
            while x > 0 {
                s.push(if x % 2 == 0 { 'a' } else { 'e' });
                x /= 2;
            }
            s.chars().rev().collect()
        })
        .collect()
}

/// names which have to be quoted somewhere; none of them can be written in a query
const ODD_NAMES: [&str; 8] = ["my list", "Über", "say \"hi\"", "back\\slash", "100%25", "a+b", "x&y=#1?", "two  blanks "];
const NAMES: [&str; 8] = ["en2020", "uk-eng", "my_list", "Foo", "x", "names", "Upper-Case_9", "zz"];

pub fn gen_list(r: &mut Rng, name: &str, size: (usize, usize)) -> ListFile {
    let p = Profile { words: size, word_len: (1, if size.1 > 100 { 7 } else { 4 }), letters: (2, if size.1 > 100 { 9 } else { 4 }), tiers: (1, 1), odd: true, long: r.chance(1, 8) };
    let counted = r.chance(1, 3);
    let mut lines: Vec<String> = gen_words(r, p)
        .into_iter()
        .map(|w| {
            let t = w.0;
            if counted && !r.chance(1, 8) {
                format!("{}\t{}", r.loguniform(100_000), t)
            } else {
                t
            }
        })
        .collect();
    if r.chance(1, 20) {
        // longer than any buffer of a fixed size someone may think of
        for _ in 0..r.range(1, 3) {
            let k = 1 + r.below(4);
            let n = r.loguniform(3000) as usize;
            lines.push((0..n).map(|i| b"aeinst"[(i * k + r.below(2)) % 6] as char).collect());
        }
    }
    // a file is in no particular order
    for i in (1..lines.len()).rev() {
        let k = r.below(i + 1);
        lines.swap(i, k);
    }
    if r.chance(1, 3) {
        for x in ["I", "a", "b", "", "ab3", "x1y", "5\tI", "abc\tdef"] {
            if r.chance(1, 2) {
                let k = r.below(lines.len() + 1);
                lines.insert(k, x.to_string());
            }
        }
    }
    let zst = r.chance(1, 3);
    let ext = match (zst, r.below(4)) {
        (true, 0) => ".dict.txt.zst",
        (true, _) => ".zst",
        (false, 0) => "",
        (false, 1) => ".dict.txt",
        (false, _) => ".txt",
    };
    ListFile { file: format!("{}{}", name, ext), lines, zst, crlf: r.chance(1, 10), last_nl: r.chance(4, 5) }
}

fn flip_case(c: char) -> char {
    if c.is_ascii_lowercase() {
        c.to_ascii_uppercase()
    } else {
        c.to_ascii_lowercase()
    }
}

fn gen_lists(r: &mut Rng, prop: &str, slow: bool, big: bool) -> Vec<ListFile> {
    let n = if prop == "W06" || prop == "W07" { r.range(2, 4) } else { r.range(1, 3) };
    let mut v = vec![];
    for i in 0..n {
        let name = if i == 0 {
            "default"
        } else if r.chance(1, if prop == "W07" { 3 } else { 12 }) {
            *r.pick(&ODD_NAMES)
        } else {
            NAMES[(r.below(4) * 2 + i) % NAMES.len()]
        };
        let mut name = name.to_string();
        if i > 0 && r.chance(1, 3) {
            // almost the name of another list
            let like: &ListFile = r.pick(&v);
            let like = like.name();
            if like.is_ascii() && !ODD_NAMES.contains(&like.as_str()) {
                let k = r.below(like.len());
                name = match r.below(6) {
                    0 | 1 => like.chars().enumerate().map(|(i, c)| if i == k { flip_case(c) } else { c }).collect(),
                    2 => like.chars().map(flip_case).collect(),
                    3 if k > 0 => like[..k].to_string(),
                    4 => format!("{}{}", like, r.pick(&["s", "2", "_", "-", "0"])),
                    _ => format!("{}{}", r.pick(&["x", "my_", "dict"]), like),
                };
            }
        }
        if v.iter().any(|l: &ListFile| l.name() == name) {
            continue;
        }
        let name = &name[..];
        let size = if prop == "W07" && r.chance(1, 2) { (100, 1500) } else if r.chance(1, 6) { (60, 300) } else { (0, 30) };
        v.push(gen_list(r, name, size));
    }
    if slow {
        let n = r.range(25, 45);
        v.push(ListFile { file: "slow.txt".into(), lines: ae_words(n), zst: false, crlf: false, last_nl: true });
    }
    if prop == "W07" && r.chance(1, 6) {
        // a second file of the same name: whichever is loaded
        let mut d = r.pick(&v).clone();
        let n = d.name();
        d.zst = !d.zst;
        d.file = if d.zst { format!("{}.again.zst", n) } else { format!("{}.again.txt", n) };
        v.push(d);
    }
    if big {
        let n = if r.chance(1, 8) { r.range(66_000, 90_000) } else { r.range(2000, 25_000) };
        let mut lines: Vec<String> = (0..n).map(|_| (0..r.range(3, 9)).map(|_| (b'a' + r.below(26) as u8) as char).collect()).collect();
        lines.sort();
        lines.dedup();
        let zst = r.chance(1, 3);
        v.push(ListFile { file: if zst { "big.zst".into() } else { "big.txt".into() }, lines, zst, crlf: false, last_nl: true });
    }
    v
}

fn opt_style(r: &mut Rng) -> u8 {
    (r.next() & 31) as u8
}

fn finish_q(r: &mut Rng, q: &mut Q) {
    q.semi = r.chance(1, 3);
    q.late = r.chance(1, 5);
    for i in (1..q.opts.len()).rev() {
        let k = r.below(i + 1);
        q.opts.swap(i, k);
    }
}

/// A macro which stands for part of a line; only if expanding it gives the lines back.
fn add_macro(r: &mut Rng, q: &mut Q) {
    if q.body.is_empty() || q.late {
        return;
    }
    let i = r.below(q.body.len());
    let b = q.body[i].split(" //").next().unwrap().to_string();
    if !b.is_ascii() || b.len() < 2 || q.body[i].contains("/*") {
        return;
    }
    let s = r.below(b.len() - 1);
    let n = r.range(1, b.len() - s);
    let val = &b[s..s + n];
    if val.starts_with(' ') || val.ends_with(' ') {
        return;
    }
    let name = *r.pick(&["ZQX", "qZ_1", "MACRO"]);
    let mut body = q.body.clone();
    body[i].replace_range(s..s + n, name);
    if body.iter().map(|l| l.replace(name, val)).eq(q.body.iter().cloned()) {
        body.insert(0, format!("{}={}", name, val));
        q.body = body;
    }
}

pub fn gen_small(r: &mut Rng, loaded: &BTreeMap<String, Vec<W>>, files: bool) -> Q {
    loop {
        let mut q = Q { kind: QKind::Small, opts: vec![], body: vec![], own: None, semi: false, late: false, model: vec![] };
        if r.chance(1, 5) {
            let ws = gen_words(r, Profile { words: (0, 16), word_len: (1, 4), letters: (2, 4), tiers: (1, 1), odd: true, long: false });
            q.own = Some(ws.into_iter().map(|w| if r.chance(1, 10) { format!(" {} ", w.0) } else { w.0 }).collect());
        }
        if files && r.chance(3, 4) {
            let name = if r.chance(1, 8) {
                r.pick(&["nosuch", "Default", "en"]).to_string()
            } else {
                let names: Vec<&String> = loaded.keys().filter(|n| !ODD_NAMES.contains(&n.as_str())).collect();
                r.pick(&names).to_string()
            };
            q.opts.push(Opt::Dict(name, opt_style(r)));
        }
        let words = words_for(&q, loaded);
        let mut mw = r.range(1, 4);
        while mw > 1 && words.len().pow(mw as u32) > 60_000 {
            mw -= 1;
        }
        if words.len() <= 2 && r.chance(1, 2) {
            mw = r.range(1, 9);
        }
        if !(words.len() <= 1 && r.chance(1, 3)) {
            q.opts.push(Opt::Words(mw, opt_style(r)));
        }
        match r.below(5) {
            0 => q.opts.push(Opt::Limit(r.loguniform(60) as usize, opt_style(r))),
            1 => q.opts.push(Opt::Limit(r.range(100, 2000), opt_style(r))),
            _ => {}
        }
        if r.chance(1, 20) {
            q.opts.push(Opt::Quiet);
        }
        let nlines = match r.below(8) {
            0..=4 => 1,
            5 | 6 => 2,
            _ => 3,
        };
        let fuzz_ok = words.len() < 40;
        if r.chance(1, 6) {
            // many results
            q.model.push(Line { root: R::Rep(Box::new(R::Set(LETTERS, false)), 0, None), wb: false, punct: false, fuzz: None, style: 0 });
        } else {
            let mut g = QGen::new(r, &words, false);
            for _ in 0..nlines {
                q.model.push(g.line(mw, fuzz_ok));
            }
        }
        let refs: Option<Vec<LineRef>> = q.model.iter().map(LineRef::new).collect();
        let Some(refs) = refs else { continue };
        let total: usize = refs.iter().map(|l| l.must.len() + l.may.iter().map(|g| g.len()).sum::<usize>()).sum();
        if total > 24 {
            continue;
        }
        q.body = q.model.iter().map(|l| l.render()).collect();
        finish_q(r, &mut q);
        if r.chance(1, 8) {
            add_macro(r, &mut q);
        }
        if q.body.iter().any(|b| b.contains(';')) {
            continue;
        }
        if QueryAst::new_from_str(&q.text()).is_err() {
            // for Q03 to complain about
            continue;
        }
        return q;
    }
}

/// A query with a long list of its own: `size` bytes at most.
pub fn gen_bulk(r: &mut Rng, size: usize) -> Q {
    loop {
        let mut q = Q { kind: QKind::Small, opts: vec![Opt::Words(1, opt_style(r))], body: vec![], own: None, semi: false, late: false, model: vec![] };
        let letters = r.range(2, 20);
        let n = size / 8 - r.below(size / 9);
        let own: Vec<String> = (0..n).map(|_| (0..r.range(3, 7)).map(|_| (b'a' + r.below(letters) as u8) as char).collect()).collect();
        let few: Vec<W> = own.iter().take(30).map(|w| (w.clone(), 1, 0)).collect();
        q.model.push(QGen::new(r, &few, false).line(1, false));
        q.own = Some(own);
        let fits = q.model.iter().all(|l| LineRef::new(l).map_or(false, |l| l.must.len() + l.may.iter().map(|g| g.len()).sum::<usize>() < 24));
        if !fits {
            continue;
        }
        if r.chance(1, 2) {
            q.opts.push(Opt::Limit(r.range(1, 2000), opt_style(r)));
        }
        q.body = q.model.iter().map(|l| l.render()).collect();
        finish_q(r, &mut q);
        if q.body.iter().any(|b| b.contains(';')) || q.text().len() > size || QueryAst::new_from_str(&q.text()).is_err() {
            continue;
        }
        return q;
    }
}

/// A query which cannot complete within its time limit.
pub fn gen_slow(r: &mut Rng, loaded: &BTreeMap<String, Vec<W>>) -> Q {
    let mut q = Q { kind: QKind::Slow, opts: vec![], body: vec![], own: None, semi: false, late: false, model: vec![] };
    if loaded.contains_key("slow") && r.chance(2, 3) {
        q.opts.push(Opt::Dict("slow".into(), opt_style(r)));
    } else {
        let n = r.range(25, 45);
        q.own = Some(ae_words(n));
    }
    if r.chance(1, 2) {
        q.opts.push(Opt::Words(r.range(8, 12), opt_style(r)));
    }
    if r.chance(1, 2) {
        // results for a long time
        q.kind = QKind::Flood;
        q.opts.push(Opt::Limit(1_000_000, opt_style(r)));
        q.body.push(r.pick(&[".*", "[a-z]+", ".*a.*", "(a|e)*"]).to_string());
    } else {
        for i in 0..2 {
            q.body.push(Line { root: dead_end(i), wb: false, punct: false, fuzz: None, style: 0 }.render());
        }
        if r.chance(1, 3) {
            // some results, then nothing
            q.body[0] = format!("({}|aaa|aea)", q.body[0]);
            q.body[1] = format!("({}|aaa|aea)", q.body[1]);
        }
    }
    finish_q(r, &mut q);
    q
}

pub fn gen_bad(r: &mut Rng) -> Q {
    loop {
        let bad = ["(", ")", "[a", "a{", "a{3,1}", "<", "<a", "<a+", "ab!", "a !x", "#words", "#limit x", "#nosuch 3", "", "a*b**", "[]", "()", "a|", "|", "#limit 5", "M=a", "{3}", "a{99999999999999999999999}", "\u{e9}", "a\u{1F600}b", "a\\b", "#dict", "<abc>!1)", "a;b;(", "// only a comment"];
        let mut q = Q { kind: QKind::Bad, opts: vec![], body: vec![r.pick(&bad).to_string()], own: None, semi: false, late: false, model: vec![] };
        if r.chance(1, 3) {
            q.body.insert(0, "abc".into());
        }
        if r.chance(1, 3) {
            q.body.push("a.b".into());
        }
        if r.chance(1, 3) {
            q.opts.push(Opt::Limit(3, opt_style(r)));
        }
        finish_q(r, &mut q);
        if QueryAst::new_from_str(&q.text()).is_err() {
            return q;
        }
    }
}

/// Text made of the pieces of the query language, mostly nonsense.
pub fn gen_junk_query(r: &mut Rng) -> Q {
    let pieces = [
        "a", "b", "e", "t", "z", ".", "'", "_", "[abc]", "[^a-d]", "[", "]", "(", ")", "(ab|c)", "|", "*", "+", "?", "{2}", "{,3}", "{1,}", "{0}", "{0,0}", "{3,2}", "{99}", "<ate>", "<ate+>", "<ate->", "<ate+2>",
        "<ate-1>", "<ate-9>", "<aaaa>", "(ab:-)", "(ab:+)", "(abc:^)", ":+)", " !_", " !'", " !1", " !2", " !99", " !999999999", "3 4", "5", "0", "\n", "\n", ";", "#words 2", "#words 0", "#words 99999999", "#limit 0", "#limit 5",
        "#limit 99999999999999999999", "#dict x", "#dict default", "#quiet", "\n#wordlist\n", "X=[ab]", "X", "Y=XX", "Y", "//", "--", "/*", "*/", "\u{e9}", "\u{0}", "\r", "\t", "\u{1F600}", " ",
    ];
    let n = r.range(1, 14);
    let mut t = String::new();
    if r.chance(2, 3) {
        t.push_str("#words 2\n");
    }
    for _ in 0..n {
        t.push_str(r.pick(&pieces[..]));
    }
    match r.below(30) {
        0 => t = "(".repeat(r.range(1, 3000)),
        1 => t = format!("{}a{}", "(".repeat(2000), ")".repeat(2000)),
        2 => t = "a".repeat(r.range(1, 60_000)),
        3 => t = (0..20).map(|i| format!("M{}={}", i, if i == 0 { "aaaaaaaaaa".to_string() } else { format!("M{}", i - 1).repeat(10) })).collect::<Vec<_>>().join("\n") + "\nM19",
        4 => t = "<abcdefghijklmnopqrstuvwxyz>\n".repeat(r.range(1, 40)),
        5 => t = "#wordlist\n".to_string() + &"ab\n".repeat(2000),
        6 => t = "(((((((a{9}){9}){9}){9}){9}){9}){9})".into(),
        7 => t = "ab\n#wordlist\n".to_string() + &"a".repeat(5000),
        _ => {}
    }
    Q { kind: QKind::Junk, opts: vec![], body: vec![t], own: None, semi: false, late: false, model: vec![] }
}

fn gen_ws(r: &mut Rng, q: Q, quiet: bool) -> Ws {
    let len = q.text().len();
    let mut frag = vec![];
    if r.chance(1, 4) {
        for _ in 0..r.range(1, 4) {
            frag.push(r.loguniform(len as u64) as usize);
        }
    }
    let mut pings = vec![];
    if !quiet && r.chance(1, 3) {
        for _ in 0..r.range(1, 5) {
            pings.push((r.loguniform(6) as usize, r.loguniform(125) as usize));
        }
    }
    Ws { q, pre: if r.chance(1, 6) { (0..r.range(1, 3)).map(|_| *r.pick(&[9u8, 10])).collect() } else { vec![] }, frag, midping: r.chance(1, 3), pings, chat: if !quiet && r.chance(1, 4) { (0..r.range(1, 4)).map(|_| *r.pick(&[1u8, 2, 9, 9, 10])).collect() } else { vec![] }, mask: r.next() }
}

fn gen_junk_bytes(r: &mut Rng) -> Vec<(u64, String)> {
    let mut v: Vec<(u64, Vec<u8>)> = vec![];
    let h = "Host: sim\r\n";
    let masked = |r: &mut Rng, op: u8, fin: bool, p: &[u8]| frame(fin, op, p, r.next());
    match r.below(22) {
        0 => v.push((0, (0..r.range(0, 300)).map(|_| r.next() as u8).collect())),
        1 => v.push((0, b"GET".to_vec())),
        2 => v.push((0, format!("GET /query/abc HTTP/1.1\r\n{}", h).into_bytes())),
        3 => v.push((0, format!("GET /query/%FF%fe%zz%2 HTTP/1.1\r\n{}\r\n", h).into_bytes())),
        4 => v.push((0, format!("GET /../../../../etc/passwd HTTP/1.1\r\n{}\r\n", h).into_bytes())),
        5 => v.push((0, format!("POST /query HTTP/1.1\r\n{}Content-Length: 1000000\r\n\r\nabc", h).into_bytes())),
        6 => v.push((0, format!("POST /query HTTP/1.1\r\n{}Content-Length: 50\r\n\r\nabc", h).into_bytes())),
        7 => v.push((0, format!("POST /query HTTP/1.1\r\n{}Transfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n", h).into_bytes())),
        8 => {
            let mut b = format!("POST /query HTTP/1.1\r\n{}Content-Length: 6\r\n\r\n", h).into_bytes();
            b.extend([0xff, 0xfe, b'a', 0, 0x80, b'\n']);
            v.push((0, b));
        }
        9 => v.push((0, format!("GET /ws HTTP/1.1\r\n{}\r\n", h).into_bytes())),
        10 => v.push((0, format!("DELETE /query HTTP/1.1\r\n{}\r\nPUT /metrics HTTP/1.1\r\n{}\r\n", h, h).into_bytes())),
        11 => v.push((0, format!("GET /wordlist/{} HTTP/1.1\r\n{}\r\n", "a".repeat(r.range(0, 3000)), h).into_bytes())),
        12 => v.push((0, format!("GET / HTTP/1.1\r\n{}X: {}\r\n\r\n", h, "y".repeat(r.range(0, 40_000))).into_bytes())),
        13 => v.push((0, b"GET /metrics HTTP/1.0\r\n\r\n".to_vec())),
        k => {
            v.push((0, UPGRADE.as_bytes().to_vec()));
            let b = match k {
                14 => masked(r, 2, true, &[0, 1, 255]),
                15 => masked(r, 1, true, &[0xff, 0xfe, 0x80]),
                16 => {
                    // not masked
                    vec![0x81, 3, b'a', b'b', b'c']
                }
                17 => {
                    let mut b = vec![0x81, 0x80 | 127];
                    b.extend((r.next() >> r.below(40)).to_be_bytes());
                    b.extend([1, 2, 3, 4, 5]);
                    b
                }
                18 => masked(r, 1, false, b"#words 2\n"),
                19 => {
                    let mut b = masked(r, 8, true, &[0x03]);
                    b.extend(masked(r, 1, true, b"abc"));
                    b
                }
                20 => {
                    let mut b = vec![];
                    for _ in 0..r.range(1, 30) {
                        let op = *r.pick(&[0u8, 1, 2, 3, 7, 8, 9, 10, 11, 15]);
                        let n = r.loguniform(130) as usize;
                        let mut f = frame(r.chance(3, 4), op, &vec![b'a'; n], r.next());
                        if r.chance(1, 10) {
                            f[0] |= 0x40;
                        }
                        b.extend(f);
                    }
                    b
                }
                _ => (0..r.range(1, 100)).map(|_| r.next() as u8).collect(),
            };
            v.push((r.range(1, 50) as u64 * 10 * MS, b));
        }
    }
    v.into_iter().map(|(d, b)| (d, hex(&b))).collect()
}

fn gen_knobs(r: &mut Rng, slow: bool, calm: bool) -> Knobs {
    let seed = r.next();
    let odds = |r: &mut Rng| if r.chance(1, 2) { (0, 1) } else { (1, 1 << r.range(2, 9) as u64) };
    let tick = if slow {
        (r.range(1, 5) as u64 * MS, r.range(60, 250) as u64 * MS)
    } else {
        let a = r.range(20, 2000) as u64;
        (a, a + r.loguniform(3_000_000))
    };
    let o = odds(r);
    let stall = if calm || r.chance(1, 2) { (0, 1, 1) } else { (o.0, o.1.max(16), if r.chance(1, 3) { r.loguniform(3 * S) + 1 } else { r.loguniform(50 * MS) + 1 }) };
    let jump = if calm || r.chance(2, 3) { (0, 1, 1) } else { (1, r.range(50, 800) as u64, r.loguniform(40 * S) + 1) };
    let rtstep = if r.chance(2, 3) { (0, 1, 1) } else { (1, r.range(2, 50) as u64, r.loguniform(100_000 * S) + 1) };
    let la = r.loguniform(2 * MS) + 1000;
    Knobs {
        seed,
        switch: (1, if slow { r.range(2, 6) } else { 1 << r.range(1, 7) } as u64),
        stall,
        tick,
        jump,
        rtstep,
        spurious: odds(r),
        lat: (la, la + r.loguniform(if calm { 20 * MS } else { 300 * MS })),
        sndcap: *r.pick(&[200u64, 700, 4096, 65536, 65536, 262144]),
        acceptfail: if r.chance(2, 3) { (0, 1) } else { (1, r.range(2, 8) as u64) },
        rshort: odds(r),
        reintr: odds(r),
        shuffle: r.chance(1, 2),
        logfail: None,
    }
}

fn delivery(r: &mut Rng) -> (u64, u64) {
    match r.below(4) {
        0 => (r.range(1, 40) as u64, r.loguniform(200 * MS)),
        1 => (r.range(1, 200) as u64, 0),
        _ => (0, 0),
    }
}

fn client(r: &mut Rng, phase: usize, spread: u64, talk: Talk) -> Cl {
    let (mut seg, gap) = delivery(r);
    let size = match &talk {
        Talk::Http(v) => v.len() * 200 + v.iter().map(|x| x.query().map_or(0, |q| q.text().len())).sum::<usize>(),
        Talk::Ws(w) => w.q.text().len() + 300,
        Talk::Junk(v) => v.iter().map(|x| x.1.len() / 2).sum(),
    };
    if seg > 0 {
        // not more than some hundred pieces
        seg = seg.max(size as u64 / 200);
    }
    Cl { phase, delay: r.loguniform(spread), talk, seg, gap, read: Read::Fast, cut: None }
}

fn slow_read(r: &mut Rng) -> Read {
    match r.below(3) {
        0 => Read::Slow(r.range(20, 400) as u64, r.loguniform(500 * MS)),
        1 => Read::Slow(r.range(400, 4000) as u64, r.loguniform(2 * S)),
        _ => Read::Pause(r.loguniform(10) as usize, r.loguniform(60 * S)),
    }
}

fn gen_cut(r: &mut Rng, c: &Cl, vanish: bool) -> (At, Cut) {
    let ws = matches!(c.talk, Talk::Ws(_));
    let total = c.query_ends().last().copied().unwrap_or(100).max(c.request_ends().last().copied().unwrap_or(0));
    let at = match r.below(4) {
        0 => At::Sent(r.below(total + 1)),
        1 => At::Recv(r.loguniform(3000) as usize),
        2 if ws => At::Msgs(r.loguniform(60) as usize),
        _ => At::Time(r.loguniform(20 * S)),
    };
    let how = match r.below(if ws { 5 } else { 4 }) {
        0 => Cut::Close,
        1 => Cut::Rst,
        2 => Cut::Fin,
        3 if vanish => Cut::Vanish,
        3 => Cut::Rst,
        _ if matches!(at, At::Sent(_)) => Cut::Close,
        _ => Cut::WsClose,
    };
    (at, how)
}

fn metrics(phase: usize, delay: u64) -> Cl {
    Cl { phase, delay, talk: Talk::Http(vec![Req::Metrics]), seg: 0, gap: 0, read: Read::Fast, cut: None }
}

fn any_req(r: &mut Rng, loaded: &BTreeMap<String, Vec<W>>) -> Req {
    match r.below(9) {
        0..=2 => Req::Get(gen_small(r, loaded, true)),
        3 | 4 => Req::Post(gen_small(r, loaded, true)),
        5 => {
            let names: Vec<&String> = loaded.keys().collect();
            Req::List(if r.chance(1, 6) { "nosuch".into() } else { r.pick(&names).to_string() })
        }
        6 => Req::Js,
        7 => {
            if r.chance(1, 2) {
                Req::Static
            } else {
                Req::Nowhere
            }
        }
        _ => Req::Metrics,
    }
}

pub fn gen(prop: &str, seed: u64) -> Scn {
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    let slow = match prop {
        "W04" => true,
        "W01" | "W05" => r.chance(1, 2),
        "W03" => r.chance(1, 3),
        "W02" | "W06" => r.chance(1, 5),
        _ => false,
    };
    let calm = prop == "W04";
    let mut knobs = gen_knobs(r, slow, calm);
    // a list which does not fit into the buffers on the way
    let big = prop == "W07" && r.chance(1, 8);
    if big {
        knobs.sndcap = *r.pick(&[2000u64, 16384, 65536]);
    }
    // little slack: the clock moves in small steps, few clients
    let precise = slow && ["W03", "W04", "W05"].contains(&prop) && r.chance(1, 3);
    if precise {
        let short = prop == "W04" || (prop == "W05" && r.chance(1, 2));
        let a = r.range(if short { 500 } else { 2500 }, if short { 3000 } else { 9000 }) as u64 * 1000;
        knobs.tick = (a, a + r.loguniform(a));
        knobs.switch = (1, r.range(2, 3) as u64);
        knobs.stall = (0, 1, 1);
        knobs.jump = (0, 1, 1);
        if r.chance(3, 4) {
            knobs.acceptfail = (0, 1);
        }
        let la = r.loguniform(MS) + 1000;
        knobs.lat = (la, la + r.loguniform(4 * MS));
    }
    if prop == "W02" && r.chance(1, 6) {
        // the disk with the log is full
        knobs.logfail = Some((if r.chance(1, 4) { 0 } else { r.loguniform(3000) }, *r.pick(&[libc::ENOSPC, libc::EPIPE, libc::EIO])));
    }
    let few = |r: &mut Rng, a: usize, b: usize| if precise { 1 + r.below(2) } else { r.range(a, b) };
    let lists = gen_lists(r, prop, slow, big);
    let loaded: BTreeMap<String, Vec<W>> = lists.iter().map(|l| (l.name(), ref_load(&l.lines))).collect();
    let spread = if slow { *r.pick(&[MS, S, 20 * S]) } else { *r.pick(&[10_000, MS, 100 * MS, 2 * S]) };
    let mut cs: Vec<Cl> = vec![];
    let mut settle = vec![20 * S];
    let pickq = |r: &mut Rng| -> Q {
        match r.below(10) {
            0 => gen_bad(r),
            1..=4 if slow => gen_slow(r, &loaded),
            _ => gen_small(r, &loaded, true),
        }
    };
    match prop {
        "W01" if r.chance(1, 60) => {
            // many queries, one after the other and at once
            if slow {
                for i in 0..r.range(20, 90) {
                    let q = if i % 4 == 3 { gen_small(r, &loaded, true) } else { gen_slow(r, &loaded) };
                    let w = gen_ws(r, q, true);
                    let mut c = client(r, 0, 3 * S, Talk::Ws(w));
                    c.cut = Some(match r.below(3) {
                        0 => gen_cut(r, &c, false),
                        _ => (At::Time(r.loguniform(100 * S)), *r.pick(&[Cut::Close, Cut::Rst, Cut::WsClose])),
                    });
                    cs.push(c);
                }
            } else {
                for _ in 0..r.range(1, 3) {
                    let few: Vec<Q> = (0..6).map(|_| if r.chance(1, 5) { gen_bad(r) } else { gen_small(r, &loaded, true) }).collect();
                    let reqs = (0..r.range(60, 400)).map(|_| if r.chance(1, 2) { Req::Get(r.pick(&few).clone()) } else { Req::Post(r.pick(&few).clone()) }).collect();
                    cs.push(client(r, 0, spread, Talk::Http(reqs)));
                }
            }
            for _ in 0..r.range(2, 6) {
                let d = r.loguniform(if slow { 100 * S } else { S });
                cs.push(metrics(0, d));
            }
            settle = vec![400 * S, S];
            cs.push(metrics(1, 0));
        }
        "W01" => {
            let vanish = r.chance(1, 3);
            for _ in 0..r.range(1, 5) {
                let q = pickq(r);
                let talk = match r.below(4) {
                    0 => Talk::Http(vec![Req::Get(q)]),
                    1 => Talk::Http(vec![Req::Post(q)]),
                    _ => Talk::Ws(gen_ws(r, q, false)),
                };
                let mut c = client(r, 0, spread, talk);
                if r.chance(2, 3) {
                    c.cut = Some(gen_cut(r, &c, vanish));
                }
                if r.chance(1, 5) {
                    c.read = slow_read(r);
                }
                cs.push(c);
            }
            for _ in 0..r.below(4) {
                let d = r.loguniform(spread * 4 + if slow { 160 * S } else { S });
                cs.push(metrics(0, d));
            }
            settle = vec![if vanish { 1600 * S } else { 400 * S }, S];
            cs.push(metrics(1, 0));
        }
        "W02" => {
            // now and then a whole crowd of them
            let n = if !slow && r.chance(1, 60) { r.range(60, 250) } else { r.range(1, 6) };
            for _ in 0..n {
                let talk = match r.below(8) {
                    0..=2 => Talk::Junk(gen_junk_bytes(r)),
                    3 => Talk::Http(vec![Req::Get(gen_junk_query(r))]),
                    4 => Talk::Http(vec![Req::Post(gen_junk_query(r))]),
                    5 => {
                        let q = gen_junk_query(r);
                        Talk::Ws(gen_ws(r, q, false))
                    }
                    6 => {
                        let q = pickq(r);
                        Talk::Ws(gen_ws(r, q, false))
                    }
                    _ => Talk::Http(vec![any_req(r, &loaded)]),
                };
                let mut c = client(r, 0, spread, talk);
                if let Talk::Ws(w) = &mut c.talk {
                    if r.chance(1, 3) {
                        w.pre = (0..r.range(1, 3)).map(|_| *r.pick(&[2u8, 8, 9, 10])).collect();
                    }
                }
                if !matches!(c.talk, Talk::Junk(_)) && r.chance(1, 2) {
                    c.cut = Some(gen_cut(r, &c, false));
                } else if let Talk::Ws(_) = c.talk {
                    // may have no regular end
                    c.cut = Some((At::Time(r.range(1, 200) as u64 * S), Cut::Close));
                } else if let Talk::Http(_) = c.talk {
                    c.cut = Some((At::Time(r.range(1, 200) as u64 * S), Cut::Close));
                }
                cs.push(c);
            }
            settle = vec![10 * S, S];
            for _ in 0..r.range(1, 3) {
                let talk = if r.chance(1, 3) {
                    let q = gen_small(r, &loaded, true);
                    Talk::Ws(gen_ws(r, q, true))
                } else {
                    Talk::Http(vec![any_req(r, &loaded)])
                };
                cs.push(client(r, 1, 1000, talk));
            }
        }
        "W03" => {
            for i in 0..few(r, 1, 4) {
                let q = if !slow && r.chance(1, 30) { gen_bulk(r, 200_000) } else { pickq(r) };
                let mut c = if i == 0 || r.chance(3, 4) {
                    let w = gen_ws(r, q, false);
                    client(r, 0, spread, Talk::Ws(w))
                } else {
                    client(r, 0, spread, Talk::Http(vec![Req::Get(q)]))
                };
                if r.chance(1, 3) {
                    c.read = slow_read(r);
                }
                if i > 0 && r.chance(1, 4) {
                    c.cut = Some(gen_cut(r, &c, false));
                }
                cs.push(c);
            }
        }
        "W04" => {
            for _ in 0..few(r, 1, 3) {
                let q = gen_slow(r, &loaded);
                let w = gen_ws(r, q, false);
                let mut c = client(r, 0, spread, Talk::Ws(w));
                let at = if r.chance(1, 2) { At::Msgs(r.loguniform(80) as usize) } else { At::Time(r.loguniform(60 * S)) };
                let how = *r.pick(&[Cut::Close, Cut::Close, Cut::Rst, Cut::WsClose, Cut::Fin, Cut::Vanish]);
                c.cut = Some((at, how));
                match r.below(8) {
                    0 => c.read = Read::Slow(r.range(100, 4000) as u64, r.loguniform(300 * MS)),
                    1 => {
                        c.read = Read::Stop(r.loguniform(60) as usize);
                        // who does not read can not finish a WebSocket close
                        let how = if how == Cut::WsClose { Cut::Close } else { how };
                        c.cut = Some((At::Time(r.loguniform(60 * S)), how));
                    }
                    _ => {}
                }
                if r.chance(1, 8) {
                    // talks a lot before it goes away
                    if let Talk::Ws(w) = &mut c.talk {
                        let n = r.range(50, 2000);
                        w.pings = vec![(0, r.loguniform(20) as usize); n];
                    }
                }
                cs.push(c);
            }
            let vanish = cs.iter().any(|c| matches!(c.cut, Some((_, Cut::Vanish))));
            settle = vec![if vanish { 1400 * S } else { 8 * S }, 60 * S, S];
            cs.push(metrics(1, 0));
            cs.push(metrics(2, 0));
        }
        "W05" if slow && r.chance(1, 25) => {
            // more queries than the server has threads, and somebody else
            knobs.tick = (MS, r.range(4, 12) as u64 * MS);
            knobs.switch = (1, r.range(2, 4) as u64);
            knobs.stall = (0, 1, 1);
            let q = gen_slow(r, &loaded);
            for i in 0..r.range(18, 27) {
                let mut c = client(r, 0, S, Talk::Http(vec![Req::Post(q.clone())]));
                c.delay += i as u64 * MS;
                cs.push(c);
            }
            for _ in 0..r.range(1, 3) {
                let q = gen_small(r, &loaded, true);
                let mut c = client(r, 0, 20 * S, Talk::Http(vec![Req::Get(q)]));
                c.delay += 3 * S;
                cs.push(c);
            }
        }
        "W05" => {
            if !slow && r.chance(1, 30) {
                let q = gen_bulk(r, 62_000);
                cs.push(client(r, 0, spread, Talk::Http(vec![Req::Post(q)])));
            }
            for _ in 0..few(r, 1, 4) {
                let q = pickq(r);
                let mut reqs = vec![if r.chance(2, 3) { Req::Get(q) } else { Req::Post(q) }];
                if r.chance(1, 5) {
                    let q = gen_small(r, &loaded, true);
                    reqs.push(if r.chance(1, 2) { Req::Get(q) } else { Req::Post(q) });
                }
                let mut c = client(r, 0, spread, Talk::Http(reqs));
                if r.chance(1, 5) {
                    c.read = slow_read(r);
                }
                cs.push(c);
            }
            if !precise && r.chance(1, 3) {
                let q = pickq(r);
                let w = gen_ws(r, q, true);
                cs.push(client(r, 0, spread, Talk::Ws(w)));
            }
        }
        "W06" => {
            let n = if slow { r.range(2, 5) } else { r.range(3, 8) };
            for _ in 0..n {
                let q = if !slow && r.chance(1, 100) { gen_bulk(r, 62_000) } else if r.chance(1, 12) { gen_bad(r) } else if slow && r.chance(1, 5) { gen_slow(r, &loaded) } else { gen_small(r, &loaded, true) };
                let bulk = q.text().len() > 20_000;
                let talk = match r.below(3) {
                    0 if !bulk => Talk::Http(vec![Req::Get(q)]),
                    2 => Talk::Ws(gen_ws(r, q, true)),
                    _ => Talk::Http(vec![Req::Post(q)]),
                };
                let talk = match talk {
                    // one connection for several queries
                    Talk::Http(mut v) if r.chance(1, 4) => {
                        for _ in 0..r.range(1, 4) {
                            v.push(any_req(r, &loaded));
                        }
                        Talk::Http(v)
                    }
                    t => t,
                };
                let mut c = client(r, 0, spread, talk);
                if r.chance(1, 8) {
                    c.read = slow_read(r);
                }
                if r.chance(1, 8) {
                    c.cut = Some(gen_cut(r, &c, false));
                }
                cs.push(c);
            }
            // the same query twice, to be answered alike
            if cs.len() > 1 && r.chance(1, 3) {
                let k = r.below(cs.len());
                let mut c = cs[k].clone();
                c.delay = r.loguniform(spread);
                c.cut = None;
                cs.push(c);
            }
        }
        _ => {
            for _ in 0..r.range(1, 5) {
                let names: Vec<&String> = loaded.keys().collect();
                let mut reqs = vec![match r.below(8) {
                    0 => Req::Js,
                    1 => Req::Metrics,
                    2 => Req::List(r.pick(&["nosuch", "Default", "default.txt", "x y", "default\u{0}"]).to_string()),
                    _ if big && r.chance(2, 3) => Req::List("big".into()),
                    _ => Req::List(r.pick(&names).to_string()),
                }];
                if r.chance(1, 4) {
                    reqs.push(Req::List(r.pick(&names).to_string()));
                }
                let mut c = client(r, 0, spread, Talk::Http(reqs));
                if r.chance(1, 2) {
                    c.read = match slow_read(r) {
                        Read::Slow(n, d) if big => Read::Slow(n * 20, d),
                        x => x,
                    };
                }
                if r.chance(1, 10) {
                    c.cut = Some(gen_cut(r, &c, false));
                }
                cs.push(c);
            }
            if !big && r.chance(1, 3) {
                let q = gen_small(r, &loaded, true);
                cs.push(client(r, 0, spread, Talk::Http(vec![Req::Get(q)])));
            }
        }
    }
    for c in cs.iter_mut() {
        if let Talk::Http(rs) = &mut c.talk {
            for x in rs.iter_mut() {
                if let Req::Get(q) = x {
                    if q.text().is_empty() {
                        // would be the index page
                        *x = Req::Post(q.clone());
                    }
                }
            }
        }
    }
    Scn { prop: prop.into(), knobs, lists, extra_entries: r.chance(1, 4), settle, clients: cs }
}

// ------------------------------------------------------------------------------ minimisation

pub fn talk_shrinks(t: &Talk) -> Vec<Talk> {
    let qs = |q: &Q| -> Vec<Q> {
        let mut v = vec![];
        if q.kind == QKind::Bad {
            return v;
        }
        for i in 0..q.body.len() {
            if q.body.len() > 1 && q.kind != QKind::Slow {
                let mut n = q.clone();
                n.body.remove(i);
                if n.model.len() == q.body.len() {
                    n.model.remove(i);
                } else {
                    n.model.clear();
                }
                if QueryAst::new_from_str(&n.text()).is_ok() {
                    v.push(n);
                }
            }
        }
        for i in 0..q.opts.len() {
            if matches!(q.opts[i], Opt::Words(..)) && q.kind == QKind::Small {
                continue;
            }
            let mut n = q.clone();
            n.opts.remove(i);
            v.push(n);
        }
        if let (Some(o), true) = (&q.own, q.kind == QKind::Small) {
            if o.len() > 1 {
                for (a, b) in [(0, o.len() / 2), (o.len() / 2, o.len())] {
                    let mut n = q.clone();
                    n.own = Some(o[a..b].to_vec());
                    v.push(n);
                }
                if o.len() < 8 {
                    for i in 0..o.len() {
                        let mut n = q.clone();
                        n.own.as_mut().unwrap().remove(i);
                        v.push(n);
                    }
                }
            }
        }
        if q.semi {
            let mut n = q.clone();
            n.semi = false;
            v.push(n);
        }
        if q.kind == QKind::Junk && q.body[0].chars().count() > 1 {
            let c: Vec<char> = q.body[0].chars().collect();
            let h = c.len() / 2;
            for x in [&c[..h], &c[h..], &c[1..], &c[..c.len() - 1]] {
                let mut n = q.clone();
                n.body[0] = x.iter().collect();
                v.push(n);
            }
        }
        v
    };
    let mut out = vec![];
    match t {
        Talk::Http(rs) => {
            for i in 0..rs.len() {
                if rs.len() > 1 {
                    let mut n = rs.clone();
                    n.remove(i);
                    out.push(Talk::Http(n));
                }
                if let Some(q) = rs[i].query() {
                    for x in qs(q) {
                        let mut n = rs.clone();
                        n[i] = if matches!(rs[i], Req::Get(_)) { Req::Get(x) } else { Req::Post(x) };
                        out.push(Talk::Http(n));
                    }
                }
            }
        }
        Talk::Ws(w) => {
            let mut add = |f: &dyn Fn(&mut Ws)| {
                let mut n = w.clone();
                f(&mut n);
                if n != *w {
                    out.push(Talk::Ws(n));
                }
            };
            add(&|n| n.pre.clear());
            add(&|n| n.frag.clear());
            add(&|n| n.midping = false);
            add(&|n| n.pings.clear());
            add(&|n| n.chat.clear());
            if w.pings.len() > 8 {
                add(&|n| n.pings.truncate(w.pings.len() / 2));
                add(&|n| n.pings.truncate(w.pings.len() * 9 / 10));
            }
            for i in 0..w.pings.len().min(8) {
                add(&|n| {
                    n.pings.remove(i);
                });
            }
            add(&|n| n.mask &= 1);
            for x in qs(&w.q) {
                let mut n = w.clone();
                n.q = x;
                out.push(Talk::Ws(n));
            }
        }
        Talk::Junk(v) => {
            for i in 0..v.len() {
                if v.len() > 1 {
                    let mut n = v.clone();
                    n.remove(i);
                    out.push(Talk::Junk(n));
                }
                let l = v[i].1.len() / 2;
                if l > 1 {
                    let mut n = v.clone();
                    n[i].1.truncate(l / 2 * 2);
                    out.push(Talk::Junk(n));
                }
            }
        }
    }
    out
}

pub fn shrinks(s: &Scn) -> Vec<Scn> {
    let mut out = vec![];
    for i in 0..s.clients.len() {
        if s.clients.len() > 1 {
            let mut n = s.clone();
            n.clients.remove(i);
            out.push(n);
        }
    }
    let mut knob = |f: &dyn Fn(&mut Knobs)| {
        let mut n = s.clone();
        f(&mut n.knobs);
        if n != *s {
            out.push(n);
        }
    };
    knob(&|k| k.stall = (0, 1, 1));
    knob(&|k| k.jump = (0, 1, 1));
    knob(&|k| k.rtstep = (0, 1, 1));
    knob(&|k| k.spurious = (0, 1));
    knob(&|k| k.acceptfail = (0, 1));
    knob(&|k| k.rshort = (0, 1));
    knob(&|k| k.reintr = (0, 1));
    knob(&|k| k.shuffle = false);
    knob(&|k| k.logfail = None);
    knob(&|k| k.sndcap = 65536);
    knob(&|k| k.lat = (1000, 1000));
    knob(&|k| k.switch = (1, 8));
    knob(&|k| k.seed = 1);
    if s.extra_entries {
        let mut n = s.clone();
        n.extra_entries = false;
        out.push(n);
    }
    for i in 0..s.clients.len() {
        let c = &s.clients[i];
        let mut put = |f: &dyn Fn(&mut Cl)| {
            let mut n = s.clone();
            f(&mut n.clients[i]);
            if n != *s {
                out.push(n);
            }
        };
        put(&|c| {
            c.seg = 0;
            c.gap = 0
        });
        put(&|c| c.read = Read::Fast);
        put(&|c| c.delay = 0);
        if c.cut.is_some() && s.prop != "W04" && !matches!(c.talk, Talk::Junk(_)) {
            put(&|c| c.cut = None);
        }
        if let Some((at, how)) = c.cut {
            if how != Cut::Close {
                put(&|c| c.cut = Some((at, Cut::Close)));
            }
            match at {
                At::Msgs(n) if n > 0 => {
                    put(&|c| c.cut = Some((At::Msgs(0), how)));
                    put(&|c| c.cut = Some((At::Msgs(n / 2), how)));
                }
                At::Recv(n) if n > 0 => {
                    put(&|c| c.cut = Some((At::Recv(n / 2), how)));
                }
                _ => {}
            }
        }
        for t in talk_shrinks(&c.talk) {
            let mut n = s.clone();
            n.clients[i].talk = t;
            out.push(n);
        }
    }
    for i in 0..s.lists.len() {
        if s.lists.len() > 1 && s.lists[i].name() != "default" {
            let mut n = s.clone();
            n.lists.remove(i);
            out.push(n);
        }
        let l = s.lists[i].lines.len();
        let mut put = |f: &dyn Fn(&mut ListFile)| {
            let mut n = s.clone();
            f(&mut n.lists[i]);
            if n != *s {
                out.push(n);
            }
        };
        if l > 0 && s.lists[i].name() != "slow" {
            put(&|f| f.lines.clear());
            put(&|f| f.lines.truncate(l / 2));
            put(&|f| {
                f.lines.drain(..l / 2);
            });
            if l <= 12 {
                for k in 0..l {
                    put(&|f| {
                        f.lines.remove(k);
                    });
                }
            }
        }
        if s.lists[i].crlf {
            put(&|f| f.crlf = false);
        }
        if s.lists[i].zst {
            put(&|f| {
                f.zst = false;
                f.file = format!("{}.txt", f.name());
            });
        }
    }
    out
}

pub fn describe(s: &Scn) -> serde_json::Value {
    use serde_json::json;
    let cut = |t: &str| -> String { t.chars().take(200).collect() };
    let cl: Vec<_> = s
        .clients
        .iter()
        .map(|c| {
            let t = match &c.talk {
                Talk::Http(rs) => rs
                    .iter()
                    .map(|r| match r {
                        Req::Get(q) => format!("GET {:?}", cut(&q.text())),
                        Req::Post(q) => format!("POST {:?}", cut(&q.text())),
                        r => format!("{:?}", r),
                    })
                    .collect::<Vec<_>>()
                    .join(", "),
                Talk::Ws(w) => format!("WS {:?} pre {:?} fragments {:?} pings {:?}", cut(&w.q.text()), w.pre, w.frag, if w.pings.len() > 8 { format!("{} times {:?}", w.pings.len(), w.pings[0]) } else { format!("{:?}", w.pings) } + &if w.chat.is_empty() { String::new() } else { format!(" opcodes {:?}", w.chat) }),
                Talk::Junk(v) => format!("junk {:?}", v.iter().map(|x| String::from_utf8_lossy(&crate::sim::unhex(&x.1)).chars().take(80).collect::<String>()).collect::<Vec<_>>()),
            };
            format!("phase {} +{} ns: {}; segments {}/{} ns; {:?}; end {:?}", c.phase, c.delay, t, c.seg, c.gap, c.read, c.cut)
        })
        .collect();
    let lists: Vec<_> = s.lists.iter().map(|l| format!("{}: {} lines {:?}", l.file, l.lines.len(), l.lines.iter().take(12).collect::<Vec<_>>())).collect();
    json!({"clients": cl, "lists": lists, "knobs": s.knobs, "idle_after_phase_ns": s.settle})
}
