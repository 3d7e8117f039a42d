//! Loads one word list with noodle::load_wordlist and prints what it got.
use std::io::Write;
fn main() {
    let path = std::env::args().nth(1).unwrap();
    match noodle::load_wordlist(&path) {
        Ok(words) => {
            let mut s = String::from("\n===\n");
            for w in &words {
                s.push_str(&format!("{}\t{}\t{}\n", w.tranche, w.score, w.text));
            }
            s.push_str("=== end\n");
            let mut o = std::io::stdout();
            if o.write_all(s.as_bytes()).and_then(|_| o.flush()).is_err() {
                std::process::exit(4);
            }
        }
        Err(_) => std::process::exit(3),
    }
}
