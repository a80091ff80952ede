//! A dictionary for the generators: the numbers and short texts that occur in the sources
//! under test, besides powers of two. It only steers what is generated (sizes, counts,
//! weights, letters, names); nothing is concluded from it.
use proptest::prelude::*;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

pub struct Dict { pub numbers: Vec<u64>, pub texts: Vec<String> }
fn sources(dir: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
        if m.is_dir() { sources(&p, out) } else if m.is_file() && m.len() < 1 << 20 && p.extension().is_some_and(|x| x == "rs" || x == "yml") { out.push(p) }
    }
}
/// Numbers as Rust spells them, also shifted (`1 << 20`) and multiplied (`4 * 1024`).
fn numbers(text: &str, out: &mut BTreeSet<u64>) {
    let b = text.as_bytes();
    let mut i = 0;
    let mut last: Option<(u64, usize)> = None;
    while i < b.len() {
        let starts = b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_'));
        if !starts { i += 1; continue; }
        let s = i;
        while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1 }
        let w: String = text[s..i].chars().filter(|c| *c != '_').collect::<String>().to_lowercase();
        let (digits, radix) = match w.get(..2) { Some("0x") => (&w[2..], 16), Some("0b") => (&w[2..], 2), Some("0o") => (&w[2..], 8), _ => (&w[..], 10) };
        let end = digits.find(|c: char| !c.is_digit(radix)).unwrap_or(digits.len());
        let end = match digits.find(['u', 'i']) { Some(k) => end.min(k), None => end };
        let Ok(n) = u64::from_str_radix(&digits[..end], radix) else { continue };
        if let Some((p, e)) = last {
            match text[e..s].trim() {
                "<<" if n < 64 => { out.insert(p << n); }
                "*" => { out.insert(p.saturating_mul(n)); }
                _ => {}
            }
        }
        last = Some((n, i));
        out.insert(n);
    }
}
fn texts(text: &str, out: &mut BTreeSet<String>) {
    for line in text.lines() {
        let mut parts = line.split(['"', '\'']);
        while let (Some(_), Some(t)) = (parts.next(), parts.next()) {
            if (1..=16).contains(&t.len()) && t.bytes().all(|c| c.is_ascii_graphic() && !b"{}\\/%".contains(&c)) { out.insert(t.to_string()); }
        }
    }
}
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let root = std::env::var_os("VERIF_REPO").map(PathBuf::from).unwrap_or_else(|| "/repo".into());
        let mut files = vec![];
        for d in ["huff_coding/src", "huff/src", "huff/res"] { sources(&root.join(d), &mut files) }
        files.sort();
        let (mut n, mut t) = (BTreeSet::new(), BTreeSet::new());
        for f in files {
            let Ok(s) = std::fs::read(&f) else { continue };
            let s = String::from_utf8_lossy(&s);
            // without the comments
            let code: String = s.lines().filter(|l| !l.trim_start().starts_with("//")).collect::<Vec<_>>().join("\n");
            numbers(&code, &mut n);
            texts(&code, &mut t);
        }
        // small numbers are generated anyway
        n.retain(|x| *x > 8);
        Dict { numbers: n.into_iter().collect(), texts: t.into_iter().collect() }
    })
}
/// A number from the dictionary (more often) or a power of two, or near one, within `1..=max`.
pub fn magic(max: u64) -> impl Strategy<Value = u64> + Clone {
    let own: Vec<u64> = dict().numbers.iter().copied().filter(|n| *n <= max).collect();
    let pow: Vec<u64> = (3..64).map(|k| 1u64 << k).filter(|n| *n <= max).collect();
    let own = if own.is_empty() { vec![max.min(9)] } else { own };
    let pow = if pow.is_empty() { vec![max.min(8)] } else { pow };
    let near = prop_oneof![3 => Just(0i64), 2 => Just(1), 2 => Just(-1), 1 => -9i64..=9];
    let times = prop_oneof![6 => Just((1u64, 1u64)), 1 => Just((2, 1)), 1 => Just((1, 2)), 1 => Just((3, 1)), 1 => Just((1, 8)), 1 => Just((8, 1))];
    (prop_oneof![3 => prop::sample::select(own), 2 => prop::sample::select(pow)], near, times)
        .prop_map(move |(n, d, (a, b))| { let x = n / b; let x = if x > max / a { n } else { x * a }; x.saturating_add_signed(d).clamp(1, max) })
}
/// A text from the sources.
pub fn word() -> impl Strategy<Value = String> + Clone {
    let w = if dict().texts.is_empty() { vec!["x".to_string()] } else { dict().texts.clone() };
    prop::sample::select(w)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn literals() {
        let mut n = BTreeSet::new();
        numbers("let a = 1_000u32 + 0xFf; b[4 * 1024] << 2; 1 << 20 x17 0b1010_u8 1usize 0..77 b >> 4", &mut n);
        for x in [1000, 255, 4, 1024, 4096, 1 << 20, 10, 1, 77] { assert!(n.contains(&x), "{x} {n:?}"); }
        assert!(!n.contains(&17));
    }
}
