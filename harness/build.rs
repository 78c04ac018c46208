//! Dictionary for the generators: the literals of the code under test. A
//! condition such as `n == 300` or `name == "x"` is next to impossible to meet
//! by chance, and common once the generators know its literals. They only
//! guide the search: no oracle looks at them, and without any the checks work
//! all the same.

use std::collections::BTreeSet;
use std::fmt::Write;
use std::path::{Path, PathBuf};

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=Cargo.toml");
    // in the order of the text: what is tested together stands together
    let mut ints = vec![];
    let mut strs = BTreeSet::new();
    if let Some(dir) = sources() {
        println!("cargo:rerun-if-changed={}", dir.display());
        let mut files = vec![];
        walk(&dir, &mut files);
        for f in files {
            if let Ok(t) = std::fs::read(&f) {
                let t = String::from_utf8_lossy(&t).into_owned();
                let end = ["#[test]", "#[cfg(test)]"].iter().filter_map(|m| t.find(m)).min().unwrap_or(t.len());
                literals(&t.as_bytes()[..end], &mut ints, &mut strs);
            }
        }
    }
    let near: BTreeSet<u32> =
        ints.iter().flat_map(|v: &u32| [v.saturating_sub(1), *v, v.saturating_add(1)]).filter(|v| *v > 8).collect();
    let mut out = String::new();
    writeln!(out, "pub static INTS: &[u32] = &{:?};", near.iter().collect::<Vec<_>>()).unwrap();
    ints.retain(|v| *v > 1);
    ints.dedup();
    writeln!(out, "pub static TEXT: &[u32] = &{ints:?};").unwrap();
    writeln!(out, "pub static STRS: &[&str] = &{:?};", strs.iter().collect::<Vec<&String>>()).unwrap();
    let to = PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("dict.rs");
    std::fs::write(to, out).unwrap();
}

/// The sources of the path dependency.
fn sources() -> Option<PathBuf> {
    let t = std::fs::read_to_string("Cargo.toml").ok()?;
    let line = t.lines().find(|l| l.starts_with("aseprite-loader"))?;
    let path = line.split("path = \"").nth(1)?.split('"').next()?;
    Some(Path::new(path).join("src"))
}

fn walk(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut all: Vec<PathBuf> =
        std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    all.sort();
    for p in all {
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.push(p);
        }
    }
}

fn literals(t: &[u8], ints: &mut Vec<u32>, strs: &mut BTreeSet<String>) {
    let at = |i: usize| t.get(i).copied().unwrap_or(0);
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut i = 0;
    // the value on the left of a shift
    let mut last: Option<u32> = None;
    let mut shift = false;
    while i < t.len() {
        match at(i) {
            b'/' if at(i + 1) == b'/' => {
                while i < t.len() && at(i) != b'\n' {
                    i += 1;
                }
            }
            b'/' if at(i + 1) == b'*' => {
                i += 2;
                while i < t.len() && !(at(i) == b'*' && at(i + 1) == b'/') {
                    i += 1;
                }
                i += 2;
            }
            b'"' => {
                let mut v = vec![];
                i += 1;
                while i < t.len() && at(i) != b'"' {
                    if at(i) == b'\\' {
                        i += 1;
                        match at(i) {
                            b'n' => v.push(b'\n'),
                            b't' => v.push(b'\t'),
                            b'0' => v.push(0),
                            c @ (b'\\' | b'"' | b'\'') => v.push(c),
                            b'x' => {
                                let h = std::str::from_utf8(&t[i + 1..(i + 3).min(t.len())]).unwrap_or("");
                                v.push(u8::from_str_radix(h, 16).unwrap_or(b'?'));
                                i += 2;
                            }
                            _ => v.push(b'?'),
                        }
                    } else {
                        v.push(at(i));
                    }
                    i += 1;
                }
                i += 1;
                // formats and messages are of no use
                if let Ok(s) = String::from_utf8(v) {
                    if !s.is_empty() && s.len() <= 24 && !s.contains('{') {
                        strs.insert(s);
                    }
                }
            }
            // a character, or a lifetime
            b'\'' => {
                if at(i + 1) == b'\\' {
                    i += 2;
                    while i < t.len() && at(i) != b'\'' {
                        i += 1;
                    }
                    i += 1;
                } else {
                    let n = (2..6).find(|n| at(i + n) == b'\'' && !(*n > 2 && at(i + 1) < 0x80));
                    if let Some(n) = n {
                        if let Ok(s) = std::str::from_utf8(&t[i + 1..i + n]) {
                            strs.insert(s.to_string());
                            if n == 2 {
                                ints.push(at(i + 1).into());
                            }
                        }
                        i += n + 1;
                    } else {
                        i += 1;
                    }
                }
            }
            c if c.is_ascii_digit() => {
                let from = i;
                while word(at(i)) {
                    i += 1;
                }
                let w: String = t[from..i].iter().map(|c| char::from(*c)).filter(|c| *c != '_').collect();
                // fractions
                if at(i) == b'.' && at(i + 1).is_ascii_digit() {
                    i += 1;
                    while word(at(i)) {
                        i += 1;
                    }
                }
                let (radix, rest) = match w.get(..2) {
                    Some("0x") => (16, &w[2..]),
                    Some("0b") => (2, &w[2..]),
                    Some("0o") => (8, &w[2..]),
                    _ => (10, &w[..]),
                };
                let n = rest.find(|c: char| !c.is_digit(radix)).unwrap_or(rest.len());
                let v = u64::from_str_radix(&rest[..n], radix).ok().and_then(|v| u32::try_from(v).ok());
                if let Some(v) = v {
                    ints.push(v);
                    if let (true, Some(l)) = (shift, last) {
                        if v < 32 && u64::from(l) << v <= u32::MAX.into() {
                            ints.push(l << v);
                        }
                    }
                }
                last = v;
                shift = false;
            }
            c if word(c) => {
                while word(at(i)) {
                    i += 1;
                }
                last = None;
                shift = false;
            }
            b'<' if at(i + 1) == b'<' => {
                shift = last.is_some();
                i += 2;
            }
            b' ' => i += 1,
            _ => {
                last = None;
                shift = false;
                i += 1;
            }
        }
    }
}
