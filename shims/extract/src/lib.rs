//! Mechanical extraction for build scripts: splits a Rust source file into its top-level items and
//! writes out those that are not dropped, token for token. Used where a file also holds items whose
//! dependencies are not available here. Every area names what it drops.
use std::{fs, path::Path};

pub struct Item {
    /// Attributes, comments and the item itself.
    pub text: String,
    /// The item from its first keyword up to its body, white space normalised.
    pub head: String,
}

/// End of the string, char, comment or other token starting at `i`.
fn token_end(s: &[u8], i: usize) -> usize {
    let n = s.len();
    let at = |k: usize| if k < n { s[k] } else { 0 };
    match s[i] {
        b'/' if at(i + 1) == b'/' => {
            let mut k = i;
            while k < n && s[k] != b'\n' {
                k += 1;
            }
            k
        }
        b'/' if at(i + 1) == b'*' => {
            let (mut k, mut d) = (i + 2, 1);
            while k < n && d > 0 {
                if s[k] == b'/' && at(k + 1) == b'*' {
                    d += 1;
                    k += 2;
                } else if s[k] == b'*' && at(k + 1) == b'/' {
                    d -= 1;
                    k += 2;
                } else {
                    k += 1;
                }
            }
            k
        }
        b'"' => {
            let mut k = i + 1;
            while k < n && s[k] != b'"' {
                k += if s[k] == b'\\' { 2 } else { 1 };
            }
            k + 1
        }
        b'r' if (at(i + 1) == b'"' || at(i + 1) == b'#') && (i == 0 || !(s[i - 1].is_ascii_alphanumeric() || s[i - 1] == b'_')) => {
            let mut h = 0;
            while at(i + 1 + h) == b'#' {
                h += 1;
            }
            if at(i + 1 + h) != b'"' {
                return i + 1;
            }
            let mut k = i + 2 + h;
            loop {
                if k >= n {
                    return n;
                }
                if s[k] == b'"' && (0..h).all(|j| at(k + 1 + j) == b'#') {
                    return k + 1 + h;
                }
                k += 1;
            }
        }
        b'\'' => {
            if at(i + 1) == b'\\' {
                let mut k = i + 3;
                while k < n && s[k] != b'\'' {
                    k += 1;
                }
                k + 1
            } else {
                // a char literal closes right after one character, otherwise this is a lifetime
                let mut k = i + 2;
                while k < n && (s[k] & 0xc0) == 0x80 {
                    k += 1;
                }
                if at(k) == b'\'' {
                    k + 1
                } else {
                    i + 1
                }
            }
        }
        _ => i + 1,
    }
}

pub fn items(src: &str) -> Vec<Item> {
    let s = src.as_bytes();
    let (mut out, mut i, mut start) = (Vec::new(), 0, 0);
    let mut head_at = None;
    let mut body_at = None;
    let mut depth = 0usize;
    let mut attr = false;
    let mut is_use = false;
    while i < s.len() {
        let e = token_end(s, i);
        let c = s[i];
        let comment = c == b'/' && i + 1 < s.len() && (s[i + 1] == b'/' || s[i + 1] == b'*');
        if comment || c.is_ascii_whitespace() {
            i = e;
            continue;
        }
        if depth == 0 && head_at.is_none() && c == b'#' {
            attr = true;
            i = e;
            continue;
        }
        if depth == 0 && head_at.is_none() && !attr && c != b'!' {
            head_at = Some(i);
            let r = &src[i..];
            is_use = r.starts_with("use ") || r.starts_with("pub use ") || r.starts_with("pub(crate) use ");
        }
        match c {
            b'(' | b'[' | b'{' if e == i + 1 => {
                if depth == 0 && c == b'{' && !attr {
                    body_at = Some(i);
                }
                depth += 1;
            }
            b')' | b']' | b'}' if e == i + 1 => {
                depth -= 1;
                if depth == 0 && attr && c == b']' {
                    attr = false;
                    // inner attribute at the top of the file
                    i = e;
                    continue;
                }
                if depth == 0 && c == b'}' && head_at.is_some() && !is_use {
                    let h = head_at.unwrap();
                    // `const X: T = T { .. };` and the like go on to the semicolon
                    let before = &src[h..body_at.unwrap_or(h)];
                    let init = (before.starts_with("const ") || before.starts_with("static ") || before.starts_with("pub const ") || before.starts_with("pub static "))
                        && before.contains('=')
                        || before.starts_with("type ");
                    if !init {
                        let mut end = e;
                        if end < s.len() && s[end] == b';' {
                            end += 1;
                        }
                        out.push(mk(src, start, h, body_at.unwrap_or(e), end));
                        start = end;
                        head_at = None;
                        body_at = None;
                        i = end;
                        continue;
                    }
                }
            }
            b';' if depth == 0 => {
                let h = head_at.unwrap_or(start);
                out.push(mk(src, start, h, body_at.unwrap_or(i), e));
                start = e;
                head_at = None;
                body_at = None;
            }
            _ => {}
        }
        i = e;
    }
    out
}
fn mk(src: &str, start: usize, h: usize, b: usize, end: usize) -> Item {
    Item {
        text: src[start..end].to_string(),
        head: src[h..b].split_whitespace().collect::<Vec<_>>().join(" "),
    }
}

/// Write the items of `file` for which `keep(head, text)` holds to `$OUT_DIR/name`.
pub fn write(file: &str, name: &str, keep: impl Fn(&str, &str) -> bool) {
    write_edited(file, name, keep, |t| t)
}
/// As [`write`], with a textual edit of each kept item.
pub fn write_edited(file: &str, name: &str, keep: impl Fn(&str, &str) -> bool, edit: impl Fn(String) -> String) {
    println!("cargo:rerun-if-changed={file}");
    let src = fs::read_to_string(file).unwrap_or_else(|e| panic!("{file}: {e}"));
    let mut out = String::new();
    for it in items(&src) {
        let test = it.text.contains("#[cfg(test)]");
        if !test && keep(&it.head, &it.text) {
            out.push_str(&edit(it.text));
            out.push('\n');
        }
    }
    let dir = std::env::var("OUT_DIR").unwrap();
    fs::write(Path::new(&dir).join(name), out).unwrap();
}
/// Drop the named methods from an `impl` item; everything else of it is kept.
pub fn drop_methods(item: String, names: &[&str]) -> String {
    let Some(open) = body_start(&item) else { return item };
    let close = item.rfind('}').unwrap();
    let mut out = item[..=open].to_string();
    for m in items(&item[open + 1..close]) {
        let named = names.iter().any(|n| m.head.contains(&format!("fn {n}(")) || m.head.contains(&format!("fn {n}<")));
        if !named {
            out.push_str(&m.text);
        }
    }
    out.push_str("\n}");
    out
}
fn body_start(item: &str) -> Option<usize> {
    let s = item.as_bytes();
    let (mut i, mut d) = (0, 0i32);
    while i < s.len() {
        let e = token_end(s, i);
        match s[i] {
            b'{' if d == 0 => return Some(i),
            b'(' | b'[' if e == i + 1 => d += 1,
            b')' | b']' if e == i + 1 => d -= 1,
            _ => {}
        }
        i = e;
    }
    None
}
