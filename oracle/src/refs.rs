//! Independent references: written from the YAML 1.2 specification and the library's documentation,
//! not from its code.

pub fn is_break(c: u8) -> bool { c == b'\n' || c == b'\r' }

/// (line, column) of byte offset `pos`, both from 1; columns count bytes; CR LF is one break.
pub fn line_col(d: &[u8], pos: usize) -> (usize, usize) {
    let (mut line, mut col) = (1, 1);
    for i in 0..pos.min(d.len()) {
        if d[i] == b'\n' || (d[i] == b'\r' && d.get(i + 1) != Some(&b'\n')) {
            line += 1;
            col = 1;
        } else {
            col += 1;
        }
    }
    (line, col)
}

#[derive(Debug, Clone, PartialEq)]
pub enum Core { Null, Bool(bool), Int(i64), Float(f64), Str }

fn digits(s: &[u8]) -> usize { s.iter().take_while(|c| c.is_ascii_digit()).count() }

/// `[-+]? ( \. [0-9]+ | [0-9]+ ( \. [0-9]* )? ) ( [eE] [-+]? [0-9]+ )?`
fn is_float(s: &str) -> bool {
    let mut b = s.as_bytes();
    if let Some(b'+' | b'-') = b.first() { b = &b[1..]; }
    let n = digits(b);
    b = &b[n..];
    if n > 0 {
        if b.first() == Some(&b'.') { b = &b[1..]; b = &b[digits(b)..]; }
    } else {
        if b.first() != Some(&b'.') { return false; }
        b = &b[1..];
        let m = digits(b);
        if m == 0 { return false; }
        b = &b[m..];
    }
    if let Some(b'e' | b'E') = b.first() {
        b = &b[1..];
        if let Some(b'+' | b'-') = b.first() { b = &b[1..]; }
        let m = digits(b);
        if m == 0 { return false; }
        b = &b[m..];
    }
    b.is_empty()
}

fn int_value(neg: bool, ds: &[u8], radix: i128) -> Option<i64> {
    if ds.is_empty() { return None; }
    let mut v: i128 = 0;
    for &c in ds {
        let d = (c as char).to_digit(radix as u32)? as i128;
        v = v * radix + d;
        if v > (1i128 << 70) { v = 1i128 << 70; }
    }
    if neg { v = -v; }
    i64::try_from(v).ok()
}

pub fn float_of(s: &str) -> Option<f64> {
    match s {
        ".inf" | ".Inf" | ".INF" | "+.inf" | "+.Inf" | "+.INF" => Some(f64::INFINITY),
        "-.inf" | "-.Inf" | "-.INF" => Some(f64::NEG_INFINITY),
        ".nan" | ".NaN" | ".NAN" => Some(f64::NAN),
        _ if is_float(s) => Some(s.parse().expect("a float of the core schema")),
        _ => None,
    }
}

/// YAML 1.2 core schema (10.3.2)
pub fn core(s: &str) -> Core {
    match s {
        "" | "~" | "null" | "Null" | "NULL" => return Core::Null,
        "true" | "True" | "TRUE" => return Core::Bool(true),
        "false" | "False" | "FALSE" => return Core::Bool(false),
        _ => {}
    }
    let b = s.as_bytes();
    let i = if let Some(h) = s.strip_prefix("0x") {
        if h.bytes().all(|c| c.is_ascii_hexdigit()) { int_value(false, h.as_bytes(), 16) } else { None }
    } else if let Some(o) = s.strip_prefix("0o") {
        if o.bytes().all(|c| (b'0'..=b'7').contains(&c)) { int_value(false, o.as_bytes(), 8) } else { None }
    } else {
        let (neg, ds) = match b.first() { Some(b'-') => (true, &b[1..]), Some(b'+') => (false, &b[1..]), _ => (false, b) };
        if !ds.is_empty() && ds.iter().all(u8::is_ascii_digit) { int_value(neg, ds, 10) } else { None }
    };
    if let Some(i) = i { return Core::Int(i); }
    if let Some(f) = float_of(s) { return Core::Float(f); }
    Core::Str
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chomp { Strip, Clip, Keep }

/// content of a block scalar whose lines (indentation removed) are `lines`
pub fn block_value(lines: &[String], folded: bool, chomp: Chomp) -> String {
    let mut last = lines.len();
    while last > 0 && lines[last - 1].is_empty() { last -= 1; }
    let trailing = lines.len() - last;
    let mut out = String::new();
    if last == 0 {
        if chomp == Chomp::Keep { for _ in 0..trailing { out.push('\n'); } }
        return out;
    }
    let mut i = 0;
    while lines[i].is_empty() { out.push('\n'); i += 1; }
    let spaced = |s: &String| s.starts_with(' ') || s.starts_with('\t');
    out.push_str(&lines[i]);
    let mut prev = i;
    i += 1;
    while i < last {
        let mut m = 0;
        while lines[i].is_empty() { m += 1; i += 1; }
        if !folded || spaced(&lines[prev]) || spaced(&lines[i]) {
            for _ in 0..=m { out.push('\n'); }
        } else if m == 0 {
            out.push(' ');
        } else {
            for _ in 0..m { out.push('\n'); }
        }
        out.push_str(&lines[i]);
        prev = i;
        i += 1;
    }
    match chomp {
        Chomp::Strip => {}
        Chomp::Clip => out.push('\n'),
        Chomp::Keep => for _ in 0..=trailing { out.push('\n'); },
    }
    out
}

/// content between the quotes of a single quoted scalar (line folding 7.5, `''` 7.3.2)
pub fn single_quoted(src: &str) -> String { fold_flow(src, false).expect("single quoted never fails").replace("''", "'") }

pub fn double_quoted(src: &str) -> Result<String, ()> { fold_flow(src, true) }

/// plain multi-line content
pub fn plain(src: &str) -> String { fold_flow(src, false).expect("plain never fails") }

fn split_lines(src: &str) -> Vec<&str> {
    let b = src.as_bytes();
    let mut v = Vec::new();
    let (mut s, mut i) = (0, 0);
    while i < b.len() {
        if b[i] == b'\r' && b.get(i + 1) == Some(&b'\n') { v.push(&src[s..i]); i += 2; s = i; }
        else if is_break(b[i]) { v.push(&src[s..i]); i += 1; s = i; }
        else { i += 1; }
    }
    v.push(&src[s..]);
    v
}

/// flow line folding; with `esc`, double-quoted escapes as well
fn fold_flow(src: &str, esc: bool) -> Result<String, ()> {
    let ls = split_lines(src);
    let ws: &[char] = &[' ', '\t'];
    let n = ls.len();
    let mut out = String::new();
    let mut pending: usize = 0; // breaks since the last content
    let mut escaped_break = false;
    for (k, l) in ls.iter().enumerate() {
        let mut t: &str = l;
        if k > 0 { t = t.trim_start_matches(ws); }
        let mut this_escaped = false;
        if k + 1 < n {
            if esc && ends_with_escape(t) {
                t = &t[..t.len() - 1];
                this_escaped = true;
            } else if esc {
                t = trim_end_keep_escape(t);
            } else {
                t = t.trim_end_matches(ws);
            }
        }
        let blank = t.is_empty() && !this_escaped;
        if k > 0 && !(blank && k + 1 < n) {
            // `pending` line breaks precede this line
            if escaped_break { for _ in 1..pending { out.push('\n'); } }
            else if pending == 1 { out.push(' '); }
            else { for _ in 1..pending { out.push('\n'); } }
            pending = 0;
            escaped_break = false;
        }
        if esc { unescape_line(t, &mut out)?; } else { out.push_str(t); }
        pending += 1;
        if this_escaped { escaped_break = true; }
    }
    Ok(out)
}

fn ends_with_escape(t: &str) -> bool { t.bytes().rev().take_while(|&c| c == b'\\').count() % 2 == 1 }
/// trailing white space is dropped, unless it is escaped
fn trim_end_keep_escape(t: &str) -> &str {
    let k = t.trim_end_matches([' ', '\t']);
    if k.len() < t.len() && ends_with_escape(k) { &t[..k.len() + 1] } else { k }
}

fn unescape_line(t: &str, out: &mut String) -> Result<(), ()> {
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] != '\\' { out.push(cs[i]); i += 1; continue; }
        i += 1;
        let c = *cs.get(i).ok_or(())?;
        i += 1;
        let n = match c {
            '0' => { out.push('\0'); 0 }
            'a' => { out.push('\x07'); 0 }
            'b' => { out.push('\x08'); 0 }
            't' | '\t' => { out.push('\t'); 0 }
            'n' => { out.push('\n'); 0 }
            'v' => { out.push('\x0b'); 0 }
            'f' => { out.push('\x0c'); 0 }
            'r' => { out.push('\r'); 0 }
            'e' => { out.push('\x1b'); 0 }
            ' ' | '"' | '/' | '\\' => { out.push(c); 0 }
            'N' => { out.push('\u{85}'); 0 }
            '_' => { out.push('\u{a0}'); 0 }
            'L' => { out.push('\u{2028}'); 0 }
            'P' => { out.push('\u{2029}'); 0 }
            'x' => 2,
            'u' => 4,
            'U' => 8,
            _ => return Err(()),
        };
        if n > 0 {
            let mut v: u32 = 0;
            for _ in 0..n {
                let h = cs.get(i).and_then(|c| c.to_digit(16)).ok_or(())?;
                v = v.checked_mul(16).and_then(|v| v.checked_add(h)).ok_or(())?;
                i += 1;
            }
            out.push(char::from_u32(v).ok_or(())?);
        }
    }
    Ok(())
}

/// `%XX` escapes of a tag
pub fn uri_decode(src: &str) -> Result<String, ()> {
    let b = src.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = |k: usize| b.get(k).and_then(|c| (*c as char).to_digit(16)).ok_or(());
            out.push((h(i + 1)? * 16 + h(i + 2)?) as u8);
            i += 3;
        } else { out.push(b[i]); i += 1; }
    }
    String::from_utf8(out).map_err(|_| ())
}
