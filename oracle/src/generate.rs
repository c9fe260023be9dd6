//! Documents rendered from a random structure, together with the events they denote (YAML 1.2).
use crate::refs::*;
use crate::rng::Rng;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style { Plain, Folded, Literal, Single, Double }

/// anchors are numbered in the order of their definition, from 1; 0 = none
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Doc(bool),
    DocEnd,
    Alias(usize),
    Scalar { style: Style, value: String, anchor: usize, tag: Option<(String, String)> },
    Seq(usize, Option<(String, String)>),
    SeqEnd,
    Map(usize, Option<(String, String)>),
    MapEnd,
}

/// a scalar or alias written at [start, end) of the text
#[derive(Clone, Debug)]
pub struct Place { pub ev: usize, pub start: usize, pub end: usize }

pub struct Doc {
    pub text: String,
    pub evs: Vec<Ev>,
    pub places: Vec<Place>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Focus { Any, Flow, Block, Anchors, Tags, Quoted, Escapes, Simple }

pub struct G {
    pub r: Rng,
    pub o: String,
    pub evs: Vec<Ev>,
    pub places: Vec<Place>,
    nl: &'static str,
    anchors: BTreeMap<String, usize>,
    nanchors: usize,
    open: Vec<String>,
    tags: BTreeMap<String, String>,
    budget: i32,
    focus: Focus,
}

const WORDS: &[&str] = &[
    "a", "b", "key", "foo", "bar", "true", "null", "12", "-3", "1.5", "x-y", "a:b", "a#b", "é", "日本", "😀", "under_score",
    "-a", "?x", "0x1F", "~", ".inf", "it's", "q\"q", "a&b", "a*b", "a!b", "a%b", "a@b", "v1.2.3", "http://x/y?z", "--", "...x", "<<",
    "zażółć", "a|b", "a>b", "a=b", "\u{a0}", "\u{2028}", "\u{feff}x",
];
const BLOCK_WORDS: &[&str] = &["a,b", "c[d", "e]f", "g{h", "i}j", ":x", "k,", "l]"];

/// a generated document without over-long lines (an implicit key may not exceed 1024 characters)
pub fn document(seed: u64, idx: u64, focus: Focus) -> Doc {
    let mut seed = seed;
    loop {
        let d = G::new(seed, idx, focus).stream();
        if d.text.split(['\n', '\r']).all(|l| l.len() < 1000) { return d; }
        seed = seed.wrapping_add(0x9e37);
    }
}

impl G {
    pub fn new(seed: u64, idx: u64, focus: Focus) -> G {
        let mut r = Rng::new(seed, idx);
        let nl = match r.n(10) { 0 => "\r\n", 1 => "\r", _ => "\n" };
        let budget = r.r(1, 30) as i32;
        G { r, o: String::new(), evs: vec![], places: vec![], nl, anchors: BTreeMap::new(), nanchors: 0, open: vec![], tags: BTreeMap::new(), budget, focus }
    }

    fn s(&mut self, s: &str) { self.o.push_str(s); }
    fn nl(&mut self) { let n = self.nl; self.o.push_str(n); }
    fn ind(&mut self, n: usize) { for _ in 0..n { self.o.push(' '); } }
    fn sp(&mut self) {
        // separation inside a line
        if self.o.ends_with(['?', '-', ':']) { return self.spn(); }
        match self.r.n(20) { 0 => self.s("  "), 1 => self.s("\t"), 2 => self.s(" \t"), _ => self.s(" ") }
    }
    /// separation after an indicator: spaces only (the library restricts tabs there)
    fn spn(&mut self) { match self.r.n(8) { 0 => self.s("  "), 1 => self.s("   "), _ => self.s(" ") } }
    fn comment_text(&mut self) {
        let w = self.r.pick(&["", " c", "x", " - a: b", " 'q", " \"", " é", "# #", " [", " &a *b", " %TAG", " |"]);
        self.s("#");
        self.s(w);
    }
    /// end of a line that holds something, then perhaps lines that hold nothing
    fn eol(&mut self) {
        if self.r.p(12) { self.sp(); self.comment_text(); } else if self.r.p(8) { self.sp(); }
        self.nl();
        self.extra_lines();
    }
    fn extra_lines(&mut self) {
        while self.r.p(7) {
            match self.r.n(3) {
                0 => self.nl(),
                1 => { let n = self.r.n(5); self.ind(n); self.comment_text(); self.nl(); }
                _ => { let n = self.r.n(4); self.ind(n); self.nl(); }
            }
        }
    }

    // ---------------------------------------------------------------- documents
    pub fn stream(mut self) -> Doc {
        let ndocs = match self.r.n(12) { 0 => 0, 1 | 2 => 2, 3 => 3, 4 => self.r.r(2, 5), _ => 1 };
        self.extra_lines();
        // whether a bare document or directives may follow
        let mut fresh = true;
        for d in 0..ndocs {
            self.anchors.clear();
            self.tags.clear();
            let mut explicit = !fresh || self.r.p(35);
            let tagsy = self.focus == Focus::Tags;
            if fresh && self.r.p(if tagsy { 60 } else { 15 }) {
                if self.directives() { explicit = true; }
            }
            if explicit { self.s("---"); }
            self.evs.push(Ev::Doc(explicit));
            let last = d + 1 == ndocs;
            let open_end = self.root(explicit, last);
            self.evs.push(Ev::DocEnd);
            fresh = false;
            if open_end { break; }
            if self.r.p(30) || (last && self.r.p(10)) {
                self.s("...");
                if self.r.p(20) { self.sp(); self.comment_text(); }
                self.nl();
                self.extra_lines();
                fresh = true;
            }
        }
        if self.focus == Focus::Any && self.r.p(10) && self.o.ends_with(self.nl) && !self.o.ends_with('\u{feff}') {
            // nothing: kept for symmetry of random choices
        }
        Doc { text: self.o, evs: self.evs, places: self.places }
    }

    fn directives(&mut self) -> bool {
        let mut any = false;
        if self.r.p(40) {
            let v = self.r.pick(&["1.2", "1.1", "1.3", "2.0"]);
            self.s("%YAML");
            self.sp1();
            self.s(v);
            self.eol();
            any = true;
        }
        if self.r.p(15) { self.s("%FOO bar baz"); self.nl(); any = true; }
        let n = if self.focus == Focus::Tags { self.r.n(4) } else { self.r.n(2) };
        for _ in 0..n {
            let h = self.r.pick(&["!e!", "!", "!!", "!x-1!", "!long!"]);
            if self.tags.contains_key(h) { continue; }
            let p = self.r.pick(&["tag:example.com,2000:", "!my-", "tag:yaml.org,2002:", "!", "tag:%C3%A9:"]);
            self.s("%TAG");
            self.sp1();
            self.s(h);
            self.sp1();
            self.s(p);
            self.eol();
            self.tags.insert(h.into(), uri_decode(p).unwrap());
            any = true;
        }
        any
    }
    fn sp1(&mut self) { let n = self.r.r(1, 2); self.ind(n); }

    /// returns true when nothing may follow (no final line break)
    fn root(&mut self, explicit: bool, last: bool) -> bool {
        if explicit && self.r.p(8) {
            // empty document
            self.evs.push(Ev::Scalar { style: Style::Plain, value: String::new(), anchor: 0, tag: None });
            self.eol();
            return false;
        }
        if explicit { self.node_block(-1, true, false); } else { self.node_block(-1, false, false); }
        if last && self.r.p(15) {
            // drop the final line break
            match self.evs.last() {
                Some(Ev::Scalar { style: Style::Folded | Style::Literal, .. }) | Some(Ev::SeqEnd) | Some(Ev::MapEnd) => return false,
                Some(Ev::Scalar { value, .. }) if value.is_empty() => return false,
                _ => {}
            }
            let t = self.o.trim_end_matches(['\n', '\r']).len();
            // only when the last line holds the scalar itself, not a comment or blanks
            if self.places.last().is_some_and(|p| p.end == t && p.ev + 1 == self.evs.len()) {
                self.o.truncate(t);
                return true;
            }
        }
        false
    }

    // ---------------------------------------------------------------- properties
    fn name(&mut self) -> String {
        let n = self.r.pick(&["a", "b", "c", "anchor", "é", "a-1", "a:b", "x.y", "1", "_", "日"]);
        n.to_string()
    }
    fn tag_text(&mut self) -> (String, (String, String)) {
        let mut opts: Vec<(String, (String, String))> = vec![];
        let core = self.tags.get("!!").cloned().unwrap_or("tag:yaml.org,2002:".into());
        for s in ["str", "int", "float", "bool", "null", "seq", "map", "custom"] {
            opts.push((format!("!!{s}"), (core.clone(), s.to_string())));
        }
        let loc = self.tags.get("!").cloned().unwrap_or("!".into());
        for s in ["foo", "bar-baz", "a%21b", "%C3%A9", "x:y", "z.1"] {
            opts.push((format!("!{s}"), (loc.clone(), uri_decode(s).unwrap())));
        }
        for (h, p) in self.tags.clone() {
            if h.len() > 2 {
                for s in ["t1", "a%2Cb", "%E6%97%A5"] { opts.push((format!("{h}{s}"), (p.clone(), uri_decode(s).unwrap()))); }
            }
        }
        for s in ["tag:example.com,2000:app/x", "!loc", "tag:yaml.org,2002:str", "x%C3%A9"] {
            opts.push((format!("!<{s}>"), (String::new(), uri_decode(s).unwrap())));
        }
        // the non-specific tag
        opts.push(("!".into(), (String::new(), "!".into())));
        let k = self.r.n(opts.len());
        opts.swap_remove(k)
    }
    /// properties text, anchor number, tag
    fn props(&mut self) -> (String, usize, Option<(String, String)>) {
        let (pa, pt) = match self.focus { Focus::Anchors => (40, 5), Focus::Tags => (5, 60), Focus::Simple => (0, 0), _ => (8, 8) };
        let mut parts: Vec<String> = vec![];
        let mut anchor = 0;
        let mut tag = None;
        if self.r.p(pa) {
            let n = self.name();
            self.nanchors += 1;
            anchor = self.nanchors;
            self.anchors.insert(n.clone(), anchor);
            parts.push(format!("&{n}"));
        }
        if self.r.p(pt) {
            let (t, v) = self.tag_text();
            tag = Some(v);
            parts.push(t);
        }
        if parts.len() == 2 && self.r.p(50) { parts.swap(0, 1); }
        (parts.join(if self.r.p(10) { "  " } else { " " }), anchor, tag)
    }
    fn alias(&mut self) -> Option<String> {
        if self.anchors.is_empty() { return None; }
        let p = if self.focus == Focus::Anchors { 40 } else { 15 };
        if !self.r.p(p) { return None; }
        let k = self.r.n(self.anchors.len());
        let (n, id) = self.anchors.iter().nth(k).map(|(a, b)| (a.clone(), *b)).unwrap();
        self.evs.push(Ev::Alias(id));
        Some(n)
    }
    fn push_scalar(&mut self, style: Style, value: String, anchor: usize, tag: Option<(String, String)>) {
        self.evs.push(Ev::Scalar { style, value, anchor, tag });
    }
    fn write_placed(&mut self, t: &str) {
        let start = self.o.len();
        self.s(t);
        self.places.push(Place { ev: self.evs.len() - 1, start, end: self.o.len() });
    }

    // ---------------------------------------------------------------- scalars
    fn word(&mut self, flow: bool) -> String {
        if !flow && self.r.p(12) { self.r.pick(BLOCK_WORDS).to_string() } else { self.r.pick(WORDS).to_string() }
    }
    fn plain_line(&mut self, flow: bool, first: bool) -> String {
        let mut s = String::new();
        let n = self.r.r(1, if self.focus == Focus::Quoted { 4 } else { 3 });
        for i in 0..n {
            let w = self.word(flow);
            if i > 0 {
                let sep = match self.r.n(12) { 0 => "  ", 1 => "\t", 2 => " \t ", _ => " " };
                s.push_str(sep);
            }
            s.push_str(&w);
        }
        if first {
            // a plain scalar cannot start with an indicator; `-`, `?` and `:` need a safe character after them
            let c = s.chars().next().unwrap();
            if "&*!|>'\"%@`,[]{}#".contains(c) || s.starts_with("---") || s.starts_with("...") || s.starts_with('\u{feff}') || s == "--" || s.starts_with("-- ") { s.insert(0, 'w'); }
            if s.starts_with("-") || s.starts_with("?") || s.starts_with(":") {
                let c2 = s.chars().nth(1);
                if !c2.is_some_and(|c| c.is_alphanumeric() && c != ' ') { s.insert(0, 'w'); }
            }
        } else if s.starts_with('#') || s.starts_with("---") || s.starts_with("...") {
            s.insert(0, 'w');
        }
        s
    }
    /// (source, value) of a plain scalar; continuation lines get `ind` spaces
    fn plain_src(&mut self, flow: bool, multi: bool, ind: usize) -> (String, String) {
        let mut src = self.plain_line(flow, true);
        if multi && self.r.p(if self.focus == Focus::Quoted { 50 } else { 15 }) {
            let n = self.r.r(1, 3);
            for _ in 0..n {
                if self.r.p(15) { src.push_str(self.r.pick(&[" ", "  ", "\t"])); }
                src.push_str(self.nl);
                while self.r.p(25) {
                    let k = self.r.n(3).min(ind);
                    for _ in 0..k { src.push(' '); }
                    src.push_str(self.nl);
                }
                let extra = if self.r.p(30) { self.r.n(3) } else { 0 };
                for _ in 0..ind + extra { src.push(' '); }
                let l = self.plain_line(flow, false);
                src.push_str(&l);
            }
        }
        let v = plain(&src);
        (src, v)
    }
    fn quoted_src(&mut self, dq: bool, multi: bool, ind: usize) -> (String, String) {
        loop {
            let mut src = String::new();
            let n = self.r.n(if self.focus == Focus::Quoted || self.focus == Focus::Escapes { 8 } else { 5 });
            for _ in 0..n { self.quoted_piece(dq, multi, ind, &mut src); }
            // a line of the scalar must not look like a document marker
            let bad = src.split(['\n', '\r']).skip(1).any(|l| l.starts_with("---") || l.starts_with("..."));
            if bad { continue; }
            let v = if dq { double_quoted(&src) } else { Ok(single_quoted(&src)) };
            if let Ok(v) = v { return (src, v); }
        }
    }
    fn quoted_piece(&mut self, dq: bool, multi: bool, ind: usize, src: &mut String) {
        let esc = if self.focus == Focus::Escapes { 60 } else { 20 };
        if dq && self.r.p(esc) {
            let e = self.escape(multi, ind);
            src.push_str(&e);
            return;
        }
        match self.r.n(12) {
            0 if multi => {
                if self.r.p(40) { src.push_str(self.r.pick(&[" ", "  ", "\t", " \t"])); }
                src.push_str(self.nl);
                while self.r.p(30) {
                    let k = self.r.n(4);
                    for _ in 0..k { src.push(' '); }
                    src.push_str(self.nl);
                }
                let extra = if self.r.p(30) { self.r.n(3) } else { 0 };
                for _ in 0..ind + extra { src.push(' '); }
                if self.r.p(10) { src.push('\t'); }
            }
            1 => src.push_str(self.r.pick(&[" ", "  ", "\t"])),
            2 => src.push_str(if dq { "'" } else { "''" }),
            3 => src.push_str(if dq { "\\\"" } else { "\"" }),
            4 => src.push_str(if dq { "\\\\" } else { "\\" }),
            5 => src.push_str(self.r.pick(&[": ", " #", "# ", "- ", "[", "]", "{", "}", ",", "?", ":", "%", "@", "&a", "*a", "!t", "|", ">", "---", "..."])),
            _ => { let w = self.word(false); src.push_str(&w.replace('\'', if dq { "'" } else { "''" }).replace('"', if dq { "\\\"" } else { "\"" })) }
        }
    }
    fn escape(&mut self, multi: bool, ind: usize) -> String {
        match self.r.n(10) {
            0 => { let v = self.r.n(256); format!("\\x{v:02x}") }
            1 => { let v = self.r.n(256); format!("\\x{v:02X}") }
            2 | 3 => {
                let v = match self.r.n(5) { 0 => self.r.n(0x80), 1 => self.r.n(0x800), 2 => 0xE000 + self.r.n(0x2000), 3 => self.r.pick(&[0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0xfffe, 0xfeff, 0]), _ => self.r.n(0xD800) };
                format!("\\u{v:04X}")
            }
            4 => {
                let v = match self.r.n(4) { 0 => self.r.n(0x110000), 1 => 0x10000 + self.r.n(0x1000), 2 => self.r.pick(&[0x10FFFF, 0x10000, 0xFFFF, 0x7F, 0x80, 0xE000, 0xD7FF]), _ => self.r.n(0x3000) };
                let v = if (0xD800..0xE000).contains(&v) { 0x41 } else { v };
                format!("\\U{v:08x}")
            }
            5 if multi => {
                let mut s = String::new();
                if self.r.p(40) { s.push_str(self.r.pick(&[" ", "\t", "  "])); }
                s.push('\\');
                s.push_str(self.nl);
                while self.r.p(20) { s.push_str(self.nl); }
                for _ in 0..ind { s.push(' '); }
                if self.r.p(30) { s.push_str("  "); }
                s
            }
            _ => format!("\\{}", self.r.pick(&["0", "a", "b", "t", "n", "v", "f", "r", "e", " ", "\"", "/", "\\", "N", "_", "L", "P", "\t"])),
        }
    }

    // ---------------------------------------------------------------- block nodes
    /// Right after an indicator (`sep_needed`) or at the start of a line at column 0 (document root).
    /// Ends after a line break.
    fn node_block(&mut self, parent: i32, sep_needed: bool, map_value: bool) {
        self.budget -= 1;
        let sub = (parent + 1).max(0) as usize; // least indentation of a continuation
        let ind = sub + if self.r.p(30) { self.r.n(3) } else { 0 };
        if let Some(n) = self.alias() {
            if sep_needed { self.spn(); }
            let t = format!("*{n}");
            self.write_placed(&t);
            self.eol();
            return;
        }
        let deep = self.budget > 0;
        let w: [usize; 8] = match self.focus {
            Focus::Flow => [2, 2, 10, 1, 2, 2, 1, 0],
            Focus::Block => [2, 1, 1, 12, 3, 3, 1, 0],
            Focus::Quoted | Focus::Escapes => [6, 14, 2, 0, 2, 2, 0, 0],
            Focus::Simple => [10, 2, 1, 0, 8, 8, 0, 0],
            _ => [8, 4, 4, 3, 5, 5, 2, 0],
        };
        let mut w = w;
        if !deep { w[2] = 0; w[4] = 0; w[5] = 0; if w[0] == 0 { w[0] = 1; } }
        if !sep_needed && parent < 0 { w[6] = 0; }
        let kind = self.weighted(&w);
        let (p, anchor, tag) = self.props();
        match kind {
            0 | 1 => {
                // plain or quoted, perhaps on a line of its own
                let mut started = !sep_needed;
                if sep_needed {
                    if self.r.p(5) && parent >= 0 { self.eol_no_extra(); self.ind(ind.max(1)); } else { self.spn(); }
                    started = true;
                }
                let _ = started;
                if !p.is_empty() { self.s(&p); if self.r.p(8) { self.nl(); let k = ind.max(1); self.ind(k); } else { self.sp(); } }
                let style;
                let (src, v);
                if kind == 0 {
                    (src, v) = self.plain_src(false, true, ind.max(1));
                    style = Style::Plain;
                } else {
                    let dq = self.focus == Focus::Escapes || self.r.p(55);
                    let (s0, v0) = self.quoted_src(dq, true, ind.max(1));
                    style = if dq { Style::Double } else { Style::Single };
                    let q = if dq { "\"" } else { "'" };
                    src = format!("{q}{s0}{q}");
                    v = v0;
                }
                self.push_scalar(style, v, anchor, tag);
                self.write_placed(&src);
                self.eol();
            }
            2 => {
                if sep_needed { self.spn(); }
                if !p.is_empty() { self.s(&p); self.spn(); }
                self.flow_coll(anchor, tag, ind.max(1), true);
                self.eol();
            }
            3 => {
                if sep_needed { self.spn(); }
                if !p.is_empty() { self.s(&p); self.s(" "); }
                self.block_scalar(parent, anchor, tag);
            }
            4 | 5 => {
                let seq = kind == 4;
                let entry = sep_needed && parent >= 0 && !map_value; // after "- ", "? " or an explicit ": "
                if entry && p.is_empty() && self.r.p(50) {
                    // compact form: the collection starts on this line
                    let k = self.r.r(1, 2);
                    self.ind(k);
                    let col = self.column();
                    if seq { self.block_seq(col, anchor, tag, true); } else { self.block_map(col, anchor, tag, true); }
                    return;
                }
                if sep_needed {
                    if !p.is_empty() { self.s(" "); self.s(&p); }
                    self.eol();
                } else if !p.is_empty() {
                    self.s(&p);
                    self.eol();
                }
                let col = if seq && map_value && self.r.p(30) { parent as usize } else { sub + if self.r.p(50) { self.r.n(4) } else { 0 } };
                if seq { self.block_seq(col, anchor, tag, false); } else { self.block_map(col, anchor, tag, false); }
            }
            _ => {
                // nothing, perhaps with properties
                if !p.is_empty() { self.s(" "); self.s(&p); }
                self.push_scalar(Style::Plain, String::new(), anchor, tag);
                self.eol();
            }
        }
    }
    fn eol_no_extra(&mut self) { if self.r.p(12) { self.sp(); self.comment_text(); } self.nl(); }
    fn column(&self) -> usize {
        let b = self.o.as_bytes();
        let mut i = b.len();
        while i > 0 && !is_break(b[i - 1]) { i -= 1; }
        b.len() - i
    }
    fn weighted(&mut self, w: &[usize]) -> usize {
        let t: usize = w.iter().sum();
        let mut k = self.r.n(t.max(1));
        for (i, x) in w.iter().enumerate() { if k < *x { return i; } k -= x; }
        0
    }
    fn block_seq(&mut self, col: usize, anchor: usize, tag: Option<(String, String)>, mut inline: bool) {
        self.evs.push(Ev::Seq(anchor, tag));
        let n = self.r.r(1, 4);
        for _ in 0..n {
            if !inline { self.ind(col); }
            inline = false;
            self.s("-");
            self.node_block(col as i32, true, false);
        }
        self.evs.push(Ev::SeqEnd);
    }
    fn block_map(&mut self, col: usize, anchor: usize, tag: Option<(String, String)>, mut inline: bool) {
        self.evs.push(Ev::Map(anchor, tag));
        let n = self.r.r(1, 4);
        let mut open_key = false; // an explicit key without a value came just before
        for _ in 0..n {
            if !inline { self.ind(col); }
            inline = false;
            if self.r.p(12) || open_key {
                self.s("?");
                self.node_block(col as i32, true, false);
                if self.r.p(75) {
                    self.ind(col);
                    self.s(":");
                    self.node_block(col as i32, true, false);
                    open_key = false;
                } else {
                    self.push_scalar(Style::Plain, String::new(), 0, None);
                    open_key = true;
                }
            } else {
                let json = self.key();
                let _ = json;
                self.s(":");
                self.node_block(col as i32, true, true);
            }
        }
        self.evs.push(Ev::MapEnd);
    }
    /// an implicit key on one line
    fn key(&mut self) -> bool {
        if let Some(n) = self.alias() {
            let t = format!("*{n}");
            self.write_placed(&t);
            self.s(" ");
            return false;
        }
        match self.r.n(20) {
            0 => {
                // empty key
                self.push_scalar(Style::Plain, String::new(), 0, None);
                false
            }
            1 if self.budget > 0 => {
                self.flow_coll(0, None, 0, false);
                true
            }
            _ => {
                let (p, anchor, tag) = self.props();
                if !p.is_empty() { self.s(&p); self.sp(); }
                let json = self.scalar_line(anchor, tag, false);
                if self.r.p(5) { self.sp(); }
                json
            }
        }
    }
    fn scalar_line(&mut self, anchor: usize, tag: Option<(String, String)>, flow: bool) -> bool {
        let q = match self.focus { Focus::Quoted | Focus::Escapes => 60, _ => 25 };
        if self.r.p(q) {
            let dq = self.r.p(50);
            let (s0, v) = self.quoted_src(dq, false, 0);
            let q = if dq { "\"" } else { "'" };
            self.push_scalar(if dq { Style::Double } else { Style::Single }, v, anchor, tag);
            self.write_placed(&format!("{q}{s0}{q}"));
            true
        } else {
            let (src, v) = self.plain_src(flow, false, 0);
            self.push_scalar(Style::Plain, v, anchor, tag);
            self.write_placed(&src);
            false
        }
    }
    fn block_scalar(&mut self, parent: i32, anchor: usize, tag: Option<(String, String)>) {
        let folded = self.r.p(50);
        let chomp = match self.r.n(3) { 0 => Chomp::Strip, 1 => Chomp::Clip, _ => Chomp::Keep };
        let min = (parent + 1).max(1) as usize;
        let ind = min + if self.focus == Focus::Block && self.r.n(80) == 0 { self.r.r(118, 135) as usize } else if self.r.p(40) { { let k = if self.r.p(10) { 12 } else { 4 }; self.r.n(k) } } else { 0 };
        let n = self.r.n(6);
        let mut lines: Vec<String> = vec![];
        for _ in 0..n {
            let l = match self.r.n(10) {
                0 | 1 => String::new(),
                2 => format!(" {}", self.word(false)),
                3 => format!("\t{}", self.word(false)),
                4 => format!("{} {}", self.word(false), self.r.pick(&["# no comment", ": v", "- x", "  ", "'", "\""])),
                5 => self.r.pick(&["# x", "- a", "? b", "k: v", "[", "}", "%x", "&a", "*b", "---", "...", "''", "|", "> "]).to_string(),
                _ => { let mut s = self.word(false); while self.r.p(30) { s.push_str(self.r.pick(&[" ", "  "])); let w = self.word(false); s.push_str(&w); } s }
            };
            lines.push(l);
        }
        let first = lines.iter().position(|l| !l.is_empty());
        // leading white space of the first content line (or nothing but empty lines that are written
        // with spaces) needs an explicit indentation
        let need = first.is_some_and(|f| lines[f].starts_with(' ') || lines[f].starts_with('\t'));
        let rel = ind as i32 - parent.max(0);
        let explicit = parent >= 0 && (1..=9).contains(&rel) && (need || self.r.p(20));
        if need && !explicit {
            let f = first.unwrap();
            lines[f] = format!("w{}", lines[f].trim_start());
        }
        // a last line without content keeps its meaning only through `block_value`
        let mut h = String::from(if folded { ">" } else { "|" });
        let c = match chomp { Chomp::Strip => "-", Chomp::Keep => "+", Chomp::Clip => "" };
        if explicit {
            if self.r.p(50) { h.push_str(&format!("{rel}{c}")); } else { h.push_str(&format!("{c}{rel}")); }
        } else {
            h.push_str(c);
        }
        self.push_scalar(if folded { Style::Folded } else { Style::Literal }, block_value(&lines, folded, chomp), anchor, tag);
        self.s(&h);
        if self.r.p(15) { self.sp(); self.comment_text(); } else if self.r.p(8) { self.s(" "); }
        self.nl();
        for (i, l) in lines.iter().enumerate() {
            if l.is_empty() {
                // empty lines may be indented less; before the content starts they decide nothing
                let k = if first.is_some_and(|f| i > f) || explicit { self.r.n(ind + 1) } else { self.r.n(min + 1).min(ind) };
                if self.r.p(30) { self.ind(k); }
            } else {
                self.ind(ind);
                self.s(l);
            }
            self.nl();
        }
        if self.r.p(8) && parent > 0 { // a less indented comment ends the scalar
            self.comment_text();
            self.nl();
        }
    }

    // ---------------------------------------------------------------- flow nodes
    /// separation in a flow collection: blanks, or a line break when `multi`
    fn fsep(&mut self, ind: usize, multi: bool, must: bool) {
        if multi && self.r.p(8) {
            if self.r.p(30) { self.spn(); self.comment_text(); }
            self.nl();
            while self.r.p(15) { let k = self.r.n(3); self.ind(k); if self.r.p(50) { self.comment_text(); } self.nl(); }
            self.ind(ind);
        } else if must || self.r.p(50) {
            self.spn();
        }
    }
    fn flow_coll(&mut self, anchor: usize, tag: Option<(String, String)>, ind: usize, multi: bool) {
        self.budget -= 1;
        let seq = self.r.p(50);
        let n = if self.budget <= 0 { self.r.n(2) } else { self.r.n(4) };
        if seq {
            self.evs.push(Ev::Seq(anchor, tag));
            self.s("[");
        } else {
            self.evs.push(Ev::Map(anchor, tag));
            self.s("{");
        }
        self.fsep(ind, multi, false);
        for i in 0..n {
            if seq { self.flow_seq_entry(ind, multi); } else { self.flow_map_entry(ind, multi); }
            self.fsep(ind, multi, false);
            if i + 1 < n || self.r.p(20) { self.s(","); self.fsep(ind, multi, false); }
        }
        if seq { self.s("]"); self.evs.push(Ev::SeqEnd); } else { self.s("}"); self.evs.push(Ev::MapEnd); }
    }
    fn flow_seq_entry(&mut self, ind: usize, multi: bool) {
        match self.r.n(12) {
            0 => {
                // single pair, implicit
                self.evs.push(Ev::Map(0, None));
                if self.r.p(15) {
                    self.push_scalar(Style::Plain, String::new(), 0, None);
                    self.s(":");
                    self.flow_value(ind, multi, true);
                } else {
                    let json = self.scalar_line(0, None, true);
                    let mut json = json;
                    if self.r.p(20) { self.sp(); json = false; }
                    self.s(":");
                    let must = !(json && self.r.p(30));
                    self.flow_value(ind, multi, must);
                }
                self.evs.push(Ev::MapEnd);
            }
            1 => {
                self.evs.push(Ev::Map(0, None));
                self.s("?");
                self.fsep(ind, multi, true);
                self.flow_node(ind, multi, false);
                if self.r.p(80) {
                    self.fsep(ind, multi, true);
                    self.s(":");
                    self.flow_value(ind, multi, true);
                } else {
                    self.push_scalar(Style::Plain, String::new(), 0, None);
                }
                self.evs.push(Ev::MapEnd);
            }
            _ => self.flow_node(ind, multi, false),
        }
    }
    fn flow_map_entry(&mut self, ind: usize, multi: bool) {
        match self.r.n(12) {
            0 => {
                self.push_scalar(Style::Plain, String::new(), 0, None);
                self.s(":");
                self.flow_value(ind, multi, true);
            }
            1 => {
                // key alone
                self.flow_node(ind, multi, false);
                self.push_scalar(Style::Plain, String::new(), 0, None);
            }
            2 => {
                self.s("?");
                self.fsep(ind, multi, true);
                self.flow_node(ind, multi, false);
                if self.r.p(80) {
                    self.fsep(ind, multi, true);
                    self.s(":");
                    self.flow_value(ind, multi, true);
                } else {
                    self.push_scalar(Style::Plain, String::new(), 0, None);
                }
            }
            _ => {
                let mark = self.evs.len();
                self.flow_node(ind, false, true);
                let json = match &self.evs[mark] {
                    Ev::Scalar { style: Style::Single | Style::Double, .. } => true,
                    Ev::Seq(..) | Ev::Map(..) => true,
                    _ => false,
                };
                let alias = matches!(self.evs[mark], Ev::Alias(_));
                let empty = matches!(&self.evs[mark], Ev::Scalar { style: Style::Plain, value, .. } if value.is_empty());
                let mut json = json;
                if alias || empty { self.s(" "); } else if self.r.p(15) { self.sp(); json = false; }
                self.s(":");
                let must = !(json && self.r.p(30));
                self.flow_value(ind, multi, must);
            }
        }
    }
    fn flow_value(&mut self, ind: usize, multi: bool, must: bool) {
        if self.r.p(12) {
            // no value: what follows is a separator or the end of the collection
            self.push_scalar(Style::Plain, String::new(), 0, None);
            return;
        }
        self.fsep(ind, multi, must);
        self.flow_node(ind, multi, false);
    }
    fn flow_node(&mut self, ind: usize, multi: bool, key: bool) {
        if let Some(n) = self.alias() {
            let t = format!("*{n}");
            self.write_placed(&t);
            return;
        }
        let (p, anchor, tag) = self.props();
        if !p.is_empty() {
            self.s(&p);
            if self.r.p(8) && !key {
                self.push_scalar(Style::Plain, String::new(), anchor, tag);
                return;
            }
            self.sp();
        }
        if self.budget > 0 && self.r.p(25) {
            self.flow_coll(anchor, tag, ind, multi);
            return;
        }
        if self.r.p(40) {
            let dq = self.focus == Focus::Escapes || self.r.p(50);
            let (s0, v) = self.quoted_src(dq, multi, ind.max(1));
            let q = if dq { "\"" } else { "'" };
            self.push_scalar(if dq { Style::Double } else { Style::Single }, v, anchor, tag);
            self.write_placed(&format!("{q}{s0}{q}"));
        } else {
            let (src, v) = self.plain_src(true, multi, ind.max(1));
            self.push_scalar(Style::Plain, v, anchor, tag);
            self.write_placed(&src);
        }
    }
}

// -------------------------------------------------------------------- arbitrary text
const TOK: &[&str] = &[
    "a", "- ", ":", " ", "\n", "? ", "[", "]", "{", "}", ",", "'", "\"", "|", ">", "&", "*", "!", "#", "\\", "%", "@", "---", "...", "x", "0", "1",
    "\t", "\r\n", "\r", "é", "-", "?", ": ", "%TAG ", "%YAML ", "1.2", "<", "~", "+", "&a ", "*a ", "!!str ", "!<a> ", "!e!", " #", "\n  ", "\n ", "\\x41",
    "\\u00e9", "\\\n", "''", "日", "😀", "\u{0}", "|\n", ">-\n", "|2+\n", "a: ", "- - ", "\u{feff}", "%C3%A9", "\n---\n", "\n...\n", "256", "\\U0010FFFF",
    "|-", "|9", ">+1", "4294967296", "65536", "%TAG !e! tag:x:\n", "\"a\"", "'b'", "k", "!e!x ", "\u{85}", "\u{2028}", "`",
];
pub fn soup(r: &mut Rng) -> String {
    let n = if r.p(10) { r.r(15, 60) } else { r.r(1, 14) };
    let mut s = String::new();
    if r.p(20) {
        // few distinct tokens: deep or repetitive structure
        let k = r.r(1, 4);
        let t: Vec<&str> = (0..k).map(|_| r.pick(TOK)).collect();
        for _ in 0..n { s.push_str(t[r.n(k)]); }
    } else {
        for _ in 0..n { s.push_str(r.pick(TOK)); }
    }
    s
}
const SMALL: &[u8] = b"a:-?[]{},'\"|>&*!# \n\t%\r\\0";
/// all short strings over the indicators, in order
/// a long flat collection, maybe with a nested long one, anchors and aliases
pub fn long(r: &mut Rng) -> String {
    let mut t = String::new();
    let docs = 1 + r.n(2);
    for d in 0..docs {
        if d > 0 { t.push_str("---\n"); }
        let (n, style) = (r.pick(&[10, 15, 16, 17, 18, 31, 32, 33, 40, 64, 65, 100]), r.n(5));
        let mut anchored = false;
        let mut el = |r: &mut Rng, i: usize, out: &mut String| match r.n(16) {
            0 => { anchored = true; out.push_str(&format!("&a{} v{i}", r.n(3))) }
            1 if anchored => out.push_str("v"),
            2 => out.push_str("!t x"),
            3 => out.push_str("'q'"),
            4 => out.push_str("[x, {y: z}]"),
            5 => out.push_str("\"d e\""),
            6 => {}
            _ => out.push_str(&format!("{}", i * 7 % 13)),
        };
        match style {
            0 => for i in 0..n { t.push_str("- "); el(r, i, &mut t); t.push('\n') },
            1 => for i in 0..n { t.push_str(&format!("k{}: ", i)); el(r, i, &mut t); t.push('\n') },
            2 => { t.push('['); for i in 0..n { if i > 0 { t.push_str(", ") } let l = t.len(); el(r, i, &mut t); if t.len() == l { t.push('x') } } t.push_str("]\n") }
            3 => { t.push('{'); for i in 0..n { if i > 0 { t.push_str(", ") } t.push_str(&format!("k{i}: ")); el(r, i, &mut t) } t.push_str("}\n") }
            _ => { for i in 0..n { t.push_str(&format!("k{}:\n", i % 20)); for j in 0..r.n(3) { t.push_str("  - "); el(r, j, &mut t); t.push('\n') } } }
        }
    }
    t
}

pub fn small(idx: u64) -> String {
    let (mut k, mut n) = (idx, 1u32);
    let b = SMALL.len() as u64;
    while k >= b.pow(n) { k -= b.pow(n); n += 1; }
    let mut s = String::new();
    for _ in 0..n { s.push(SMALL[(k % b) as usize] as char); k /= b; }
    s
}
pub fn mutate(r: &mut Rng, t: &str) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    for _ in 0..r.r(1, 3) {
        let i = r.n(cs.len() + 1);
        match r.n(5) {
            0 => { if i < cs.len() { cs.remove(i); } }
            1 => { for c in r.pick(TOK).chars().rev() { cs.insert(i, c); } }
            2 => { if i < cs.len() { let c = r.pick(TOK).chars().next().unwrap(); cs[i] = c; } }
            3 => { let j = r.n(cs.len() + 1); let (a, b) = (i.min(j), i.max(j).min(i.min(j) + 20)); let part: Vec<char> = cs[a..b].to_vec(); for c in part.into_iter().rev() { cs.insert(i.min(cs.len()), c); } }
            _ => { if r.p(50) { cs.truncate(i); } else if i < cs.len() { let j = r.n(cs.len()); cs.swap(i, j); } }
        }
    }
    cs.into_iter().collect()
}
