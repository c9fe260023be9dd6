//! vx: mechanical extraction of functions of /repo into one Verus file.
//!
//!   vx <overlay> <repo> <out.rs> <report.json>
//!
//! The emitted text of every function is the text found in /repo, changed only by the edits
//! listed in the report (each is one of the fixed rules below), plus the specification text that
//! the overlay attaches to it.
mod desugar;
mod inline;
mod overlay;
mod util;

use overlay::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::spanned::Spanned;
use util::*;

pub struct Ctx {
    pub ov: Overlay,
    pub repo: String,
    pub files: BTreeMap<String, (String, syn::File)>,
    pub edits: BTreeMap<String, usize>,
    pub edit_log: Vec<Value>,
    pub out: String,
    pub fns: Vec<Value>,
    pub seen: BTreeSet<String>,
    pub problems: Vec<String>,
    /// functions whose problems are only noted (the caller then counts them as undecided)
    pub soft: BTreeSet<String>,
    pub inlined: Vec<String>,
    pub auto: Vec<String>,
    pub dropped: Vec<String>,
    pub used_loops: BTreeSet<(String, usize)>,
}

impl Ctx {
    fn line(&self) -> usize {
        self.out.matches('\n').count() + 1
    }
    fn file(&mut self, f: &str) -> Result<(String, syn::File), String> {
        if let Some(x) = self.files.get(f) {
            return Ok(x.clone());
        }
        let p = format!("{}/{}", self.repo, f);
        let t = std::fs::read_to_string(&p).map_err(|e| format!("{p}: {e}"))?;
        let mut t = t;
        for (rf, old, new) in self.ov.renames.clone() {
            if rf == f {
                t = util::rename_word(&t, &old, &new);
                self.note("type renamed (its name occurs in two files)", format!("{f}: {old} => {new}"));
            }
        }
        let mut a = syn::parse_file(&t).map_err(|e| format!("{p}: parse error {e}"))?;
        let x = util::expand_macros(&t, &a);
        if !x.is_empty() {
            self.note("item macro expanded", f.to_string());
            t.push('\n');
            t.push_str(&x);
            a = syn::parse_file(&t).map_err(|e| format!("{p}: parse error after macro expansion {e}"))?;
        }
        self.files.insert(f.to_string(), (t.clone(), a.clone()));
        Ok((t, a))
    }
    pub fn note(&mut self, kind: &str, what: String) {
        *self.edits.entry(kind.to_string()).or_insert(0) += 1;
        self.edit_log.push(json!({"rule": kind, "at": what}));
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: vx overlay repo out.rs report.json");
        std::process::exit(2);
    }
    let mut text = String::new();
    // `~overlay`: the contracts of that overlay are proved in another unit and only used here
    let mut elsewhere = BTreeSet::new();
    let mut skip: BTreeSet<String> = BTreeSet::new();
    for part in a[1].split(',') {
        let t = std::fs::read_to_string(part.trim_start_matches('~')).expect("overlay");
        if part.starts_with('~') {
            // implementations of traits stay away: generic code only sees the trait
            skip.extend(overlay::parse(&t).items.iter().filter_map(|i| match i {
                Item::Impl { ty, tr: Some(_), inherent: false, .. } => Some(ty.clone()),
                _ => None,
            }));
            elsewhere.extend(overlay::parse(&t).fns.into_iter().filter(|(_, f)| !f.omit).map(|(n, _)| n));
        }
        text.push_str(&t);
        text.push('\n');
    }
    // but for those an overlay asks for: `keep Type`
    for l in text.lines() {
        if let Some(t) = l.strip_prefix("//@ keep ") {
            skip.remove(t.trim());
        }
    }
    let list = |flag: &str| -> Vec<String> {
        let i = a.iter().position(|x| x == flag);
        i.and_then(|i| a.get(i + 1)).map(|s| s.split(',').map(str::to_string).collect()).unwrap_or_default()
    };
    let mut ov = overlay::parse(&text);
    ov.items.retain(|i| !matches!(i, Item::Impl { ty, inherent: false, .. } if skip.contains(ty)));
    for t in &elsewhere {
        ov.fns.get_mut(t).unwrap().elsewhere = true;
    }
    for t in list("--trust").into_iter().chain(elsewhere) {
        let e = ov.fns.entry(t).or_default();
        e.external = true;
        e.expect = None;
        e.rewrites.clear();
        e.ats.clear();
        e.loops.clear();
    }
    let mut cx = Ctx {
        ov,
        repo: a[2].clone(),
        files: BTreeMap::new(),
        edits: BTreeMap::new(),
        edit_log: vec![],
        out: String::new(),
        fns: vec![],
        seen: BTreeSet::new(),
        problems: vec![],
        soft: list("--soft").into_iter().collect(),
        inlined: vec![],
        auto: vec![],
        dropped: vec![],
        used_loops: BTreeSet::new(),
    };
    run(&mut cx);
    let soft = cx.soft.clone();
    let of_soft = |p: &String| p.split('`').nth(1).is_some_and(|n| soft.contains(n));
    let noted: Vec<String> = cx.problems.iter().filter(|p| of_soft(p)).cloned().collect();
    cx.problems.retain(|p| !of_soft(p));
    let rep = json!({
        "problems": cx.problems,
        "noted": noted,
        "functions": cx.fns,
        "edits_by_rule": cx.edits,
        "edits": cx.edit_log,
        "inlined_helpers": cx.inlined,
        "auto_included": cx.auto,
        "dropped": cx.dropped,
    });
    std::fs::write(&a[3], &cx.out).unwrap();
    std::fs::write(&a[4], serde_json::to_string_pretty(&rep).unwrap()).unwrap();
    if !cx.problems.is_empty() {
        for p in &cx.problems {
            eprintln!("vx: {p}");
        }
        std::process::exit(3);
    }
}

fn run(cx: &mut Ctx) {
    let items = cx.ov.items.clone();
    cx.out.push_str("#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, dead_code, unused_braces, unused_parens, unused_unsafe, non_snake_case, unreachable_code, unused_labels, unreachable_patterns, non_camel_case_types)]\n");
    let mut uses: BTreeSet<String> = BTreeSet::new();
    for d in &items {
        if let Item::Use(b) = d {
            for l in b.lines() {
                if uses.insert(l.to_string()) {
                    cx.out.push_str(l);
                    cx.out.push('\n');
                }
            }
        }
    }
    cx.out.push_str("use vstd::prelude::*;\nverus! {\n");
    let mut broadcast: Vec<String> = vec![];
    let mut once: BTreeSet<String> = BTreeSet::new();
    for d in &items {
        if let Item::Item { file, kind, name, .. } = d {
            // overlays of one unit may share a type
            if !once.insert(format!("{file} {kind} {name}")) {
                continue;
            }
        }
        let r = match d {
            Item::Use(_) => Ok(()),
            Item::Raw(b) => {
                // Verus takes one `broadcast use` per module
                for l in b.lines() {
                    match l.strip_prefix("broadcast use {").and_then(|x| x.strip_suffix("};")) {
                        Some(x) => broadcast.push(x.to_string()),
                        None => {
                            cx.out.push_str(l);
                            cx.out.push('\n');
                        }
                    }
                }
                cx.out.push('\n');
                Ok(())
            }
            Item::Item { file, kind, name, opts } => emit_item(cx, file, kind, name, opts),
            Item::Impl { file, ty, tr, owner, inherent, body, header } => {
                emit_impl(cx, file, ty, owner, tr.as_deref(), *inherent, body, header.as_deref())
            }
            Item::Trait { file, name, body } => emit_trait(cx, file, name, body),
        };
        if let Err(e) = r {
            cx.problems.push(e);
        }
    }
    if !broadcast.is_empty() {
        let _ = writeln!(cx.out, "broadcast use {{{}}};", broadcast.join(", "));
    }
    cx.out.push_str("} // verus!\nfn main() {}\n");
    // Every specification in the overlay must have found its function.
    let specs: Vec<String> = cx.ov.fns.keys().cloned().collect();
    for s in specs {
        if !cx.seen.contains(&s) && !cx.ov.fns[&s].omit && !cx.ov.fns[&s].elsewhere {
            cx.problems.push(format!("function `{s}` named in the overlay was not found in the source"));
        }
    }
    let loops: Vec<(String, usize)> = cx
        .ov
        .fns
        .iter()
        .flat_map(|(k, v)| v.loops.keys().map(move |n| (k.clone(), *n)))
        .collect();
    for l in loops {
        if cx.seen.contains(&l.0) && !cx.ov.fns[&l.0].external && !cx.used_loops.contains(&l) {
            cx.problems.push(format!("`{}`: loop {} of the overlay does not exist in the source", l.0, l.1));
        }
    }
}

fn find_items<'a>(f: &'a syn::File) -> Vec<&'a syn::Item> {
    fn rec<'a>(v: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
        for i in v {
            if let syn::Item::Mod(m) = i {
                if cfg_off(&m.attrs) {
                    continue;
                }
                if let Some((_, c)) = &m.content {
                    rec(c, out);
                }
            }
            out.push(i);
        }
    }
    let mut out = vec![];
    rec(&f.items, &mut out);
    out
}

fn emit_item(cx: &mut Ctx, file: &str, kind: &str, name: &str, opts: &BTreeMap<String, String>) -> Result<(), String> {
    let (text, ast) = cx.file(file)?;
    for it in find_items(&ast) {
        let (ident, k) = match it {
            syn::Item::Struct(s) => (s.ident.to_string(), "struct"),
            syn::Item::Enum(s) => (s.ident.to_string(), "enum"),
            syn::Item::Fn(s) => (s.sig.ident.to_string(), "fn"),
            syn::Item::Const(s) => (s.ident.to_string(), "const"),
            syn::Item::Type(s) => (s.ident.to_string(), "type"),
            syn::Item::Static(s) => (s.ident.to_string(), "static"),
            _ => continue,
        };
        if ident != name || k != kind {
            continue;
        }
        match it {
            syn::Item::Fn(f) => {
                if cfg_off(&f.attrs) {
                    continue;
                }
                let path = opts.get("as").cloned().unwrap_or(name.to_string());
                let src = &text[f.span().byte_range()];
                let line = f.span().start().line;
                emit_fn(cx, file, line, &path, src, "", None);
            }
            _ => {
                let mut t = text[it.span().byte_range()].to_string();
                t = strip_item(&t);
                if let Some(d) = opts.get("derive") {
                    let _ = writeln!(cx.out, "#[derive({d})]");
                }
                if let Some(d) = opts.get("attr") {
                    let _ = writeln!(cx.out, "#[{d}]");
                }
                if let Some(fields) = cx.ov.fields.get(name) {
                    // ghost fields, added at the end of the struct
                    let pos = t.rfind('}').unwrap();
                    let mut add = String::new();
                    for (n, ty, _) in fields {
                        let _ = write!(add, "pub {n}: {ty},\n");
                    }
                    t.insert_str(pos, &add);
                }
                cx.note("type definition: attributes and visibility replaced", format!("{file}: {name}"));
                cx.out.push_str(&t);
                cx.out.push('\n');
            }
        }
        return Ok(());
    }
    Err(format!("{kind} `{name}` not found in {file}"))
}

fn type_ident(t: &syn::Type) -> Option<String> {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        syn::Type::Reference(r) => type_ident(&r.elem),
        _ => None,
    }
}

fn emit_impl(cx: &mut Ctx, file: &str, self_ty: &str, ty: &str, tr: Option<&str>, inherent: bool, body: &str, header: Option<&str>) -> Result<(), String> {
    let (text, ast) = cx.file(file)?;
    let mut found = false;
    for it in find_items(&ast) {
        let syn::Item::Impl(im) = it else { continue };
        if cfg_off(&im.attrs) {
            continue;
        }
        if type_ident(&im.self_ty).as_deref() != Some(self_ty) {
            continue;
        }
        let trn = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        // a trait named with its arguments is matched with them
        let trt = match (&im.trait_, tr) {
            (Some((_, p, _)), Some(t)) if t.contains('<') => {
                let s: String = text[p.segments.last().unwrap().span().byte_range()].chars().filter(|c| !c.is_whitespace()).collect();
                Some(s)
            }
            _ => trn.clone(),
        };
        if trt.as_deref() != tr {
            continue;
        }
        // header text up to the brace
        let start = im.impl_token.span.byte_range().start;
        let brace = im.brace_token.span.open().byte_range().start;
        let mut h = text[start..brace].to_string();
        if inherent {
            let bang = im.trait_.as_ref().unwrap();
            let tspan = bang.1.span().byte_range();
            let forspan = bang.2.span.byte_range();
            let mut full = text[start..brace].to_string();
            let (s, e) = (tspan.start - start, forspan.end - start);
            full.replace_range(s..e, "");
            h = full;
            cx.note("trait impl emitted as inherent impl", format!("{file}: {trn:?} for {ty}"));
        }
        if let Some(nh) = header {
            cx.note("impl header replaced", format!("{file}: `{}` -> `{nh}`", h.split_whitespace().collect::<Vec<_>>().join(" ")));
            h = nh.to_string() + " ";
        }
        // only emit the block when at least one method is wanted or it is the first one
        let mut methods = vec![];
        let mut assoc = vec![];
        for ii in &im.items {
            match ii {
                syn::ImplItem::Fn(f) => {
                    if cfg_off(&f.attrs) {
                        cx.dropped.push(format!("{ty}::{} (cfg)", f.sig.ident));
                        continue;
                    }
                    methods.push(f.clone());
                }
                syn::ImplItem::Type(t) => assoc.push(t.clone()),
                _ => {}
            }
        }
        // a block of which nothing is wanted is left out
        let wanted = |n: &syn::ImplItemFn| cx.ov.fns.get(&format!("{ty}::{}", n.sig.ident)).is_some_and(|f| !f.omit);
        if tr.is_none() && !methods.is_empty() && !methods.iter().any(wanted) && (found || body.trim().is_empty()) {
            for m in &methods {
                let path = format!("{ty}::{}", m.sig.ident);
                cx.seen.insert(path.clone());
                cx.dropped.push(path);
            }
            continue;
        }
        let helper_src: BTreeMap<String, syn::ImplItemFn> =
            methods.iter().map(|m| (m.sig.ident.to_string(), m.clone())).collect();
        cx.out.push_str(&h);
        cx.out.push_str("{\n");
        if !found {
            cx.out.push_str(body);
            cx.out.push('\n');
        }
        if !inherent {
            for t in &assoc {
                cx.out.push_str(&format!("type {} = {};\n", t.ident, &text[t.ty.span().byte_range()]));
            }
        }
        found = true;
        let unknown: BTreeSet<String> = methods
            .iter()
            .map(|m| m.sig.ident.to_string())
            .filter(|n| !cx.ov.fns.contains_key(&format!("{ty}::{n}")) && !cx.ov.omit_all.contains(ty))
            .collect();
        for m in &methods {
            let n = m.sig.ident.to_string();
            let path = format!("{ty}::{n}");
            let known = cx.ov.fns.contains_key(&path);
            if !known {
                if cx.ov.omit_all.contains(ty) {
                    cx.dropped.push(path.clone());
                }
                continue;
            }
            if cx.ov.fns[&path].omit {
                cx.dropped.push(path.clone());
                cx.seen.insert(path);
                continue;
            }
            let mut src = text[m.span().byte_range()].to_string();
            if inherent {
                for t in &assoc {
                    let tyt = &text[t.ty.span().byte_range()];
                    src = src.replace(&format!("Self::{}", t.ident), tyt);
                }
            }
            let line = m.span().start().line;
            let inl = inline::Inliner { text: &text, helpers: &helper_src, unknown: &unknown };
            emit_fn(cx, file, line, &path, &src, ty, Some(&inl));
        }
        // helpers that could not be inlined everywhere are emitted with the default contract
        let still: Vec<String> = cx.auto.iter().filter(|a| unknown.contains(*a)).cloned().collect();
        for n in still {
            let path = format!("{ty}::{n}");
            if cx.seen.contains(&path) {
                continue;
            }
            let m = &helper_src[&n];
            let src = text[m.span().byte_range()].to_string();
            let line = m.span().start().line;
            emit_fn(cx, file, line, &path, &src, ty, None);
            cx.problems.push(format!("helper `{path}` has no contract and could not be inlined"));
        }
        cx.out.push_str("}\n");
    }
    if found {
        Ok(())
    } else {
        Err(format!("impl of {ty} (trait {tr:?}) not found in {file}"))
    }
}

fn emit_trait(cx: &mut Ctx, file: &str, name: &str, body: &str) -> Result<(), String> {
    let (text, ast) = cx.file(file)?;
    for it in find_items(&ast) {
        let syn::Item::Trait(t) = it else { continue };
        if t.ident != name {
            continue;
        }
        let start = t.trait_token.span.byte_range().start;
        let brace = t.brace_token.span.open().byte_range().start;
        if t.unsafety.is_some() {
            cx.note("`unsafe` dropped from a trait", format!("{file}: {name}"));
        }
        cx.out.push_str("pub ");
        cx.out.push_str(&text[start..brace]);
        cx.out.push_str("{\n");
        cx.out.push_str(body);
        cx.out.push('\n');
        for ti in &t.items {
            match ti {
                syn::TraitItem::Fn(f) => {
                    if cfg_off(&f.attrs) {
                        continue;
                    }
                    let path = format!("{name}::{}", f.sig.ident);
                    match cx.ov.fns.get(&path) {
                        None => {
                            if !cx.ov.omit_all.contains(name) {
                                cx.problems.push(format!("trait method `{path}` has no contract"));
                            }
                            cx.dropped.push(path);
                        }
                        Some(x) if x.omit => {
                            cx.dropped.push(path.clone());
                            cx.seen.insert(path);
                        }
                        Some(_) => {
                            let src = text[f.span().byte_range()].to_string();
                            emit_fn(cx, file, f.span().start().line, &path, &src, name, None);
                        }
                    }
                }
                syn::TraitItem::Type(t) => {
                    cx.out.push_str(&text[t.span().byte_range()]);
                    cx.out.push('\n');
                }
                _ => {}
            }
        }
        cx.out.push_str("}\n");
        return Ok(());
    }
    Err(format!("trait `{name}` not found in {file}"))
}

fn emit_fn(cx: &mut Ctx, file: &str, src_line: usize, path: &str, src: &str, owner: &str, inl: Option<&inline::Inliner>) {
    cx.seen.insert(path.to_string());
    let fs = cx.ov.fns.get(path).cloned().unwrap_or_default();
    let mut t = strip_fn(src);
    let orig = t.clone();
    if let Some(want) = &fs.expect {
        let have = parse_fn(&t).ok().and_then(|f| f.block()).map(|r| norm(&t[r])).unwrap_or_default();
        let want = norm(want);
        if have != want {
            cx.problems.push(format!("`{path}`: the body is no longer the one its trusted contract was written for"));
        }
    }
    if fs.external {
        // body is irrelevant: replaced so that unsupported constructs do not matter
        if let Ok(f) = parse_fn(&t) {
            if let Some(b) = f.block() {
                let r = b;
                t.replace_range(r, "{ unimplemented!() }");
            }
        }
    }
    for (old, new) in &fs.rewrites {
        match find_ws(&t, old) {
            Some(r) => {
                t.replace_range(r, new);
                cx.note("overlay rewrite", format!("{path}: `{}` => `{}`", short(old), short(new)));
            }
            None => cx.problems.push(format!("`{path}`: snippet `{}` to rewrite not found", short(old))),
        }
    }
    if let (Some(inl), false) = (inl, fs.external) {
        match inline::inline_all(&t, owner, inl) {
            Ok((nt, done, left)) => {
                t = nt;
                for d in done {
                    cx.note("helper inlined at its call", format!("{path}: {d}"));
                    cx.inlined.push(format!("{owner}::{d} into {path}"));
                }
                for l in left {
                    if !cx.auto.contains(&l) {
                        cx.auto.push(l);
                    }
                }
            }
            Err(e) => cx.problems.push(format!("`{path}`: inline: {e}")),
        }
    }
    // a second rewrite round that also sees inlined text is not offered on purpose
    match desugar::desugar(&t, &cx.ov.subst.clone()) {
        Ok((nt, log)) => {
            t = nt;
            for (k, w) in log {
                cx.note(&k, format!("{path}: {w}"));
            }
        }
        Err(e) => cx.problems.push(format!("`{path}`: {e}")),
    }
    for (strukt, fields) in &cx.ov.fields.clone() {
        match desugar::ghost_init(&t, strukt, path.split("::").next() == Some(strukt), fields) {
            Ok(Some(nt)) => {
                t = nt;
                cx.note("ghost field initialised", format!("{path}: {strukt}"));
            }
            Ok(None) => {}
            Err(e) => cx.problems.push(format!("`{path}`: {e}")),
        }
    }
    let mut shape = String::new();
    match desugar::annotate(&t, &fs, cx.soft.contains(path)) {
        Ok((nt, used, sh)) => {
            t = nt;
            shape = sh;
            for u in used {
                cx.used_loops.insert((path.to_string(), u));
            }
        }
        Err(e) => cx.problems.push(format!("`{path}`: {e}")),
    }
    for a in &fs.attrs {
        let _ = writeln!(cx.out, "#[{a}]");
    }
    if !shape.is_empty() && !shape.starts_with(' ') && !fs.external && !fs.attrs.iter().any(|a| a.contains("loop_isolation")) {
        // what was known before a loop about variables it does not change is known in it
        cx.out.push_str("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
    }
    if fs.external {
        if !t.trim_end().ends_with(';') {
            cx.out.push_str("#[verifier::external_body]\n");
        }
    }
    // specification text hidden from the Rust parser in /*@ … @*/ (closure contracts)
    t = t.replace("/*@", "").replace("@*/", "");
    let l0 = cx.line();
    cx.out.push_str(&t);
    cx.out.push('\n');
    let l1 = cx.line();
    cx.fns.push(json!({"path": path, "file": file, "src_line": src_line, "out_start": l0, "out_end": l1,
        "external": fs.external, "shape": shape, "elsewhere": fs.elsewhere, "has_contract": !fs.spec.trim().is_empty(), "props": fs.props,
        "unchanged": norm(&orig) == norm(&t)}));
}
