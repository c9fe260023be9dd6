use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum Item {
    Use(String),
    Raw(String),
    Item { file: String, kind: String, name: String, opts: BTreeMap<String, String> },
    Impl { file: String, ty: String, tr: Option<String>, owner: String, inherent: bool, body: String, header: Option<String> },
    Trait { file: String, name: String, body: String },
}

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub spec: String,
    pub loops: BTreeMap<usize, String>,
    pub ats: Vec<(String, String)>,
    pub external: bool,
    pub omit: bool,
    pub elsewhere: bool,
    pub attrs: Vec<String>,
    pub rewrites: Vec<(String, String)>,
    pub props: Vec<String>,
    pub expect: Option<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Overlay {
    pub items: Vec<Item>,
    pub fns: BTreeMap<String, FnSpec>,
    pub omit_all: BTreeSet<String>,
    pub fields: BTreeMap<String, Vec<(String, String, String)>>,
    pub subst: Subst,
    /// file, name, new name: a type whose name another extracted file uses too
    pub renames: Vec<(String, String, String)>,
}

/// unit-wide replacements of library calls by helpers with a contract
#[derive(Clone, Debug, Default)]
pub struct Subst {
    /// `&E[a..]`, `&E[..b]`, `&E[a..b]` are slices of strings
    pub str_ranges: bool,
    /// `.map(|p| e)` is the one of `Option`
    pub option_map: bool,
    /// path expression => text
    pub paths: BTreeMap<String, String>,
    /// method (with turbofish), or `iter.any` for `.iter().any(..)` => (helper, receiver: by reference or by value)
    pub methods: BTreeMap<String, (String, &'static str)>,
    /// function, argument number => helper around the argument (in place of a coercion)
    pub args: BTreeMap<String, (usize, String)>,
    /// variable that is a receiver => helper that dereferences it
    pub recvs: BTreeMap<String, String>,
}

pub fn parse(text: &str) -> Overlay {
    let mut ov = Overlay::default();
    let mut cur: Option<(String, String)> = None;
    let mut blocks: Vec<(String, String)> = vec![];
    for l in text.lines() {
        let tl = l.trim_start();
        if let Some(d) = tl.strip_prefix("//@ ") {
            if let Some(c) = cur.take() {
                blocks.push(c);
            }
            cur = Some((d.trim().to_string(), String::new()));
        } else if tl.starts_with("//#") {
            // overlay comment
        } else if let Some(c) = &mut cur {
            c.1.push_str(l);
            c.1.push('\n');
        }
    }
    if let Some(c) = cur.take() {
        blocks.push(c);
    }
    for (d, body) in blocks {
        let w: Vec<&str> = d.split_whitespace().collect();
        match w[0] {
            "use" => ov.items.push(Item::Use(body)),
            "raw" => ov.items.push(Item::Raw(body)),
            "item" => {
                let mut opts = BTreeMap::new();
                for o in &w[4..] {
                    let (k, v) = o.split_once('=').expect("opt");
                    opts.insert(k.to_string(), v.to_string());
                }
                if w[2] == "fn" {
                    let p = opts.get("as").cloned().unwrap_or(w[3].to_string());
                    ov.fns.entry(p).or_default();
                }
                ov.items.push(Item::Item { file: w[1].into(), kind: w[2].into(), name: w[3].into(), opts });
            }
            "impl" => {
                // impl <file> <Type> [for <Trait>] [inherent]
                let mut tr = None;
                let mut owner = w[2].to_string();
                let mut inherent = false;
                let mut i = 3;
                let mut header = None;
                while i < w.len() {
                    match w[i] {
                        "for" => {
                            tr = Some(w[i + 1].to_string());
                            i += 2;
                        }
                        "as" => {
                            // several impls of one type with methods of the same name
                            owner = w[i + 1].to_string();
                            i += 2;
                        }
                        "inherent" => {
                            inherent = true;
                            i += 1;
                        }
                        "header" => {
                            let p = d.find(" header ").unwrap();
                            header = Some(d[p + 8..].to_string());
                            break;
                        }
                        x => panic!("impl opt {x}"),
                    }
                }
                ov.items.push(Item::Impl { file: w[1].into(), ty: w[2].into(), tr, owner, inherent, body, header });
            }
            "trait" => ov.items.push(Item::Trait { file: w[1].into(), name: w[2].into(), body }),
            "spec" => {
                let e = ov.fns.entry(w[1].into()).or_default();
                e.spec.push_str(&body);
                for p in &w[2..] {
                    e.props.push(p.to_string());
                }
            }
            "plain" => {
                for n in &w[1..] {
                    ov.fns.entry(n.to_string()).or_default();
                }
            }
            "omit" => {
                for n in &w[1..] {
                    ov.fns.entry(n.to_string()).or_default().omit = true;
                }
            }
            "omitrest" => {
                for n in &w[1..] {
                    ov.omit_all.insert(n.to_string());
                }
            }
            "external" => {
                let e = ov.fns.entry(w[1].into()).or_default();
                e.external = true;
                e.spec.push_str(&body);
            }
            "expect" => {
                // the body text (white space aside) the trusted contract was written for
                ov.fns.entry(w[1].into()).or_default().expect = Some(body);
            }
            "loop" => {
                let e = ov.fns.entry(w[1].into()).or_default();
                e.loops.insert(w[2].parse().expect("loop number"), body);
            }
            "at" => {
                let e = ov.fns.entry(w[1].into()).or_default();
                e.ats.push((w[2..].join(" "), body));
            }
            "fattr" => {
                let e = ov.fns.entry(w[1].into()).or_default();
                e.attrs.push(w[2..].join(" "));
            }
            "rewrite" => {
                let e = ov.fns.entry(w[1].into()).or_default();
                let (a, b) = body.split_once("\n=>\n").unwrap_or_else(|| panic!("rewrite {} needs =>", w[1]));
                e.rewrites.push((a.trim().to_string(), b.trim().to_string()));
            }
            "option" => match w[1] {
                "option_map" => ov.subst.option_map = true,
                "str_ranges" => ov.subst.str_ranges = true,
                x => panic!("unknown option {x}"),
            },
            "subst" => {
                let (a, b) = d[6..].split_once("=>").expect("subst needs =>");
                ov.subst.paths.insert(a.trim().into(), b.trim().into());
            }
            "method" => {
                // method <name> <helper> [value]
                ov.subst.methods.insert(w[1].into(), (w[2].into(), match w.get(3) { Some(&"value") => "", Some(&"mut") => "&mut ", _ => "&" }));
            }
            "arg" => {
                ov.subst.args.insert(w[1].into(), (w[2].parse().unwrap(), w[3].into()));
            }
            "keep" => {}
            "rename" => ov.renames.push((w[1].into(), w[2].into(), w[3].into())),
            "recv" => {
                ov.subst.recvs.insert(w[1].into(), w[2].into());
            }
            "field" => {
                // field <Struct> <name> ; body: type \n init
                let mut ls = body.lines();
                let ty = ls.next().unwrap().trim().to_string();
                let init = ls.next().unwrap().trim().to_string();
                ov.fields.entry(w[1].into()).or_default().push((w[2].into(), ty, init));
            }
            x => panic!("unknown directive {x}"),
        }
    }
    ov
}
