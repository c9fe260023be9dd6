//! Fixed, meaning-preserving rewrites into the subset of Rust that Verus accepts, and the
//! insertion of specification text.
use crate::overlay::{FnSpec, Subst};
use crate::util::*;
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::*;

type Edit = (usize, usize, String);

struct Finder<'a> {
    t: &'a str,
    found: Option<(Vec<Edit>, String, String)>,
    err: Option<String>,
    n: usize,
    sub: &'a Subst,
}

impl<'a> Finder<'a> {
    fn s(&self, x: &impl Spanned) -> &'a str {
        &self.t[x.span().byte_range()]
    }
    fn put(&mut self, e: Vec<Edit>, rule: &str, what: String) {
        if self.found.is_none() {
            self.found = Some((e, rule.to_string(), what));
        }
    }
    fn attrs(&mut self, attrs: &[Attribute], whole: std::ops::Range<usize>) {
        for a in attrs {
            if self.found.is_some() {
                return;
            }
            let r = a.span().byte_range();
            if a.path().is_ident("cfg") {
                match cfg_state(a) {
                    Some(true) => self.put(vec![(r.start, r.end, String::new())], "enabled cfg attribute removed", self.s(a).into()),
                    Some(false) => self.put(
                        vec![(whole.start, whole.end, String::new())],
                        "code that the default features compile out removed",
                        short(&self.t[whole.clone()]),
                    ),
                    None => self.err = Some(format!("unknown cfg {}", self.s(a))),
                }
            } else {
                self.put(vec![(r.start, r.end, String::new())], "attribute removed", self.s(a).into());
            }
        }
    }
}

fn has_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => has_let(&b.left) || has_let(&b.right),
        _ => false,
    }
}
fn flatten<'e>(e: &'e Expr, out: &mut Vec<&'e Expr>) {
    match e {
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) && has_let(e) => {
            flatten(&b.left, out);
            flatten(&b.right, out);
        }
        _ => out.push(e),
    }
}

impl<'a, 'ast> Visit<'ast> for Finder<'a> {
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        if self.found.is_some() {
            return;
        }
        let whole = s.span().byte_range();
        match s {
            Stmt::Local(l) => self.attrs(&l.attrs, whole.clone()),
            Stmt::Macro(m) => self.attrs(&m.attrs, whole.clone()),
            Stmt::Expr(e, _) => {
                let at = expr_attrs(e).to_vec();
                self.attrs(&at, whole.clone())
            }
            Stmt::Item(i) => {
                if let Item::Fn(f) = i {
                    if cfg_off(&f.attrs) {
                        self.put(vec![(whole.start, whole.end, String::new())], "code that the default features compile out removed", short(self.s(s)));
                    }
                }
            }
        }
        if self.found.is_some() {
            return;
        }
        if let Stmt::Macro(m) = s {
            self.macro_(&m.mac, m.semi_token.is_some());
        }
        visit::visit_stmt(self, s);
    }

    fn visit_arm(&mut self, a: &'ast Arm) {
        if self.found.is_some() {
            return;
        }
        self.attrs(&a.attrs, a.span().byte_range());
        visit::visit_arm(self, a);
    }
    fn visit_field_value(&mut self, a: &'ast FieldValue) {
        if self.found.is_some() {
            return;
        }
        self.attrs(&a.attrs, a.span().byte_range());
        visit::visit_field_value(self, a);
    }

    fn visit_expr(&mut self, e: &'ast Expr) {
        if self.found.is_some() {
            return;
        }
        match e {
            Expr::Macro(m) => self.macro_(&m.mac, false),
            Expr::Closure(c) => {
                for p in &c.inputs {
                    if let Pat::Wild(w) = p {
                        let r = w.span().byte_range();
                        self.put(vec![(r.start, r.end, "vx_ignored".into())], "closure parameter `_` named", short(self.s(e)));
                    }
                }
            }
            Expr::Match(m) => self.match_(m),
            Expr::If(i) => self.if_(i),
            Expr::While(w) if has_let(&w.cond) && !matches!(&*w.cond, Expr::Let(_)) => {
                let mut parts = vec![];
                flatten(&w.cond, &mut parts);
                let mut h = String::new();
                for p in &parts {
                    h += &format!("if {} {{ ", self.s(*p));
                }
                let lab = w.label.as_ref().map(|l| self.s(l).to_string() + " ").unwrap_or_default();
                let mut tail = String::new();
                for _ in &parts {
                    tail += " } else { break; }";
                }
                let r = w.span().byte_range();
                let new = format!("{lab}loop {{ {h}{}{tail} }}", self.s(&w.body));
                self.put(vec![(r.start, r.end, new)], "`while` let chain turned into `loop` with nested `if`", short(self.s(e)));
            }
            Expr::ForLoop(f) => self.for_(f),
            Expr::Loop(l) => {
                let mut b = Breaks { label: l.label.as_ref().map(|l| l.name.ident.to_string()), depth: 0, out: vec![] };
                b.visit_block(&l.body);
                if !b.out.is_empty() {
                    let v = format!("vx_brk{}", self.t.matches("let vx_brk").count() + 1);
                    let r = l.span().byte_range();
                    let mut ed = vec![(r.start, r.start, format!("{{ let {v}; "))];
                    for (at, ex, lab) in &b.out {
                        ed.push((at.start, ex.start, format!("{{ {v} = ")));
                        ed.push((at.end, at.end, format!("; break {lab} }}")));
                    }
                    ed.push((r.end, r.end, format!(" {v} }}")));
                    self.put(ed, "`break` with a value turned into an assignment and a `break`", short(self.s(e)));
                }
            }
            Expr::Path(p) if !self.sub.paths.is_empty() => {
                let k = crate::util::norm(self.s(p));
                if let Some(x) = self.sub.paths.get(&k) {
                    let r = p.span().byte_range();
                    self.put(vec![(r.start, r.end, x.clone())], "library constant replaced by a call with a contract", k);
                }
            }
            Expr::Reference(rf) if self.sub.str_ranges && rf.mutability.is_none() => {
                if let Expr::Unary(u) = &*rf.expr {
                    if matches!(u.op, UnOp::Deref(_)) && matches!(&*u.expr, Expr::Path(_) | Expr::Field(_)) {
                        let r = rf.span().byte_range();
                        let new = format!("vx_text(&{})", self.s(&u.expr));
                        self.put(vec![(r.start, r.end, new)], "explicit dereference of a text turned into a call with a contract", short(self.s(rf)));
                        return;
                    }
                }
                if let Expr::Index(ix) = &*rf.expr {
                    if let Expr::Range(rg) = &*ix.index {
                        let e = self.s(&ix.expr);
                        let closed = matches!(rg.limits, RangeLimits::Closed(_));
                        let a = rg.start.as_ref().map(|x| self.s(x));
                        let b = rg.end.as_ref().map(|x| self.s(x));
                        let new = match (a, b) {
                            (Some(a), None) => format!("vx_str_from(&{e}, {a})"),
                            (a, Some(b)) if !closed => format!("vx_str_range(&{e}, {}, {b})", a.unwrap_or("0")),
                            _ => return visit::visit_expr(self, e_self(ix)),
                        };
                        let r = rf.span().byte_range();
                        self.put(vec![(r.start, r.end, new)], "slice of a string turned into a call with a contract", short(self.s(rf)));
                    }
                }
            }
            // `clone` is the one of the pointer itself
            Expr::MethodCall(mc) if !["vx_txt", "clone", "cloned", "as_ref", "as_mut", "is_some", "is_none", "take", "map", "unwrap"].contains(&mc.method.to_string().as_str()) && self.recv(&mc.receiver).is_some() => {
                let ed = self.recv(&mc.receiver).unwrap();
                self.put(vec![ed], "implicit dereference turned into a call with a contract", short(self.s(e)));
            }
            Expr::Field(f) if self.recv(&f.base).is_some() => {
                let ed = self.recv(&f.base).unwrap();
                self.put(vec![ed], "implicit dereference turned into a call with a contract", short(self.s(e)));
            }
            Expr::MethodCall(mc) if self.sub.option_map && mc.method == "map" && matches!(mc.args.first(), Some(Expr::Closure(c)) if c.inputs.len() == 1) => {
                let Some(Expr::Closure(c)) = mc.args.first() else { unreachable!() };
                let r = mc.span().byte_range();
                let new = format!("match {} {{ Some({}) => Some({}), None => None }}", self.s(&mc.receiver), self.s(&c.inputs[0]), self.s(&c.body));
                self.put(vec![(r.start, r.end, new)], "`Option::map` with a closure turned into a match", short(self.s(e)));
            }
            Expr::MethodCall(mc) if self.sub.option_map && mc.method == "map_or" && mc.args.len() == 2 && matches!(&mc.args[0], Expr::Path(_) | Expr::Lit(_)) && matches!(&mc.args[1], Expr::Closure(c) if c.inputs.len() == 1) => {
                let Expr::Closure(c) = &mc.args[1] else { unreachable!() };
                let r = mc.span().byte_range();
                let new = format!("match {} {{ Some({}) => {}, None => {} }}", self.s(&mc.receiver), self.s(&c.inputs[0]), self.s(&c.body), self.s(&mc.args[0]));
                self.put(vec![(r.start, r.end, new)], "`Option::map_or` with a closure turned into a match", short(self.s(e)));
            }
            // `(0..3).all(|i| …)`
            Expr::MethodCall(mc) if (mc.method == "all" || mc.method == "any") && small_range(&mc.receiver).is_some() && matches!(mc.args.first(), Some(Expr::Closure(c)) if c.inputs.len() == 1 && matches!(c.inputs[0], Pat::Ident(_) | Pat::Wild(_))) => {
                let (lo, hi) = small_range(&mc.receiver).unwrap();
                let Some(Expr::Closure(c)) = mc.args.first() else { unreachable!() };
                let (p, b) = (self.s(&c.inputs[0]), self.s(&c.body));
                let parts: Vec<String> = (lo..hi).map(|i| format!("{{ let {p} = {i}; {b} }}")).collect();
                let r = mc.span().byte_range();
                let new = if mc.method == "all" { format!("({})", parts.iter().map(|x| format!("({x})")).collect::<Vec<_>>().join(" && ")) } else { format!("({})", parts.iter().map(|x| format!("({x})")).collect::<Vec<_>>().join(" || ")) };
                self.put(vec![(r.start, r.end, new)], "`all`/`any` over a short range written out", short(self.s(e)));
            }
            // `b"abc".contains(&c)`
            Expr::MethodCall(mc) if mc.method == "contains" && mc.args.len() == 1 && matches!(&mc.args[0], Expr::Reference(_)) && lit_bytes(&mc.receiver).is_some() => {
                let bytes = lit_bytes(&mc.receiver).unwrap();
                let Expr::Reference(x) = &mc.args[0] else { unreachable!() };
                let x = self.s(&x.expr);
                let alts = bytes.iter().map(|b| format!("vx_c == {b}u8")).collect::<Vec<_>>().join(" || ");
                let r = mc.span().byte_range();
                self.put(vec![(r.start, r.end, format!("{{ let vx_c: u8 = {x}; {alts} }}"))], "`contains` on literal bytes written out", short(self.s(e)));
            }
            Expr::Call(c) if !self.sub.args.is_empty() => {
                let k = self.s(&c.func).rsplit("::").next().unwrap().trim().to_string();
                if let Some((i, h)) = self.sub.args.get(&k) {
                    if let Some(a) = c.args.iter().nth(*i) {
                        let t = self.s(a);
                        if !t.trim_start().starts_with(h.as_str()) && !matches!(a, Expr::Lit(_)) {
                            let r = a.span().byte_range();
                            self.put(vec![(r.start, r.end, format!("{h}({t})"))], "coercion turned into a call with a contract", short(self.s(e)));
                        }
                    }
                }
            }
            Expr::Binary(b) if self.sub.str_ranges && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let lit = |e: &Expr| matches!(e, Expr::Lit(l) if matches!(l.lit, Lit::Str(_)));
                let (l, x) = if lit(&b.right) { (&b.right, &b.left) } else { (&b.left, &b.right) };
                if lit(l) {
                    let not = if matches!(b.op, BinOp::Ne(_)) { "!" } else { "" };
                    let x = match &**x {
                        Expr::Reference(r) => self.s(&r.expr),
                        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.s(&u.expr),
                        _ => self.s(&**x),
                    };
                    let r = b.span().byte_range();
                    self.put(vec![(r.start, r.end, format!("{not}vx_str_eq(vx_text(&{x}), {})", self.s(&**l)))], "comparison with a string literal turned into a call with a contract", short(self.s(e)));
                }
            }
            Expr::MethodCall(mc) if !self.sub.methods.is_empty() => {
                let mut k = mc.method.to_string();
                if let Some(t) = &mc.turbofish {
                    k += &crate::util::norm(self.s(t));
                }
                let args: Vec<&str> = mc.args.iter().map(|a| self.s(a)).collect();
                let mut recv = self.s(&mc.receiver);
                if let Expr::MethodCall(inner) = &*mc.receiver {
                    let k2 = format!("{}.{}", inner.method, k);
                    if self.sub.methods.contains_key(&k2) && inner.args.is_empty() {
                        k = k2;
                        recv = self.s(&inner.receiver);
                    }
                }
                // `?.name`: on what `?` unwraps
                if matches!(&*mc.receiver, Expr::Try(_)) && self.sub.methods.contains_key(&format!("?.{k}")) {
                    k = format!("?.{k}");
                }
                if let Some((h, mode)) = self.sub.methods.get(&k) {
                    if let Some(m) = h.strip_prefix('.') {
                        let r = mc.method.span().byte_range();
                        self.put(vec![(r.start, r.end, m.to_string())], "library method replaced by a call with a contract", k);
                        return visit::visit_expr(self, e);
                    }
                    let mut all = vec![format!("{mode}{recv}")];
                    all.extend(args.iter().map(|x| x.to_string()));
                    let r = mc.span().byte_range();
                    self.put(vec![(r.start, r.end, format!("{h}({})", all.join(", ")))], "library method replaced by a call with a contract", k);
                }
            }
            _ => {}
        }
        if self.found.is_some() {
            return;
        }
        visit::visit_expr(self, e);
    }
}

/// a range of few numbers, written down as literals
fn small_range(e: &Expr) -> Option<(u64, u64)> {
    match e {
        Expr::Paren(p) => small_range(&p.expr),
        Expr::Range(r) => {
            let num = |e: &Option<Box<Expr>>| match e.as_deref() {
                Some(Expr::Lit(l)) => match &l.lit {
                    Lit::Int(i) => i.base10_parse::<u64>().ok(),
                    _ => None,
                },
                _ => None,
            };
            let (lo, hi) = (num(&r.start)?, num(&r.end)?);
            let hi = if matches!(r.limits, RangeLimits::Closed(_)) { hi + 1 } else { hi };
            (lo < hi && hi - lo <= 8).then_some((lo, hi))
        }
        _ => None,
    }
}

/// the bytes of `b"…"` or `[b'x', b'y']`
fn lit_bytes(e: &Expr) -> Option<Vec<u8>> {
    match e {
        Expr::Paren(p) => lit_bytes(&p.expr),
        Expr::Reference(r) => lit_bytes(&r.expr),
        Expr::Lit(l) => match &l.lit {
            Lit::ByteStr(b) if !b.value().is_empty() && b.value().len() <= 32 => Some(b.value()),
            _ => None,
        },
        Expr::Array(a) if !a.elems.is_empty() => a.elems.iter().map(|x| match x {
            Expr::Lit(l) => match &l.lit {
                Lit::Byte(b) => Some(b.value()),
                _ => None,
            },
            _ => None,
        }).collect(),
        _ => None,
    }
}

/// the breaks with a value that leave one loop
struct Breaks {
    label: Option<String>,
    depth: usize,
    out: Vec<(std::ops::Range<usize>, std::ops::Range<usize>, String)>,
}
impl<'ast> Visit<'ast> for Breaks {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Closure(_) => return,
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                self.depth += 1;
                visit::visit_expr(self, e);
                self.depth -= 1;
                return;
            }
            Expr::Break(b) => {
                let mine = match &b.label {
                    None => self.depth == 0,
                    Some(l) => Some(l.ident.to_string()) == self.label,
                };
                if let (true, Some(x)) = (mine, &b.expr) {
                    let lab = b.label.as_ref().map(|l| l.to_string()).unwrap_or_default();
                    self.out.push((b.span().byte_range(), x.span().byte_range(), lab));
                }
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}

fn e_self(ix: &ExprIndex) -> &Expr {
    &ix.expr
}

fn expr_attrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::Block(b) => &b.attrs,
        Expr::If(b) => &b.attrs,
        Expr::Match(b) => &b.attrs,
        Expr::Call(b) => &b.attrs,
        Expr::MethodCall(b) => &b.attrs,
        Expr::While(b) => &b.attrs,
        Expr::Loop(b) => &b.attrs,
        Expr::ForLoop(b) => &b.attrs,
        Expr::Assign(b) => &b.attrs,
        Expr::Binary(b) => &b.attrs,
        Expr::Return(b) => &b.attrs,
        Expr::Macro(b) => &b.attrs,
        Expr::Unsafe(b) => &b.attrs,
        _ => &[],
    }
}

impl<'a> Finder<'a> {
    fn recv(&self, e: &Expr) -> Option<(usize, usize, String)> {
        let Expr::Path(p) = e else { return None };
        let id = p.path.get_ident()?;
        let h = self.sub.recvs.get(&id.to_string())?;
        let r = p.span().byte_range();
        Some((r.start, r.end, format!("{h}(&{id})")))
    }
    fn macro_(&mut self, m: &Macro, _semi: bool) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let r = m.span().byte_range();
        let args = || -> Vec<Expr> {
            m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect())
                .unwrap_or_default()
        };
        match name.as_str() {
            "assert" | "debug_assert" => {
                let a = args();
                if let Some(c) = a.first() {
                    let new = format!("vx_assert({})", self.s(c));
                    self.put(vec![(r.start, r.end, new)], "`assert!` turned into a call with a precondition", short(self.s(m)));
                }
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                let a = args();
                if a.len() >= 2 {
                    let op = if name.ends_with("eq") { "==" } else { "!=" };
                    let new = format!("vx_assert(({}) {op} ({}))", self.s(&a[0]), self.s(&a[1]));
                    self.put(vec![(r.start, r.end, new)], "`assert_eq!` turned into a call with a precondition", short(self.s(m)));
                }
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => {
                if self.s(m).contains("vx_keep") {
                    return;
                }
                self.put(vec![(r.start, r.end, "vx_unreachable()".into())], "panicking macro turned into a call that needs `false`", short(self.s(m)));
            }
            "format" => {
                self.put(vec![(r.start, r.end, "vx_format()".into())], "`format!` result left unspecified", short(self.s(m)));
            }
            "matches" => {
                // matches!(s, "a" | "b")
                fn parse(i: parse::ParseStream) -> syn::Result<(Expr, Pat)> {
                    let e: Expr = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let _: Option<Token![,]> = i.parse()?;
                    Ok((e, p))
                }
                if let Ok((e, p)) = m.parse_body_with(parse) {
                    if is_str_pat(&p) {
                        let conds = self.lit_tests(self.s(&e), &p);
                        self.put(vec![(r.start, r.end, format!("({})", conds.join(" || ")))], "`matches!` on string literals turned into comparisons", short(self.s(m)));
                    }
                }
            }
            "vec" => {}
            _ => self.err = Some(format!("macro `{name}!` is not supported")),
        }
    }

    fn match_(&mut self, m: &ExprMatch) {
        // match [a, b] { [p, q] => .. }
        if let Expr::Array(arr) = &*m.expr {
            if m.arms.iter().any(|a| contains_slice_pat(&a.pat)) {
                let mut ed = vec![];
                let r = arr.bracket_token.span;
                let (o, c) = (r.open().byte_range(), r.close().byte_range());
                ed.push((o.start, o.end, "(".to_string()));
                ed.push((c.start, c.end, ")".to_string()));
                for a in &m.arms {
                    if !slice_pat_edits(&a.pat, &mut ed) {
                        self.err = Some(format!("slice pattern `{}` not supported", self.s(&a.pat)));
                        return;
                    }
                }
                self.put(ed, "match on an array of scalars turned into a match on a tuple", short(self.s(&m.expr)));
                return;
            }
        }
        // p | q if g => b
        for a in &m.arms {
            if a.guard.is_some() && contains_or(&a.pat) {
                let mut l = Loops(vec![]);
                l.visit_expr(&a.body);
                if !l.0.is_empty() {
                    self.err = Some(format!("or-pattern with a guard on an arm with loops: `{}`", self.s(&a.pat)));
                    return;
                }
                let body = self.s(&a.body);
                let guard = self.s(&a.guard.as_ref().unwrap().1);
                let Some(alts) = expand_or(self.t, &a.pat) else {
                    self.err = Some(format!("or-pattern with a guard `{}` not supported", self.s(&a.pat)));
                    return;
                };
                let new: String = alts.iter().map(|p| format!("{p} if {guard} => {{ {body} }}\n")).collect();
                let r = a.span().byte_range();
                self.put(vec![(r.start, r.end, new)], "match arm with or-pattern and guard split", short(self.s(&a.pat)));
                return;
            }
        }
        // match <bytes or str> { b"..." => a, _ => b }
        let lit_arm = |a: &Arm| is_str_pat(&a.pat);
        if m.arms.iter().any(lit_arm) {
            let n = m.arms.len();
            let wild = |a: &Arm| matches!(a.pat, Pat::Wild(_));
            let ok = m.arms.iter().enumerate().all(|(i, a)| {
                if i + 1 == n { wild(a) && a.guard.is_none() } else { (wild(a) && a.guard.is_some()) || lit_arm(a) }
            });
            if !ok {
                self.err = Some(format!("match on string literals `{}` of unsupported shape", short(self.s(&m.expr))));
                return;
            }
            let mut out = String::new();
            let sc = self.s(&m.expr);
            for (i, a) in m.arms.iter().enumerate() {
                if i + 1 == n {
                    out += &format!("{{ {} }}", self.s(&a.body));
                } else {
                    let mut cond = if wild(a) { String::new() } else { format!("({})", self.lit_tests(sc, &a.pat).join(" || ")) };
                    if let Some((_, g)) = &a.guard {
                        if !cond.is_empty() {
                            cond += " && ";
                        }
                        cond += &format!("({})", self.s(g));
                    }
                    out += &format!("if {cond} {{ {} }} else ", self.s(&a.body));
                }
            }
            let r = m.span().byte_range();
            self.put(vec![(r.start, r.end, out)], "match on string literals turned into an if chain", short(sc));
        }
    }

    fn lit_tests(&self, sc: &str, p: &Pat) -> Vec<String> {
        let mut lits = vec![];
        collect_lits(p, &mut lits);
        lits.iter()
            .map(|l| match l {
                Lit::ByteStr(b) => format!("vx_bytes_eq({sc}, &[{}])", b.value().iter().map(|x| format!("{x}u8")).collect::<Vec<_>>().join(", ")),
                _ => format!("vx_str_eq({sc}, {})", self.s(l)),
            })
            .collect()
    }

    fn if_(&mut self, i: &ExprIf) {
        if !has_let(&i.cond) || matches!(&*i.cond, Expr::Let(_)) {
            return;
        }
        let mut parts = vec![];
        flatten(&i.cond, &mut parts);
        // join neighbouring plain conditions
        let mut conds: Vec<String> = vec![];
        let mut plain = false;
        for p in parts {
            let islet = matches!(p, Expr::Let(_));
            let s = self.s(p).to_string();
            if !islet && plain {
                let l = conds.last_mut().unwrap();
                *l = format!("{l} && {s}");
            } else {
                conds.push(s);
            }
            plain = !islet;
        }
        let els = i.else_branch.as_ref().map(|(_, e)| self.s(e).to_string());
        let then = self.s(&i.then_branch).to_string();
        let mut out = then;
        for (k, c) in conds.iter().enumerate().rev() {
            let e = match &els {
                Some(x) => format!(" else {x}"),
                None => String::new(),
            };
            out = if k + 1 == conds.len() { format!("if {c} {out}{e}") } else { format!("if {c} {{ {out} }}{e}") };
        }
        let r = i.span().byte_range();
        self.put(vec![(r.start, r.end, out)], "`if` let chain turned into nested `if`", short(self.s(&i.cond)));
    }

    fn for_(&mut self, f: &ExprForLoop) {
        let k = self.n;
        let r = f.span().byte_range();
        let lab = f.label.as_ref().map(|l| self.s(l).to_string() + " ").unwrap_or_default();
        let pat = self.s(&f.pat);
        let inner = {
            let b = f.body.span().byte_range();
            &self.t[b.start + 1..b.end - 1]
        };
        let new = match &*f.expr {
            Expr::Range(rg) => {
                let lo = rg.start.as_ref().map(|e| self.s(e)).unwrap_or("0");
                let Some(hi) = rg.end.as_ref() else { return };
                let hi = self.s(hi);
                let cmp = if matches!(rg.limits, RangeLimits::Closed(_)) { "<=" } else { "<" };
                if cmp == "<=" {
                    self.err = Some("inclusive range loop not supported".into());
                    return;
                }
                format!("{{ let vx_hi{k} = {hi}; let mut vx_i{k} = vx_same(vx_hi{k}, {lo}); {lab}while vx_i{k} < vx_hi{k} {{ let {pat} = vx_i{k}; vx_i{k} += 1; {inner} }} }}")
            }
            Expr::Reference(rf) => {
                let v = self.s(&rf.expr);
                let m = if rf.mutability.is_some() { "&mut " } else { "&" };
                // `for &x in &v`
                if let Pat::Reference(pr) = &*f.pat {
                    let p = self.s(&pr.pat);
                    format!("{{ let mut vx_i{k}: usize = 0; {lab}while vx_i{k} < {v}.len() {{ let {p} = {v}[vx_i{k}]; vx_i{k} += 1; {inner} }} }}")
                } else {
                    format!("{{ let mut vx_i{k}: usize = 0; {lab}while vx_i{k} < {v}.len() {{ let {pat} = {m}{v}[vx_i{k}]; vx_i{k} += 1; {inner} }} }}")
                }
            }
            Expr::MethodCall(mc) if (mc.method == "iter" || mc.method == "iter_mut") && mc.args.is_empty() => {
                let v = self.s(&mc.receiver);
                let m = if mc.method == "iter_mut" { "&mut " } else { "&" };
                format!("{{ let mut vx_i{k}: usize = 0; {lab}while vx_i{k} < {v}.len() {{ let {pat} = {m}{v}[vx_i{k}]; vx_i{k} += 1; {inner} }} }}")
            }
            _ => {
                self.err = Some(format!("for loop over `{}` not supported", short(self.s(&f.expr))));
                return;
            }
        };
        self.put(vec![(r.start, r.end, new)], "`for` turned into an index loop", short(&format!("for {pat} in {}", self.s(&f.expr))));
    }
}

fn contains_or(p: &Pat) -> bool {
    match p {
        Pat::Or(_) => true,
        Pat::Tuple(t) => t.elems.iter().any(contains_or),
        Pat::Paren(p) => contains_or(&p.pat),
        Pat::TupleStruct(t) => t.elems.iter().any(contains_or),
        _ => false,
    }
}
fn expand_or(t: &str, p: &Pat) -> Option<Vec<String>> {
    let cart = |es: Vec<Vec<String>>| -> Vec<String> {
        es.into_iter().fold(vec![String::new()], |acc, e| {
            acc.iter().flat_map(|a| e.iter().map(move |x| if a.is_empty() { x.clone() } else { format!("{a}, {x}") })).collect()
        })
    };
    Some(match p {
        Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(expand_or(t, c)?);
            }
            v
        }
        Pat::Paren(p) => expand_or(t, &p.pat)?,
        Pat::Tuple(tp) => {
            let es: Option<Vec<_>> = tp.elems.iter().map(|e| expand_or(t, e)).collect();
            cart(es?).into_iter().map(|s| format!("({s})")).collect()
        }
        Pat::TupleStruct(tp) => {
            let es: Option<Vec<_>> = tp.elems.iter().map(|e| expand_or(t, e)).collect();
            let h = &t[tp.path.span().byte_range()];
            cart(es?).into_iter().map(|s| format!("{h}({s})")).collect()
        }
        _ => vec![t[p.span().byte_range()].to_string()],
    })
}
fn is_str_pat(p: &Pat) -> bool {
    match p {
        Pat::Lit(l) => matches!(l.lit, Lit::ByteStr(_) | Lit::Str(_)),
        Pat::Or(o) => o.cases.iter().all(is_str_pat),
        _ => false,
    }
}
fn collect_lits(p: &Pat, out: &mut Vec<Lit>) {
    match p {
        Pat::Lit(l) => out.push(l.lit.clone()),
        Pat::Or(o) => o.cases.iter().for_each(|c| collect_lits(c, out)),
        _ => {}
    }
}
fn contains_slice_pat(p: &Pat) -> bool {
    match p {
        Pat::Slice(_) => true,
        Pat::Or(o) => o.cases.iter().any(contains_slice_pat),
        _ => false,
    }
}
fn slice_pat_edits(p: &Pat, ed: &mut Vec<Edit>) -> bool {
    match p {
        Pat::Slice(s) => {
            if s.elems.iter().any(|e| matches!(e, Pat::Rest(_))) {
                return false;
            }
            let r = s.bracket_token.span;
            let (o, c) = (r.open().byte_range(), r.close().byte_range());
            ed.push((o.start, o.end, "(".into()));
            ed.push((c.start, c.end, ")".into()));
            true
        }
        Pat::Or(o) => o.cases.iter().all(|c| slice_pat_edits(c, ed)),
        Pat::Wild(_) => true,
        Pat::Ident(i) => i.subpat.is_none(),
        _ => false,
    }
}

pub fn desugar(t: &str, sub: &Subst) -> std::result::Result<(String, Vec<(String, String)>), String> {
    let mut t = t.to_string();
    let mut log = vec![];
    params(&mut t, &mut log)?;
    for n in 0..2000 {
        let f = parse_fn(&t)?;
        let mut v = Finder { t: &t, found: None, err: None, n, sub };
        if let Some(b) = f.body() {
            v.visit_block(b);
        }
        if let Some(e) = v.err {
            return Err(e);
        }
        match v.found {
            None => return Ok((t, log)),
            Some((e, k, w)) => {
                t = apply(&t, e);
                log.push((k, w));
            }
        }
    }
    Err("too many rewrites".into())
}

/// parameters the verifier does not take: `_: T` gets a name, `mut self` becomes a local
fn params(t: &mut String, log: &mut Vec<(String, String)>) -> std::result::Result<(), String> {
    let mut ed: Vec<Edit> = vec![];
    {
        let f = parse_fn(t)?;
        for (i, a) in f.sig().inputs.iter().enumerate() {
            match a {
                FnArg::Typed(p) if matches!(&*p.pat, Pat::Wild(_)) => {
                    let r = p.pat.span().byte_range();
                    ed.push((r.start, r.end, format!("vx_p{i}")));
                    log.push(("parameter `_` named".into(), format!("vx_p{i}")));
                }
                FnArg::Receiver(r) if r.reference.is_none() && r.mutability.is_some() => {
                    let (Some(b), m) = (f.body(), r.mutability.unwrap().span.byte_range()) else { continue };
                    ed.push((m.start, m.end, String::new()));
                    let br = b.span().byte_range();
                    ed.push((br.start + 1, br.start + 1, " let mut vx_self = self; ".into()));
                    struct S(Vec<std::ops::Range<usize>>);
                    impl<'ast> Visit<'ast> for S {
                        fn visit_path(&mut self, p: &'ast Path) {
                            if p.is_ident("self") {
                                self.0.push(p.span().byte_range());
                            }
                            visit::visit_path(self, p);
                        }
                    }
                    let mut v = S(vec![]);
                    v.visit_block(b);
                    for r in v.0 {
                        ed.push((r.start, r.end, "vx_self".into()));
                    }
                    log.push(("`mut self` turned into a mutable local".into(), "self".into()));
                }
                _ => {}
            }
        }
    }
    if !ed.is_empty() {
        *t = apply(t, ed);
    }
    Ok(())
}

/// `Struct { .. }` literals get the ghost fields of the overlay.
pub fn ghost_init(t: &str, strukt: &str, own: bool, fields: &[(String, String, String)]) -> std::result::Result<Option<String>, String> {
    struct V<'a>(&'a str, Vec<usize>, bool);
    impl<'a, 'ast> Visit<'ast> for V<'a> {
        fn visit_expr_struct(&mut self, e: &'ast ExprStruct) {
            let id = &e.path.segments.last().unwrap().ident;
            if (id == self.0 || self.2 && id == "Self") && e.rest.is_none() {
                self.1.push(e.brace_token.span.close().byte_range().start);
            }
            visit::visit_expr_struct(self, e);
        }
    }
    let f = parse_fn(t)?;
    let mut v = V(strukt, vec![], own);
    if let Some(b) = f.body() {
        v.visit_block(b);
    }
    if v.1.is_empty() {
        return Ok(None);
    }
    let txt: String = fields.iter().map(|(n, _, i)| format!("{n}: {i}, ")).collect();
    Ok(Some(apply(t, v.1.into_iter().map(|p| {
        let before = t[..p].trim_end();
        let comma = if before.ends_with(',') || before.ends_with('{') { "" } else { ", " };
        (p, p, format!("{comma}{txt}"))
    }).collect())))
}

/// the locals an expression speaks of
#[derive(Default)]
struct Locals(std::collections::BTreeSet<String>);
impl<'ast> Visit<'ast> for Locals {
    fn visit_expr_path(&mut self, e: &'ast ExprPath) {
        if let Some(i) = e.path.get_ident() {
            let i = i.to_string();
            if i != "self" && i.starts_with(|c: char| c.is_lowercase() || c == '_') {
                self.0.insert(i);
            }
        }
    }
    fn visit_expr_call(&mut self, e: &'ast ExprCall) {
        for a in &e.args {
            self.visit_expr(a);
        }
    }
}

/// closures, of which the verifier knows nothing
struct Closures(usize);
impl<'ast> Visit<'ast> for Closures {
    fn visit_expr_closure(&mut self, e: &'ast ExprClosure) {
        self.0 += 1;
        visit::visit_expr_closure(self, e);
    }
}

struct Loops(Vec<(usize, usize, usize, usize, Option<String>, char, usize)>); // whole start, body open brace, body close, whole end; the counter of a desugared range; kind; locals in the condition
impl<'ast> Visit<'ast> for Loops {
    fn visit_expr_while(&mut self, e: &'ast ExprWhile) {
        let b = e.body.span().byte_range();
        let w = e.span().byte_range();
        let counter = match &*e.cond {
            Expr::Binary(x) => match &*x.left {
                Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()).and_then(|i| i.strip_prefix("vx_i").map(str::to_string)),
                _ => None,
            },
            _ => None,
        };
        let kind = if counter.is_some() { 'r' } else { 'w' };
        let mut l = Locals::default();
        if kind == 'w' {
            l.visit_expr(&e.cond);
        }
        self.0.push((w.start, b.start, b.end - 1, w.end, counter, kind, l.0.len()));
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'ast ExprLoop) {
        let b = e.body.span().byte_range();
        let w = e.span().byte_range();
        self.0.push((w.start, b.start, b.end - 1, w.end, None, 'l', 0));
        visit::visit_expr_loop(self, e);
    }
    fn visit_expr_for_loop(&mut self, e: &'ast ExprForLoop) {
        let b = e.body.span().byte_range();
        let w = e.span().byte_range();
        self.0.push((w.start, b.start, b.end - 1, w.end, None, 'f', 0));
        visit::visit_expr_for_loop(self, e);
    }
}

/// calls in text order, each with the statement (range) that holds it
struct Calls {
    out: Vec<(String, usize, (usize, usize), bool, (usize, usize))>,
    stmt: Vec<((usize, usize), bool)>,
}
impl<'ast> Visit<'ast> for Calls {
    fn visit_block(&mut self, b: &'ast Block) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            let r = s.span().byte_range();
            let is_tail = i + 1 == n && matches!(s, Stmt::Expr(_, None));
            self.stmt.push(((r.start, r.end), is_tail));
            self.visit_stmt(s);
            self.stmt.pop();
        }
    }
    fn visit_arm(&mut self, a: &'ast Arm) {
        if let Some((_, g)) = &a.guard {
            self.visit_expr(g);
        }
        let r = a.body.span().byte_range();
        self.stmt.push(((r.start, r.end), true));
        self.visit_expr(&a.body);
        self.stmt.pop();
    }
    fn visit_expr_method_call(&mut self, e: &'ast ExprMethodCall) {
        self.visit_expr(&e.receiver);
        if let Some(s) = self.stmt.last() {
            let r = e.span().byte_range();
            self.out.push((e.method.to_string(), e.method.span().byte_range().start, s.0, s.1, (r.start, r.end)));
        }
        for a in &e.args {
            self.visit_expr(a);
        }
    }
    fn visit_expr_call(&mut self, e: &'ast ExprCall) {
        if let Expr::Path(p) = &*e.func {
            if let Some(s) = self.stmt.last() {
                let n = p.path.segments.last().unwrap().ident.to_string();
                let r = e.span().byte_range();
                self.out.push((n, p.span().byte_range().start, s.0, s.1, (r.start, r.end)));
            }
        } else {
            self.visit_expr(&e.func);
        }
        for a in &e.args {
            self.visit_expr(a);
        }
    }
}

pub fn annotate(t: &str, fs: &FnSpec, soft: bool) -> std::result::Result<(String, Vec<usize>, String), String> {
    let f = parse_fn(t)?;
    let sig = f.sig();
    let mut ed: Vec<Edit> = vec![];
    if let ReturnType::Type(_, ty) = &sig.output {
        let r = ty.span().byte_range();
        ed.push((r.start, r.start, "(ret: ".into()));
        ed.push((r.end, r.end, ")".into()));
    }
    let mut lp = Loops(vec![]);
    let mut used = vec![];
    let specpos = match f.body() {
        Some(b) => b.span().byte_range().start,
        None => t.rfind(';').unwrap_or(t.len()),
    };
    if !fs.spec.trim().is_empty() {
        ed.push((specpos, specpos, format!("\n{}\n", fs.spec.trim_end())));
    }
    let Some(b) = f.body() else {
        return Ok((apply(t, ed), used, String::new()));
    };
    if fs.external {
        return Ok((apply(t, ed), used, String::new()));
    }
    lp.visit_block(b);
    lp.0.sort();
    for (n, inv) in &fs.loops {
        if let Some(l) = lp.0.get(n - 1) {
            ed.push((l.1, l.1, format!("\n{}\n", inv.trim_end())));
            used.push(*n);
        }
    }
    for (i, l) in lp.0.iter().enumerate() {
        // a counted loop without a contract ends
        if let (Some(k), false) = (&l.4, fs.loops.contains_key(&(i + 1))) {
            ed.push((l.1, l.1, format!("\n    decreases vx_hi{k} - vx_i{k}\n")));
        }
    }
    let mut calls = Calls { out: vec![], stmt: vec![] };
    calls.visit_block(b);
    calls.out.sort_by_key(|c| c.1);
    let br = b.span().byte_range();
    let mut opens: [Vec<Edit>; 3] = Default::default();
    let mut closes: [Vec<Edit>; 3] = Default::default();
    for (anchor, body) in &fs.ats {
        let body = format!("\n{}\n", body.trim_end());
        let w: Vec<&str> = anchor.split_whitespace().collect();
        // in soft mode a hint whose place is gone is left out
        macro_rules! place {
            ($o:expr, $m:expr) => {
                match $o {
                    Some(x) => x,
                    None if soft => continue,
                    None => return Err($m),
                }
            };
        }
        match w[0] {
            "start" => ed.push((br.start + 1, br.start + 1, body)),
            "end" => ed.push((br.end - 1, br.end - 1, body)),
            "exit" => {
                ed.push((br.start + 1, br.start + 1, " let vx_ret = {".into()));
                ed.push((br.end - 1, br.end - 1, format!("}};\n{body}\nvx_ret ")));
            }
            "loop" => {
                let n: usize = w[1].parse().map_err(|_| "loop anchor")?;
                let l = place!(lp.0.get(n - 1), format!("anchor `{anchor}`: no such loop"));
                match w[2] {
                    "before" => ed.push((l.0, l.0, body)),
                    "start" => ed.push((l.1 + 1, l.1 + 1, body)),
                    "end" => ed.push((l.2, l.2, body)),
                    "after" => ed.push((l.3, l.3, body)),
                    x => return Err(format!("anchor {x}")),
                }
            }
            "before" | "after" | "around" => {
                // before call name#k
                let (name, k) = match w[2].split_once('#') {
                    Some((n, k)) => (n, k.parse::<usize>().map_err(|_| "k")?),
                    None => (w[2], 1),
                };
                let c = place!(calls.out.iter().filter(|c| c.0 == name).nth(k - 1), format!("anchor `{anchor}`: call not found"));
                let (s, e) = c.2;
                // nested as { before; { let v = ({ let v = call; around v }); after v } }
                if w[0] == "around" {
                    let (s, e) = c.4;
                    opens[2].push((s, s, "({ let vx_v = ".into()));
                    closes[0].push((e, e, format!("; {body} vx_v }})")));
                } else if w[0] == "before" {
                    if c.3 {
                        opens[0].push((s, s, format!("{{ {body}")));
                        closes[2].push((e, e, " }".into()));
                    } else {
                        opens[0].push((s, s, body));
                    }
                } else if c.3 {
                    opens[1].push((s, s, "{ let vx_v = ".into()));
                    closes[1].push((e, e, format!("; {body} vx_v }}")));
                } else {
                    closes[1].push((e, e, body));
                }
            }
            "text" => {
                // text before|after <snippet ...>
                let sn = anchor.splitn(3, ' ').nth(2).unwrap();
                let r = place!(find_ws(t, sn), format!("anchor text `{sn}` not found"));
                let p = if w[1] == "before" { r.start } else { r.end };
                ed.push((p, p, body));
            }
            x => return Err(format!("unknown anchor {x}")),
        }
    }
    ed.extend(opens.into_iter().flatten());
    ed.extend(closes.into_iter().flatten());
    let mut shape: String = lp.0.iter().map(|l| if l.6 == 0 { l.5.to_string() } else { format!("{}{}", l.5, l.6) }).collect();
    let mut cl = Closures(0);
    if let Some(b) = f.body() {
        cl.visit_block(b);
    }
    if cl.0 > 0 {
        shape += &format!(" c{}", cl.0);
    }
    Ok((apply(t, ed), used, shape))
}
