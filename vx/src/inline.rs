//! Helpers that the overlay does not know (a refactoring extracted them) are put back at their
//! call sites: `self.h(a, b)` becomes `{ let p: T = a; let q: U = b; <body> }`.
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::*;

pub struct Inliner<'a> {
    pub text: &'a str,
    pub helpers: &'a BTreeMap<String, ImplItemFn>,
    pub unknown: &'a BTreeSet<String>,
}

struct Ret {
    ret: bool,
    ret_ok: bool, // a `return` that is not `return Err(..)`
    q: bool,
}
impl<'ast> Visit<'ast> for Ret {
    fn visit_expr_return(&mut self, e: &'ast ExprReturn) {
        self.ret = true;
        let is_err = match e.expr.as_deref() {
            Some(Expr::Call(c)) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")),
            _ => false,
        };
        if !is_err {
            self.ret_ok = true;
        }
        visit::visit_expr_return(self, e);
    }
    fn visit_expr_try(&mut self, e: &'ast ExprTry) {
        self.q = true;
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_item(&mut self, _: &'ast Item) {}
}

struct Find<'b> {
    unknown: &'b BTreeSet<String>,
    owner: &'b str,
    // call range, name, args ranges, directly under `?`, tail position
    hit: Option<((usize, usize), String, Vec<(usize, usize)>, bool, bool)>,
    tails: Vec<(usize, usize)>,
    skip: &'b BTreeSet<(usize, String)>,
}
impl<'b> Find<'b> {
    fn consider(&mut self, e: &Expr, under_try: bool) {
        let (name, args) = match e {
            Expr::MethodCall(m) => {
                if !matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) {
                    return;
                }
                (m.method.to_string(), m.args.iter().map(|a| a.span().byte_range()).map(|r| (r.start, r.end)).collect())
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.path.segments.len() == 2 && (p.path.segments[0].ident == "Self" || p.path.segments[0].ident == self.owner) => (
                    p.path.segments[1].ident.to_string(),
                    c.args.iter().map(|a| a.span().byte_range()).map(|r| (r.start, r.end)).collect::<Vec<_>>(),
                ),
                _ => return,
            },
            _ => return,
        };
        let r = e.span().byte_range();
        if self.hit.is_none() && self.unknown.contains(&name) && !self.skip.contains(&(r.start, name.clone())) {
            let tail = self.tails.contains(&(r.start, r.end));
            self.hit = Some(((r.start, r.end), name, args, under_try, tail));
        }
    }
}
impl<'b, 'ast> Visit<'ast> for Find<'b> {
    fn visit_expr_try(&mut self, e: &'ast ExprTry) {
        self.consider(&e.expr, true);
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_return(&mut self, e: &'ast ExprReturn) {
        if let Some(x) = &e.expr {
            let r = x.span().byte_range();
            self.tails.push((r.start, r.end));
        }
        visit::visit_expr_return(self, e);
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        // innermost calls first
        visit::visit_expr(self, e);
        self.consider(e, false);
    }
}
fn tail_exprs(b: &Block, out: &mut Vec<(usize, usize)>) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
        tail_expr(e, out);
    }
}
fn tail_expr(e: &Expr, out: &mut Vec<(usize, usize)>) {
    let r = e.span().byte_range();
    out.push((r.start, r.end));
    match e {
        Expr::Block(b) => tail_exprs(&b.block, out),
        Expr::If(i) => {
            tail_exprs(&i.then_branch, out);
            if let Some((_, e)) = &i.else_branch {
                tail_expr(e, out);
            }
        }
        Expr::Match(m) => m.arms.iter().for_each(|a| tail_expr(&a.body, out)),
        _ => {}
    }
}

pub fn inline_all(t: &str, owner: &str, inl: &Inliner) -> std::result::Result<(String, Vec<String>, Vec<String>), String> {
    let mut t = t.to_string();
    let mut done = vec![];
    let mut left: Vec<String> = vec![];
    if inl.unknown.is_empty() {
        return Ok((t, done, left));
    }
    let mut skip: BTreeSet<(usize, String)> = BTreeSet::new();
    for _ in 0..200 {
        let f = parse_fn(&t)?;
        let Some(b) = f.body() else { break };
        let mut tails = vec![];
        tail_exprs(b, &mut tails);
        let mut v = Find { unknown: inl.unknown, owner, hit: None, tails, skip: &skip };
        v.visit_block(b);
        let Some((r, name, args, under_try, tail)) = v.hit else { break };
        let h = &inl.helpers[&name];
        let mut rv = Ret { ret: false, ret_ok: false, q: false };
        rv.visit_block(&h.block);
        let can = (!rv.ret && !rv.q) || tail || (under_try && !rv.ret_ok);
        // recursion is never inlined
        struct Rec<'c>(&'c str, bool);
        impl<'c, 'ast> Visit<'ast> for Rec<'c> {
            fn visit_expr_method_call(&mut self, e: &'ast ExprMethodCall) {
                if e.method == self.0 {
                    self.1 = true;
                }
                visit::visit_expr_method_call(self, e);
            }
        }
        let mut rc = Rec(&name, false);
        rc.visit_block(&h.block);
        if !can || rc.1 || !h.sig.generics.params.is_empty() {
            skip.insert((r.0, name.clone()));
            if !left.contains(&name) {
                left.push(name);
            }
            continue;
        }
        let mut params = vec![];
        for i in &h.sig.inputs {
            if let FnArg::Typed(p) = i {
                params.push((
                    inl.text[p.pat.span().byte_range()].to_string(),
                    inl.text[p.ty.span().byte_range()].to_string(),
                ));
            }
        }
        if params.len() != args.len() {
            return Err(format!("call of `{name}` has {} arguments", args.len()));
        }
        let mut s = String::from("{ ");
        // two steps so that an argument never sees a parameter of the same name
        for (i, a) in args.iter().enumerate() {
            s += &format!("let vx_a{i}: {} = {}; ", params[i].1, &t[a.0..a.1]);
        }
        for (i, p) in params.iter().enumerate() {
            s += &format!("let {} = vx_a{i}; ", p.0);
        }
        let body = &inl.text[h.block.span().byte_range()];
        let inner = body[1..body.len() - 1].trim();
        match &h.sig.output {
            ReturnType::Type(_, ty) if !tail || !rv.ret => {
                s += &format!("let vx_r: {} = {{ {inner} }}; vx_r }}", &inl.text[ty.span().byte_range()]);
            }
            _ => s += &format!("{inner} }}"),
        }
        t.replace_range(r.0..r.1, &s);
        skip.clear();
        done.push(name);
    }
    Ok((t, done, left))
}
