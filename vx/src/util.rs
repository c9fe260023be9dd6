use syn::spanned::Spanned;

pub fn norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
pub fn short(s: &str) -> String {
    let n = norm(s);
    if n.chars().count() > 100 {
        n.chars().take(100).collect::<String>() + ".."
    } else {
        n
    }
}

/// Some(true): the cfg is off in the default build; Some(false): on; None: unknown
fn cfg_eval(m: &syn::Meta) -> Option<bool> {
    match m {
        syn::Meta::Path(p) => {
            if p.is_ident("test") || p.is_ident("kani") || p.is_ident("verus_keep_ghost") {
                Some(false)
            } else {
                None
            }
        }
        syn::Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                Some(false)
            } else {
                None
            }
        }
        syn::Meta::List(l) => {
            if l.path.is_ident("not") {
                let inner: syn::Meta = l.parse_args().ok()?;
                cfg_eval(&inner).map(|b| !b)
            } else {
                None
            }
        }
    }
}

pub fn cfg_state(a: &syn::Attribute) -> Option<bool> {
    if !a.path().is_ident("cfg") {
        return None;
    }
    let m: syn::Meta = a.parse_args().ok()?;
    cfg_eval(&m)
}
pub fn cfg_off(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| cfg_state(a) == Some(false))
}

pub enum AnyFn {
    Item(syn::ItemFn),
    Impl(syn::ImplItemFn),
    Trait(syn::TraitItemFn),
}
impl AnyFn {
    pub fn sig(&self) -> &syn::Signature {
        match self {
            AnyFn::Item(f) => &f.sig,
            AnyFn::Impl(f) => &f.sig,
            AnyFn::Trait(f) => &f.sig,
        }
    }
    pub fn body(&self) -> Option<&syn::Block> {
        match self {
            AnyFn::Item(f) => Some(&f.block),
            AnyFn::Impl(f) => Some(&f.block),
            AnyFn::Trait(f) => f.default.as_ref(),
        }
    }
    pub fn block(&self) -> Option<std::ops::Range<usize>> {
        self.body().map(|b| b.span().byte_range())
    }
    pub fn attrs(&self) -> &[syn::Attribute] {
        match self {
            AnyFn::Item(f) => &f.attrs,
            AnyFn::Impl(f) => &f.attrs,
            AnyFn::Trait(f) => &f.attrs,
        }
    }
}

pub fn parse_fn(t: &str) -> Result<AnyFn, String> {
    if let Ok(f) = syn::parse_str::<syn::ImplItemFn>(t) {
        return Ok(AnyFn::Impl(f));
    }
    if let Ok(f) = syn::parse_str::<syn::TraitItemFn>(t) {
        return Ok(AnyFn::Trait(f));
    }
    syn::parse_str::<syn::ItemFn>(t).map(AnyFn::Item).map_err(|e| format!("cannot parse function: {e}"))
}

/// Remove outer attributes and visibility of a function, mark it `pub` outside traits.
pub fn strip_fn(src: &str) -> String {
    let f = match parse_fn(src) {
        Ok(f) => f,
        Err(_) => return src.to_string(),
    };
    let sig = f.sig();
    let mut start = sig.fn_token.span.byte_range().start;
    if let Some(c) = &sig.constness {
        start = start.min(c.span().byte_range().start);
    }
    if let Some(u) = &sig.unsafety {
        start = start.min(u.span().byte_range().start);
    }
    let mut s = src[start..].to_string();
    if let AnyFn::Impl(i) = &f {
        if !matches!(i.vis, syn::Visibility::Inherited) {
            s = format!("pub {s}");
        }
    }
    s
}

/// Remove attributes (incl. doc comments) and visibility everywhere in a type definition, then
/// make the item and its fields public.
pub fn strip_item(t: &str) -> String {
    struct V(Vec<(usize, usize, String)>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_attribute(&mut self, a: &'a syn::Attribute) {
            let r = a.span().byte_range();
            self.0.push((r.start, r.end, String::new()));
        }
        fn visit_visibility(&mut self, v: &'a syn::Visibility) {
            if !matches!(v, syn::Visibility::Inherited) {
                let r = v.span().byte_range();
                self.0.push((r.start, r.end, String::new()));
            }
        }
        fn visit_field(&mut self, f: &'a syn::Field) {
            syn::visit::visit_field(self, f);
        }
        fn visit_item_struct(&mut self, s: &'a syn::ItemStruct) {
            syn::visit::visit_item_struct(self, s);
            let p = s.struct_token.span.byte_range().start;
            self.0.push((p, p, "pub ".into()));
            for f in &s.fields {
                let p = match &f.ident {
                    Some(i) => i.span().byte_range().start,
                    None => f.ty.span().byte_range().start,
                };
                self.0.push((p, p, "pub ".into()));
            }
        }
        fn visit_item_enum(&mut self, s: &'a syn::ItemEnum) {
            syn::visit::visit_item_enum(self, s);
            let p = s.enum_token.span.byte_range().start;
            self.0.push((p, p, "pub ".into()));
        }
        fn visit_item_type(&mut self, s: &'a syn::ItemType) {
            syn::visit::visit_item_type(self, s);
            let p = s.type_token.span.byte_range().start;
            self.0.push((p, p, "pub ".into()));
        }
        fn visit_item_const(&mut self, s: &'a syn::ItemConst) {
            syn::visit::visit_item_const(self, s);
            let p = s.const_token.span.byte_range().start;
            self.0.push((p, p, "pub ".into()));
        }
    }
    let Ok(it) = syn::parse_str::<syn::Item>(t) else { return t.to_string() };
    let mut v = V(vec![]);
    syn::visit::Visit::visit_item(&mut v, &it);
    apply(t, v.0)
}

pub fn apply(t: &str, mut e: Vec<(usize, usize, String)>) -> String {
    // stable: insertions at one place keep their order
    e.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));
    let mut s = t.to_string();
    for (a, b, n) in e.into_iter().rev() {
        s.replace_range(a..b, &n);
    }
    s
}

/// find `pat` in `t`, ignoring differences in whitespace
pub fn find_ws(t: &str, pat: &str) -> Option<std::ops::Range<usize>> {
    let p: Vec<char> = pat.chars().filter(|c| !c.is_whitespace()).collect();
    let cs: Vec<(usize, char)> = t.char_indices().filter(|(_, c)| !c.is_whitespace()).collect();
    if p.is_empty() || cs.len() < p.len() {
        return None;
    }
    for i in 0..=cs.len() - p.len() {
        if (0..p.len()).all(|k| cs[i + k].1 == p[k]) {
            let last = cs[i + p.len() - 1];
            return Some(cs[i].0..last.0 + last.1.len_utf8());
        }
    }
    None
}

/// The items that `name!(type);` produces for one-rule macros of the form `($x:ty) => { items }`.
pub fn expand_macros(text: &str, f: &syn::File) -> String {
    let mut out = String::new();
    for i in &f.items {
        let syn::Item::Macro(m) = i else { continue };
        let (None, Some(name)) = (&m.ident, m.mac.path.get_ident()) else { continue };
        for d in &f.items {
            let syn::Item::Macro(d) = d else { continue };
            if d.ident.as_ref() != Some(name) {
                continue;
            }
            let body = &text[d.mac.tokens.span().byte_range()];
            let Some((pat, rest)) = body.split_once("=>") else { continue };
            let pat: String = pat.chars().filter(|c| !c.is_whitespace()).collect();
            let Some(var) = pat.strip_prefix("($").and_then(|p| p.strip_suffix(":ty)")) else { continue };
            let rest = rest.trim().trim_end_matches(';').trim();
            let (Some(_), Some(r)) = (rest.find('{'), rest.rfind('}')) else { continue };
            if !rest.starts_with('{') || rest.matches("=>").count() > 0 {
                continue;
            }
            let arg = &text[m.mac.tokens.span().byte_range()];
            out.push_str(&rest[1..r].replace(&format!("${var}"), arg));
            out.push('\n');
        }
    }
    out
}

/// replace an identifier where it stands alone
pub fn rename_word(t: &str, old: &str, new: &str) -> String {
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let mut out = String::new();
    let mut rest = t;
    while let Some(i) = rest.find(old) {
        let before = rest[..i].chars().next_back().or(if i == 0 { out.chars().next_back() } else { None });
        let after = rest[i + old.len()..].chars().next();
        out.push_str(&rest[..i]);
        out.push_str(if before.is_some_and(word) || after.is_some_and(word) { old } else { new });
        rest = &rest[i + old.len()..];
    }
    out.push_str(rest);
    out
}
