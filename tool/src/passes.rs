//! Source-to-source passes. Everything here is syntactic; DESIGN.md lists each rule.
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

use crate::util::*;

// ---------------------------------------------------------------- macros, attributes, await, `?`

pub struct Macros<'a> {
    pub unsupported: &'a mut Vec<String>,
    pub consts: &'a BTreeMap<String, LitStr>,
}

const LOGGING: &[&str] = &["println", "eprintln", "print", "eprint", "info", "debug", "warn", "error", "trace", "log"];
const DIVERGE: &[&str] = &["panic", "todo", "unimplemented", "unreachable"];

fn args_of(m: &Macro) -> Option<Vec<Expr>> {
    Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()).ok().map(|p| p.into_iter().collect())
}

/// whether evaluating `e` can do anything but read a place
fn does_work(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => false,
        Expr::Field(f) => does_work(&f.base),
        Expr::Reference(r) => does_work(&r.expr),
        Expr::Paren(r) => does_work(&r.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => does_work(&u.expr),
        Expr::MethodCall(m) if m.args.is_empty() && ["len", "is_empty", "as_str", "to_string", "is_some", "is_none", "is_ok", "is_err", "clone"].contains(&m.method.to_string().as_str()) => does_work(&m.receiver),
        _ => true,
    }
}

impl<'a> Macros<'a> {
    fn format(&mut self, m: &Macro) -> Option<Expr> {
        let args = args_of(m)?;
        let mut it = args.into_iter();
        let lit = match it.next()? {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        let mut pos: Vec<Expr> = vec![];
        let mut named: BTreeMap<String, Expr> = BTreeMap::new();
        for a in it {
            if let Expr::Assign(x) = &a {
                named.insert(tstr(&x.left), (*x.right).clone());
            } else {
                pos.push(a)
            }
        }
        let mut parts: Vec<TokenStream> = vec![];
        let mut cur = String::new();
        let ch: Vec<char> = lit.chars().collect();
        let (mut i, mut next) = (0, 0);
        while i < ch.len() {
            if ch[i] == '{' && i + 1 < ch.len() && ch[i + 1] == '{' {
                cur.push('{');
                i += 2;
            } else if ch[i] == '}' && i + 1 < ch.len() && ch[i + 1] == '}' {
                cur.push('}');
                i += 2;
            } else if ch[i] == '{' {
                let mut j = i + 1;
                while j < ch.len() && ch[j] != '}' {
                    j += 1;
                }
                let spec: String = ch[i + 1..j].iter().collect();
                let (name, f) = match spec.split_once(':') {
                    Some((a, b)) => (a.to_string(), b.to_string()),
                    None => (spec, String::new()),
                };
                if !(f.is_empty() || f == "?") {
                    return None;
                }
                let e: Expr = if name.is_empty() {
                    let e = pos.get(next)?.clone();
                    next += 1;
                    e
                } else if let Ok(n) = name.parse::<usize>() {
                    pos.get(n)?.clone()
                } else if let Some(e) = named.get(&name) {
                    e.clone()
                } else if let Some(c) = self.consts.get(&name) {
                    parse_quote!(#c)
                } else {
                    let id = Ident::new(&name, Span::call_site());
                    parse_quote!(#id)
                };
                if !cur.is_empty() {
                    parts.push(quote!(str_lit_(#cur)));
                    cur.clear();
                }
                if f == "?" {
                    parts.push(quote!((#e).dbg_()));
                } else {
                    parts.push(quote!((#e).disp_()));
                }
                i = j + 1;
            } else {
                cur.push(ch[i]);
                i += 1;
            }
        }
        if !cur.is_empty() || parts.is_empty() {
            parts.push(quote!(str_lit_(#cur)));
        }
        let mut acc = parts[0].clone();
        for p in &parts[1..] {
            acc = quote!(str_cat_(#acc, #p));
        }
        parse2(acc).ok()
    }

    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if LOGGING.contains(&name.as_str()) {
            // what is printed does not matter; computing it may
            let work: Vec<Expr> = args_of(m)
                .unwrap_or_default()
                .into_iter()
                .map(|a| match a {
                    Expr::Assign(a) if matches!(&*a.left, Expr::Path(_)) => *a.right,
                    a => a,
                })
                .filter(does_work)
                .collect();
            if work.is_empty() {
                return Some(parse_quote!(()));
            }
            return Some(if name.contains("print") {
                parse_quote!({ #(let _ = &(#work);)* })
            } else {
                parse_quote!(if anything_() { #(let _ = &(#work);)* })
            });
        }
        if DIVERGE.contains(&name.as_str()) {
            return Some(parse_quote!(unreached_()));
        }
        match name.as_str() {
            "format" => self.format(m),
            "vec" => {
                if m.tokens.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                None
            }
            "assert" | "debug_assert" | "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                let a = args_of(m)?;
                let bad: Expr = if name.ends_with("_eq") {
                    let (x, y) = (a.first()?, a.get(1)?);
                    parse_quote!(!(#x == #y))
                } else if name.ends_with("_ne") {
                    let (x, y) = (a.first()?, a.get(1)?);
                    parse_quote!(#x == #y)
                } else {
                    let c = a.first()?;
                    parse_quote!(!(#c))
                };
                // a debug assertion is evaluated in some builds only
                Some(if name.starts_with("debug") {
                    parse_quote!(if anything_() { if #bad { unreached_() } })
                } else {
                    parse_quote!(if #bad { unreached_() })
                })
            }
            "cfg" => {
                let t = m.tokens.to_string();
                Some(match t.replace(' ', "").as_str() {
                    "test" | "libmcaptcha_verif" => parse_quote!(false),
                    "not(test)" | "not(libmcaptcha_verif)" => parse_quote!(true),
                    _ => parse_quote!(anything_()),
                })
            }
            "matches" => {
                let parser = |input: parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                    let e: Expr = input.parse()?;
                    let _: Token![,] = input.parse()?;
                    let p = Pat::parse_multi_with_leading_vert(input)?;
                    let g = if input.peek(Token![if]) {
                        let _: Token![if] = input.parse()?;
                        Some(input.parse()?)
                    } else {
                        None
                    };
                    let _: Option<Token![,]> = input.parse()?;
                    Ok((e, p, g))
                };
                let (e, p, g) = parser.parse2(m.tokens.clone()).ok()?;
                Some(match g {
                    Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                    None => parse_quote!(match #e { #p => true, _ => false }),
                })
            }
            _ => None,
        }
    }
}

impl<'a> VisitMut for Macros<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            let name = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if name == "vec" && !m.mac.tokens.is_empty() {
                if let Some(mut a) = args_of(&m.mac) {
                    for x in a.iter_mut() {
                        self.visit_expr_mut(x);
                    }
                    *e = parse_quote!(vec_of_([#(#a),*]));
                    return;
                }
                self.unsupported.push(format!("macro {}", tstr(&m.mac)));
                return;
            }
            match self.mac(&m.mac) {
                Some(x) => *e = x,
                None => {
                    self.unsupported.push(format!("macro {}", name));
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let semi = m.semi_token;
            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            let cond = m.attrs.iter().filter(|a| a.path().is_ident("cfg")).cloned().collect::<Vec<_>>();
            let e = match cfg_of(&cond) {
                Some(true) => e,
                Some(false) => parse_quote!({}),
                None => parse_quote!(if anything_() { #e; }),
            };
            let name = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            let keep = DIVERGE.contains(&name.as_str());
            *s = Stmt::Expr(e, if keep { semi } else { Some(semi.unwrap_or_default()) });
            if name == "format" || name == "matches" || name == "vec" {
                if let Stmt::Expr(_, sm) = s {
                    *sm = semi;
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
}

/// drop attributes inside bodies, `.await`, `.into()`, iterator entry points
pub struct Erase<'a> {
    pub async_fns: &'a BTreeSet<String>,
}

fn callee_name(e: &Expr) -> Option<String> {
    match e {
        Expr::MethodCall(m) => Some(m.method.to_string()),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => {
                let n = p.path.segments.len();
                let name = p.path.segments.last()?.ident.to_string();
                // of a type: that type's own function of the name
                if n >= 2 && p.qself.is_none() {
                    let t = p.path.segments[n - 2].ident.to_string();
                    let t = t.rsplit("__").next().unwrap_or(&t).to_string();
                    if t != "Self" && t.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) {
                        return Some(format!("{t}::{name}"));
                    }
                }
                Some(name)
            }
            _ => None,
        },
        _ => None,
    }
}

pub const RENAMED: &[(&str, &str)] = &[
    ("into", "into_"),
    ("iter", "iter_"),
    ("iter_mut", "iter_mut_"),
    ("into_iter", "into_iter_"),
    ("drain", "drain_"),
    ("keys", "keys_"),
    ("values", "values_"),
    ("to_owned", "to_owned_"),
    ("as_deref", "as_deref_"),
    ("sort_by_key", "sort_by_key_"),
    ("sort_unstable_by_key", "sort_by_key_"),
    ("sort_by_cached_key", "sort_by_key_"),
    ("as_str", "as_str_"),
    ("len", "len_"),
    ("to_string", "disp_"),
    ("saturating_add", "saturating_add_"),
    ("saturating_sub", "saturating_sub_"),
    ("saturating_mul", "saturating_mul_"),
    ("overflowing_add", "overflowing_add_"),
    ("overflowing_sub", "overflowing_sub_"),
    ("abs_diff", "abs_diff_"),
    ("clamp", "clamp_"),
    ("unsigned_abs", "unsigned_abs_"),
    ("is_negative", "is_negative_"),
    ("is_positive", "is_positive_"),
    ("trim", "trim_"),
    ("trim_start", "trim_start_"),
    ("trim_end", "trim_end_"),
    ("to_lowercase", "to_lowercase_"),
    ("to_uppercase", "to_uppercase_"),
    ("to_ascii_lowercase", "to_ascii_lowercase_"),
    ("to_ascii_uppercase", "to_ascii_uppercase_"),
    ("eq_ignore_ascii_case", "eq_ignore_ascii_case_"),
    ("starts_with", "starts_with_"),
    ("ends_with", "ends_with_"),
    ("parse", "parse_"),
    ("strip_prefix", "strip_prefix_"),
    ("strip_suffix", "strip_suffix_"),
    ("trim_matches", "trim_matches_"),
    ("trim_start_matches", "trim_start_matches_"),
    ("trim_end_matches", "trim_end_matches_"),
];
/// only with this many arguments
const RENAMED_N: &[(&str, usize, &str)] = &[("min", 1, "min_"), ("max", 1, "max_"), ("replace", 2, "str_replace_"), ("repeat", 1, "str_repeat_")];

impl<'a> VisitMut for Erase<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // while let Some(p) = it.next() { .. }, `it` not used inside: for p in it { .. }
        if let Expr::While(w) = e {
            if let Some(f) = while_next(w) {
                *e = f;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            // Default::default()
            Expr::Call(c) if c.args.is_empty() && matches!(&*c.func, Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[0].ident == "Default" && p.path.segments[1].ident == "default") => {
                *e = parse_quote!(Default_::default_());
            }
            Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() && !matches!(unparen(&m.receiver), Expr::Path(_) | Expr::Field(_)) => {
                let r = &m.receiver;
                *e = parse_quote!({ let mut __src = #r; __src.next() });
            }
            Expr::Await(a) => {
                let base = (*a.base).clone();
                let direct = callee_name(&base).map(|n| self.async_fns.contains(&n)).unwrap_or(false);
                *e = if direct { base } else { parse_quote!(#base.awaited()) };
            }
            // comparison with a string literal
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let lit = |x: &Expr| matches!(unparen(x), Expr::Lit(ExprLit { lit: Lit::Str(_), .. }));
                let (l, r) = ((*b.left).clone(), (*b.right).clone());
                let c: Option<Expr> = if lit(&r) {
                    Some(parse_quote!((#l).eq_str_(#r)))
                } else if lit(&l) {
                    Some(parse_quote!((#r).eq_str_(#l)))
                } else {
                    None
                };
                if let Some(c) = c {
                    *e = if matches!(b.op, BinOp::Eq(_)) { c } else { parse_quote!(!#c) };
                }
            }
            // &mut *x.borrow_mut(): the guard itself
            Expr::Reference(r) if r.mutability.is_some() => {
                let g = match &*r.expr {
                    Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => match &*u.expr {
                        Expr::MethodCall(m) if m.method == "borrow_mut" && m.args.is_empty() => Some((*u.expr).clone()),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(g) = g {
                    *e = g;
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                for (a, b) in RENAMED {
                    if n == *a {
                        m.method = Ident::new(b, m.method.span());
                    }
                }
                if n == "contains" && m.args.len() == 1 && matches!(unparen(&m.args[0]), Expr::Lit(_)) {
                    m.method = Ident::new("str_contains_", m.method.span());
                }
                for (a, k, b) in RENAMED_N {
                    if n == *a && m.args.len() == *k {
                        m.method = Ident::new(b, m.method.span());
                    }
                }
            }
            Expr::Call(c) => {
                // T::from(x), From::from(x), drop(x)
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<_> = p.path.segments.iter().collect();
                    if segs.len() == 2 && segs[0].ident == "String" && segs[1].ident == "with_capacity" && c.args.len() == 1 {
                        let x = &c.args[0];
                        *e = parse_quote!(string_with_capacity_(#x));
                        return;
                    }
                    if segs.len() == 1 && segs[0].ident == "drop" && c.args.len() == 1 {
                        let x = &c.args[0];
                        *e = parse_quote!(drop_(#x));
                        return;
                    }
                    if segs.len() == 2 && segs[1].ident == "from" && c.args.len() == 1 {
                        let x = &c.args[0];
                        if segs[0].ident == "From" {
                            *e = parse_quote!((#x).into_());
                        } else {
                            let t = &segs[0];
                            *e = parse_quote!(Into_::<#t>::into_(#x));
                        }
                    } else if segs.len() == 2 && segs[1].ident == "into" && segs[0].ident == "Into" && c.args.len() == 1 {
                        let x = &c.args[0];
                        *e = parse_quote!((#x).into_());
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// remove attributes on statements / expressions / locals, nested `use`
fn mentions(b: &Block, id: &Ident) -> bool {
    struct M<'a>(&'a Ident, bool);
    impl<'a, 'ast> Visit<'ast> for M<'a> {
        fn visit_ident(&mut self, i: &'ast Ident) {
            self.1 |= i == self.0;
        }
        fn visit_macro(&mut self, m: &'ast Macro) {
            self.1 |= m.tokens.to_string().contains(&self.0.to_string());
        }
    }
    let mut m = M(id, false);
    m.visit_block(b);
    m.1
}
fn while_next(w: &ExprWhile) -> Option<Expr> {
    let l = match unparen(&w.cond) {
        Expr::Let(l) => l,
        _ => return None,
    };
    let p = match &*l.pat {
        Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 => t.elems[0].clone(),
        _ => return None,
    };
    let it = match unparen(&l.expr) {
        Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() => match unparen(&m.receiver) {
            Expr::Path(p) => p.path.get_ident()?.clone(),
            _ => return None,
        },
        _ => return None,
    };
    if mentions(&w.body, &it) {
        return None;
    }
    let (label, body) = (&w.label, &w.body);
    let mut f: ExprForLoop = parse_quote!(for #p in #it #body);
    f.label = label.clone();
    Some(Expr::ForLoop(f))
}

pub struct StripAttrs<'a> {
    pub unsupported: &'a mut Vec<String>,
}
/// conditional compilation: Some(true) present, Some(false) absent, None: depends on the build
pub fn cfg_of(attrs: &[Attribute]) -> Option<bool> {
    let mut r = Some(true);
    for a in attrs.iter().filter(|a| a.path().is_ident("cfg")) {
        match tstr(&a.meta).replace(' ', "").as_str() {
            "cfg(test)" | "cfg(libmcaptcha_verif)" => return Some(false),
            "cfg(not(test))" | "cfg(not(libmcaptcha_verif))" => {}
            _ => r = None,
        }
    }
    r
}
fn expr_attrs(e: &mut Expr) -> Option<&mut Vec<Attribute>> {
    Some(match e {
        Expr::Assign(x) => &mut x.attrs,
        Expr::Await(x) => &mut x.attrs,
        Expr::Binary(x) => &mut x.attrs,
        Expr::Block(x) => &mut x.attrs,
        Expr::Break(x) => &mut x.attrs,
        Expr::Call(x) => &mut x.attrs,
        Expr::Continue(x) => &mut x.attrs,
        Expr::Field(x) => &mut x.attrs,
        Expr::ForLoop(x) => &mut x.attrs,
        Expr::If(x) => &mut x.attrs,
        Expr::Loop(x) => &mut x.attrs,
        Expr::Macro(x) => &mut x.attrs,
        Expr::Match(x) => &mut x.attrs,
        Expr::MethodCall(x) => &mut x.attrs,
        Expr::Paren(x) => &mut x.attrs,
        Expr::Path(x) => &mut x.attrs,
        Expr::Return(x) => &mut x.attrs,
        Expr::Struct(x) => &mut x.attrs,
        Expr::Try(x) => &mut x.attrs,
        Expr::Tuple(x) => &mut x.attrs,
        Expr::Unary(x) => &mut x.attrs,
        Expr::Unsafe(x) => &mut x.attrs,
        Expr::While(x) => &mut x.attrs,
        _ => return None,
    })
}
impl<'a> StripAttrs<'a> {
    fn check(&mut self, a: &mut Vec<Attribute>) {
        if cfg_of(a) != Some(true) {
            self.unsupported.push("conditional compilation".into());
        }
        a.clear();
    }
}
impl<'a> VisitMut for StripAttrs<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain_mut(|s| {
            let absent = match s {
                Stmt::Local(l) => cfg_of(&l.attrs) == Some(false),
                Stmt::Expr(e, _) => expr_attrs(e).map(|a| cfg_of(a) == Some(false)).unwrap_or(false),
                Stmt::Macro(m) => cfg_of(&m.attrs) == Some(false),
                Stmt::Item(i) => matches!(i, Item::Use(_) | Item::Static(_)),
            };
            !absent
        });
        let n = b.stmts.len();
        for (k, s) in b.stmts.iter_mut().enumerate() {
            if let Stmt::Expr(e, semi) = s {
                if let Some(a) = expr_attrs(e) {
                    let c = cfg_of(a);
                    a.clear();
                    if c.is_none() {
                        if semi.is_some() || k + 1 < n {
                            *e = parse_quote!(if anything_() { #e; });
                        } else {
                            self.unsupported.push("conditional compilation".into());
                        }
                    }
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(a) = expr_attrs(e) {
            if !a.is_empty() {
                let mut v = std::mem::take(a);
                self.check(&mut v);
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        self.check(&mut l.attrs);
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_arm_mut(&mut self, l: &mut Arm) {
        self.check(&mut l.attrs);
        visit_mut::visit_arm_mut(self, l);
    }
    fn visit_field_value_mut(&mut self, l: &mut FieldValue) {
        self.check(&mut l.attrs);
        visit_mut::visit_field_value_mut(self, l);
    }
}

fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 && c.asyncness.is_none() && !has_return(&c.body) && !has_try(&c.body) {
            let p = match &c.inputs[0] {
                Pat::Type(t) => (*t.pat).clone(),
                x => x.clone(),
            };
            return Some((p, (*c.body).clone()));
        }
    }
    None
}
fn closure0(e: &Expr) -> Option<Expr> {
    if let Expr::Closure(c) = e {
        if c.inputs.is_empty() && c.asyncness.is_none() && !has_return(&c.body) && !has_try(&c.body) {
            return Some((*c.body).clone());
        }
    }
    None
}

/// a function given by name, applied
fn by_path(f: &Expr, x: &Expr) -> Option<Expr> {
    if let Expr::Path(ep) = f {
        let s: Vec<String> = ep.path.segments.iter().map(|x| x.ident.to_string()).collect();
        if s.last().map(|x| x == "from" || x == "into").unwrap_or(false) {
            return Some(if s.len() == 2 && s[0] != "From" && s[0] != "Into" {
                let t = &ep.path.segments[0];
                parse_quote!(Into_::<#t>::into_(#x))
            } else {
                parse_quote!(#x.into_())
            });
        }
        return Some(parse_quote!(#f(#x)));
    }
    None
}
/// `|a, b| a.key.cmp(&b.key)`: the key, and whether the order is reversed
fn sort_key(f: &Expr) -> Option<(Pat, Expr, bool)> {
    let (ps, b) = closure_pats(f, 2)?;
    let name = |p: &Pat| match p {
        Pat::Ident(i) if i.subpat.is_none() => Some(i.ident.to_string()),
        _ => None,
    };
    let (x, y) = (name(&ps[0])?, name(&ps[1])?);
    let mut b = unparen(&b).clone();
    if let Expr::Block(bl) = &b {
        if let [Stmt::Expr(e, None)] = &bl.block.stmts[..] {
            b = unparen(e).clone();
        }
    }
    if let Expr::MethodCall(m) = &b {
        if m.method != "cmp" || m.args.len() != 1 {
            return None;
        }
        let arg = match unparen(&m.args[0]) {
            Expr::Reference(r) => (*r.expr).clone(),
            _ => return None,
        };
        let to = |e: &Expr, from: &str, to: &str| {
            let mut e = e.clone();
            let t = Ident::new(to, Span::call_site());
            Subst { from: from.into(), to: parse_quote!(#t) }.visit_expr_mut(&mut e);
            tstr(&e)
        };
        let (l, r) = (unparen(&m.receiver).clone(), unparen(&arg).clone());
        if !spec_able(&l) || !spec_able(&r) {
            return None;
        }
        let (tl, tr) = (tstr(&l), tstr(&r));
        if to(&l, &x, "__s") == to(&r, &y, "__s") && to(&l, &y, "__s") == tl && to(&r, &x, "__s") == tr {
            return Some((ps[0].clone(), l, false));
        }
        if to(&l, &y, "__s") == to(&r, &x, "__s") && to(&l, &x, "__s") == tl && to(&r, &y, "__s") == tr {
            return Some((ps[1].clone(), l, true));
        }
    }
    None
}
/// `map.entry(k).or_insert(v)`, with or without `and_modify`
fn entry_or(m: &ExprMethodCall) -> Option<Expr> {
    let d: Expr = match (m.method.to_string().as_str(), m.args.len()) {
        ("or_insert", 1) => m.args[0].clone(),
        ("or_insert_with", 1) => match closure0(&m.args[0]) {
            Some(b) => b,
            None => match &m.args[0] {
                Expr::Path(p) => parse_quote!(#p()),
                _ => return None,
            },
        },
        ("or_default", 0) => parse_quote!(Default_::default_()),
        _ => return None,
    };
    let eager = m.method == "or_insert";
    let (md, rest) = match unparen(&m.receiver) {
        Expr::MethodCall(x) if x.method == "and_modify" && x.args.len() == 1 => (Some(closure1(&x.args[0])?), unparen(&x.receiver).clone()),
        x => (None, x.clone()),
    };
    if let Expr::MethodCall(x) = &rest {
        if x.method == "entry" && x.args.len() == 1 {
            let (r, k) = (&x.receiver, &x.args[0]);
            let (pre, val): (TokenStream, Expr) = if eager { (quote!(let __d = #d;), parse_quote!(__d)) } else { (quote!(), d) };
            return Some(match md {
                None => parse_quote!({ let __k = #k; #pre let __o = if (#r).contains_key(&__k) { None } else { Some(#val) }; (#r).entry_or_(__k, __o) }),
                Some((p, b)) => parse_quote!({ let __k = #k; #pre let __o = match (#r).get_mut(&__k) { Some(#p) => { #b; None } None => Some(#val) }; (#r).entry_or_(__k, __o) }),
            });
        }
    }
    None
}

/// combinators on Option/Result with literal closures are unfolded to `match`
pub struct Combinators;
impl VisitMut for Combinators {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            let r = &m.receiver;
            let a: Vec<&Expr> = m.args.iter().collect();
            let new: Option<Expr> = match (n.as_str(), a.len()) {
                ("map_err", 1) => match closure1(a[0]) {
                    Some((p, b)) => Some(parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#b) })),
                    None => match a[0] {
                        // map_err(CaptchaError::from), map_err(Into::into)
                        Expr::Path(ep) => {
                            let s: Vec<String> = ep.path.segments.iter().map(|x| x.ident.to_string()).collect();
                            if s.last().map(|x| x == "from" || x == "into").unwrap_or(false) {
                                if s.len() == 2 && s[0] != "From" && s[0] != "Into" {
                                    let t = &ep.path.segments[0];
                                    Some(parse_quote!(match #r { Ok(__v) => Ok(__v), Err(__e) => Err(Into_::<#t>::into_(__e)) }))
                                } else {
                                    Some(parse_quote!(match #r { Ok(__v) => Ok(__v), Err(__e) => Err(__e.into_()) }))
                                }
                            } else {
                                let f = a[0];
                                Some(parse_quote!(match #r { Ok(__v) => Ok(__v), Err(__e) => Err(#f(__e)) }))
                            }
                        }
                        _ => None,
                    },
                },
                ("ok_or", 1) => {
                    let x = a[0];
                    Some(parse_quote!(match #r { Some(__v) => Ok(__v), None => Err(#x) }))
                }
                ("ok_or_else", 1) => closure0(a[0]).map(|b| parse_quote!(match #r { Some(__v) => Ok(__v), None => Err(#b) })),
                ("is_some_and", 1) => closure1(a[0]).map(|(p, b)| parse_quote!(match #r { Some(#p) => #b, None => false })),
                ("is_none_or", 1) => closure1(a[0]).map(|(p, b)| parse_quote!(match #r { Some(#p) => #b, None => true })),
                ("is_ok_and", 1) => closure1(a[0]).map(|(p, b)| parse_quote!(match #r { Ok(#p) => #b, Err(_) => false })),
                ("is_err_and", 1) => closure1(a[0]).map(|(p, b)| parse_quote!(match #r { Ok(_) => false, Err(#p) => #b })),
                ("map_or", 2) => {
                    let d = a[0];
                    closure1(a[1]).map(|(p, b)| parse_quote!(match ((#r).split_().0, #d) { (Ok(#p), _) => #b, (Err(_), __d) => __d }))
                }
                ("map_or_else", 2) => match (closure0(a[0]), closure1(a[0]), closure1(a[1])) {
                    (Some(d), _, Some((p, b))) => Some(parse_quote!(match #r { Some(#p) => #b, None => #d })),
                    (_, Some((q, d)), Some((p, b))) => Some(parse_quote!(match #r { Ok(#p) => #b, Err(#q) => #d })),
                    _ => None,
                },
                ("map", 1) => match closure1(a[0]) {
                    Some((p, b)) => Some(parse_quote!(match (#r).split_() { (Ok(#p), __g) => __g.good_(#b), (Err(__e), __g) => __g.bad_(__e) })),
                    None => by_path(a[0], &parse_quote!(__v))
                        .map(|b| parse_quote!(match (#r).split_() { (Ok(__v), __g) => __g.good_(#b), (Err(__e), __g) => __g.bad_(__e) })),
                },
                ("and_then", 1) => match closure1(a[0]) {
                    Some((p, b)) => Some(parse_quote!(match (#r).split_() { (Ok(#p), _) => #b, (Err(__e), __g) => __g.bad_(__e) })),
                    None => by_path(a[0], &parse_quote!(__v))
                        .map(|b| parse_quote!(match (#r).split_() { (Ok(__v), _) => #b, (Err(__e), __g) => __g.bad_(__e) })),
                },
                ("or_else", 1) => match (closure0(a[0]), closure1(a[0])) {
                    (Some(b), _) => Some(parse_quote!(match #r { Some(__v) => Some(__v), None => #b })),
                    (_, Some((p, b))) => Some(parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => #b })),
                    _ => None,
                },
                ("unwrap_or_else", 1) => match (closure0(a[0]), closure1(a[0])) {
                    (Some(b), _) => Some(parse_quote!(match #r { Some(__v) => __v, None => #b })),
                    (_, Some((p, b))) => Some(parse_quote!(match #r { Ok(__v) => __v, Err(#p) => #b })),
                    _ => None,
                },
                ("unwrap_or", 1) => {
                    let d = a[0];
                    Some(parse_quote!(match ((#r).split_().0, #d) { (Ok(__v), _) => __v, (Err(_), __d) => __d }))
                }
                ("unwrap_or_default", 0) => Some(parse_quote!(match (#r).split_().0 { Ok(__v) => __v, Err(_) => Default_::default_() })),
                ("filter", 1) => closure1(a[0])
                    .map(|(p, b)| parse_quote!(match #r { Some(__v) => { if { let #p = &__v; #b } { Some(__v) } else { None } } None => None })),
                ("then", 1) => closure0(a[0]).map(|b| parse_quote!((if #r { Some(#b) } else { None }))),
                ("then_some", 1) => {
                    let d = a[0];
                    Some(parse_quote!(match (#r, #d) { (true, __v) => Some(__v), _ => None }))
                }
                ("get_or_insert_with", 1) => closure0(a[0]).map(|b| parse_quote!({ if (#r).is_none() { #r = Some(#b); } (#r).as_mut().unwrap() })),
                ("sort_by", 1) | ("sort_unstable_by", 1) => sort_key(a[0]).map(|(p, k, rev)| {
                    let m = Ident::new(if rev { "sort_by_key_desc_" } else { "sort_by_key_" }, Span::call_site());
                    parse_quote!((#r).#m(|#p| #k))
                }),
                ("or_insert", 1) | ("or_insert_with", 1) | ("or_default", 0) => entry_or(m),
                _ => None,
            };
            if let Some(x) = new {
                *e = Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(x) });
            }
        }
    }
}

/// `e?` -> match e { Ok(v) => v, Err(e) => return Err(e.into_()) }
pub struct TryOp {
    pub option: bool,
    pub closures: usize,
    pub bad: bool,
}
impl VisitMut for TryOp {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        self.closures += 1;
        visit_mut::visit_expr_closure_mut(self, c);
        self.closures -= 1;
    }
    fn visit_expr_async_mut(&mut self, c: &mut ExprAsync) {
        self.closures += 1;
        visit_mut::visit_expr_async_mut(self, c);
        self.closures -= 1;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            if self.closures > 0 {
                self.bad = true;
            }
            let x = &t.expr;
            *e = if self.option {
                parse_quote!((match #x { Some(__v) => __v, None => return None }))
            } else {
                parse_quote!((match #x { Ok(__v) => __v, Err(__e) => return Err(__e.into_()) }))
            };
        }
    }
}

// ---------------------------------------------------------------- queries

struct HasRet(bool, bool);
impl<'ast> Visit<'ast> for HasRet {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_break(&mut self, _: &'ast ExprBreak) {
        self.1 = true;
    }
    fn visit_expr_continue(&mut self, _: &'ast ExprContinue) {
        self.1 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_expr_async(&mut self, _: &'ast ExprAsync) {}
}
pub fn has_return(e: &Expr) -> bool {
    let mut h = HasRet(false, false);
    h.visit_expr(e);
    h.0
}
fn stmt_has_return(s: &Stmt) -> bool {
    let mut h = HasRet(false, false);
    h.visit_stmt(s);
    h.0
}
pub fn block_has_return(b: &Block) -> bool {
    let mut h = HasRet(false, false);
    h.visit_block(b);
    h.0
}

// ---------------------------------------------------------------- return elimination

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        _ => e,
    }
}

/// Value of a statement list as an expression without `return`.
pub fn elim_stmts(stmts: &[Stmt]) -> Option<Expr> {
    let mut pre: Vec<Stmt> = vec![];
    for (i, s) in stmts.iter().enumerate() {
        let rest = &stmts[i + 1..];
        let last = rest.is_empty();
        if !stmt_has_return(s) {
            pre.push(s.clone());
            continue;
        }
        let wrap = |x: Expr| -> Expr {
            if pre.is_empty() {
                x
            } else {
                let p = &pre;
                parse_quote!({ #(#p)* #x })
            }
        };
        match s {
            Stmt::Expr(e, semi) => {
                let e = unparen(e);
                if let Expr::Return(r) = e {
                    let v: Expr = r.expr.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(()));
                    if has_return(&v) {
                        return None;
                    }
                    return Some(wrap(v));
                }
                let cont: Vec<Stmt> = if last { vec![] } else { rest.to_vec() };
                let x = elim_expr(e, &cont, last && semi.is_none(), None)?;
                return Some(wrap(x));
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let cont: Vec<Stmt> = rest.to_vec();
                if let Some((_, div)) = &init.diverge {
                    if has_return(&init.expr) {
                        return None;
                    }
                    let p = &l.pat;
                    let ie = &init.expr;
                    let d = elim_expr(unparen(div), &[], true, None)?;
                    let k = elim_stmts(&cont)?;
                    return Some(wrap(parse_quote!(match #ie { #p => #k, _ => #d })));
                }
                let x = elim_expr(unparen(&init.expr), &cont, false, Some(&l.pat))?;
                return Some(wrap(x));
            }
            _ => return None,
        }
    }
    Some(match pre.last() {
        Some(Stmt::Expr(_, None)) => {
            if pre.len() == 1 {
                if let Stmt::Expr(e, None) = &pre[0] {
                    return Some(e.clone());
                }
            }
            parse_quote!({ #(#pre)* })
        }
        _ => parse_quote!({ #(#pre)* }),
    })
}

/// Evaluate `e` (which contains `return`), bind its value to `bind` (if any), continue with `cont`.
/// `tail`: the value of `e` is the value of the function.
fn elim_expr(e: &Expr, cont: &[Stmt], tail: bool, bind: Option<&Pat>) -> Option<Expr> {
    let finish = |v: &Expr| -> Option<Expr> {
        // v has no return: bind and continue
        if tail {
            return Some(v.clone());
        }
        let mut st: Vec<Stmt> = vec![];
        match bind {
            Some(p) => st.push(parse_quote!(let #p = #v;)),
            None => st.push(Stmt::Expr(v.clone(), Some(Default::default()))),
        }
        st.extend_from_slice(cont);
        elim_stmts(&st)
    };
    if !has_return(e) {
        return finish(e);
    }
    match e {
        Expr::Paren(p) => elim_expr(&p.expr, cont, tail, bind),
        Expr::Return(r) => {
            let v: Expr = r.expr.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(()));
            if has_return(&v) {
                return None;
            }
            Some(v)
        }
        Expr::If(i) => {
            if has_return(&i.cond) {
                return None;
            }
            let c = &i.cond;
            let t = elim_block(&i.then_branch, cont, tail, bind)?;
            let el = match &i.else_branch {
                Some((_, x)) => elim_expr_any(x, cont, tail, bind)?,
                None => elim_expr_any(&parse_quote!({}), cont, tail, bind)?,
            };
            Some(parse_quote!(if #c { #t } else { #el }))
        }
        Expr::Match(m) => {
            if has_return(&m.expr) {
                return None;
            }
            let x = &m.expr;
            let mut arms: Vec<TokenStream> = vec![];
            for a in m.arms.iter() {
                let p = &a.pat;
                let g = a.guard.as_ref().map(|(_, g)| quote!(if #g));
                let b = elim_expr_any(&a.body, cont, tail, bind)?;
                arms.push(quote!(#p #g => { #b }));
            }
            Some(parse_quote!(match #x { #(#arms)* }))
        }
        Expr::Block(b) => elim_block(&b.block, cont, tail, bind),
        _ => None,
    }
}
fn elim_expr_any(e: &Expr, cont: &[Stmt], tail: bool, bind: Option<&Pat>) -> Option<Expr> {
    match e {
        Expr::Block(b) => elim_block(&b.block, cont, tail, bind),
        Expr::Paren(p) => elim_expr_any(&p.expr, cont, tail, bind),
        _ => elim_expr(e, cont, tail, bind),
    }
}
fn elim_block(b: &Block, cont: &[Stmt], tail: bool, bind: Option<&Pat>) -> Option<Expr> {
    let mut st = b.stmts.clone();
    if tail {
        return elim_stmts(&st);
    }
    match st.pop() {
        None => {
            let mut v: Vec<Stmt> = vec![];
            if let Some(p) = bind {
                v.push(parse_quote!(let #p = ();));
            }
            v.extend_from_slice(cont);
            elim_stmts(&v)
        }
        Some(Stmt::Expr(e, None)) => {
            // value of the block
            if !st.iter().any(stmt_has_return) {
                let inner = elim_expr_any(&e, cont, tail, bind)?;
                if st.is_empty() {
                    return Some(inner);
                }
                return Some(parse_quote!({ #(#st)* #inner }));
            }
            let mut v = st;
            match bind {
                Some(p) => v.push(parse_quote!(let #p = #e;)),
                None => v.push(Stmt::Expr(e, Some(Default::default()))),
            }
            v.extend_from_slice(cont);
            elim_stmts(&v)
        }
        Some(s) => {
            st.push(s);
            if let Some(p) = bind {
                if !stmt_has_return(st.last().unwrap()) {
                    st.push(parse_quote!(let #p = ();));
                }
            }
            st.extend_from_slice(cont);
            elim_stmts(&st)
        }
    }
}

// ---------------------------------------------------------------- hygiene

pub struct Rename {
    pub map: BTreeMap<String, String>,
    pub self_to: Option<Expr>,
    pub self_ty: Option<String>,
    pub bad: bool,
}
pub struct Bindings(pub BTreeSet<String>);
impl<'ast> Visit<'ast> for Bindings {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        let s = p.ident.to_string();
        if !is_type_like(&s) {
            self.0.insert(s);
        }
        visit::visit_pat_ident(self, p);
    }
}
impl VisitMut for Rename {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.map.get(&p.ident.to_string()) {
            p.ident = Ident::new(n, p.ident.span());
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments[0].ident == "Self" {
            if let Some(n) = &self.self_ty {
                p.segments[0].ident = Ident::new(n, Span::call_site());
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                let s = p.path.segments[0].ident.to_string();
                if s == "self" {
                    if let Some(x) = &self.self_to {
                        *e = x.clone();
                    }
                    return;
                }
                if let Some(n) = self.map.get(&s) {
                    p.path.segments[0].ident = Ident::new(n, Span::call_site());
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- final lowering

pub struct LoopInfo {
    pub id: String,
    pub kind: String,
    pub pos: String,
    pub it: String,
    pub locals: Vec<(String, bool, String)>,
    pub in_async: bool,
    /// (invariant | invariant_except_break | ensures, text)
    pub auto: Vec<(String, String)>,
}

/// a search: the first thing in a loop that only looks for an element; becomes the loop's invariant
/// (an ordinary statement `__search(found, "kind", |pat| predicate);`, so that every renaming reaches it)
fn search_of(body: &Block) -> Option<(Ident, String, Pat, Expr)> {
    if let Some(Stmt::Expr(Expr::Call(c), Some(_))) = body.stmts.first() {
        if let Expr::Path(p) = &*c.func {
            if p.path.is_ident("__search") && c.args.len() == 3 {
                let o = match &c.args[0] {
                    Expr::Path(o) => o.path.get_ident()?.clone(),
                    _ => return None,
                };
                let k = match &c.args[1] {
                    Expr::Lit(ExprLit { lit: Lit::Str(k), .. }) => k.value(),
                    _ => return None,
                };
                if let Expr::Closure(f) = &c.args[2] {
                    return Some((o, k, f.inputs.first()?.clone(), (*f.body).clone()));
                }
            }
        }
    }
    None
}

/// replaces a variable that the expression does not rebind
struct Subst {
    from: String,
    to: Expr,
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.is_ident(&self.from) {
                *e = self.to.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub struct Lower<'a> {
    pub fnid: usize,
    pub loops: Vec<LoopInfo>,
    pub n: usize,
    pub effectful: &'a BTreeSet<String>,
    pub world_methods: &'a BTreeSet<String>,
    /// keys of the functions that take the ghost world, and the type whose method is being lowered
    pub world_keys: &'a BTreeSet<String>,
    pub self_name: Option<String>,
    pub wstack: Vec<TokenStream>,
    pub unsupported: Vec<String>,
    pub in_closure: usize,
    pub uses_world: bool,
    pub locals: Vec<(String, bool, String)>,
    pub task_calls: &'a BTreeSet<String>,
    pub has_loop: bool,
    /// the function takes the ghost world
    pub has_world: bool,
}

fn spec_able(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => spec_able(&f.base),
        Expr::Paren(p) => spec_able(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Not(_) | UnOp::Deref(_)) && spec_able(&u.expr),
        Expr::Reference(r) => spec_able(&r.expr),
        Expr::Binary(b) => {
            matches!(
                b.op,
                BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_)
            ) && spec_able(&b.left)
                && spec_able(&b.right)
        }
        _ => false,
    }
}

impl<'a> Lower<'a> {
    fn w(&self) -> TokenStream {
        self.wstack.last().cloned().unwrap_or(quote!(w))
    }
    fn inv(&mut self, kind: &str, pos: String, it: String) -> Ident {
        self.has_loop = true;
        let id = format!("{}_{}", self.fnid, self.n);
        self.n += 1;
        self.loops.push(LoopInfo {
            id: id.clone(),
            kind: kind.into(),
            pos,
            it,
            locals: self.locals.clone(),
            in_async: self.wstack.len() > 1,
            auto: vec![],
        });
        format_ident!("__INV__{}", id)
    }
    fn block_tokens(&mut self, b: &mut Block) -> TokenStream {
        self.visit_block_mut(b);
        let s = &b.stmts;
        quote!(#(#s)*)
    }
    /// a call by path: `T::f`, `Self::f`, `f`
    fn is_world_call(&self, f: &Expr, n: &str) -> bool {
        if let Expr::Path(p) = f {
            let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if v.len() >= 2 {
                let t = &v[v.len() - 2];
                let t = if t == "Self" { self.self_name.clone().unwrap_or_default() } else { t.clone() };
                if self.world_keys.contains(&format!("{}::{}", t, n)) {
                    return true;
                }
                // trait-qualified method call of something effectful
                return self.effectful.contains(n) && !self.known_type(&t);
            }
            return self.effectful.contains(n) || self.world_keys.contains(n);
        }
        self.is_world(n)
    }
    fn known_type(&self, t: &str) -> bool {
        matches!(t, "Rc" | "Arc" | "Box" | "String" | "Vec" | "HashMap" | "BTreeMap" | "HashSet" | "VecDeque" | "Option" | "Some" | "Ok" | "Err")
    }
    fn is_world(&self, n: &str) -> bool {
        self.effectful.contains(n) || self.world_methods.contains(n)
    }
}

impl<'a> VisitMut for Lower<'a> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        let (pat, ty) = match &l.pat {
            Pat::Type(t) => ((*t.pat).clone(), tstr(&t.ty)),
            p => (p.clone(), String::new()),
        };
        let mut init = ty;
        if let Some(i) = &l.init {
            init.push_str(" = ");
            init.push_str(&tstr(&i.expr));
        }
        let mut add = |p: &Pat| {
            if let Pat::Ident(i) = p {
                self.locals.push((i.ident.to_string(), i.mutability.is_some(), init.clone()));
            }
        };
        match &pat {
            Pat::Tuple(t) => t.elems.iter().for_each(|p| add(p)),
            p => add(p),
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let label = f.label.clone();
                let mut ex = (*f.expr).clone();
                let k = format!("{}_{}", self.fnid, self.n);
                let pat = f.pat.clone();
                if matches!(unparen(&ex), Expr::Range(_)) && search_of(&f.body).is_some() {
                    f.body.stmts.remove(0);
                }
                if let Expr::Range(r) = unparen(&ex).clone() {
                    if let (Some(a), Some(b)) = (&r.start, &r.end) {
                        let (mut a, mut b) = ((**a).clone(), (**b).clone());
                        self.visit_expr_mut(&mut a);
                        self.visit_expr_mut(&mut b);
                        let kk = format_ident!("__k{}", k);
                        let ee = format_ident!("__end{}", k);
                        let snap = format_ident!("__SNAP__{}_{}", self.fnid, self.n);
                        let auto = vec![("invariant".to_string(), format!("__beg{k} <= {kk}"))];
                        let closed = matches!(r.limits, RangeLimits::Closed(_));
                        let bb = format_ident!("__beg{}", k);
                        let inv = if closed { self.inv("while", String::new(), String::new()) } else { self.inv("range", format!("{}", kk), format!("{}", ee)) };
                        let body = self.block_tokens(&mut f.body);
                        if closed {
                            let dd = format_ident!("__done{}", k);
                            *e = Expr::Verbatim(quote!({
                                let #ee = #b;
                                let mut #kk = type_like_(#ee, #a);
                                let mut #dd = #kk > #ee;
                                #snap
                                #label while !#dd #inv {
                                    let #pat = #kk;
                                    if #kk == #ee { #dd = true; } else { #kk = #kk + 1; }
                                    #body
                                }
                            }));
                            return;
                        }
                        self.loops.iter_mut().find(|l| l.id == k).unwrap().auto = auto;
                        *e = Expr::Verbatim(quote!({
                            let #ee = #b;
                            let mut #kk = type_like_(#ee, #a);
                            let ghost #bb = #kk;
                            #snap
                            #label while #kk < #ee #inv {
                                let #pat = #kk;
                                #kk = #kk + 1;
                                #body
                            }
                        }));
                        return;
                    }
                }
                self.visit_expr_mut(&mut ex);
                let it = format_ident!("__it{}", k);
                let it0 = format_ident!("__it{}__0", k);
                let snap = format_ident!("__SNAP__{}_{}", self.fnid, self.n);
                let ssnap = format_ident!("__SELFSNAP__{}_{}", self.fnid, self.n);
                let inv = self.inv("iter", format!("{}.pos()", it), format!("{}", it));
                if let Some((o, kind, p, b)) = search_of(&f.body) {
                    f.body.stmts.remove(0);
                    let pred = |x: &str| {
                        let x: TokenStream = x.parse().unwrap();
                        let src = if kind.starts_with("find") { quote!(&&#it.seq()[#x]) } else { quote!(&#it.seq()[#x]) };
                        match &p {
                            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
                                let mut b = b.clone();
                                let mut sub = Subst { from: i.ident.to_string(), to: parse_quote!((#src)) };
                                sub.visit_expr_mut(&mut b);
                                render(quote!((#b)))
                            }
                            _ => render(quote!({ let #p = #src; #b })),
                        }
                    };
                    let t = |s: String| s.replace("@IT", &it.to_string()).replace("@O", &o.to_string());
                    let (none, hit) = match kind.as_str() {
                        "any" | "flag" => ("!@O".to_string(), "@O".to_string()),
                        "all" | "unflag" => ("@O".to_string(), "!@O".to_string()),
                        _ => ("@O is None".to_string(), "@O is Some".to_string()),
                    };
                    let neg = if kind == "all" { "" } else { "!" };
                    let upto = |n: &str| format!("(forall|__j: int| #![auto] 0 <= __j < {n} ==> {neg}{})", pred("__j"));
                    let some = |n: &str| format!("(exists|__j: int| #![auto] 0 <= __j < {n} && {}{})", if neg.is_empty() { "!" } else { "" }, pred("__j"));
                    let mut a: Vec<(String, String)> = vec![];
                    match kind.as_str() {
                        "flag" | "unflag" => {
                            a.push(("invariant".into(), t(format!("{none} ==> {}", upto("@IT.pos()")))));
                            a.push(("invariant".into(), t(format!("{hit} ==> {}", some("@IT.pos()")))));
                        }
                        "any" | "all" => {
                            a.push(("invariant_except_break".into(), t(none.clone())));
                            a.push(("invariant_except_break".into(), t(upto("@IT.pos()"))));
                            a.push(("ensures".into(), t(format!("{none} ==> {}", upto("@IT.seq().len()")))));
                            a.push(("ensures".into(), t(format!("{hit} ==> {}", some("@IT.seq().len()")))));
                        }
                        _ => {
                            a.push(("invariant_except_break".into(), t(none.clone())));
                            a.push(("invariant_except_break".into(), t(upto("@IT.pos()"))));
                            if kind == "position" {
                                a.push(("invariant_except_break".into(), t("__c@N == @IT.pos()".into()).replace("@N", &o.to_string()[3..])));
                            }
                            a.push(("ensures".into(), t(format!("{none} ==> {}", upto("@IT.seq().len()")))));
                            let is = if kind == "position" { "__j" } else { "&@IT.seq()[__j]" };
                            a.push((
                                "ensures".into(),
                                t(format!(
                                    "@O matches Some(__f) ==> (exists|__j: int| #![auto] 0 <= __j < @IT.seq().len() && __f == {is} && {} && (forall|__i: int| #![auto] 0 <= __i < __j ==> !{}))",
                                    pred("__j"),
                                    pred("__i")
                                )),
                            ));
                        }
                    }
                    self.loops.last_mut().unwrap().auto = a;
                }
                let body = self.block_tokens(&mut f.body);
                *e = Expr::Verbatim(quote!({
                    #ssnap
                    let mut #it = (#ex).into_iter_();
                    let ghost #it0 = #it;
                    #snap
                    #label while #it.has_next_() #inv {
                        let #pat = #it.next_();
                        #body
                    }
                }));
            }
            Expr::While(wl) => {
                let label = wl.label.clone();
                if let Expr::Let(l) = unparen(&wl.cond).clone() {
                    // while let P = E { B }  ->  loop { match E { P => B, _ => break } }
                    let mut ex = (*l.expr).clone();
                    self.visit_expr_mut(&mut ex);
                    let p = &l.pat;
                    let snap = format_ident!("__SNAP__{}_{}", self.fnid, self.n);
                    let inv = self.inv("whilelet", String::new(), String::new());
                    let body = self.block_tokens(&mut wl.body);
                    *e = Expr::Verbatim(quote!({ #snap #label loop #inv { match #ex { #p => { #body } _ => { break; } } } }));
                    return;
                }
                self.visit_expr_mut(&mut wl.cond);
                let c = wl.cond.clone();
                let snap = format_ident!("__SNAP__{}_{}", self.fnid, self.n);
                let inv = self.inv("while", String::new(), String::new());
                let body = self.block_tokens(&mut wl.body);
                *e = Expr::Verbatim(quote!({ #snap #label while #c #inv { #body } }));
            }
            Expr::Loop(l) => {
                let label = l.label.clone();
                let snap = format_ident!("__SNAP__{}_{}", self.fnid, self.n);
                let inv = self.inv("loop", String::new(), String::new());
                let body = self.block_tokens(&mut l.body);
                let hook = format_ident!("__HOOK__loopstart_{}", self.loops.last().map(|l| l.id.clone()).unwrap_or_default());
                let _ = hook;
                *e = Expr::Verbatim(quote!({ #snap #label loop #inv { #body } }));
            }
            Expr::Async(a) => {
                if block_has_return(&a.block) {
                    match elim_stmts(&a.block.stmts) {
                        Some(x) if !has_return(&x) => a.block = parse_quote!({ #x }),
                        _ => self.unsupported.push("return or ? inside an async block".into()),
                    }
                }
                self.wstack.push(quote!(&mut __tw));
                self.visit_block_mut(&mut a.block);
                self.wstack.pop();
                let mut st = a.block.stmts.clone();
                if let Some(Stmt::Expr(_, semi @ None)) = st.last_mut() {
                    *semi = Some(Default::default());
                }
                *e = Expr::Verbatim(quote!({
                    let tracked mut __tw = World::task();
                    #(#st)*
                    Fut { ev: Ghost(__tw.ev), replied: Ghost(__tw.replied) }
                }));
            }
            Expr::Closure(c) => {
                self.in_closure += 1;
                visit_mut::visit_expr_closure_mut(self, c);
                self.in_closure -= 1;
                if spec_able(&c.body) && matches!(c.output, ReturnType::Default) {
                    let b = &c.body;
                    let ins = &c.inputs;
                    let mv = &c.capture;
                    *e = Expr::Verbatim(quote!(#mv |#ins| -> (__r: _) ensures same_(__r, #b) { #b }));
                }
            }
            Expr::Call(c) => {
                // closures handed to a task-starting call are run on their own ghost task
                let name = match &*c.func {
                    Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
                    _ => None,
                };
                if let Some(n) = &name {
                    if self.task_calls.contains(n) && c.args.len() == 1 {
                        if let Expr::Closure(cl) = &c.args[0] {
                            let mut body = (*cl.body).clone();
                            self.wstack.push(quote!(&mut __tw));
                            self.visit_expr_mut(&mut body);
                            self.wstack.pop();
                            let f = &c.func;
                            let w = self.w();
                            self.uses_world |= self.wstack.len() <= 1;
                            *e = Expr::Verbatim(quote!(#f({
                                let tracked mut __tw = World::task();
                                #body;
                                Fut { ev: Ghost(__tw.ev), replied: Ghost(__tw.replied) }
                            }, Tracked(#w))));
                            return;
                        }
                    }
                }
                visit_mut::visit_expr_call_mut(self, c);
                if let Some(n) = name {
                    if self.is_world_call(&c.func, &n) {
                        if self.in_closure > 0 {
                            self.unsupported.push(format!("effect `{}` inside a closure", n));
                        }
                        let w = self.w();
                        self.uses_world |= self.wstack.len() <= 1;
                        c.args.push(Expr::Verbatim(quote!(Tracked(#w))));
                    }
                }
            }
            Expr::MethodCall(m) => {
                visit_mut::visit_expr_method_call_mut(self, m);
                let n = m.method.to_string();
                if self.is_world(&n) {
                    if self.in_closure > 0 {
                        self.unsupported.push(format!("effect `{}` inside a closure", n));
                    }
                    let w = self.w();
                    self.uses_world |= self.wstack.len() <= 1;
                    m.args.push(Expr::Verbatim(quote!(Tracked(#w))));
                }
            }
            Expr::Match(m) => {
                visit_mut::visit_expr_match_mut(self, m);
                // the verifier loses the ghost world's final value on an arm that returns after
                // an arm with a guard; borrowing it anew at the arm's start (a no-op) keeps it
                if self.has_world && self.in_closure == 0 && m.arms.iter().any(|a| a.guard.is_some()) {
                    let w = self.w();
                    for a in m.arms.iter_mut() {
                        let b = &a.body;
                        a.body = Box::new(Expr::Verbatim(quote!({ touch_(Tracked(#w)); #b })));
                    }
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {
        self.unsupported.push("nested item".into());
    }
}

// ---------------------------------------------------------------- calls

pub struct Calls(pub BTreeSet<String>);
impl<'ast> Visit<'ast> for Calls {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        self.0.insert(m.method.to_string());
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        self.0.insert(v.join("::"));
        visit::visit_expr_path(self, p);
    }
    fn visit_expr_struct(&mut self, p: &'ast ExprStruct) {
        let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        self.0.insert(v.join("::"));
        visit::visit_expr_struct(self, p);
    }
}

pub fn calls(b: &Block) -> BTreeSet<String> {
    let mut c = Calls(BTreeSet::new());
    c.visit_block(b);
    c.0
}

pub fn tokens_of(b: &Block) -> TokenStream {
    let s = &b.stmts;
    quote!(#(#s)*)
}
pub fn _unused(t: &dyn ToTokens) -> String {
    t.to_token_stream().to_string()
}

/// iterator chains with literal closures are unfolded to a loop over their source
pub struct IterChain {
    pub n: usize,
}

fn closure_pats(e: &Expr, k: usize) -> Option<(Vec<Pat>, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == k && c.asyncness.is_none() && !has_return(&c.body) && !has_try(&c.body) {
            let ps = c
                .inputs
                .iter()
                .map(|p| match p {
                    Pat::Type(t) => (*t.pat).clone(),
                    x => x.clone(),
                })
                .collect();
            return Some((ps, (*c.body).clone()));
        }
    }
    None
}
struct HasTry(bool);
impl<'ast> Visit<'ast> for HasTry {
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true
    }
    fn visit_expr_await(&mut self, _: &'ast ExprAwait) {
        self.0 = true
    }
}
fn has_try(e: &Expr) -> bool {
    let mut h = HasTry(false);
    h.visit_expr(e);
    h.0
}

enum Stage {
    Map(Pat, Expr),
    /// a function by name
    MapFn(Expr),
    Filter(Pat, Expr),
    FilterMap(Pat, Expr),
    Take(Expr),
    Enumerate,
    Cloned,
    Copied,
}

/// `x` is evaluated once, before the repetition: a labelled block, of which `fuse` takes the first statement out
fn once(x: &Expr, generator: bool, f: impl Fn(&Expr) -> Expr) -> Expr {
    match unparen(x) {
        Expr::Tuple(t) if t.elems.is_empty() => return x.clone(),
        Expr::Lit(_) => return x.clone(),
        Expr::Path(_) | Expr::Reference(_) if generator => return f(x),
        _ => (),
    }
    let v: Expr = parse_quote!(__once);
    let b = f(&v);
    parse_quote!('once: { let mut __once = #x; #b })
}

impl IterChain {
    /// (source expression or None for an endless repetition of an expression, stages in order)
    fn chain(&self, e: &Expr, top: bool) -> Option<(std::result::Result<Expr, Expr>, Vec<Stage>)> {
        match unparen(e) {
            Expr::MethodCall(m) => {
                let a: Vec<&Expr> = m.args.iter().collect();
                let n = m.method.to_string();
                let st = match (n.as_str(), a.len()) {
                    ("map", 1) => match closure_pats(a[0], 1) {
                        Some((mut p, b)) => Some(Stage::Map(p.remove(0), b)),
                        None => match a[0] {
                            Expr::Path(p) => Some(Stage::MapFn(Expr::Path(p.clone()))),
                            _ => return None,
                        },
                    },
                    ("filter", 1) => closure_pats(a[0], 1).map(|(mut p, b)| Stage::Filter(p.remove(0), b)),
                    ("filter_map", 1) => closure_pats(a[0], 1).map(|(mut p, b)| Stage::FilterMap(p.remove(0), b)),
                    ("take", 1) => Some(Stage::Take(a[0].clone())),
                    ("enumerate", 0) => Some(Stage::Enumerate),
                    ("cloned", 0) => Some(Stage::Cloned),
                    ("copied", 0) => Some(Stage::Copied),
                    ("values_mut", 0) => {
                        let r = &m.receiver;
                        return Some((Ok(parse_quote!((#r).iter_mut_())), vec![Stage::Map(parse_quote!((_, __v)), parse_quote!(__v))]));
                    }
                    ("rev", 0) | ("skip", 1) | ("zip", 1) => {
                        let (r, st) = self.chain(&m.receiver, false)?;
                        let r = r.ok()?;
                        if !st.is_empty() || matches!(unparen(&r), Expr::Range(_)) {
                            return None;
                        }
                        return Some(match n.as_str() {
                            "rev" => (Ok(parse_quote!((#r).rev_())), vec![]),
                            "skip" => {
                                let k = a[0];
                                (Ok(parse_quote!((#r).skip_(#k))), vec![])
                            }
                            _ => {
                                let o: Expr = match self.chain(a[0], false) {
                                    Some((Ok(o), st)) if st.is_empty() && !matches!(unparen(&o), Expr::Range(_)) => o,
                                    Some(_) => return None,
                                    None => {
                                        let o = a[0];
                                        parse_quote!((#o).into_iter_())
                                    }
                                };
                                (Ok(parse_quote!((#r).zip_(#o))), vec![])
                            }
                        });
                    }
                    ("windows", 1) => {
                        let (r, k) = (&m.receiver, a[0]);
                        return Some((Ok(parse_quote!((#r).windows_(#k))), vec![]));
                    }
                    ("iter_", 0) | ("keys_", 0) | ("values_", 0) | ("drain_", 0) | ("into_keys", 0) | ("into_values", 0) => {
                        return Some((Ok(Expr::MethodCall(m.clone())), vec![]))
                    }
                    ("into_iter_", 0) => {
                        // `x.iter().into_iter()`
                        if let Some(r) = self.chain(&m.receiver, false) {
                            return Some(r);
                        }
                        return Some((Ok((*m.receiver).clone()), vec![]));
                    }
                    ("sample_iter", 1) => {
                        let (r, d) = (&m.receiver, a[0]);
                        return Some((Err(once(r, true, |r| parse_quote!((#r).sample(#d)))), vec![]));
                    }
                    _ => return None,
                }?;
                let (s, mut v) = self.chain(&m.receiver, false)?;
                v.push(st);
                Some((s, v))
            }
            Expr::Range(r) if r.start.is_some() && r.end.is_some() => Some((Ok(Expr::Range(r.clone())), vec![])),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last()?.ident.to_string();
                    let n = n.rsplit("__").next().unwrap_or("").to_string();
                    if n == "repeat" && c.args.len() == 1 {
                        return Some((Err(once(&c.args[0], false, |r| parse_quote!((#r).clone()))), vec![]));
                    }
                    if n == "repeat_with" && c.args.len() == 1 {
                        let b = closure0(&c.args[0])?;
                        return Some((Err(b), vec![]));
                    }
                    if n == "repeat_n" && c.args.len() == 2 {
                        let x = once(&c.args[0], false, |r| parse_quote!((#r).clone()));
                        return Some((Err(x), vec![Stage::Take(c.args[1].clone())]));
                    }
                }
                None
            }
            _ => {
                let _ = top;
                None
            }
        }
    }

    fn fuse(&mut self, src: std::result::Result<Expr, Expr>, mut st: Vec<Stage>, last: impl FnOnce(Ident) -> Expr) -> Option<(TokenStream, Expr)> {
        let id = self.n;
        self.n += 1;
        let mut pre = quote!();
        let x0 = format_ident!("__x{}_0", id);
        let (source, head): (Expr, TokenStream) = match src {
            Ok(s) => (s, quote!()),
            Err(mut rep) => {
                if let Expr::Block(b) = &mut rep {
                    if b.label.as_ref().map(|l| l.name.ident == "once").unwrap_or(false) {
                        b.label = None;
                        let first = b.block.stmts.remove(0);
                        pre = quote!(#first);
                    }
                }
                // the number of repetitions comes from the first `take` that no filter precedes
                let t = st.iter().position(|s| matches!(s, Stage::Take(_)))?;
                if st[..t].iter().any(|s| matches!(s, Stage::Filter(..) | Stage::FilterMap(..))) {
                    return None;
                }
                let n = match st.remove(t) {
                    Stage::Take(n) => n,
                    _ => return None,
                };
                (parse_quote!(0..(#n)), quote!(let #x0 = #rep;))
            }
        };
        let repeated = !head.is_empty();
        let mut guard = quote!();
        // inside out
        let mut steps: Vec<(TokenStream, Ident, bool)> = vec![]; // (tokens before the rest, name after, opens a block)
        let mut cur = x0.clone();
        for (i, s) in st.into_iter().enumerate() {
            let nx = format_ident!("__x{}_{}", id, i + 1);
            match s {
                Stage::Map(p, b) => steps.push((quote!(let #nx = { let #p = #cur; #b };), nx.clone(), false)),
                Stage::MapFn(f) => {
                    let t = tstr(&f);
                    if t.ends_with(":: from") || t.ends_with(":: into") {
                        let ty = t.trim_end_matches(":: from").trim_end_matches(":: into").trim().to_string();
                        if ty == "char" {
                            steps.push((quote!(let #nx = #cur as char;), nx.clone(), false))
                        } else {
                            let ty: Type = parse_str(&ty).ok()?;
                            steps.push((quote!(let #nx = Into_::<#ty>::into_(#cur);), nx.clone(), false))
                        }
                    } else {
                        steps.push((quote!(let #nx = #f(#cur);), nx.clone(), false))
                    }
                }
                Stage::Filter(p, b) => steps.push((quote!(let #nx = #cur; if { let #p = &#nx; #b }), nx.clone(), true)),
                Stage::FilterMap(p, b) => steps.push((quote!(if let Some(#nx) = { let #p = #cur; #b }), nx.clone(), true)),
                Stage::Take(n) => {
                    let (c, m) = (format_ident!("__n{}_{}", id, i), format_ident!("__m{}_{}", id, i));
                    pre = quote!(#pre let #m: usize = #n; let mut #c: usize = 0;);
                    guard = quote!(#guard if #c >= #m { break; });
                    steps.push((quote!(#c = #c + 1; let #nx = #cur;), nx.clone(), false))
                }
                Stage::Enumerate => {
                    let c = format_ident!("__n{}_{}", id, i);
                    pre = quote!(#pre let mut #c: usize = 0;);
                    steps.push((quote!(let #nx = (#c, #cur); #c = #c + 1;), nx.clone(), false))
                }
                Stage::Cloned => steps.push((quote!(let #nx = (#cur).clone();), nx.clone(), false)),
                Stage::Copied => steps.push((quote!(let #nx = *#cur;), nx.clone(), false)),
            }
            cur = nx;
        }
        let body = last(cur);
        let mut inner = quote!(#body);
        for (t, _, block) in steps.into_iter().rev() {
            inner = if block { quote!(#t { #inner }) } else { quote!(#t #inner) };
        }
        let lp = if repeated {
            quote!(for _ in #source { #guard #head #inner })
        } else {
            quote!(for #x0 in #source { #guard #inner })
        };
        Some((pre, parse2(lp).ok()?))
    }

    fn consume(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        let a: Vec<&Expr> = m.args.iter().collect();
        let id = self.n;
        match (n.as_str(), a.len()) {
            ("collect", 0) | ("for_each", 1) | ("any", 1) | ("all", 1) | ("find", 1) | ("position", 1) | ("count", 0) | ("fold", 2) => {}
            _ => return None,
        }
        let (s, st) = self.chain(&m.receiver, true)?;
        match n.as_str() {
            "collect" => {
                let o = format_ident!("__o{}", id);
                let ty: Option<Type> = m.turbofish.as_ref().and_then(|t| match t.args.first() {
                    Some(GenericArgument::Type(t)) => Some(t.clone()),
                    _ => None,
                });
                let (pre, lp) = self.fuse(s, st, |x| parse_quote!({ Collect_::push_(&mut #o, #x); }))?;
                Some(match ty {
                    Some(t) if !tstr(&t).contains('_') => parse_quote!({ let mut #o: #t = Collect_::new_(); #pre #lp #o }),
                    _ => parse_quote!({ let mut #o = Collect_::new_(); #pre #lp #o }),
                })
            }
            "for_each" => {
                let (mut p, b) = closure_pats(a[0], 1)?;
                let p = p.remove(0);
                let (pre, lp) = self.fuse(s, st, |x| parse_quote!({ let #p = #x; #b; }))?;
                Some(parse_quote!({ #pre #lp }))
            }
            "any" | "all" => {
                let (mut p, b) = closure_pats(a[0], 1)?;
                let p = p.remove(0);
                let o = format_ident!("__o{}", id);
                let any = n == "any";
                let (mk, mb) = (p.clone(), b.clone());
                let plain = st.is_empty();
                let (pre, lp) = self.fuse(s, st, |x| {
                    if any {
                        parse_quote!({ if { let #p = #x; #b } { #o = true; break; } })
                    } else {
                        parse_quote!({ if !{ let #p = #x; #b } { #o = false; break; } })
                    }
                })?;
                let lp = if plain { with_search(lp, quote!(#o, #n, |#mk| #mb)) } else { lp };
                Some(parse_quote!({ let mut #o = !#any; #pre #lp #o }))
            }
            "find" | "position" => {
                let (mut p, b) = closure_pats(a[0], 1)?;
                let p = p.remove(0);
                let o = format_ident!("__o{}", id);
                let c = format_ident!("__c{}", id);
                let plain = st.is_empty();
                let mark = quote!(#o, #n, |#p| #b);
                if n == "find" {
                    let (pre, lp) = self.fuse(s, st, |x| parse_quote!({ if { let #p = &#x; #b } { #o = Some(#x); break; } }))?;
                    let lp = if plain { with_search(lp, mark) } else { lp };
                    Some(parse_quote!({ let mut #o = None; #pre #lp #o }))
                } else {
                    let (pre, lp) = self.fuse(s, st, |x| parse_quote!({ if { let #p = #x; #b } { #o = Some(#c); break; } #c = #c + 1; }))?;
                    let lp = if plain { with_search(lp, mark) } else { lp };
                    Some(parse_quote!({ let mut #o = None; let mut #c: usize = 0; #pre #lp #o }))
                }
            }
            "count" => {
                let o = format_ident!("__o{}", id);
                let (pre, lp) = self.fuse(s, st, |_| parse_quote!({ #o = #o + 1; }))?;
                Some(parse_quote!({ let mut #o: usize = 0; #pre #lp #o }))
            }
            "fold" => {
                let (p, b) = closure_pats(a[1], 2)?;
                let (pa, px) = (&p[0], &p[1]);
                let o = format_ident!("__o{}", id);
                let init = a[0];
                let (pre, lp) = self.fuse(s, st, |x| parse_quote!({ #o = { let #pa = #o; let #px = #x; #b }; }))?;
                Some(parse_quote!({ let mut #o = #init; #pre #lp #o }))
            }
            _ => None,
        }
    }
}
fn with_search(lp: Expr, mark: TokenStream) -> Expr {
    match lp {
        Expr::ForLoop(mut f) => {
            f.body.stmts.insert(0, parse_quote!(__search(#mark);));
            Expr::ForLoop(f)
        }
        e => e,
    }
}
/// `for x in xs { if P { flag = true; break; } }`
fn flag_loop(f: &ExprForLoop) -> Option<TokenStream> {
    if f.body.stmts.len() != 1 {
        return None;
    }
    let i = match &f.body.stmts[0] {
        Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() && !matches!(&*i.cond, Expr::Let(_)) => i,
        _ => return None,
    };
    let st = &i.then_branch.stmts;
    let brk = match st.len() {
        1 => false,
        2 => matches!(&st[1], Stmt::Expr(Expr::Break(b), _) if b.label.is_none() && b.expr.is_none()),
        _ => return None,
    };
    if st.len() == 2 && !brk {
        return None;
    }
    if let Stmt::Expr(Expr::Assign(a), _) = &st[0] {
        if let (Expr::Path(p), Expr::Lit(ExprLit { lit: Lit::Bool(v), .. })) = (&*a.left, &*a.right) {
            let o = p.path.get_ident()?;
            let (p, c) = (&f.pat, &i.cond);
            return Some(match (v.value, brk) {
                (true, true) => quote!(#o, "any", |#p| #c),
                (false, true) => quote!(#o, "all", |#p| !(#c)),
                (true, false) => quote!(#o, "flag", |#p| #c),
                (false, false) => quote!(#o, "unflag", |#p| #c),
            });
        }
    }
    None
}
impl VisitMut for IterChain {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::ForLoop(f) = e {
            if search_of(&f.body).is_none() && !matches!(unparen(&f.expr), Expr::Range(_)) {
                if let Some(m) = flag_loop(f) {
                    f.body.stmts.insert(0, parse_quote!(__search(#m);));
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if let Some(x) = self.consume(m) {
                *e = x;
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "extend" && m.args.len() == 1 {
                let r = (*m.receiver).clone();
                let src = match self.chain(&m.args[0], true) {
                    Some(x) => x,
                    None => {
                        let a = &m.args[0];
                        (Ok(parse_quote!((#a).into_iter_())), vec![])
                    }
                };
                if let Some((pre, lp)) = self.fuse(src.0, src.1, |x| parse_quote!({ Collect_::push_(&mut #r, #x); })) {
                    *e = parse_quote!({ #pre #lp });
                }
            } else if m.method == "retain" && m.args.len() == 1 {
                let r = &m.receiver;
                if let Some((p, b)) = closure_pats(&m.args[0], 2) {
                    let (k, v) = (&p[0], &p[1]);
                    *e = parse_quote!({
                        let mut __gone = Vec::new();
                        for (__k, __v) in (#r).iter_() { let #v = __v; let #k = __k; if !{ #b } { __gone.push(__k.clone()); } }
                        for __k in __gone.iter_() { (#r).remove(__k); }
                    });
                } else if let Some((p, b)) = closure_pats(&m.args[0], 1) {
                    let p = &p[0];
                    *e = parse_quote!({
                        let __all = mem__take(&mut #r);
                        for __x in __all { if { let #p = &__x; #b } { (#r).push(__x); } }
                    });
                }
            }
        }
        if let Expr::ForLoop(f) = e {
            // `for x in src.map(..)`: only chains with stages
            if f.label.is_none() {
                if let Some((s, st)) = self.chain(&f.expr, true) {
                    if let (true, Ok(x)) = (st.is_empty(), &s) {
                        if !matches!(unparen(x), Expr::Range(_)) {
                            f.expr = Box::new(x.clone());
                        }
                    }
                    if !st.is_empty() {
                        // the body comes last, so `break` and `continue` keep their meaning
                        let p = (*f.pat).clone();
                        let b = f.body.clone();
                        if let Some((pre, lp)) = self.fuse(s, st, |x| parse_quote!({ let #p = #x; #b })) {
                            *e = parse_quote!({ #pre #lp });
                        }
                    }
                }
            }
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

// ---------------------------------------------------------------- what a bare `collect()` collects into

fn concrete(t: &Type) -> bool {
    let s = t.to_token_stream().to_string();
    !s.contains("impl ") && !s.contains('_') && !s.contains("Self")
}
fn collect_into(e: &mut Expr, t: &Type) {
    match e {
        Expr::Paren(p) => collect_into(&mut p.expr, t),
        Expr::MethodCall(m) if m.method == "collect" && m.args.is_empty() && m.turbofish.is_none() && concrete(t) => {
            m.turbofish = Some(parse_quote!(::<#t>));
        }
        Expr::Block(b) => collect_type(&mut b.block, t),
        Expr::If(i) => {
            collect_type(&mut i.then_branch, t);
            if let Some((_, x)) = &mut i.else_branch {
                collect_into(x, t);
            }
        }
        Expr::Match(m) => {
            for a in m.arms.iter_mut() {
                collect_into(&mut a.body, t);
            }
        }
        // Ok(..), Some(..)
        Expr::Call(c) if c.args.len() == 1 => {
            let f = c.func.to_token_stream().to_string();
            if f == "Ok" || f == "Some" {
                if let Type::Path(p) = t {
                    if let Some(PathArguments::AngleBracketed(a)) = p.path.segments.last().map(|s| s.arguments.clone()) {
                        if let Some(GenericArgument::Type(x)) = a.args.first() {
                            collect_into(&mut c.args[0], x);
                        }
                    }
                }
            }
        }
        _ => (),
    }
}
pub fn collect_type(b: &mut Block, t: &Type) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        collect_into(e, t);
    }
}
pub struct CollectLets;
impl VisitMut for CollectLets {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let (Pat::Type(t), Some(i)) = (&l.pat, &mut l.init) {
            collect_into(&mut i.expr, &t.ty);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(_) = e {}
    }
}
