//! Name resolution: every path is reduced to a name that is unique in the extracted file.
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

use crate::util::is_type_like;

#[derive(Clone, Default, Debug)]
pub struct Scope {
    pub module: Vec<String>,
    pub uses: BTreeMap<String, Vec<String>>,
    pub globs: Vec<Vec<String>>,
}

#[derive(Default)]
pub struct Defs {
    /// type name -> modules (last component) that define it
    pub types: BTreeMap<String, Vec<Vec<String>>>,
    pub fns: BTreeSet<String>,
    pub consts: BTreeMap<String, LitStr>,
    pub statics: BTreeSet<String>,
    /// imported names that are qualified by the module they come from
    pub ambig: BTreeSet<String>,
}

impl Defs {
    pub fn dup(&self, n: &str) -> bool {
        self.types.get(n).map(|v| v.len() > 1).unwrap_or(false)
    }
    pub fn mangle(&self, n: &str, module: &[String]) -> String {
        if self.dup(n) {
            format!("{}__{}", n, module.last().cloned().unwrap_or_default())
        } else {
            n.to_string()
        }
    }
    fn by_mod(&self, n: &str, m: &str) -> Option<Vec<String>> {
        self.types
            .get(n)
            .and_then(|v| v.iter().find(|x| x.last().map(|l| l == m).unwrap_or(false)).cloned())
    }
}

pub fn add_use(tree: &UseTree, pre: Vec<String>, sc: &mut Scope) {
    match tree {
        UseTree::Path(p) => {
            let mut v = pre;
            v.push(p.ident.to_string());
            add_use(&p.tree, v, sc)
        }
        UseTree::Name(n) => {
            let mut v = pre;
            let s = n.ident.to_string();
            if s == "self" {
                if let Some(l) = v.last().cloned() {
                    sc.uses.insert(l, v);
                }
            } else {
                v.push(s.clone());
                sc.uses.insert(s, v);
            }
        }
        UseTree::Rename(r) => {
            let mut v = pre;
            if r.ident != "self" {
                v.push(r.ident.to_string());
            }
            sc.uses.insert(r.rename.to_string(), v);
        }
        UseTree::Glob(_) => sc.globs.push(pre),
        UseTree::Group(g) => {
            for t in g.items.iter() {
                add_use(t, pre.clone(), sc)
            }
        }
    }
}

pub struct Resolver<'a> {
    pub defs: &'a Defs,
    pub scope: &'a Scope,
    pub self_name: Option<String>,
    pub assoc: BTreeMap<String, Type>,
    pub type_params: BTreeSet<String>,
}

impl<'a> Resolver<'a> {
    fn type_name(&self, full: &[String], t: usize) -> String {
        let n = &full[t];
        let module: Option<String> = if t > 0 { Some(full[t - 1].clone()) } else { None };
        if self.defs.types.contains_key(n) {
            let own = self.defs.types[n].iter().find(|m| **m == self.scope.module);
            match module {
                Some(m) => {
                    if m == "self" || m == "crate" {
                        if let Some(o) = own {
                            return self.defs.mangle(n, o);
                        }
                    }
                    if m == "super" {
                        let up: Vec<String> =
                            self.scope.module[..self.scope.module.len().saturating_sub(1)].to_vec();
                        if let Some(x) = self.defs.types[n].iter().find(|x| **x == up) {
                            return self.defs.mangle(n, x);
                        }
                    }
                    if let Some(x) = self.defs.by_mod(n, &m) {
                        return self.defs.mangle(n, &x);
                    }
                    if self.defs.types[n].len() == 1 && (m == "crate" || m == "super" || m == "self") {
                        return n.clone();
                    }
                }
                None => {
                    if let Some(o) = own {
                        return self.defs.mangle(n, o);
                    }
                    for g in self.scope.globs.iter() {
                        if let Some(l) = g.last() {
                            if let Some(x) = self.defs.by_mod(n, l) {
                                return self.defs.mangle(n, &x);
                            }
                        }
                    }
                    return n.clone();
                }
            }
        }
        if self.defs.ambig.contains(n) {
            if t > 0 {
                return format!("{}__{}", full[t - 1], n);
            }
        }
        n.clone()
    }

    /// full path after expanding the first segment through the imports in scope
    fn expand(&self, segs: &[String], call: bool) -> Vec<String> {
        if segs.is_empty() {
            return vec![];
        }
        if segs.len() == 1 && !is_type_like(&segs[0]) && !call {
            return segs.to_vec();
        }
        if let Some(u) = self.scope.uses.get(&segs[0]) {
            let mut v = u.clone();
            v.extend_from_slice(&segs[1..]);
            return v;
        }
        segs.to_vec()
    }

    pub fn resolve(&mut self, p: &mut Path, call: bool) {
        if p.segments.len() == 1 {
            let s = p.segments[0].ident.to_string();
            if self.type_params.contains(&s) || s == "Self" || s == "self" {
                return;
            }
        }
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs[0] == "Self" || self.type_params.contains(&segs[0]) {
            return;
        }
        let full = self.expand(&segs, call);
        let off = full.len() - segs.len().min(full.len());
        let prim = [
            "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "str", "char", "bool", "f32", "f64",
        ];
        // the constants of the primitive types (u32::MAX, std::u32::MAX) are not types
        let of_prim = full.len() >= 2 && prim.contains(&full[full.len() - 2].as_str());
        let ti = if of_prim { None } else { full.iter().position(|s| is_type_like(s)) };
        let keep_args = |i: usize, p: &Path| -> PathArguments {
            // arguments of the segment that full[i] came from
            if i >= off && i - off < p.segments.len() {
                p.segments[i - off].arguments.clone()
            } else if i < off + 1 && !p.segments.is_empty() && i + 1 == off + 1 {
                p.segments[0].arguments.clone()
            } else {
                PathArguments::None
            }
        };
        let mut out: Path = Path { leading_colon: None, segments: Default::default() };
        match ti {
            Some(t) => {
                let name = self.type_name(&full, t);
                out.segments.push(PathSegment {
                    ident: Ident::new(&name, proc_macro2::Span::call_site()),
                    arguments: keep_args(t, p),
                });
                for i in t + 1..full.len() {
                    out.segments.push(PathSegment {
                        ident: Ident::new(&full[i], proc_macro2::Span::call_site()),
                        arguments: keep_args(i, p),
                    });
                }
            }
            None => {
                if full.len() == 1 {
                    return;
                }
                // primitive type path (u32::MAX) or module function
                let last = full.last().unwrap().clone();
                let m = full[full.len() - 2].clone();
                if prim.contains(&m.as_str()) {
                    out.segments.push(PathSegment::from(Ident::new(&m, proc_macro2::Span::call_site())));
                    out.segments.push(PathSegment {
                        ident: Ident::new(&last, proc_macro2::Span::call_site()),
                        arguments: keep_args(full.len() - 1, p),
                    });
                } else if self.defs.fns.contains(&last) {
                    out.segments.push(PathSegment {
                        ident: Ident::new(&last, proc_macro2::Span::call_site()),
                        arguments: keep_args(full.len() - 1, p),
                    });
                } else {
                    out.segments.push(PathSegment {
                        ident: Ident::new(&format!("{}__{}", m, last), proc_macro2::Span::call_site()),
                        arguments: keep_args(full.len() - 1, p),
                    });
                }
            }
        }
        *p = out;
    }
}

impl<'a> VisitMut for Resolver<'a> {
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        self.resolve(p, false);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(tp) = t {
            if tp.path.segments.len() == 2 && tp.path.segments[0].ident == "Self" {
                let n = tp.path.segments[1].ident.to_string();
                if let Some(x) = self.assoc.get(&n) {
                    *t = x.clone();
                    visit_mut::visit_type_mut(self, t);
                    return;
                }
                if n == "Context" {
                    *t = parse_quote!(Context<Self>);
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if let Expr::Path(ep) = &mut *c.func {
                if ep.qself.is_none() {
                    for s in ep.path.segments.iter_mut() {
                        visit_mut::visit_path_segment_mut(self, s);
                    }
                    self.resolve(&mut ep.path, true);
                    for a in c.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
            }
        }
        if let Expr::Path(ep) = e {
            let last = ep.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if self.defs.statics.contains(&last) {
                let id = Ident::new(&format!("static__{}", last), proc_macro2::Span::call_site());
                *e = parse_quote!((*#id()));
                return;
            }
            if ep.path.segments.len() == 1 {
                let n = ep.path.segments[0].ident.to_string();
                if let Some(l) = self.defs.consts.get(&n) {
                    *e = Expr::Lit(ExprLit { attrs: vec![], lit: Lit::Str(l.clone()) });
                    return;
                }
            } else if let Some(l) = ep.path.segments.last().and_then(|s| self.defs.consts.get(&s.ident.to_string())) {
                if !is_type_like(&ep.path.segments[ep.path.segments.len() - 2].ident.to_string()) || ep.path.segments[0].ident == "Self" {
                    *e = Expr::Lit(ExprLit { attrs: vec![], lit: Lit::Str(l.clone()) });
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
