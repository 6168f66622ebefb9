//! vx: mechanical extraction of functions and types from /repo/src into Verus text.
//! usage: vx CONFIG.json  (prints JSON on stdout)
mod names;
mod passes;
mod util;

use names::*;
use passes::*;
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;
use util::*;

#[derive(Clone)]
struct FnRec {
    key: String,
    name: String,
    self_name: Option<String>,
    impl_generics: Generics,
    self_ty: Option<Type>,
    kind: String, // inherent | from | trait | free | traitdecl | traitimpl
    trait_ty: Option<String>,
    sig: Signature,
    block: Block,
    file: String,
    line: usize,
    end_line: usize,
    unsupported: Vec<String>,
    module: Vec<String>,
    inlined: Vec<String>,
    sig_tokens: Option<TokenStream>,
}

struct TypeRec {
    name: String,
    text: String,
    file: String,
    line: usize,
    derives: Vec<String>,
    rtype: Option<String>,
    fields: Vec<(String, String)>,
    generics: usize,
    kind: String,
    attrs: Vec<String>,
}

struct Cx {
    defs: Defs,
    fns: Vec<FnRec>,
    types: Vec<TypeRec>,
    keep_traits: BTreeSet<String>,
    trait_texts: Vec<(String, String)>,
    skip_items: BTreeSet<String>,
}

fn cfg_off(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") {
            return false;
        }
        let s = tstr(&a.meta);
        s.contains("test") && !s.contains("not") || s.contains("libmcaptcha_verif") && !s.contains("not")
    })
}

/// statics whose value is not a literal
struct CollectStatics<'a>(Vec<&'a ItemStatic>);
impl<'a> syn::visit::Visit<'a> for CollectStatics<'a> {
    fn visit_item_static(&mut self, s: &'a ItemStatic) {
        if !cfg_off(&s.attrs) && !matches!(&*s.expr, Expr::Lit(_)) {
            self.0.push(s);
        }
    }
    fn visit_item_mod(&mut self, m: &'a ItemMod) {
        if !cfg_off(&m.attrs) {
            syn::visit::visit_item_mod(self, m);
        }
    }
}

fn strip_vis(f: &mut Fields) {
    let p: Visibility = parse_quote!(pub);
    match f {
        Fields::Named(n) => n.named.iter_mut().for_each(|x| {
            x.vis = p.clone();
            x.attrs.clear();
        }),
        Fields::Unnamed(n) => n.unnamed.iter_mut().for_each(|x| {
            x.vis = p.clone();
            x.attrs.clear();
        }),
        Fields::Unit => {}
    }
}

fn mod_of(rel: &str) -> Vec<String> {
    let mut v: Vec<String> = rel.trim_end_matches(".rs").split('/').map(|s| s.to_string()).collect();
    if v.last().map(|s| s == "mod").unwrap_or(false) {
        v.pop();
    }
    v
}

fn walk_items<'a>(items: &'a [Item], module: Vec<String>, out: &mut Vec<(Vec<String>, &'a [Item])>) {
    out.push((module.clone(), items));
    for i in items {
        if let Item::Mod(m) = i {
            if cfg_off(&m.attrs) {
                continue;
            }
            if let Some((_, its)) = &m.content {
                let mut v = module.clone();
                v.push(m.ident.to_string());
                walk_items(its, v, out);
            }
        }
    }
}

fn type_params(g: &Generics) -> BTreeSet<String> {
    g.params
        .iter()
        .filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None })
        .collect()
}

fn clean_generics(g: &mut Generics) {
    if let Some(w) = &mut g.where_clause {
        let kept: Vec<WherePredicate> = w
            .predicates
            .iter()
            .filter(|p| !tstr(p).contains("ToEnvelope"))
            .cloned()
            .collect();
        if kept.is_empty() {
            g.where_clause = None;
        } else {
            w.predicates = kept.into_iter().collect();
        }
    }
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            t.bounds = t
                .bounds
                .iter()
                .filter(|b| {
                    let s = tstr(*b);
                    !["Send", "Sync", "'static"].contains(&s.as_str())
                })
                .cloned()
                .collect();
        }
    }
}

struct CollectUses<'a>(&'a mut Scope);
impl<'a, 'ast> syn::visit::Visit<'ast> for CollectUses<'a> {
    fn visit_item_use(&mut self, u: &'ast ItemUse) {
        add_use(&u.tree, vec![], self.0);
    }
}

fn type_base(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Type::Reference(r) => type_base(&r.elem),
        _ => None,
    }
}

fn short(t: &Type) -> String {
    tstr(t).replace(' ', "")
}

impl Cx {
    fn scope_for(&self, module: &[String], items: &[Item]) -> Scope {
        let mut sc = Scope { module: module.to_vec(), ..Default::default() };
        for i in items {
            if let Item::Use(u) = i {
                add_use(&u.tree, vec![], &mut sc);
            }
        }
        sc
    }

    fn add_type(&mut self, it: &Item, sc: &Scope, file: &str) {
        let (ident, attrs, generics) = match it {
            Item::Struct(s) => (s.ident.clone(), s.attrs.clone(), s.generics.clone()),
            Item::Enum(s) => (s.ident.clone(), s.attrs.clone(), s.generics.clone()),
            Item::Type(s) => (s.ident.clone(), s.attrs.clone(), s.generics.clone()),
            _ => return,
        };
        if cfg_off(&attrs) || self.skip_items.contains(&ident.to_string()) {
            return;
        }
        let name = self.defs.mangle(&ident.to_string(), &sc.module);
        let mut it = it.clone();
        let mut derives = vec![];
        let mut rtype = None;
        let mut other = vec![];
        for a in &attrs {
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|m| {
                    derives.push(m.path.segments.last().unwrap().ident.to_string());
                    Ok(())
                });
            } else if a.path().is_ident("rtype") {
                let _ = a.parse_nested_meta(|m| {
                    if m.path.is_ident("result") {
                        let v = m.value()?;
                        let s: LitStr = v.parse()?;
                        rtype = Some(s.value());
                    }
                    Ok(())
                });
            } else if !a.path().is_ident("doc") {
                other.push(tstr(a));
            }
        }
        let tp = type_params(&generics);
        let ngen = tp.len();
        {
            let mut r = Resolver { defs: &self.defs, scope: sc, self_name: None, assoc: Default::default(), type_params: tp.clone() };
            r.visit_item_mut(&mut it);
        }
        let rtype = rtype.and_then(|s| {
            let mut t: Type = parse_str(&s).ok()?;
            let mut r = Resolver { defs: &self.defs, scope: sc, self_name: None, assoc: Default::default(), type_params: tp.clone() };
            r.visit_type_mut(&mut t);
            Some(tstr(&t))
        });
        let mut fields = vec![];
        let id = Ident::new(&name, Span::call_site());
        let rej: Vec<TokenStream> = tp
            .iter()
            .map(|t| {
                let t = format_ident!("{}", t);
                quote!(#[verifier::reject_recursive_types(#t)])
            })
            .collect();
        let line = it.span().start().line;
        let kind;
        let text = match &mut it {
            Item::Struct(s) => {
                kind = "struct";
                for (i, f) in s.fields.iter().enumerate() {
                    for a in &f.attrs {
                        if !a.path().is_ident("doc") {
                            other.push(tstr(a));
                        }
                    }
                    fields.push((f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), tstr(&f.ty)));
                }
                strip_vis(&mut s.fields);
                s.attrs.clear();
                s.ident = id;
                s.vis = parse_quote!(pub);
                clean_generics(&mut s.generics);
                render(quote!(#(#rej)* #s))
            }
            Item::Enum(s) => {
                kind = "enum";
                s.attrs.clear();
                s.ident = id;
                s.vis = parse_quote!(pub);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    match &mut v.fields {
                        Fields::Named(n) => n.named.iter_mut().for_each(|x| x.attrs.clear()),
                        Fields::Unnamed(n) => n.unnamed.iter_mut().for_each(|x| x.attrs.clear()),
                        _ => {}
                    }
                    fields.push((v.ident.to_string(), tstr(&v.fields)));
                }
                render(quote!(#(#rej)* #s))
            }
            Item::Type(s) => {
                kind = "type";
                s.attrs.clear();
                s.ident = id;
                s.vis = parse_quote!(pub);
                render(quote!(#s))
            }
            _ => return,
        };
        self.types.push(TypeRec {
            name,
            text,
            file: file.into(),
            line,
            derives,
            rtype,
            fields,
            generics: ngen,
            kind: kind.into(),
            attrs: other,
        });
    }

    #[allow(clippy::too_many_arguments)]
    fn add_fn(
        &mut self,
        sig: &Signature,
        block: &Block,
        sc: &Scope,
        file: &str,
        self_ty: Option<&Type>,
        generics: &Generics,
        trait_path: Option<&Path>,
        assoc: &BTreeMap<String, Type>,
        async_fns: &BTreeSet<String>,
    ) {
        let mut sig = sig.clone();
        let mut block = block.clone();
        let line = sig.span().start().line;
        let end_line = block.span().end().line;
        let mut unsupported = vec![];
        let mut sc = sc.clone();
        syn::visit::Visit::visit_block(&mut CollectUses(&mut sc), &block);
        let mut tps = type_params(generics);
        tps.extend(type_params(&sig.generics));
        let mut generics = generics.clone();
        let mut self_ty = self_ty.cloned();
        let mut trait_path = trait_path.cloned();
        Macros { unsupported: &mut unsupported, consts: &self.defs.consts }.visit_block_mut(&mut block);
        {
            let mut r = Resolver {
                defs: &self.defs,
                scope: &sc,
                self_name: None,
                assoc: assoc.clone(),
                type_params: tps.clone(),
            };
            r.visit_block_mut(&mut block);
            r.visit_signature_mut(&mut sig);
            r.visit_generics_mut(&mut generics);
            if let Some(t) = &mut self_ty {
                r.visit_type_mut(t);
            }
            if let Some(p) = &mut trait_path {
                r.visit_path_mut(p);
            }
        }
        // the result's inner `type Result = ..` may itself mention imports: resolved by visit_type_mut
        StripAttrs { unsupported: &mut unsupported }.visit_block_mut(&mut block);
        Erase { async_fns }.visit_block_mut(&mut block);
        if let ReturnType::Type(_, t) = &sig.output {
            collect_type(&mut block, t);
        }
        CollectLets.visit_block_mut(&mut block);
        IterChain { n: 0 }.visit_block_mut(&mut block);
        Combinators.visit_block_mut(&mut block);
        let opt = matches!(&sig.output, ReturnType::Type(_, t) if type_base(t).as_deref() == Some("Option"));
        let mut t = TryOp { option: opt, closures: 0, bad: false };
        t.visit_block_mut(&mut block);
        if t.bad {
            unsupported.push("? inside closure or async block".into());
        }
        clean_generics(&mut generics);
        let self_name = self_ty.as_ref().and_then(type_base);
        let mut name = sig.ident.to_string();
        let mut kind = if self_ty.is_some() { "inherent" } else { "free" }.to_string();
        let mut key = match &self_name {
            Some(s) => format!("{}::{}", s, name),
            None => name.clone(),
        };
        let mut trait_ty = None;
        if let Some(tp) = &trait_path {
            let tn = tp.segments.last().unwrap();
            let tname = tn.ident.to_string();
            if tname == "Handler" {
                if let PathArguments::AngleBracketed(a) = &tn.arguments {
                    let m = tstr(&a.args).replace(' ', "");
                    name = format!("handle__{}", m);
                    key = format!("{}::{}", self_name.clone().unwrap(), name);
                }
            } else if tname == "From" {
                if let PathArguments::AngleBracketed(a) = &tn.arguments {
                    let src = a.args.first().unwrap();
                    key = format!("From<{}>for{}", tstr(src).replace(' ', ""), short(self_ty.as_ref().unwrap()));
                    kind = "from".into();
                    trait_ty = Some(tstr(src));
                }
            } else if self.keep_traits.contains(&tname) {
                kind = "traitimpl".into();
                trait_ty = Some(tstr(tp));
            } else if tname == "Drop" {
                name = "drop__".into();
                key = format!("{}::drop__", self_name.clone().unwrap());
            }
        }
        if self.skip_items.contains(&key) {
            return;
        }
        self.fns.push(FnRec {
            key,
            name,
            self_name,
            impl_generics: generics,
            self_ty,
            kind,
            trait_ty,
            sig,
            block,
            file: file.into(),
            line,
            end_line,
            unsupported,
            module: sc.module.clone(),
            inlined: vec![],
            sig_tokens: None,
        });
    }
}

struct SubstSelf(Type);
impl VisitMut for SubstSelf {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments[0].ident == "Self" {
            if let Type::Path(tp) = &self.0 {
                let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
                let mut np = tp.path.clone();
                if !rest.is_empty() {
                    // Self::x in expression position: drop generic args
                    for s in np.segments.iter_mut() {
                        s.arguments = PathArguments::None;
                    }
                }
                for r in rest {
                    np.segments.push(r);
                }
                *p = np;
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// struct literals / expressions may not carry `Self` generics
struct SelfLit(String);
impl VisitMut for SelfLit {
    fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
        for seg in s.path.segments.iter_mut() {
            seg.arguments = PathArguments::None;
        }
        visit_mut::visit_expr_struct_mut(self, s);
    }
}

// ------------------------------------------------------------------ inlining

struct Inliner<'a> {
    fns: &'a BTreeMap<String, FnRec>, // inlinable helpers by key
    by_method: &'a BTreeMap<String, Vec<String>>,
    self_name: Option<String>,
    n: &'a mut usize,
    done: Vec<String>,
    stack: Vec<String>,
}

const STD_METHODS: &[&str] = &[
    "len_", "is_empty", "push", "pop", "get", "get_mut", "insert", "remove", "contains", "contains_key", "iter_", "clone",
    "unwrap", "take", "send", "recv", "next", "map", "find", "run", "start", "stop", "new", "build", "first", "last", "entry",
];

fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.segments.len() == 1,
        Expr::Field(f) => place(&f.base),
        Expr::Paren(p) => place(&p.expr),
        _ => false,
    }
}

impl<'a> Inliner<'a> {
    fn expand(&mut self, key: &str, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.stack.iter().any(|k| k == key) || self.stack.len() > 6 {
            return None;
        }
        let f = self.fns.get(key)?.clone();
        let mut pre: Vec<Stmt> = vec![];
        let k = *self.n;
        *self.n += 1;
        let mut b = Bindings(BTreeSet::new());
        syn::visit::Visit::visit_block(&mut b, &f.block);
        for i in f.sig.inputs.iter() {
            if let FnArg::Typed(t) = i {
                syn::visit::Visit::visit_pat(&mut b, &t.pat);
            }
        }
        let map: BTreeMap<String, String> = b.0.iter().map(|x| (x.clone(), format!("{}__h{}", x.trim_start_matches('_'), k))).collect();
        let mut args = args.into_iter();
        let mut self_to = None;
        let mut params: Vec<(Pat, Type, Expr)> = vec![];
        for i in f.sig.inputs.iter() {
            match i {
                FnArg::Receiver(r) => {
                    let e = match &recv {
                        Some(e) => e.clone(),
                        None => args.next()?,
                    };
                    let e = match e {
                        Expr::Reference(rf) if recv.is_none() => (*rf.expr).clone(),
                        e => e,
                    };
                    if place(&e) {
                        self_to = Some(e);
                    } else {
                        let id = format_ident!("__recv{}", k);
                        if r.reference.is_some() {
                            if r.mutability.is_some() {
                                return None;
                            }
                            pre.push(parse_quote!(let #id = &#e;));
                        } else {
                            pre.push(parse_quote!(let #id = #e;));
                        }
                        self_to = Some(parse_quote!(#id));
                    }
                }
                FnArg::Typed(t) => {
                    let mut p = (*t.pat).clone();
                    Rename { map: map.clone(), self_to: None, self_ty: None, bad: false }.visit_pat_mut(&mut p);
                    params.push((p, (*t.ty).clone(), args.next()?));
                }
            }
        }
        let tps = type_params(&f.sig.generics);
        for (p, t, a) in params {
            let ts = tstr(&t);
            let generic = ts.contains("impl ") || tps.iter().any(|x| ts.split(|c: char| !c.is_alphanumeric()).any(|y| y == x));
            let mut t = t;
            if let Some(sn) = &f.self_name {
                Rename { map: Default::default(), self_to: None, self_ty: Some(sn.clone()), bad: false }.visit_type_mut(&mut t);
            }
            if generic {
                pre.push(parse_quote!(let #p = #a;));
            } else {
                pre.push(parse_quote!(let #p: #t = #a;));
            }
        }
        let mut blk = f.block.clone();
        let mut rn = Rename { map, self_to, self_ty: f.self_name.clone(), bad: false };
        rn.visit_block_mut(&mut blk);
        let body = if block_has_return(&blk) {
            elim_stmts(&blk.stmts)?
        } else {
            Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk })
        };
        self.stack.push(key.to_string());
        let saved = self.self_name.clone();
        let mut body = body;
        // helpers called by the helper (its `self` has been substituted)
        self.visit_expr_mut(&mut body);
        self.self_name = saved;
        self.stack.pop();
        self.done.push(key.to_string());
        let rt: Option<Type> = match &f.sig.output {
            ReturnType::Default => None,
            ReturnType::Type(_, t) => {
                let s = tstr(t);
                if s.contains("impl ") || tps.iter().any(|x| s.contains(x.as_str())) {
                    None
                } else {
                    let mut t = (**t).clone();
                    if let Some(sn) = &f.self_name {
                        Rename { map: Default::default(), self_to: None, self_ty: Some(sn.clone()), bad: false }.visit_type_mut(&mut t);
                    }
                    if s.contains('&') || s.contains('\'') {
                        None
                    } else {
                        Some(t)
                    }
                }
            }
        };
        let id = format_ident!("__ret{}", k);
        Some(match rt {
            Some(t) => parse_quote!({ #(#pre)* let #id: #t = #body; #id }),
            None => parse_quote!({ #(#pre)* #body }),
        })
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let recv_self = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                let own = self.self_name.as_ref().map(|s| format!("{}::{}", s, n));
                let key = match own {
                    Some(k) if recv_self && self.fns.contains_key(&k) => Some(k),
                    _ => match self.by_method.get(&n) {
                        Some(v) if v.len() == 1 && !STD_METHODS.contains(&n.as_str()) && self.fns.contains_key(&v[0]) => Some(v[0].clone()),
                        _ => None,
                    },
                };
                key.and_then(|k| self.expand(&k, Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let key = if segs.len() == 1 {
                        segs[0].clone()
                    } else if segs[0] == "Self" {
                        format!("{}::{}", self.self_name.clone().unwrap_or_default(), segs[1])
                    } else {
                        segs.join("::")
                    };
                    if self.fns.contains_key(&key) {
                        self.expand(&key, None, c.args.iter().cloned().collect())
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(x) = new {
            *e = x;
        }
    }
}

fn strs(v: &Value, k: &str) -> BTreeSet<String> {
    v[k].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default()
}

/// `mut self` receivers become a local `__self`
struct SelfRename;
impl VisitMut for SelfRename {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.is_ident("self") {
            p.segments[0].ident = format_ident!("__self");
        } else {
            visit_mut::visit_path_mut(self, p);
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

fn main() {
    let cfg: Value = serde_json::from_str(&std::fs::read_to_string(std::env::args().nth(1).expect("config")).unwrap()).unwrap();
    let root = cfg["root"].as_str().unwrap().to_string();
    let contracted = strs(&cfg, "contracted");
    let mut effectful = strs(&cfg, "effectful");
    let world_contracted = strs(&cfg, "world");
    let task_calls = strs(&cfg, "task_calls");
    let no_inline = strs(&cfg, "no_inline");
    let inline_all = cfg["inline_all"].as_bool().unwrap_or(false);
    let entry = strs(&cfg, "entry");
    let mut errors: Vec<String> = vec![];
    let mut files: Vec<(String, File)> = vec![];
    let mut only: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for f in cfg["files"].as_array().unwrap() {
        let rel = f["path"].as_str().unwrap().to_string();
        let path = format!("{}/{}", root, rel);
        let src = match std::fs::read_to_string(&path) {
            Ok(s) => s,
            Err(e) => {
                errors.push(format!("{}: {}", path, e));
                continue;
            }
        };
        match parse_file(&src) {
            Ok(x) => {
                files.push((rel.clone(), x));
            }
            Err(e) => errors.push(format!("{}: {}", path, e)),
        }
        let o = strs(f, "only");
        if !o.is_empty() {
            only.insert(rel, o);
        }
    }
    let mut cx = Cx {
        defs: Defs { ambig: strs(&cfg, "ambig"), ..Default::default() },
        fns: vec![],
        types: vec![],
        keep_traits: strs(&cfg, "keep_traits"),
        trait_texts: vec![],
        skip_items: strs(&cfg, "skip"),
    };
    let keep = |rel: &str, n: &str| only.get(rel).map(|o| o.contains(n)).unwrap_or(true);
    let mut async_fns: BTreeSet<String> = strs(&cfg, "async_fns");
    // pass 1: definitions
    for (rel, f) in &files {
        let mut mods = vec![];
        walk_items(&f.items, mod_of(rel), &mut mods);
        for (module, items) in mods {
            for it in items {
                match it {
                    Item::Struct(ItemStruct { ident, attrs, .. })
                    | Item::Enum(ItemEnum { ident, attrs, .. })
                    | Item::Type(ItemType { ident, attrs, .. })
                        if !cfg_off(attrs) && keep(rel, &ident.to_string()) =>
                    {
                        if !cx.skip_items.contains(&ident.to_string()) {
                            cx.defs.types.entry(ident.to_string()).or_default().push(module.clone());
                            for a in attrs {
                                if a.path().is_ident("derive") && tstr(a).contains("Builder") {
                                    cx.defs.types.entry(format!("{}Builder", ident)).or_default().push(module.clone());
                                }
                            }
                        }
                    }
                    Item::Const(c) if !cfg_off(&c.attrs) => {
                        if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &*c.expr {
                            cx.defs.consts.insert(c.ident.to_string(), s.clone());
                        }
                    }
                    Item::Static(c) if !cfg_off(&c.attrs) => {
                        if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &*c.expr {
                            cx.defs.consts.insert(c.ident.to_string(), s.clone());
                        } else if !matches!(&*c.expr, Expr::Lit(_)) {
                            cx.defs.statics.insert(c.ident.to_string());
                        }
                    }
                    Item::Fn(f) if !cfg_off(&f.attrs) && keep(rel, &f.sig.ident.to_string()) => {
                        cx.defs.fns.insert(f.sig.ident.to_string());
                        if f.sig.asyncness.is_some() {
                            async_fns.insert(f.sig.ident.to_string());
                        }
                    }
                    Item::Impl(i) if !cfg_off(&i.attrs) => {
                        for x in &i.items {
                            match x {
                                ImplItem::Fn(f) => {
                                    if f.sig.asyncness.is_some() {
                                        async_fns.insert(f.sig.ident.to_string());
                                        if let Type::Path(t) = &*i.self_ty {
                                            if let Some(t) = t.path.segments.last() {
                                                async_fns.insert(format!("{}::{}", t.ident, f.sig.ident));
                                            }
                                        }
                                    }
                                }
                                ImplItem::Const(c) => {
                                    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &c.expr {
                                        cx.defs.consts.insert(c.ident.to_string(), s.clone());
                                    }
                                }
                                _ => {}
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    // statics declared inside functions
    for (_, f) in &files {
        let mut c = CollectStatics(vec![]);
        syn::visit::Visit::visit_file(&mut c, f);
        cx.defs.statics.extend(c.0.iter().map(|s| s.ident.to_string()));
    }
    // pass 2
    let mut consts_out: Vec<(String, String)> = vec![];
    for (rel, f) in &files {
        let mut mods = vec![];
        walk_items(&f.items, mod_of(rel), &mut mods);
        for (module, items) in mods {
            let sc = cx.scope_for(&module, items);
            for it in items {
                match it {
                    Item::Struct(ItemStruct { ident, .. }) | Item::Enum(ItemEnum { ident, .. }) | Item::Type(ItemType { ident, .. }) => {
                        if keep(rel, &ident.to_string()) {
                            cx.add_type(it, &sc, rel)
                        }
                    }
                    Item::Const(c) if !cfg_off(&c.attrs) => {
                        if !matches!(&*c.expr, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) {
                            let id = &c.ident;
                            let t = &c.ty;
                            let e = &c.expr;
                            consts_out.push((id.to_string(), render(quote!(pub const #id: #t = #e;))));
                        }
                    }
                    Item::Static(c) if !cfg_off(&c.attrs) && matches!(&*c.expr, Expr::Lit(ExprLit { lit, .. }) if !matches!(lit, Lit::Str(_))) => {
                        let (id, t, e) = (&c.ident, &c.ty, &c.expr);
                        consts_out.push((id.to_string(), render(quote!(pub const #id: #t = #e;))));
                    }
                    Item::Fn(f) if !cfg_off(&f.attrs) && keep(rel, &f.sig.ident.to_string()) => {
                        cx.add_fn(&f.sig, &f.block, &sc, rel, None, &Generics::default(), None, &BTreeMap::new(), &async_fns)
                    }
                    Item::Trait(t) if cx.keep_traits.contains(&t.ident.to_string()) && !cfg_off(&t.attrs) => {
                        for x in &t.items {
                            if let TraitItem::Fn(f) = x {
                                let id = &t.ident;
                                let ty: Type = parse_quote!(#id);
                                let blk: Block = f.default.clone().unwrap_or(parse_quote!({}));
                                let n = cx.fns.len();
                                cx.add_fn(&f.sig, &blk, &sc, rel, Some(&ty), &Generics::default(), None, &BTreeMap::new(), &async_fns);
                                if cx.fns.len() > n {
                                    let last = cx.fns.last_mut().unwrap();
                                    last.kind = "traitdecl".into();
                                }
                            }
                        }
                    }
                    Item::Impl(i) if !cfg_off(&i.attrs) => {
                        let base = type_base(&i.self_ty).unwrap_or_default();
                        let assoc: BTreeMap<String, Type> = i
                            .items
                            .iter()
                            .filter_map(|x| if let ImplItem::Type(t) = x { Some((t.ident.to_string(), t.ty.clone())) } else { None })
                            .collect();
                        for x in &i.items {
                            if let ImplItem::Fn(f) = x {
                                if cfg_off(&f.attrs) {
                                    continue;
                                }
                                if !keep(rel, &base) && !keep(rel, &format!("{}::{}", base, f.sig.ident)) {
                                    continue;
                                }
                                cx.add_fn(
                                    &f.sig,
                                    &f.block,
                                    &sc,
                                    rel,
                                    Some(&i.self_ty),
                                    &i.generics,
                                    i.trait_.as_ref().map(|(_, p, _)| p),
                                    &assoc,
                                    &async_fns,
                                );
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }

    // statics that can change: nothing is known of what they hold
    for (rel, f) in &files {
        let mut c = CollectStatics(vec![]);
        syn::visit::Visit::visit_file(&mut c, f);
        let mut sc = cx.scope_for(&mod_of(rel), &f.items);
        syn::visit::Visit::visit_file(&mut CollectUses(&mut sc), f);
        for s in c.0 {
            let mut t = (*s.ty).clone();
            Resolver { defs: &cx.defs, scope: &sc, self_name: None, assoc: BTreeMap::new(), type_params: BTreeSet::new() }.visit_type_mut(&mut t);
            let id = format_ident!("static__{}", s.ident);
            consts_out.push((id.to_string(), render(quote!(#[verifier::external_body] pub fn #id() -> &'static #t { unimplemented!() }))));
        }
    }

    // inlining of helpers without a contract
    let all: BTreeMap<String, FnRec> = cx.fns.iter().map(|f| (f.key.clone(), f.clone())).collect();
    let called: BTreeSet<String> = cx.fns.iter().flat_map(|f| calls(&f.block)).collect();
    let inlinable: BTreeMap<String, FnRec> = all
        .iter()
        .filter(|(k, f)| {
            let ok_kind = f.kind == "inherent" || f.kind == "free";
            let has = if inline_all { entry.contains(*k) } else { contracted.contains(*k) };
            ok_kind && !has && !no_inline.contains(*k) && f.unsupported.is_empty() && !f.name.starts_with("handle__") && f.name != "drop__"
        })
        .map(|(k, f)| (k.clone(), f.clone()))
        .collect();
    let mut by_method: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, f) in &all {
        if f.self_name.is_some() {
            by_method.entry(f.sig.ident.to_string()).or_default().push(k.clone());
        }
    }
    let mut n = 0usize;
    for f in cx.fns.iter_mut() {
        if f.kind == "from" {
            if let Some(t) = &f.self_ty {
                SubstSelf(t.clone()).visit_block_mut(&mut f.block);
                SubstSelf(t.clone()).visit_signature_mut(&mut f.sig);
            }
        }
        let mut inl = Inliner {
            fns: &inlinable,
            by_method: &by_method,
            self_name: f.self_name.clone(),
            n: &mut n,
            done: vec![],
            stack: vec![f.key.clone()],
        };
        inl.visit_block_mut(&mut f.block);
        f.inlined = inl.done;
    }

    // which functions take the ghost world
    let mut world: BTreeSet<String> = world_contracted.clone();
    let mut wm: BTreeSet<String> = BTreeSet::new();
    for f in &cx.fns {
        if world.contains(&f.key) {
            wm.insert(f.sig.ident.to_string());
        }
    }
    effectful.extend(task_calls.iter().cloned());
    loop {
        let before = world.len();
        let mut fresh = vec![];
        for f in &cx.fns {
            if world.contains(&f.key) {
                continue;
            }
            let mut low = Lower {
                fnid: 0,
                loops: vec![],
                n: 0,
                effectful: &effectful,
                world_methods: &wm,
                world_keys: &world,
                self_name: f.self_name.clone(),
                wstack: vec![quote!(w)],
                unsupported: vec![],
                in_closure: 0,
                uses_world: false,
                locals: vec![],
                task_calls: &task_calls,
                has_loop: false,
                has_world: false,
            };
            let mut b = f.block.clone();
            low.visit_block_mut(&mut b);
            if low.uses_world && f.kind != "from" {
                fresh.push(f.key.clone());
            }
        }
        world.extend(fresh);
        for f in &cx.fns {
            if world.contains(&f.key) {
                wm.insert(f.sig.ident.to_string());
            }
        }
        if world.len() == before {
            break;
        }
    }

    let mut out: Vec<Value> = vec![];
    for t in &cx.types {
        out.push(json!({
            "kind": t.kind, "name": t.name, "text": t.text, "file": t.file, "line": t.line, "derives": t.derives,
            "rtype": t.rtype, "fields": t.fields, "generics": t.generics, "attrs": t.attrs,
        }));
    }
    for (n, t) in &consts_out {
        out.push(json!({"kind": "const", "name": n, "text": t}));
    }
    for (i, f) in cx.fns.iter().enumerate() {
        let mut block = f.block.clone();
        let cl = calls(&block);
        SelfLit(String::new()).visit_block_mut(&mut block);
        let mut low = Lower {
            fnid: i,
            loops: vec![],
            n: 0,
            effectful: &effectful,
            world_methods: &wm,
            world_keys: &world,
            self_name: f.self_name.clone(),
            wstack: vec![quote!(w)],
            unsupported: f.unsupported.clone(),
            in_closure: 0,
            uses_world: false,
            locals: vec![],
            task_calls: &task_calls,
            has_loop: false,
            has_world: world.contains(&f.key),
        };
        low.visit_block_mut(&mut block);
        let has_world = world.contains(&f.key);
        let mut params: Vec<String> = vec![];
        let mut inputs: Vec<TokenStream> = vec![];
        let mut pre: Vec<TokenStream> = vec![];
        let mut self_kind = "none";
        for (pi, a) in f.sig.inputs.iter().enumerate() {
            match a {
                FnArg::Receiver(r) => {
                    params.push("self".into());
                    let t = tstr(&r.ty);
                    if t.starts_with("& mut") || (r.reference.is_some() && r.mutability.is_some()) {
                        self_kind = "mut";
                        inputs.push(quote!(&mut self));
                    } else if t.starts_with('&') {
                        self_kind = "ref";
                        inputs.push(quote!(&self));
                    } else {
                        self_kind = "val";
                        if r.mutability.is_some() {
                            inputs.push(quote!(self));
                            pre.push(quote!(let mut __self = self;));
                            SelfRename.visit_block_mut(&mut block);
                        } else {
                            inputs.push(quote!(self));
                        }
                    }
                }
                FnArg::Typed(t) => {
                    let ty = &t.ty;
                    match &*t.pat {
                        Pat::Ident(p) => {
                            let id = &p.ident;
                            params.push(id.to_string());
                            inputs.push(quote!(#id: #ty));
                            if p.mutability.is_some() {
                                pre.push(quote!(let mut #id = #id;));
                            }
                        }
                        p => {
                            let id = format_ident!("__p{}", pi);
                            params.push(id.to_string());
                            inputs.push(quote!(#id: #ty));
                            if !matches!(p, Pat::Wild(_)) {
                                pre.push(quote!(let #p = #id;));
                            }
                        }
                    }
                }
            }
        }
        if has_world {
            inputs.push(quote!(Tracked(w): Tracked<&mut World>));
        }
        let clauses = format_ident!("__CLAUSES__{}", i);
        let name = Ident::new(&f.name, Span::call_site());
        let g = &f.sig.generics;
        let mut fg = g.clone();
        clean_generics(&mut fg);
        let fgw = fg.where_clause.clone();
        let out_ty: TokenStream = match &f.sig.output {
            ReturnType::Default => quote!(),
            ReturnType::Type(_, t) => quote!(-> (ret: #t)),
        };
        let ret_ty = match &f.sig.output {
            ReturnType::Default => "()".to_string(),
            ReturnType::Type(_, t) => tstr(t),
        };
        let stmts = &block.stmts;
        let prehook = format_ident!("__HOOK__{}", i);
        let attr = if low.has_loop { quote!(#[verifier::exec_allows_no_decreases_clause]) } else { quote!() };
        let ig = &f.impl_generics;
        let igw = ig.where_clause.clone();
        let igp = {
            let mut x = ig.clone();
            x.where_clause = None;
            x
        };
        let body = quote!({ #prehook #(#pre)* #(#stmts)* });
        let text = match f.kind.as_str() {
            "free" => render(quote!(#attr pub fn #name #fg (#(#inputs),*) #out_ty #fgw #clauses #body)),
            "from" => {
                let st = f.self_ty.as_ref().unwrap();
                let src: Type = parse_str(f.trait_ty.as_ref().unwrap()).unwrap();
                let p = format_ident!("{}", params.first().cloned().unwrap_or("__p".into()));
                render(quote!(impl #igp Into_<#st> for #src #igw {
                    #attr fn into_(self) -> (ret: #st) #clauses { #prehook let #p = self; #(#pre)* #(#stmts)* }
                }))
            }
            "traitdecl" => {
                let tn = format_ident!("{}", f.self_name.clone().unwrap());
                render(quote!(pub trait #tn { fn #name #fg (#(#inputs),*) #out_ty #clauses ; }))
            }
            "traitimpl" => {
                let st = f.self_ty.as_ref().unwrap();
                let tr: Type = parse_str(f.trait_ty.as_ref().unwrap()).unwrap();
                render(quote!(impl #igp #tr for #st #igw { #attr fn #name #fg (#(#inputs),*) #out_ty #fgw #clauses #body }))
            }
            _ => {
                let st = f.self_ty.as_ref().unwrap();
                render(quote!(impl #igp #st #igw { #attr pub fn #name #fg (#(#inputs),*) #out_ty #fgw #clauses #body }))
            }
        };
        let is_private_called = called.contains(&f.sig.ident.to_string());
        out.push(json!({
            "kind": "fn", "id": i, "key": f.key, "name": f.name, "fnkind": f.kind, "file": f.file, "line": f.line, "end_line": f.end_line,
            "text": text, "params": params, "world": has_world, "self": self_kind, "self_name": f.self_name,
            "calls": cl.into_iter().collect::<Vec<_>>(), "unsupported": low.unsupported,
            "loops": low.loops.iter().map(|l| json!({"id": l.id, "kind": l.kind, "pos": l.pos, "it": l.it, "in_async": l.in_async, "auto": l.auto.iter().map(|(a,b)| json!([a,b])).collect::<Vec<_>>(),
                "locals": l.locals.iter().map(|(a,b,c)| json!([a,b,c])).collect::<Vec<_>>()})).collect::<Vec<_>>(),
            "ret": ret_ty, "inlined": f.inlined, "inlinable": inlinable.contains_key(&f.key), "called": is_private_called,
            "async": f.sig.asyncness.is_some(), "module": f.module,
            "ptypes": f.sig.inputs.iter().map(|a| match a { FnArg::Typed(t) => tstr(&t.ty), _ => "self".to_string() }).collect::<Vec<_>>(),
        }));
        let _ = &f.sig_tokens;
    }
    println!("{}", serde_json::to_string(&json!({"items": out, "errors": errors})).unwrap());
    let _ = cx.trait_texts;
    let _: Option<TokenStream> = None.map(|x: TokenStream| x.to_token_stream());
}
