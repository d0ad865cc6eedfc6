//! Mechanical extractor: reads Rust source files of the code under verification, selects items,
//! applies the fixed list of syntactic transformations documented in DESIGN.md ("What the
//! extraction drops or rewrites"), and emits JSON with one entry per item / function.  The
//! contracts are attached afterwards by driver code; nothing in here knows any contract.
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let s = a.meta.to_token_stream().to_string();
            s.contains("test") && !s.contains("not")
        }
    })
}

fn module_like(s: &str) -> bool {
    s.chars().next().map(|c| c.is_lowercase()).unwrap_or(false)
}

const PRIMS: &[&str] = &[
    "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "str", "char", "bool",
];

/// drop leading module segments of a path:  crate::vpx::biff::WARN -> WARN
fn strip_path(p: &mut Path, keep: &BTreeSet<String>) {
    if p.segments.len() < 2 {
        return;
    }
    p.leading_colon = None;
    let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
    let mut i = 0;
    while i + 1 < segs.len() {
        let s = segs[i].ident.to_string();
        if (s == "crate" || s == "super" || s == "self" || module_like(&s))
            && !keep.contains(&s)
            && !PRIMS.contains(&s.as_str())
        {
            i += 1;
        } else {
            break;
        }
    }
    if i > 0 {
        p.segments = segs[i..].iter().cloned().collect();
        // io::Result<T> is an alias with one argument
        if segs[i - 1].ident == "io" && p.segments.len() == 1 && p.segments[0].ident == "Result" {
            p.segments[0].ident = Ident::new("IoResult", proc_macro2::Span::call_site());
        }
    }
}

struct Xf<'a> {
    keep_mods: &'a BTreeSet<String>,
    rename_methods: &'a BTreeMap<String, String>,
    rename_paths: &'a BTreeMap<String, String>,
    specialise: &'a BTreeMap<String, (Vec<String>, Block)>,
    mangle: &'a BTreeMap<String, String>,
    drop_macros: &'a BTreeSet<String>,
    inline: BTreeMap<String, InlineFn>,
    inline_depth: usize,
    notes: Vec<String>,
    ghost_var: Option<String>,
    loops: usize,
    ghost_n: usize,
    str_match_fn: String,
    errors: Vec<String>,
}

#[derive(Clone)]
struct InlineFn {
    has_self: bool,
    params: Vec<(Pat, Type)>,
    block: Block,
}

fn lit_str_pats(p: &Pat) -> Option<Vec<LitStr>> {
    match p {
        Pat::Lit(PatLit { lit: Lit::Str(s), .. }) => Some(vec![s.clone()]),
        Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(lit_str_pats(c)?);
            }
            Some(v)
        }
        _ => None,
    }
}

/// replace parameter names by argument expressions
struct SubstIdents {
    map: BTreeMap<String, Expr>,
}
impl VisitMut for SubstIdents {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(id) = p.path.get_ident() {
                if let Some(x) = self.map.get(&id.to_string()) {
                    *e = x.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // Trait::method(value, w)  ==>  (value).method(w)
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() == 2 && segs[0] == "BiffWrite" && c.args.len() == 2 {
                    let m = &p.path.segments[1].ident;
                    let (a, b) = (&c.args[0], &c.args[1]);
                    *e = parse_quote!((#a).#m(#b));
                }
            }
        }
    }
}

struct RenameIdent {
    from: String,
    to: Ident,
}
impl VisitMut for RenameIdent {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if *i == self.from {
            *i = self.to.clone();
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let f = self.from.clone();
        let t = self.to.clone();
        m.tokens = rename_tokens(m.tokens.clone(), &f, &t);
    }
}
fn rename_tokens(ts: TokenStream, f: &str, t: &Ident) -> TokenStream {
    ts.into_iter()
        .map(|tt| match tt {
            proc_macro2::TokenTree::Ident(i) if i == f => proc_macro2::TokenTree::Ident(t.clone()),
            proc_macro2::TokenTree::Group(g) => {
                let mut ng = proc_macro2::Group::new(g.delimiter(), rename_tokens(g.stream(), f, t));
                ng.set_span(g.span());
                proc_macro2::TokenTree::Group(ng)
            }
            x => x,
        })
        .collect()
}

fn contains_return(b: &Block) -> bool {
    struct V(bool);
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'ast ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

fn mentions(e: &TokenStream, id: &str) -> bool {
    e.clone().into_iter().any(|t| match t {
        proc_macro2::TokenTree::Ident(i) => i == id,
        proc_macro2::TokenTree::Group(g) => mentions(&g.stream(), id),
        _ => false,
    })
}

fn first_str_lit(ts: &TokenStream) -> Option<String> {
    for t in ts.clone() {
        match t {
            proc_macro2::TokenTree::Literal(l) => {
                let s = l.to_string();
                if s.starts_with('"') {
                    if let Ok(ls) = syn::parse_str::<LitStr>(&s) {
                        return Some(ls.value());
                    }
                }
            }
            proc_macro2::TokenTree::Group(g) => {
                if let Some(s) = first_str_lit(&g.stream()) {
                    return Some(s);
                }
            }
            _ => {}
        }
    }
    None
}

impl<'a> Xf<'a> {
    fn macro_dropped(&self, m: &Macro) -> bool {
        m.path.segments.last().map(|s| self.drop_macros.contains(&s.ident.to_string())).unwrap_or(false)
    }
    fn macro_name(m: &Macro) -> String {
        m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
    }

    fn try_inline(&mut self, e: &mut Expr) {
        if self.inline_depth > 4 {
            return;
        }
        let (name, recv, args): (String, Option<Expr>, Vec<Expr>) = match e {
            Expr::MethodCall(m) => (m.method.to_string(), Some((*m.receiver).clone()), m.args.iter().cloned().collect()),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    // only bare names or Self::name
                    let ok = p.path.segments.len() == 1 || p.path.segments[0].ident == "Self";
                    if !ok {
                        return;
                    }
                    (n, None, c.args.iter().cloned().collect())
                } else {
                    return;
                }
            }
            _ => return,
        };
        let Some(f) = self.inline.get(&name).cloned() else { return };
        let mut args = args;
        let mut stmts: Vec<Stmt> = vec![];
        let mut block = f.block.clone();
        let d = self.notes.len();
        let mut recv = recv;
        if f.has_self && recv.is_none() {
            if args.is_empty() {
                return;
            }
            recv = Some(args.remove(0));
        }
        if !f.has_self && recv.is_some() {
            return;
        }
        if args.len() != f.params.len() {
            return;
        }
        if let Some(r) = recv {
            let is_self = r.to_token_stream().to_string() == "self";
            if !is_self {
                let id = Ident::new(&format!("__self_{d}"), proc_macro2::Span::call_site());
                RenameIdent { from: "self".into(), to: id.clone() }.visit_block_mut(&mut block);
                // receiver by (auto)ref
                stmts.push(parse_quote!(let #id = &#r;));
            }
        }
        for ((p, ty), a) in f.params.iter().zip(args.iter()) {
            let ps = p.to_token_stream().to_string();
            let as_ = a.to_token_stream().to_string();
            if ps == as_ {
                continue;
            }
            let is_mut_ref = matches!(ty, Type::Reference(r) if r.mutability.is_some());
            if is_mut_ref {
                if let (Pat::Ident(pi), Expr::Path(ap)) = (p, a) {
                    // rename the parameter to the argument variable
                    if let Some(ai) = ap.path.get_ident() {
                        RenameIdent { from: pi.ident.to_string(), to: ai.clone() }.visit_block_mut(&mut block);
                        continue;
                    }
                }
            }
            stmts.push(parse_quote!(let #p : #ty = #a;));
        }
        self.notes.push(format!("inlined {name}"));
        stmts.extend(block.stmts.clone());
        let nb = Block { brace_token: block.brace_token, stmts };
        *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: nb });
    }

    fn ghost_after(&mut self, e: &Expr, gv: &str) -> Option<Stmt> {
        let (name, toks) = match e {
            // a value, not an effect
            Expr::MethodCall(m) if ["v_to_vec", "v_to_owned", "get_data", "clone", "v_into", "to_vec", "to_owned"].contains(&m.method.to_string().as_str()) => return None,
            Expr::MethodCall(m) => (m.method.to_string(), m.to_token_stream()),
            Expr::Call(c) => {
                let n = match &*c.func {
                    Expr::Path(p) => p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"),
                    _ => return None,
                };
                (n, c.to_token_stream())
            }
            _ => return None,
        };
        if !mentions(&toks, gv) {
            return None;
        }
        let lit = first_str_lit(&toks).unwrap_or_default();
        let full = toks.to_string();
        let n = self.ghost_n;
        self.ghost_n += 1;
        Some(parse_quote!(__after!(#n, #name, #lit, #full);))
    }
}

impl<'a> VisitMut for Xf<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        let n = p.segments.len();
        if n >= 2 {
            let two = format!("{}::{}", p.segments[n - 2].ident, p.segments[n - 1].ident);
            if let Some(r) = self.mangle.get(&two) {
                *p = parse_str(r).unwrap();
            }
        }
        strip_path(p, self.keep_mods);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // spans of the logging crate, and what is done with them
        let mut spans: BTreeSet<String> = BTreeSet::new();
        b.stmts.retain(|s| {
            if let Stmt::Local(l) = s {
                if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                    let t = i.expr.to_token_stream().to_string();
                    let mac = matches!(&*i.expr, Expr::Macro(m) if Self::macro_name(&m.mac).ends_with("_span"));
                    let entered = spans.iter().any(|x| t == format!("{x} . enter ()"));
                    if mac || entered {
                        spans.insert(p.ident.to_string());
                        return false;
                    }
                }
            }
            if let Stmt::Expr(Expr::Call(c), _) = s {
                let f = c.func.to_token_stream().to_string();
                if f == "drop" && c.args.len() == 1 && spans.contains(&c.args[0].to_token_stream().to_string()) {
                    return false;
                }
            }
            true
        });
        // drop logging statements, nested use / cfg(test) statements
        b.stmts.retain(|s| match s {
            Stmt::Macro(m) => !self.macro_dropped(&m.mac),
            Stmt::Expr(Expr::Macro(m), _) => !self.macro_dropped(&m.mac),
            Stmt::Item(Item::Use(_)) => false,
            _ => true,
        });
        // inline first (statement level and nested)
        visit_mut::visit_block_mut(self, b);
        if let Some(gv) = self.ghost_var.clone() {
            let mut out = vec![];
            let n = b.stmts.len();
            for (i, s) in b.stmts.drain(..).enumerate() {
                let g = match &s {
                    Stmt::Expr(e, _semi) => self.ghost_after(e, &gv),
                    _ => None,
                };
                if let Some(g) = g {
                    let s2 = match s {
                        Stmt::Expr(e, None) if i + 1 == n => Stmt::Expr(e, Some(Default::default())),
                        s => s,
                    };
                    out.push(s2);
                    out.push(g);
                } else {
                    out.push(s);
                }
            }
            b.stmts = out;
        }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        // wrap bare-call arms in a block so that ghost code can follow
        if self.ghost_var.is_some() && matches!(&*a.body, Expr::MethodCall(_) | Expr::Call(_)) {
            let e = (*a.body).clone();
            *a.body = parse_quote!({ #e });
        }
        if let Expr::Macro(m) = &*a.body {
            if self.macro_dropped(&m.mac) {
                *a.body = parse_quote!({});
            }
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `if c { continue; } rest` at the top of a for body -> `if c { } else { rest }`
        if let Expr::ForLoop(l) = e {
            skip_to_else(&mut l.body);
        }
        // `if A && let P = E {..}` without else -> nested ifs
        split_let_chain(e);
        // inlining
        let before = self.notes.len();
        self.try_inline(e);
        let inlined = self.notes.len() > before;
        if inlined {
            self.inline_depth += 1;
        }
        // loops
        match e {
            Expr::Loop(l) => {
                let n = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_loop_mut(self, l);
                l.body.stmts.insert(0, parse_quote!(__loop!(#n);));
                return;
            }
            Expr::While(l) => {
                let n = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_while_mut(self, l);
                l.body.stmts.insert(0, parse_quote!(__loop!(#n);));
                return;
            }
            Expr::ForLoop(l) => {
                let n = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_for_loop_mut(self, l);
                l.body.stmts.insert(0, parse_quote!(__loop!(#n);));
                return;
            }
            _ => {}
        }
        // match on string literals
        if let Expr::Match(m) = e {
            if m.arms.iter().any(|a| lit_str_pats(&a.pat).is_some()) {
                let scrut = (*m.expr).clone();
                let f = Ident::new(&self.str_match_fn, proc_macro2::Span::call_site());
                let mut tail: Option<Expr> = None;
                let mut ok = true;
                for a in m.arms.iter().rev() {
                    let body = (*a.body).clone();
                    let blk: Expr = match &body {
                        Expr::Block(_) => body.clone(),
                        _ => parse_quote!({ #body }),
                    };
                    if let Some(lits) = lit_str_pats(&a.pat) {
                        let conds: Vec<Expr> = lits.iter().map(|l| parse_quote!(#f(__m, #l))).collect();
                        let mut c: Expr = conds[0].clone();
                        for x in &conds[1..] {
                            c = parse_quote!(#c || #x);
                        }
                        if let Some((_, g)) = &a.guard {
                            c = parse_quote!((#c) && (#g));
                        }
                        let t = tail.take().unwrap_or_else(|| parse_quote!({}));
                        let t: Expr = match t {
                            Expr::Block(_) | Expr::If(_) => t,
                            o => parse_quote!({ #o }),
                        };
                        tail = Some(parse_quote!(if #c #blk else #t));
                    } else {
                        match &a.pat {
                            Pat::Wild(_) if a.guard.is_none() => tail = Some(blk),
                            Pat::Wild(_) => {
                                let g = &a.guard.as_ref().unwrap().1;
                                let t = tail.take().unwrap_or_else(|| parse_quote!({}));
                                tail = Some(parse_quote!(if #g #blk else { #t }));
                            }
                            Pat::Ident(i) if i.subpat.is_none() => {
                                let id = &i.ident;
                                match (&a.guard, tail.take()) {
                                    (None, _) => tail = Some(parse_quote!({ let #id = __m; #body })),
                                    (Some((_, g)), Some(t)) => {
                                        tail = Some(parse_quote!({ let #id = __m; if #g #blk else { #t } }))
                                    }
                                    _ => ok = false,
                                }
                            }
                            _ => ok = false,
                        }
                    }
                }
                if ok {
                    let t = tail.unwrap();
                    // simple path scrutinee needs no binding
                    if let Expr::Path(_) = scrut {
                        let mut t2 = t;
                        struct Sub(Expr);
                        impl VisitMut for Sub {
                            fn visit_expr_mut(&mut self, e: &mut Expr) {
                                if let Expr::Path(p) = e {
                                    if p.path.is_ident("__m") {
                                        *e = self.0.clone();
                                        return;
                                    }
                                }
                                visit_mut::visit_expr_mut(self, e);
                            }
                        }
                        Sub(scrut).visit_expr_mut(&mut t2);
                        *e = t2;
                    } else {
                        *e = parse_quote!({ let __m = #scrut; #t });
                    }
                    visit_mut::visit_expr_mut(self, e);
                    if inlined {
                        self.inline_depth -= 1;
                    }
                    return;
                } else {
                    self.errors.push("match on string literals with unsupported pattern".into());
                }
            }
        }
        // generic writers (write_tagged & co): the body found in /repo, with the call's arguments put in
        if let Expr::MethodCall(mc) = e {
            if let Some((params, block)) = self.specialise.get(&mc.method.to_string()) {
                if params.len() == mc.args.len() {
                    let mut sub = SubstIdents { map: BTreeMap::new() };
                    sub.map.insert("self".into(), (*mc.receiver).clone());
                    for (p, a) in params.iter().zip(mc.args.iter()) {
                        sub.map.insert(p.clone(), a.clone());
                    }
                    let mut b = block.clone();
                    sub.visit_block_mut(&mut b);
                    self.notes.push(format!("specialised {}", mc.method));
                    *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if inlined {
            self.inline_depth -= 1;
        }
        match e {
            // std / crate functions without a verifier specification go through shims of the prelude
            Expr::Path(p) => {
                let n = p.path.to_token_stream().to_string().replace(' ', "");
                if let Some(r) = self.rename_paths.get(&n) {
                    *e = syn::parse_str::<Expr>(r).unwrap();
                }
            }
            // b"..." is the array of its bytes
            Expr::Lit(l) if matches!(l.lit, Lit::ByteStr(_)) => {
                if let Lit::ByteStr(b) = &l.lit {
                    let v: Vec<Expr> = b.value().iter().map(|x| { let t = LitInt::new(&format!("{x}u8"), proc_macro2::Span::call_site()); parse_quote!(#t) }).collect();
                    *e = parse_quote!(&[#(#v),*]);
                }
            }
            // a block that only builds the text of an error message
            Expr::Block(b) if b.block.stmts.len() > 1
                && matches!(b.block.stmts.last(), Some(Stmt::Expr(Expr::Call(f), None)) if f.func.to_token_stream().to_string() == "v_io_error")
                && b.block.stmts[..b.block.stmts.len() - 1].iter().all(|s| matches!(s, Stmt::Local(l) if matches!(&l.pat, Pat::Type(t) if t.ty.to_token_stream().to_string() == "String"))) => {
                *e = parse_quote!(v_io_error());
            }
            // *b"..." is the array itself
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && matches!(&*u.expr, Expr::Reference(r) if r.mutability.is_none() && matches!(&*r.expr, Expr::Array(_))) => {
                if let Expr::Reference(r) = &*u.expr { *e = (*r.expr).clone(); }
            }
            // &x[..] is the whole of x as a slice
            Expr::Reference(r) if r.mutability.is_none() && matches!(&*r.expr, Expr::Index(ix) if matches!(&*ix.index, Expr::Range(g) if g.start.is_none() && g.end.is_none())) => {
                if let Expr::Index(ix) = &*r.expr {
                    let x = match &*ix.expr {
                        Expr::Paren(p) => match &*p.expr { Expr::Reference(q) if matches!(&*q.expr, Expr::Array(_)) => (*q.expr).clone(), _ => (*ix.expr).clone() },
                        Expr::Reference(q) if matches!(&*q.expr, Expr::Array(_)) => (*q.expr).clone(),
                        y => y.clone(),
                    };
                    *e = parse_quote!(#x.v_as_slice());
                }
            }
            // the error of a missing value
            Expr::MethodCall(mc)
                if mc.method == "ok_or_else" && mc.args.first().is_some_and(only_error) =>
            {
                let r = &mc.receiver;
                *e = parse_quote!(#r.v_ok_or_io());
            }
            // &a[i..j] == b on byte slices
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && {
                let lit = |x: &Expr| matches!(x, Expr::Lit(l) if matches!(l.lit, Lit::Str(_)));
                lit(&b.left) || lit(&b.right) || matches!(&*b.left, Expr::Array(_)) || matches!(&*b.right, Expr::Array(_))
            } => {
                // comparisons with a string or byte-array literal
                let lit = |x: &Expr| matches!(x, Expr::Lit(_) | Expr::Array(_));
                let (l, r) = if lit(&b.right) { (&b.left, &b.right) } else { (&b.right, &b.left) };
                let f: Expr = if matches!(&**r, Expr::Array(_)) { parse_quote!(v_slice_eq(&#l, &#r)) } else { parse_quote!(v_str_eq(&#l, #r)) };
                let ne = matches!(b.op, BinOp::Ne(_));
                *e = if ne { parse_quote!((!#f)) } else { f };
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_)) => {
                let is_range = |x: &Expr| matches!(x, Expr::Reference(r) if matches!(&*r.expr, Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_))));
                if is_range(&b.left) || is_range(&b.right) {
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!(v_slice_eq(#l, #r));
                }
            }
            // X[a..b].copy_from_slice(S): one shim with the slice semantics (panics become preconditions)
            Expr::MethodCall(mc)
                if mc.method == "copy_from_slice"
                    && matches!(&*mc.receiver, Expr::Index(ix) if matches!(&*ix.index, Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)))) =>
            {
                if let Expr::Index(ix) = &*mc.receiver {
                    if let Expr::Range(r) = &*ix.index {
                        let x = &ix.expr;
                        let src = &mc.args[0];
                        let a: Expr = match &r.start { Some(a) => (**a).clone(), None => parse_quote!(0) };
                        *e = match &r.end {
                            Some(b) => parse_quote!(#x.v_copy_range(#a, #b, #src)),
                            None => parse_quote!(#x.v_copy_tail(#a, #src)),
                        };
                    }
                }
            }
            Expr::MethodCall(mc)
                if mc.method == "map_err" && mc.args.first().is_some_and(only_error) =>
            {
                let r = &mc.receiver;
                *e = parse_quote!(#r.v_io_err());
            }
            Expr::MethodCall(mc) => {
                let n = mc.method.to_string();
                if let Some(r) = self.rename_methods.get(&n) {
                    mc.method = Ident::new(r, mc.method.span());
                }
            }
            // the text of an error message carries no obligation
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if { let t = p.path.to_token_stream().to_string().replace(' ', ""); t.ends_with("Error::new") || t.ends_with("Error::other") }) => {
                *e = parse_quote!(v_io_error());
            }
            Expr::Macro(m) => {
                let n = Self::macro_name(&m.mac);
                if n == "format" {
                    if let Some(mut x) = format_chain(&m.mac) {
                        self.visit_expr_mut(&mut x);
                        *e = x;
                    }
                } else if n == "panic" || n == "unreachable" || n == "todo" || n == "unimplemented" {
                    *e = parse_quote!(v_panic());
                } else if n == "assert" {
                    if let Ok(args) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                        let mut c = args[0].clone();
                        self.visit_expr_mut(&mut c);
                        *e = parse_quote!(v_require(#c));
                    }
                } else if n == "assert_eq" {
                    if let Ok(args) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                        let mut a = args[0].clone();
                        let mut b = args[1].clone();
                        self.visit_expr_mut(&mut a);
                        self.visit_expr_mut(&mut b);
                        *e = parse_quote!(v_require(#a == #b));
                    }
                } else if n == "matches" {
                    if let Ok(me) = m.mac.parse_body_with(|i: parse::ParseStream| -> Result<Expr> {
                        let ex: Expr = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g: Option<Expr> = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
                        let _ = i.parse::<Option<Token![,]>>()?;
                        Ok(match g { Some(g) => parse_quote!(match #ex { #p if #g => true, _ => false }), None => parse_quote!(match #ex { #p => true, _ => false }) })
                    }) {
                        *e = me;
                        self.visit_expr_mut(e);
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // macro statements (panic!(..);) become expression statements first
        if let Stmt::Macro(sm) = s {
            let n = Self::macro_name(&sm.mac);
            if ["panic", "assert", "assert_eq", "unreachable", "todo", "unimplemented"].contains(&n.as_str()) {
                let mac = sm.mac.clone();
                let ex = Expr::Macro(ExprMacro { attrs: vec![], mac });
                let last = sm.semi_token;
                *s = Stmt::Expr(ex, last);
            }
        }
        if let Stmt::Local(l) = s {
            l.attrs.clear();
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

/// iterator chains ending in a collection, a search or a fallible walk -> the loops they mean
struct Iterate {
    n: usize,
}
fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 {
            let p = match &c.inputs[0] {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            return Some((p, (*c.body).clone()));
        }
    }
    None
}
fn method<'a>(e: &'a Expr, name: &str) -> Option<&'a ExprMethodCall> {
    match e {
        Expr::MethodCall(m) if m.method == name => Some(m),
        Expr::Paren(p) => method(&p.expr, name),
        _ => None,
    }
}
fn squash(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}
fn is_result_vec(t: &Type) -> bool {
    let s = squash(t);
    (s.contains("Result<Vec<")) && !s.starts_with("Vec<")
}
/// X.iter().zip(&Y) or X.iter().zip(Y.iter())
fn zipped(e: &Expr) -> Option<(Expr, Expr)> {
    let z = method(e, "zip")?;
    let x = method(&z.receiver, "iter")?;
    let y = match z.args.first()? {
        Expr::Reference(r) if r.mutability.is_none() => (*r.expr).clone(),
        a => (*method(a, "iter")?.receiver).clone(),
    };
    Some(((*x.receiver).clone(), y))
}
/// an infallible source the loop may walk: a range, or a slice's iterator
fn source(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => source(&p.expr),
        Expr::Range(_) => true,
        Expr::MethodCall(m) if ["iter", "into_iter"].contains(&m.method.to_string().as_str()) && m.args.is_empty() => true,
        Expr::MethodCall(m) if m.method == "enumerate" => source(&m.receiver),
        // X.iter().zip(Y): both are indexed
        Expr::MethodCall(m) if m.method == "zip" => zipped(e).is_some(),
        // read as the list of their items
        Expr::MethodCall(m) if ["chunks_exact", "v_chunks_exact", "encode_utf16", "v_encode_utf16"].contains(&m.method.to_string().as_str()) => true,
        _ => false,
    }
}
/// the statements of a Result<(), E> expression of which only the error is kept
fn discard(e: &Expr) -> Vec<Stmt> {
    let block = |b: &Block| -> Block {
        let st = match b.stmts.last() {
            Some(Stmt::Expr(t, None)) => {
                let mut st = b.stmts[..b.stmts.len() - 1].to_vec();
                st.extend(discard(t));
                st
            }
            _ => b.stmts.clone(),
        };
        parse_quote!({ #(#st)* })
    };
    match e {
        Expr::Block(b) if b.label.is_none() => block(&b.block).stmts,
        Expr::If(x) if x.else_branch.is_some() => {
            let mut x = x.clone();
            x.then_branch = block(&x.then_branch);
            if let Some((_, l)) = &mut x.else_branch {
                let st = discard(l);
                let nested = match st.as_slice() {
                    [Stmt::Expr(n @ Expr::If(_), _)] if matches!(&**l, Expr::If(_)) => Some(n.clone()),
                    _ => None,
                };
                **l = nested.unwrap_or_else(|| parse_quote!({ #(#st)* }));
            }
            vec![Stmt::Expr(Expr::If(x), None)]
        }
        Expr::Match(x) => {
            let mut x = x.clone();
            for a in &mut x.arms {
                let st = discard(&a.body);
                a.body = parse_quote!({ #(#st)* });
            }
            vec![Stmt::Expr(Expr::Match(x), None)]
        }
        Expr::Call(c) if squash(&c.func) == "Ok" && squash(&c.args) == "()" => vec![],
        e => {
            if let Some(m) = method(e, "map") {
                if let Some((p, a)) = m.args.first().and_then(closure1) {
                    let r = &m.receiver;
                    return vec![parse_quote!(let #p = #r?;), parse_quote!(#a;)];
                }
            }
            vec![parse_quote!(#e?;)]
        }
    }
}
impl Iterate {
    fn id(&mut self, p: &str) -> Ident {
        self.n += 1;
        Ident::new(&format!("__{p}{}", self.n), proc_macro2::Span::call_site())
    }
    /// for p in src { body }
    fn walk(&mut self, p: &Pat, src: &Expr, body: Vec<Stmt>) -> Stmt {
        let src = match src {
            Expr::Paren(q) => (*q.expr).clone(),
            e => e.clone(),
        };
        if let (Some(en), Pat::Tuple(t)) = (method(&src, "enumerate"), p) {
            if let (Some(it), 2, Pat::Ident(i)) = (method(&en.receiver, "iter"), t.elems.len(), &t.elems[0]) {
                let (x, i, q) = (&it.receiver, &i.ident, &t.elems[1]);
                return parse_quote!(for #i in 0..#x.len() { let #q = &#x[#i]; #(#body)* });
            }
        }
        if let (Some((x, y)), Pat::Tuple(t)) = (zipped(&src), p) {
            if t.elems.len() == 2 {
                let (k, a, b) = (self.id("k"), &t.elems[0], &t.elems[1]);
                return parse_quote!(for #k in 0..(if #x.len() < #y.len() { #x.len() } else { #y.len() }) { let #a = &#x[#k]; let #b = &#y[#k]; #(#body)* });
            }
        }
        match p {
            Pat::Ident(_) => parse_quote!(for #p in #src { #(#body)* }),
            _ => {
                let v = self.id("x");
                parse_quote!(for #v in #src { let #p = #v; #(#body)* })
            }
        }
    }
    /// the statements that push what the closure gives
    fn push(&mut self, out: &Ident, body: &Expr, fallible: bool) -> Vec<Stmt> {
        let (mut st, tail): (Vec<Stmt>, Expr) = match body {
            Expr::Block(b) if matches!(b.block.stmts.last(), Some(Stmt::Expr(_, None))) => {
                let mut s = b.block.stmts.clone();
                let Some(Stmt::Expr(t, None)) = s.pop() else { unreachable!() };
                (s, t)
            }
            e => (vec![], e.clone()),
        };
        if !fallible {
            st.push(parse_quote!(#out.push(#tail);));
            return st;
        }
        if let Expr::Call(c) = &tail {
            if squash(&c.func) == "Ok" {
                let x = &c.args[0];
                st.push(parse_quote!(#out.push(#x);));
                return st;
            }
        }
        let v = self.id("v");
        if matches!(tail, Expr::If(_) | Expr::Match(_) | Expr::Block(_)) {
            let r = self.id("r");
            st.push(parse_quote!(let #r = #tail;));
            st.push(parse_quote!(let #v = #r?;));
        } else {
            st.push(parse_quote!(let #v = #tail?;));
        }
        st.push(parse_quote!(#out.push(#v);));
        st
    }
    /// S.map(|p| B).collect() as a loop that fills `out`
    fn collected(&mut self, e: &Expr, out: &Ident, fallible: bool) -> Option<Stmt> {
        let c = method(e, "collect")?;
        // S.flat_map(|p| B), B an array: its items are appended
        if let (false, Some(m)) = (fallible, method(&c.receiver, "flat_map")) {
            if let (true, Some((p, b))) = (source(&m.receiver), closure1(m.args.first()?)) {
                let body: Vec<Stmt> = vec![parse_quote!(#out.extend_from_slice(&#b);)];
                return Some(self.walk(&p, &m.receiver, body));
            }
        }
        let m = method(&c.receiver, "map")?;
        if !source(&m.receiver) {
            return None;
        }
        let (p, b) = match m.args.first()? {
            // a function's name: |x| f(x)
            Expr::Path(f) if f.path.segments.len() > 1 => {
                let x = self.id("x");
                (parse_quote!(#x), parse_quote!(#f(#x)))
            }
            a => closure1(a)?,
        };
        let body = self.push(out, &b, fallible);
        Some(self.walk(&p, &m.receiver, body))
    }
}
impl VisitMut for Iterate {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // P.file_name().map(|s| A).unwrap_or(B): an Option
        if let Some(u) = method(e, "unwrap_or") {
            if let Some(m) = method(&u.receiver, "map") {
                if let (true, Some((p, a)), Some(b)) = (method(&m.receiver, "file_name").is_some(), m.args.first().and_then(closure1), u.args.first()) {
                    let x = &m.receiver;
                    *e = parse_quote!(match #x { Some(#p) => #a, None => #b });
                    return;
                }
            }
        }
        if let Some(m) = method(e, "position") {
            if let (Some(it), Some((p, c))) = (method(&m.receiver, "iter"), m.args.first().and_then(closure1)) {
                let x = it.receiver.clone();
                let (pos, k) = (self.id("pos"), self.id("k"));
                *e = parse_quote!({ let mut #pos: Option<usize> = None; for #k in 0..#x.len() { let #p = &#x[#k]; if #c { #pos = Some(#k); break; } } #pos });
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let old: Vec<Stmt> = b.stmts.drain(..).collect();
        let mut out: Vec<Stmt> = vec![];
        let mut i = 0;
        while i < old.len() {
            let s = &old[i];
            i += 1;
            // let name: T = S.map(..).collect();
            if let Stmt::Local(Local { pat: Pat::Type(t), init: Some(init), .. }) = s {
                if let Pat::Ident(name) = &*t.pat {
                    let name = name.ident.clone();
                    let ty = squash(&t.ty);
                    let o = self.id("out");
                    if ty.starts_with("Vec<") {
                        if let Some(w) = self.collected(&init.expr, &o, false) {
                            let vt = &t.ty;
                            out.push(parse_quote!(let mut #o: #vt = Vec::new();));
                            out.push(w);
                            out.push(parse_quote!(let #name = #o;));
                            continue;
                        }
                    } else if is_result_vec(&t.ty) && i < old.len() {
                        let next = squash(&old[i]);
                        let n = name.to_string();
                        if next == n || next == format!("let{n}={n}?;") {
                            if let Some(w) = self.collected(&init.expr, &o, true) {
                                out.push(parse_quote!(let mut #o = Vec::new();));
                                out.push(w);
                                if next == n {
                                    out.push(Stmt::Expr(parse_quote!(Ok(#o)), None));
                                } else {
                                    out.push(parse_quote!(let #name = #o;));
                                }
                                i += 1;
                                continue;
                            }
                        }
                    }
                }
            }
            // let name = S.map(..).collect(); Ok(Some(name))
            if let (Stmt::Local(Local { pat: Pat::Ident(name), init: Some(init), .. }), Some(next)) = (s, old.get(i)) {
                if method(&init.expr, "collect").is_some() && squash(next) == format!("Ok(Some({}))", name.ident) {
                    let (o, name) = (self.id("out"), name.ident.clone());
                    if let Some(w) = self.collected(&init.expr, &o, false) {
                        out.push(parse_quote!(let mut #o = Vec::new();));
                        out.push(w);
                        out.push(parse_quote!(let #name = #o;));
                        continue;
                    }
                }
            }
            // place = S.map(..).collect(); place = Some(S.map(..).collect());
            if let Stmt::Expr(Expr::Assign(a), Some(_)) = s {
                let inner = match &*a.right {
                    Expr::Call(c) if squash(&c.func) == "Some" && c.args.len() == 1 => Some(c.args[0].clone()),
                    _ => None,
                };
                let chain = inner.as_ref().unwrap_or(&a.right);
                if method(chain, "collect").is_some() {
                    let (o, left) = (self.id("out"), &a.left);
                    if let Some(w) = self.collected(chain, &o, false) {
                        out.push(parse_quote!(let mut #o = Vec::new();));
                        out.push(w);
                        out.push(if inner.is_some() { parse_quote!(#left = Some(#o);) } else { parse_quote!(#left = #o;) });
                        continue;
                    }
                }
            }
            // X.as_ref().map(|v| E).unwrap_or(Ok(()))?;
            if let Stmt::Expr(Expr::Try(t), Some(_)) = s {
                if let Some(u) = method(&t.expr, "unwrap_or") {
                    if u.args.len() == 1 && squash(&u.args[0]) == "Ok(())" {
                        if let Some((x, Some((v, body)))) = method(&u.receiver, "map").and_then(|m| Some((method(&m.receiver, "as_ref")?.receiver.clone(), closure1(m.args.first()?)))) {
                            out.push(parse_quote!(if let Some(#v) = &#x { #body?; }));
                            continue;
                        }
                    }
                }
            }
            // let r: Result<Vec<_>, _> = S.map(|p| B).collect(); r.map(|_| T)
            if let (Stmt::Local(Local { pat: Pat::Type(t), init: Some(init), .. }), Some(Stmt::Expr(next, None))) = (s, old.get(i)) {
                if let (Pat::Ident(name), true, Some(nm)) = (&*t.pat, is_result_vec(&t.ty), method(next, "map")) {
                    if let (true, Some((Pat::Wild(_), tail))) = (squash(&nm.receiver) == name.ident.to_string(), nm.args.first().and_then(closure1)) {
                        if let Some(m) = method(&init.expr, "collect").and_then(|c| method(&c.receiver, "map")) {
                            if let (true, Some((p, body))) = (source(&m.receiver), m.args.first().and_then(closure1)) {
                                let st = discard(&body);
                                out.push(self.walk(&p, &m.receiver, st));
                                out.push(Stmt::Expr(parse_quote!(Ok(#tail)), None));
                                i += 1;
                                continue;
                            }
                        }
                    }
                }
            }
            // let name: Vec<_> = X.filter(|e| C).map(|e| M).collect();
            if let Stmt::Local(Local { pat: Pat::Type(t), init: Some(init), .. }) = s {
                if let (Pat::Ident(name), true, Some(m)) = (&*t.pat, squash(&t.ty).starts_with("Vec<"), method(&init.expr, "collect").and_then(|c| method(&c.receiver, "map"))) {
                    if let Some(f) = method(&m.receiver, "filter") {
                        if let (Some((Pat::Ident(fp), c)), Some((mp, b))) = (f.args.first().and_then(closure1), m.args.first().and_then(closure1)) {
                            let (o, x) = (self.id("out"), self.id("x"));
                            let body = self.push(&o, &b, false);
                            let (src, name, vt, fp) = (f.receiver.clone(), name.ident.clone(), t.ty.clone(), fp.ident);
                            out.push(parse_quote!(let mut #o: #vt = Vec::new();));
                            out.push(parse_quote!(for #x in #src { let __keep: bool = { let #fp = &#x; #c }; if __keep { let #mp = #x; #(#body)* } }));
                            out.push(parse_quote!(let #name = #o;));
                            continue;
                        }
                    }
                }
            }
            // S.try_for_each(|p| B)?;
            if let Stmt::Expr(Expr::Try(t), Some(_)) = s {
                if let Some(m) = method(&t.expr, "try_for_each") {
                    if let (true, Some((p, body))) = (source(&m.receiver), m.args.first().and_then(closure1)) {
                        let st: Vec<Stmt> = match &body {
                            Expr::If(_) | Expr::Match(_) | Expr::Block(_) => {
                                let r = self.id("r");
                                vec![parse_quote!(let #r = #body;), parse_quote!(#r?;)]
                            }
                            _ => vec![parse_quote!(#body?;)],
                        };
                        out.push(self.walk(&p, &m.receiver, st));
                        continue;
                    }
                }
            }
            out.push(s.clone());
        }
        b.stmts = out;
    }
}
/// Visits a function; its last expression may itself be a collection of results
fn iterate(f: &mut ImplItemFn) {
    let mut it = Iterate { n: 0 };
    it.visit_block_mut(&mut f.block);
    let fallible = match &f.sig.output {
        ReturnType::Type(_, t) => is_result_vec(t),
        _ => return,
    };
    let vec = match &f.sig.output {
        ReturnType::Type(_, t) if squash(t).starts_with("Vec<") => Some(t.clone()),
        _ => None,
    };
    if let Some(Stmt::Expr(e, None)) = f.block.stmts.last().cloned() {
        let o = it.id("out");
        if let Some(t) = vec {
            if let Some(w) = it.collected(&e, &o, false) {
                f.block.stmts.pop();
                f.block.stmts.push(parse_quote!(let mut #o: #t = Vec::new();));
                f.block.stmts.push(w);
                f.block.stmts.push(Stmt::Expr(parse_quote!(#o), None));
            }
        }
        if fallible {
            if let Some(w) = it.collected(&e, &o, true) {
                f.block.stmts.pop();
                f.block.stmts.push(parse_quote!(let mut #o = Vec::new();));
                f.block.stmts.push(w);
                f.block.stmts.push(Stmt::Expr(parse_quote!(Ok(#o)), None));
            }
        }
    }
    // for (i, x) in s.iter().enumerate() -> an index loop
    struct En(Iterate);
    impl VisitMut for En {
        fn visit_stmt_mut(&mut self, s: &mut Stmt) {
            visit_mut::visit_stmt_mut(self, s);
            if let Stmt::Expr(Expr::ForLoop(l), semi) = s {
                if l.label.is_none() && method(&l.expr, "enumerate").is_some() && source(&l.expr) {
                    let w = self.0.walk(&l.pat, &l.expr, l.body.stmts.clone());
                    *s = match w {
                        Stmt::Expr(e, _) => Stmt::Expr(e, *semi),
                        w => w,
                    };
                }
            }
        }
    }
    En(it).visit_block_mut(&mut f.block);
}

/// format!("..{}..{name}..", ..) as a chain of appended pieces; None when a piece has a format specification
fn format_chain(m: &Macro) -> Option<Expr> {
    let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
    let lit = match args.first()? {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
        _ => return None,
    };
    let mut rest = args.iter().skip(1);
    let mut out: Expr = parse_quote!(v_fmt_new());
    let mut text = String::new();
    let mut it = lit.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => { it.next(); text.push('{'); }
            '}' if it.peek() == Some(&'}') => { it.next(); text.push('}'); }
            '{' => {
                let mut name = String::new();
                loop {
                    match it.next()? { '}' => break, c => name.push(c) }
                }
                if !text.is_empty() {
                    out = parse_quote!(#out.v_fmt_lit(#text));
                    text = String::new();
                }
                let a: Expr = if name.is_empty() { rest.next()?.clone() } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') && !name.starts_with(|c: char| c.is_ascii_digit()) { syn::parse_str(&name).ok()? } else { return None };
                out = parse_quote!(#out.v_fmt_arg(&#a));
            }
            c => text.push(c),
        }
    }
    if !text.is_empty() {
        out = parse_quote!(#out.v_fmt_lit(#text));
    }
    Some(out)
}

fn vis_pub(fields: &mut Fields) {
    for f in fields.iter_mut() {
        if matches!(fields_kind_named(f), _) {
            f.vis = parse_quote!(pub);
        }
        f.attrs.clear();
    }
}
fn fields_kind_named(_f: &Field) -> bool {
    true
}

struct Collected {
    /// (impl header tokens, trait name, self ty name, fn)
    fns: Vec<(String, String, String, ImplItemFn)>,
    other: Vec<(String, String, Item)>,
    macros: BTreeMap<String, ItemMacro>,
}

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => ty_name(&r.elem),
        other => other.to_token_stream().to_string(),
    }
}

fn strip_ty(t: &Type, keep: &BTreeSet<String>) -> Type {
    struct S<'a>(&'a BTreeSet<String>);
    impl<'a> VisitMut for S<'a> {
        fn visit_path_mut(&mut self, p: &mut Path) {
            strip_path(p, self.0);
            visit_mut::visit_path_mut(self, p);
        }
    }
    let mut t2 = t.clone();
    S(keep).visit_type_mut(&mut t2);
    t2
}

fn expand_simple_macro(mac: &ItemMacro, arg: TokenStream) -> Option<Vec<Item>> {
    // macro_rules! name { ($x:ty) => { body } ; }   single rule, single metavariable
    let mut it = mac.mac.tokens.clone().into_iter();
    let pat = it.next()?;
    let var = if let proc_macro2::TokenTree::Group(g) = pat {
        let s: Vec<_> = g.stream().into_iter().collect();
        if s.len() < 2 {
            return None;
        }
        s[1].to_string()
    } else {
        return None;
    };
    let mut body = None;
    for t in it {
        if let proc_macro2::TokenTree::Group(g) = t {
            body = Some(g.stream());
            break;
        }
    }
    fn subst(ts: TokenStream, var: &str, arg: &TokenStream) -> TokenStream {
        let v: Vec<_> = ts.into_iter().collect();
        let mut out = TokenStream::new();
        let mut i = 0;
        while i < v.len() {
            if let proc_macro2::TokenTree::Punct(p) = &v[i] {
                if p.as_char() == '$' && i + 1 < v.len() {
                    let n = v[i + 1].to_string();
                    if n == var {
                        out.extend(arg.clone());
                        i += 2;
                        continue;
                    }
                    if n == "crate" {
                        out.extend(quote!(crate));
                        i += 2;
                        continue;
                    }
                }
            }
            if let proc_macro2::TokenTree::Group(g) = &v[i] {
                out.extend([proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), subst(g.stream(), var, arg)))]);
            } else {
                out.extend([v[i].clone()]);
            }
            i += 1;
        }
        out
    }
    let out = subst(body?, &var, &arg);
    let f: File = syn::parse2(out).ok()?;
    Some(f.items)
}

fn collect(items: Vec<Item>, c: &mut Collected, keep: &BTreeSet<String>) {
    for it in items {
        match it {
            Item::Impl(i) => {
                if is_cfg_test(&i.attrs) {
                    continue;
                }
                let tr = i.trait_.as_ref().map(|t| {
                    let mut p = t.1.clone();
                    strip_path(&mut p, keep);
                    p.to_token_stream().to_string().replace(' ', "")
                });
                let sty = strip_ty(&i.self_ty, keep);
                let (ig, _tg, wc) = i.generics.split_for_impl();
                let hdr = quote!(impl #ig #sty #wc).to_string();
                for x in i.items {
                    if let ImplItem::Fn(f) = x {
                        if is_cfg_test(&f.attrs) {
                            continue;
                        }
                        c.fns.push((hdr.clone(), tr.clone().unwrap_or_default(), ty_name(&i.self_ty), f));
                    } else if let ImplItem::Const(k) = x {
                        if is_cfg_test(&k.attrs) {
                            continue;
                        }
                        let id = k.ident.clone();
                        let ty = &k.ty;
                        let ex = &k.expr;
                        let it: Item = parse_quote!(pub const #id : #ty = #ex;);
                        c.other.push(("implconst".into(), format!("{}::{}", ty_name(&i.self_ty), id), it));
                    }
                }
            }
            Item::Fn(mut f) => {
                if is_cfg_test(&f.attrs) {
                    continue;
                }
                // functions declared inside a function become free functions
                let mut nested = vec![];
                f.block.stmts.retain(|s| match s {
                    Stmt::Item(x @ Item::Fn(_)) => {
                        nested.push(x.clone());
                        false
                    }
                    _ => true,
                });
                collect(nested, c, keep);
                let g = ImplItemFn { attrs: f.attrs, vis: f.vis, defaultness: None, sig: f.sig, block: *f.block };
                c.fns.push((String::new(), String::new(), String::new(), g));
            }
            Item::Struct(s) => {
                if !is_cfg_test(&s.attrs) {
                    c.other.push(("struct".into(), s.ident.to_string(), Item::Struct(s)))
                }
            }
            Item::Enum(s) => {
                if !is_cfg_test(&s.attrs) {
                    c.other.push(("enum".into(), s.ident.to_string(), Item::Enum(s)))
                }
            }
            Item::Const(s) => c.other.push(("const".into(), s.ident.to_string(), Item::Const(s))),
            Item::Type(s) => c.other.push(("type".into(), s.ident.to_string(), Item::Type(s))),
            Item::Macro(m) => {
                if let Some(id) = &m.ident {
                    c.macros.insert(id.to_string(), m.clone());
                } else {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if let Some(def) = c.macros.get(&n).cloned() {
                        if let Some(its) = expand_simple_macro(&def, m.mac.tokens.clone()) {
                            collect(its, c, keep);
                        }
                    }
                }
            }
            Item::Mod(m) => {
                if is_cfg_test(&m.attrs) {
                    continue;
                }
            }
            _ => {}
        }
    }
}

fn split_let_chain(e: &mut Expr) {
    if let Expr::If(f) = e {
        if f.else_branch.is_some() {
            return;
        }
        if let Expr::Binary(b) = &*f.cond {
            if matches!(b.op, syn::BinOp::And(_)) && (has_let(&b.left) || has_let(&b.right)) {
                let (l, r, t) = (&b.left, &b.right, &f.then_branch);
                *e = parse_quote!(if #l { if #r #t });
                split_let_chain(e);
            }
        }
    }
}
fn has_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => has_let(&b.left) || has_let(&b.right),
        _ => false,
    }
}
fn rustfmt(src: &str) -> Option<String> {
    let mut ch = std::process::Command::new("rustfmt")
        .args(["--edition", "2024", "--style-edition", "2021", "--config", "max_width=140,error_on_line_overflow=false"])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .ok()?;
    let mut stdin = ch.stdin.take()?;
    let s = src.to_string();
    let h = std::thread::spawn(move || {
        let _ = stdin.write_all(s.as_bytes());
    });
    let mut o = String::new();
    ch.stdout.take()?.read_to_string(&mut o).ok()?;
    let _ = h.join();
    let st = ch.wait().ok()?;
    if st.success() {
        Some(o)
    } else {
        None
    }
}

fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let cfg: Value = serde_json::from_str(&s).unwrap();
    let repo = cfg["repo"].as_str().unwrap();
    let strset = |v: &Value| -> BTreeSet<String> {
        v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
    };
    let keep = strset(&cfg["keep_mods"]);
    let drop_macros = strset(&cfg["drop_macros"]);
    let renames: BTreeMap<String, String> = cfg["rename_methods"]
        .as_object()
        .map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect())
        .unwrap_or_default();
    let rename_paths: BTreeMap<String, String> = cfg["rename_paths"]
        .as_object()
        .map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect())
        .unwrap_or_default();
    let mut macros: BTreeMap<String, ItemMacro> = BTreeMap::new();
    for f in cfg["macro_files"].as_array().unwrap_or(&vec![]) {
        if let Ok(t) = std::fs::read_to_string(format!("{repo}/{}", f.as_str().unwrap())) {
            if let Ok(file) = syn::parse_file(&t) {
                for it in file.items {
                    if let Item::Macro(m) = it {
                        if let Some(id) = &m.ident {
                            macros.insert(id.to_string(), m.clone());
                        }
                    }
                }
            }
        }
    }
    let mut specialise: BTreeMap<String, (Vec<String>, Block)> = BTreeMap::new();
    if let Some(sp) = cfg["specialise"].as_object() {
        for (f, names) in sp {
            let names = strset(names);
            let Ok(t) = std::fs::read_to_string(format!("{repo}/{f}")) else { continue };
            let Ok(ast) = syn::parse_file(&t) else { continue };
            let mut c = Collected { fns: vec![], other: vec![], macros: BTreeMap::new() };
            collect(ast.items, &mut c, &keep);
            for (_h, _tr, _ty, f) in &c.fns {
                let n = f.sig.ident.to_string();
                if !names.contains(&n) {
                    continue;
                }
                let params: Vec<String> = f.sig.inputs.iter().filter_map(|a| match a {
                    FnArg::Typed(t) => Some(t.pat.to_token_stream().to_string()),
                    _ => None,
                }).collect();
                specialise.insert(n, (params, f.block.clone()));
            }
        }
    }
    let mut out = vec![];
    for m in cfg["modules"].as_array().unwrap() {
        let file = m["file"].as_str().unwrap();
        let text = match std::fs::read_to_string(format!("{repo}/{file}")) {
            Ok(t) => t,
            Err(e) => {
                out.push(json!({"file": file, "error": format!("cannot read: {e}")}));
                continue;
            }
        };
        let ast = match syn::parse_file(&text) {
            Ok(a) => a,
            Err(e) => {
                out.push(json!({"file": file, "error": format!("cannot parse: {e}")}));
                continue;
            }
        };
        let mut c = Collected { fns: vec![], other: vec![], macros: macros.clone() };
        collect(ast.items, &mut c, &keep);
        // contracted functions are never inlined; everything else in this file may be
        let known: BTreeSet<String> = strset(&m["known"]); // Type::fn or fn
        let ghost_fns: BTreeMap<String, String> = m["ghost_fns"]
            .as_object()
            .map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect())
            .unwrap_or_default();
        let noinline: BTreeSet<String> = strset(&m["noinline"]);
        let mangle: BTreeMap<String, String> = m["mangle"]
            .as_object()
            .map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect())
            .unwrap_or_default();
        let mut inl: BTreeMap<String, BTreeMap<String, InlineFn>> = BTreeMap::new(); // per type
        for (_h, tr, ty, f) in &c.fns {
            let key = if ty.is_empty() { f.sig.ident.to_string() } else { format!("{ty}::{}", f.sig.ident) };
            if known.contains(&key) || !tr.is_empty() || contains_return(&f.block) || noinline.contains(&key) {
                continue;
            }
            if !f.sig.generics.params.is_empty() {
                continue;
            }
            let mut params = vec![];
            let mut has_self = false;
            for a in &f.sig.inputs {
                match a {
                    FnArg::Receiver(_) => has_self = true,
                    FnArg::Typed(t) => params.push(((*t.pat).clone(), (*t.ty).clone())),
                }
            }
            inl.entry(ty.clone()).or_default().insert(f.sig.ident.to_string(), InlineFn { has_self, params, block: f.block.clone() });
        }
        let mut jf = vec![];
        let mut bodies = String::new();
        let mut raw = vec![];
        for (h, tr, ty, f) in &c.fns {
            let fname = f.sig.ident.to_string();
            let key = if ty.is_empty() { fname.clone() } else { format!("{ty}::{fname}") };
            let full = if tr.is_empty() { key.clone() } else { format!("{key}@{tr}") };
            let want = known.contains(&key) || known.contains(&full);
            if !want {
                continue;
            }
            let mut table = inl.get(ty).cloned().unwrap_or_default();
            if let Some(free) = inl.get("") {
                for (k, v) in free {
                    table.entry(k.clone()).or_insert(v.clone());
                }
            }
            table.remove(&fname);
            let mut xf = Xf {
                keep_mods: &keep,
                rename_methods: &renames, rename_paths: &rename_paths, specialise: &specialise, mangle: &mangle,
                drop_macros: &drop_macros,
                inline: table,
                inline_depth: 0,
                notes: vec![],
                ghost_var: ghost_fns.get(&full).or_else(|| ghost_fns.get(&key)).cloned(),
                loops: 0,
                ghost_n: 0,
                str_match_fn: "tag_is".into(),
                errors: vec![],
            };
            let mut f2 = f.clone();
            f2.attrs.clear();
            iterate(&mut f2);
            xf.visit_block_mut(&mut f2.block);
            let loops = xf.loops;
            let notes = xf.notes.clone();
            let errors = xf.errors.clone();
            let mut xs = Xf { inline: BTreeMap::new(), notes: vec![], errors: vec![], ghost_var: None, ..xf };
            xs.visit_signature_mut(&mut f2.sig);
            let mut sig = f2.sig.clone();
            let ret = match &sig.output {
                ReturnType::Default => String::new(),
                ReturnType::Type(_, t) => t.to_token_stream().to_string(),
            };
            let wc = sig.generics.where_clause.clone();
            sig.output = ReturnType::Default;
            sig.generics.where_clause = None;
            sig.constness = None;
            let params: Vec<String> = sig.inputs.iter().map(|a| a.to_token_stream().to_string()).collect();
            let idx = raw.len();
            let blk = &f2.block;
            let bt = blk.to_token_stream().to_string();
            raw.push(bt.clone());
            bodies.push_str(&format!("fn __body{idx}()\n{bt}\n\n"));
            jf.push(json!({
                "impl": h, "trait": tr, "type": ty, "name": fname, "key": key, "full": full,
                "sig": sig.to_token_stream().to_string(), "ret": ret,
                "where": wc.map(|w| w.to_token_stream().to_string()).unwrap_or_default(),
                "params": params, "loops": loops, "notes": notes, "errors": errors, "body_idx": idx,
                "orig_line": 0,
            }));
        }
        // format all bodies at once
        let mut fm: Vec<Option<String>> = vec![None; raw.len()];
        if let Some(o) = rustfmt(&bodies) {
            let parts: Vec<&str> = o.split("fn __body").collect();
            for p in parts.iter().skip(1) {
                if let Some(k) = p.find('(') {
                    if let Ok(i) = p[..k].parse::<usize>() {
                        if let Some(b) = p.find('{') {
                            fm[i] = Some(p[b..].trim_end().to_string());
                        }
                    }
                }
            }
        }
        for j in jf.iter_mut() {
            let i = j["body_idx"].as_u64().unwrap() as usize;
            j["body"] = json!(fm[i].clone().unwrap_or_else(|| raw[i].clone()));
        }
        // items
        let mut ji = vec![];
        for (kind, name, it) in &c.other {
            let key = format!("{kind} {name}");
            if !known.contains(&key) {
                continue;
            }
            let mut it = it.clone();
            let mut xs = Xf {
                keep_mods: &keep, rename_methods: &renames, rename_paths: &rename_paths, specialise: &specialise, mangle: &mangle, drop_macros: &drop_macros, inline: BTreeMap::new(), inline_depth: 0,
                notes: vec![], ghost_var: None, loops: 0, ghost_n: 0, str_match_fn: "tag_is".into(), errors: vec![],
            };
            let mut fields = vec![];
            let mut variants = vec![];
            match &mut it {
                Item::Struct(s) => {
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    vis_pub(&mut s.fields);
                    xs.visit_fields_mut(&mut s.fields);
                    for (i, f) in s.fields.iter().enumerate() {
                        let n = f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string());
                        fields.push(json!([n, f.ty.to_token_stream().to_string().replace(' ', "")]));
                    }
                }
                Item::Enum(s) => {
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    for v in s.variants.iter_mut() {
                        v.attrs.clear();
                        for f in v.fields.iter_mut() { f.attrs.clear(); xs.visit_type_mut(&mut f.ty); }
                        variants.push(json!([v.ident.to_string(), v.discriminant.as_ref().map(|d| d.1.to_token_stream().to_string()),
                            v.fields.iter().map(|f| f.ty.to_token_stream().to_string()).collect::<Vec<_>>()]));
                    }
                }
                Item::Const(k) => {
                    k.attrs.clear();
                    k.vis = parse_quote!(pub);
                    xs.visit_type_mut(&mut k.ty);
                    xs.visit_expr_mut(&mut k.expr);
                }
                Item::Type(k) => {
                    k.attrs.clear();
                    k.vis = parse_quote!(pub);
                    xs.visit_type_mut(&mut k.ty);
                }
                _ => {}
            }
            ji.push(json!({"kind": kind, "name": name, "fields": fields, "variants": variants, "text": it.to_token_stream().to_string()}));
        }
        let all: Vec<String> = c.fns.iter().map(|(_, tr, ty, f)| {
            let k = if ty.is_empty() { f.sig.ident.to_string() } else { format!("{ty}::{}", f.sig.ident) };
            if tr.is_empty() { k } else { format!("{k}@{tr}") }
        }).collect();
        out.push(json!({"file": file, "fns": jf, "items": ji, "all_fns": all}));
    }
    println!("{}", serde_json::to_string(&json!({"modules": out})).unwrap());
}

/// a closure that only makes an error
fn only_error(e: &Expr) -> bool {
    let call = |x: &Expr| matches!(x, Expr::Call(f) if f.func.to_token_stream().to_string() == "v_io_error");
    match e {
        Expr::Closure(c) => call(&c.body) || matches!(&*c.body, Expr::Block(b) if b.block.stmts.len() == 1 && matches!(&b.block.stmts[0], Stmt::Expr(x, None) if call(x))),
        _ => false,
    }
}

fn skip_to_else(b: &mut Block) {
    let k = b.stmts.iter().position(|s| match s {
        Stmt::Expr(Expr::If(x), _) => {
            x.else_branch.is_none()
                && x.then_branch.stmts.len() == 1
                && matches!(&x.then_branch.stmts[0], Stmt::Expr(Expr::Continue(c), _) if c.label.is_none())
        }
        _ => false,
    });
    if let Some(k) = k {
        let rest: Vec<Stmt> = b.stmts.drain(k + 1..).collect();
        let mut rest: Block = parse_quote!({ #(#rest)* });
        skip_to_else(&mut rest);
        if let Some(Stmt::Expr(Expr::If(x), semi)) = b.stmts.last_mut() {
            x.then_branch.stmts.clear();
            x.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: rest }))));
            *semi = None;
        }
    }
}
