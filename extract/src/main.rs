//! vx: extracts functions of /repo mechanically, splices contracts in, and writes one Verus file.
//!
//! usage: vx REPO CONTRACT_DIR UNIT.vc OUT.rs OUT.json
//!
//! What the extraction changes is listed in DESIGN.md ("What the extraction drops or rewrites").
mod macros;
mod print;
mod sql;
mod vc;

use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;
use vc::{FnSpec, Piece, Unit};

const LOG: &[&str] = &["debug", "info", "warn", "error", "trace", "println", "eprintln", "debug_assert", "debug_assert_eq", "debug_assert_ne"];
const PRIMS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "char", "str", "f64"];

type Res<T> = std::result::Result<T, String>;

struct Cx<'a> {
    unit: &'a Unit,
    rules: BTreeMap<String, macros::Rules>,
    texts: Vec<String>,
    out: String,
    fns: Vec<serde_json::Value>,
    called: BTreeSet<String>,
    emitted: BTreeSet<String>,
    effects: BTreeSet<String>,
    notes: BTreeSet<String>,
    /// text constants
    consts: BTreeMap<String, String>,
    /// the types of the tables' columns
    cols: BTreeMap<String, String>,
}

fn tokens_have(ts: TokenStream, name: &str) -> bool {
    ts.into_iter().any(|t| match t {
        TokenTree::Ident(i) => i == name,
        TokenTree::Group(g) => tokens_have(g.stream(), name),
        _ => false,
    })
}

/// Evaluates #[cfg(...)] attributes; None: no cfg attribute.
fn cfg_ok(attrs: &[Attribute], feats: &BTreeSet<String>) -> bool {
    fn eval(m: &Meta, feats: &BTreeSet<String>) -> bool {
        match m {
            Meta::NameValue(nv) => {
                if nv.path.is_ident("feature") {
                    if let Expr::Lit(l) = &nv.value { if let Lit::Str(s) = &l.lit { return feats.contains(&s.value()); } }
                }
                false
            }
            Meta::Path(_) => false,
            Meta::List(l) => {
                let args = l.parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated).map(|p| p.into_iter().collect::<Vec<_>>()).unwrap_or_default();
                if l.path.is_ident("not") { !args.iter().all(|a| eval(a, feats)) }
                else if l.path.is_ident("all") { args.iter().all(|a| eval(a, feats)) }
                else if l.path.is_ident("any") { args.iter().any(|a| eval(a, feats)) }
                else { false }
            }
        }
    }
    attrs.iter().filter(|a| a.path().is_ident("cfg")).all(|a| a.parse_args::<Meta>().map(|m| eval(&m, feats)).unwrap_or(false))
}

fn expr_attrs(e: &Expr) -> &[Attribute] {
    macro_rules! m { ($($v:ident),*) => { match e { $(Expr::$v(x) => &x.attrs,)* _ => &[] } } }
    m!(Array, Assign, Async, Await, Binary, Block, Break, Call, Cast, Closure, Continue, Field, ForLoop, Group, If, Index, Let, Lit, Loop, Macro, Match, MethodCall, Paren, Path, Range, Reference, Repeat, Return, Struct, Try, Tuple, Unary, While)
}
fn clear_attrs(e: &mut Expr) {
    macro_rules! m { ($($v:ident),*) => { match e { $(Expr::$v(x) => x.attrs.clear(),)* _ => {} } } }
    m!(Array, Assign, Async, Await, Binary, Block, Break, Call, Cast, Closure, Continue, Field, ForLoop, Group, If, Index, Let, Lit, Loop, Macro, Match, MethodCall, Paren, Path, Range, Reference, Repeat, Return, Struct, Try, Tuple, Unary, While)
}

/// Token-level identifier substitution in contract text.
fn subst_text(text: &str, map: &BTreeMap<String, String>) -> String {
    if map.iter().all(|(a, b)| a == b) { return text.to_string(); }
    let mut out = String::new();
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_alphabetic() || b[i] == '_' || b[i] == '$' {
            let s = i;
            i += 1;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') { i += 1; }
            let w: String = b[s..i].iter().collect();
            let prev_dot = out.trim_end().ends_with('.') && !out.trim_end().ends_with("..");
            match map.get(&w) { Some(r) if !prev_dot => out.push_str(r), _ => out.push_str(&w) }
        } else { out.push(b[i]); i += 1; }
    }
    out
}

struct Tf<'a, 'b> {
    cx: &'a mut Cx<'b>,
    spec: FnSpec,
    loops: usize,
    closures: usize,
    deref_self: bool,
    spawns: usize,
    asyncs: usize,
    its: usize,
    lifted: Vec<(String, Block)>, // function key suffix, body
    map: BTreeMap<String, String>,
    err: Option<String>,
    has_loop: bool,
    infos: serde_json::Map<String, serde_json::Value>,
    self_ty: String,
}

enum Part { Lit(String), Arg(Expr) }

impl<'a, 'b> Tf<'a, 'b> {
    fn mark(&mut self, kind: &str, text: String) -> Option<Stmt> {
        if text.trim().is_empty() { return None; }
        let text = subst_text(&text, &self.map);
        let n = self.cx.texts.len();
        self.cx.texts.push(text);
        let id = Ident::new(kind, Span::call_site());
        let lit = LitInt::new(&n.to_string(), Span::call_site());
        Some(parse_quote!(#id!(#lit);))
    }

    /// what is shown at the end of a round is shown wherever the round ends early
    fn at_continue(&mut self, b: &mut Block, n: usize) {
        let Some(text) = self.spec.loopend.get(&n).cloned() else { return };
        if self.spec.nocontinue.contains(&n) { return; }
        let m = self.mark("__VX_GHOST", text);
        struct V(Option<Stmt>);
        impl VisitMut for V {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                match e {
                    Expr::Closure(_) | Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {}
                    Expr::Continue(c) if c.label.is_none() => { let m = &self.0; *e = parse_quote!({ #m continue }); }
                    _ => visit_mut::visit_expr_mut(self, e),
                }
            }
        }
        V(m).visit_block_mut(b);
    }
    /// the pieces of a format string and what it writes between them
    fn pieces_of(&self, mac: &Macro) -> Option<(Vec<Part>, usize)> {
        let args: Vec<Expr> = mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?.into_iter().collect();
        let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = args.first()? else { return None };
        let s = s.value();
        let (mut parts, mut k, mut cur) = (vec![], 1, String::new());
        let mut ch = s.chars().peekable();
        while let Some(c) = ch.next() {
            if c == '{' && ch.peek() == Some(&'{') { ch.next(); cur.push('{'); continue; }
            if c == '}' { ch.next(); cur.push('}'); continue; }
            if c != '{' { cur.push(c); continue; }
            let mut name = String::new();
            for d in ch.by_ref() { if d == '}' { break; } name.push(d); }
            if name.contains(':') { return None; }
            let e = if name.is_empty() { let e = args.get(k)?.clone(); k += 1; e } else if name.starts_with(|c: char| c.is_alphabetic() || c == '_') { match args.iter().find_map(|a| match a { Expr::Assign(x) if x.left.to_token_stream().to_string() == name => Some((*x.right).clone()), _ => None }) { Some(e) => e, None => parse_str(&name).ok()? } } else { return None };
            if !cur.is_empty() { parts.push(Part::Lit(std::mem::take(&mut cur))); }
            parts.push(Part::Arg(e));
        }
        if !cur.is_empty() { parts.push(Part::Lit(cur)); }
        Some((parts, k))
    }
    /// an SQL text: a literal, or a literal with table names filled in
    fn sql_text(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()),
            Expr::Reference(r) => self.sql_text(&r.expr),
            Expr::Paren(r) => self.sql_text(&r.expr),
            Expr::MethodCall(m) if m.method == "as_str" || m.method == "as_ref" => self.sql_text(&m.receiver),
            Expr::Macro(m) if m.mac.path.is_ident("format") => {
                let mut o = String::new();
                for p in self.pieces_of(&m.mac)?.0 { match p { Part::Lit(l) => o.push_str(&l), Part::Arg(Expr::Path(p)) => o.push_str(&format!("{{{}}}", p.path.get_ident()?)), _ => return None } }
                Some(o)
            }
            Expr::Macro(m) if m.mac.path.is_ident("concat") => {
                let args: Vec<Expr> = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?.into_iter().collect();
                args.iter().map(|a| self.sql_text(a)).collect::<Option<Vec<_>>>().map(|v| v.concat())
            }
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.cx.consts.get(&i.to_string()).cloned()),
            _ => None,
        }
    }
    /// a closure that reads one column
    fn col_spec(&self, e: &Expr, sub: &BTreeMap<String, TokenStream>) -> Option<String> {
        match e {
            Expr::MethodCall(m) if m.method == "get" && m.args.len() == 1 => {
                let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &m.args[0] else { return None };
                let ty = match m.turbofish.as_ref().and_then(|t| t.args.first()) { Some(t) => t.to_token_stream().to_string(), None => self.cx.cols.get(&s.value())?.clone() };
                Some(format!(" -> (vx_r: {ty}) ensures vx_val(vx_r) == ({}).row()[Col::{}]", self.to_spec(&m.receiver, sub)?, s.value()))
            }
            Expr::Block(b) if b.label.is_none() => match b.block.stmts.as_slice() { [Stmt::Expr(x, None)] => self.col_spec(x, sub), _ => None },
            _ => None,
        }
    }
    fn text_mark(&mut self, t: String) -> Ident { let n = self.cx.texts.len(); self.cx.texts.push(t); format_ident!("__vx_txt_{}", n) }
    /// `b.m(..).n(..);` of a builder
    fn builder_stmt(&self, s: &mut Stmt) {
        let Stmt::Expr(e, Some(_)) = s else { return };
        let mut x = &*e;
        while let Expr::MethodCall(m) = x { if !self.cx.unit.builder.contains(&m.method.to_string()) { return; } x = &m.receiver; }
        let Expr::Path(p) = x else { return };
        if !matches!(e, Expr::MethodCall(_)) || p.path.get_ident().is_none() { return; }
        let (p, v) = (p.clone(), e.clone());
        *e = parse_quote!(#p = #v);
    }
    /// `.arg(&[a, b])` is `.arg(a).arg(b)`
    fn builder_expr(&self, e: &mut Expr) {
        let Expr::MethodCall(m) = e else { return };
        if m.method != "arg" || m.args.len() != 1 || !self.cx.unit.builder.contains("arg") { return; }
        let a = match &m.args[0] { Expr::Reference(r) => &*r.expr, x => x };
        let Expr::Array(a) = a else { return };
        let mut r = (*m.receiver).clone();
        for x in &a.elems { r = parse_quote!(#r.arg(#x)); }
        *e = r;
    }
    /// calls that carry an SQL text or a column's name
    fn sql_expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &mut *c.func else { return };
                let Some(last) = p.path.segments.last() else { return };
                let n = last.ident.to_string();
                let new = match n.as_str() { "query" if c.args.len() == 1 => "vx_query", "query_as" if c.args.len() == 1 => "vx_query_as", "new" if p.path.segments.len() == 2 && p.path.segments[0].ident == "QueryBuilder" => "vx_query_builder", _ => return };
                let Some(t) = self.sql_text(&c.args[0]) else { self.err.get_or_insert(format!("SQL text of {n} is not a literal")); return };
                let many = t.split(';').filter(|s| !s.trim().is_empty()).map(sql::ghost).collect::<std::result::Result<Vec<_>, String>>();
                let g = match many { Ok(v) if v.len() == 1 && new != "vx_query_builder" => v[0].clone(), Ok(v) if new == "vx_query_builder" => v.iter().fold("Seq::<Sql>::empty()".to_string(), |a, x| format!("{a}.push({x})")), Ok(_) => { self.err.get_or_insert("several SQL statements in one query".into()); return }, Err(x) => { self.err.get_or_insert(x); return } };
                let m = self.text_mark(g);
                let ty = match &last.arguments { PathArguments::AngleBracketed(a) if n == "query_as" => a.args.last().cloned(), _ => None };
                let id = Ident::new(new, Span::call_site());
                *e = match ty { Some(t) => parse_quote!(#id::<#t>(Ghost(#m))), None => parse_quote!(#id(Ghost(#m))) };
            }
            // on a transaction
            Expr::MethodCall(m) if m.args.len() == 1 && ["execute", "fetch_one", "fetch_optional", "fetch_all"].contains(&m.method.to_string().as_str()) => {
                let Expr::Reference(r) = &mut m.args[0] else { return };
                if r.mutability.is_none() { return; }
                let inner = match &*r.expr { Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => (*u.expr).clone(), _ => return };
                *r.expr = inner;
                m.method = format_ident!("{}_in", m.method);
            }
            // rows appended to a statement, one by one
            Expr::MethodCall(m) if m.method == "push_values" && m.args.len() == 2 => {
                let Expr::Closure(c) = &m.args[1] else { return };
                if c.inputs.len() != 2 { return; }
                let Pat::Ident(b) = &c.inputs[0] else { return };
                let (id, x, it, q, body) = (&b.ident, &c.inputs[1], &m.args[0], &m.receiver, &c.body);
                *e = parse_quote!(for #x in #it { let mut #id = #q.vx_row(); #body; #q.vx_row_done(#id); });
            }
            Expr::MethodCall(m) if (m.method == "get" || m.method == "try_get") && m.args.len() == 1 => {
                let ty = m.turbofish.as_ref().and_then(|t| t.args.first().cloned());
                let (id, a): (Ident, Expr) = match &m.args[0] {
                    Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => { let c = format_ident!("{}", s.value()); (format_ident!("vx_{}", m.method), parse_quote!(Ghost(Col::#c))) }
                    Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => (format_ident!("vx_{}_at", m.method), parse_quote!(Ghost(#i))),
                    _ => return,
                };
                let r = &m.receiver;
                *e = match ty { Some(t) => parse_quote!(#r.#id::<#t>(#a)), None => parse_quote!(#r.#id(#a)) };
            }
            _ => {}
        }
    }
    fn expand_macro(&mut self, mac: &Macro) -> Option<TokenStream> {
        let name = mac.path.segments.last()?.ident.to_string();
        if LOG.contains(&name.as_str()) || self.cx.unit.drop_macros.contains(&name) { return Some(quote!(())); }
        if let Some(r) = self.cx.rules.get(&name) {
            return match macros::expand(r, mac.tokens.clone()) {
                Some(t) => Some(t),
                None => { self.err.get_or_insert(format!("macro {name}! not expanded")); None }
            };
        }
        match name.as_str() {
            "format" if self.cx.unit.format => {
                let Some((parts, _)) = self.pieces_of(mac) else { self.err.get_or_insert("format! is not read".into()); return None };
                let mut e = quote!(String::new());
                for p in parts { e = match p { Part::Lit(l) => quote!(vx_cat_lit(#e, #l)), Part::Arg(a) => quote!(vx_cat(#e, &#a)) }; }
                Some(e)
            }
            "format" => Some(quote!(vx_format())),
            "matches" => {
                let toks: Vec<TokenTree> = mac.tokens.clone().into_iter().collect();
                let pos = toks.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ','))?;
                let a: TokenStream = toks[..pos].iter().cloned().collect();
                let mut b: Vec<TokenTree> = toks[pos + 1..].to_vec();
                if matches!(b.last(), Some(TokenTree::Punct(p)) if p.as_char() == ',') { b.pop(); }
                let b: TokenStream = b.into_iter().collect();
                Some(quote!((match #a { #b => true, _ => false })))
            }
            "write" => {
                // write!(f, "lit", args...): pieces of the literal and the arguments, in order
                let args = mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let args: Vec<Expr> = args.into_iter().collect();
                let f = &args[0];
                let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &args[1] else { return None };
                let s = s.value();
                let mut parts: Vec<TokenStream> = vec![];
                let mut k = 2;
                let mut cur = String::new();
                let mut ch = s.chars().peekable();
                while let Some(c) = ch.next() {
                    if c == '{' {
                        if ch.peek() == Some(&'{') { ch.next(); cur.push('{'); continue; }
                        let mut name = String::new();
                        for d in ch.by_ref() { if d == '}' { break; } name.push(d); }
                        if !cur.is_empty() { let l = cur.clone(); parts.push(quote!(vx_write_lit(#f, #l);)); cur.clear(); }
                        if name.contains(':') { self.err.get_or_insert("format spec in write!".into()); return None; }
                        let e = if name.is_empty() { let e = args.get(k)?.clone(); k += 1; e } else if name.chars().next()?.is_alphabetic() { parse_str(&name).ok()? } else { return None };
                        parts.push(quote!(vx_write_str(#f, &#e);));
                    } else { if c == '}' { ch.next(); } cur.push(c); }
                }
                if !cur.is_empty() { let l = cur.clone(); parts.push(quote!(vx_write_lit(#f, #l);)); }
                Some(quote!({ #(#parts)* vx_write_ok() }))
            }
            // the first of several named futures to end
            "select" => match macros::select(mac.tokens.clone()) {
                Some(t) => Some(t),
                None => { self.err.get_or_insert("select! is not read".into()); None }
            },
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(quote!(vx_panic())),
            "assert" => {
                let args = mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let a = args.first()?;
                Some(quote!(vx_assert(#a)))
            }
            "vec" => {
                let toks: Vec<TokenTree> = mac.tokens.clone().into_iter().collect();
                if let Some(pos) = toks.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ';')) {
                    let a: TokenStream = toks[..pos].iter().cloned().collect();
                    let b: TokenStream = toks[pos + 1..].iter().cloned().collect();
                    return Some(quote!(vx_vec_repeat(#a, #b)));
                }
                None
            }
            _ => None,
        }
    }

    /// Exec expression to spec expression, for the automatic closure contracts.
    fn to_spec(&self, e: &Expr, sub: &BTreeMap<String, TokenStream>) -> Option<TokenStream> {
        Some(match e {
            Expr::Path(p) => {
                if let Some(id) = p.path.get_ident() {
                    if let Some(t) = sub.get(&id.to_string()) { return Some(t.clone()); }
                }
                p.to_token_stream()
            }
            Expr::Lit(l) => match &l.lit { Lit::Int(_) | Lit::Bool(_) => l.to_token_stream(), _ => return None },
            Expr::Field(f) => { let b = self.to_spec(&f.base, sub)?; let m = &f.member; quote!(#b.#m) }
            Expr::Unary(u) => { let x = self.to_spec(&u.expr, sub)?; let op = &u.op; quote!((#op #x)) }
            Expr::Reference(r) if r.mutability.is_none() => { let x = self.to_spec(&r.expr, sub)?; quote!((&#x)) }
            Expr::Paren(p) => { let x = self.to_spec(&p.expr, sub)?; quote!((#x)) }
            Expr::Group(p) => self.to_spec(&p.expr, sub)?,
            Expr::Tuple(t) => { let xs: Option<Vec<_>> = t.elems.iter().map(|x| self.to_spec(x, sub)).collect(); let xs = xs?; if xs.len() < 2 { return None; } quote!((#(#xs),*)) }
            Expr::Binary(b) => {
                let (l, r) = (self.to_spec(&b.left, sub)?, self.to_spec(&b.right, sub)?);
                let lit = |e: &Expr| matches!(e, Expr::Lit(_));
                let op = &b.op;
                match b.op {
                    BinOp::Eq(_) => quote!((vx_same(#l, #r))),
                    BinOp::Ne(_) => quote!((!vx_same(#l, #r))),
                    BinOp::And(_) | BinOp::Or(_) => quote!((#l #op #r)),
                    BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) if lit(&b.left) || lit(&b.right) => quote!((#l #op #r)),
                    BinOp::Lt(_) => quote!(vx_lt(#l, #r)),
                    BinOp::Le(_) => quote!(vx_le(#l, #r)),
                    BinOp::Gt(_) => quote!(vx_gt(#l, #r)),
                    BinOp::Ge(_) => quote!(vx_ge(#l, #r)),
                    _ => return None,
                }
            }
            Expr::If(i) if !matches!(&*i.cond, Expr::Let(_)) => {
                let c = self.to_spec(&i.cond, sub)?;
                let one = |b: &Block| match b.stmts.as_slice() { [Stmt::Expr(x, None)] => Some(x.clone()), _ => None };
                let t = self.to_spec(&one(&i.then_branch)?, sub)?;
                let f = match &*i.else_branch.as_ref()?.1 { Expr::Block(b) => self.to_spec(&one(&b.block)?, sub)?, x => self.to_spec(x, sub)? };
                quote!((if #c { #t } else { #f }))
            }
            Expr::Block(b) if b.label.is_none() => match b.block.stmts.as_slice() { [Stmt::Expr(x, None)] => self.to_spec(x, sub)?, _ => return None },
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let name = p.path.to_token_stream().to_string().replace(' ', "");
                if let Some(t) = self.cx.unit.specfns.get(&name) {
                    let t: TokenStream = t.parse().ok()?;
                    let xs: Option<Vec<_>> = c.args.iter().map(|x| self.to_spec(x, sub)).collect();
                    let xs = xs?;
                    return Some(quote!(#t(#(#xs),*)));
                }
                if !p.path.is_ident("Some") || c.args.len() != 1 { return None; }
                let x = self.to_spec(&c.args[0], sub)?;
                quote!(Some(#x))
            }
            Expr::MethodCall(m) => {
                let r = self.to_spec(&m.receiver, sub)?;
                match (m.method.to_string().as_str(), m.args.len()) {
                    ("clone", 0) | ("to_owned", 0) => {
quote!((#r).vx_dc())
                    }
                    ("into", 0) if self.cx.unit.renames.get("into").is_some_and(|x| x == "vx_into_same") => r,
                    ("as_ref", 0) => quote!(vx_as_ref(#r)),
                    ("is_some", 0) => quote!((#r is Some)),
                    ("is_none", 0) => quote!((#r is None)),
                    ("is_ok", 0) => quote!((#r is Ok)),
                    ("len", 0) => quote!((vx_len(&#r))),
                    ("is_empty", 0) => quote!((vx_len(&#r) == 0)),
                    ("copied", 0) | ("cloned", 0) => quote!((#r).cl()),
                    ("is_err", 0) => quote!((#r is Err)),
                    ("contains", 1) | ("contains_key", 1) => { let a = self.to_spec(&m.args[0], sub)?; let n = &m.method; quote!((#r.spec_has(#a))) .to_string(); let _ = n; return Some(quote!(vx_has(&#r, #a))); }
                    _ => return None,
                }
            }
            _ => return None,
        })
    }
}

/// what the names a closure parameter pattern binds stand for
fn pat_subst(p: &Pat, e: TokenStream, sub: &mut BTreeMap<String, TokenStream>) {
    match p {
        Pat::Ident(i) => { sub.insert(i.ident.to_string(), e); }
        Pat::Tuple(t) => for (j, q) in t.elems.iter().enumerate() { let ix = Index::from(j); pat_subst(q, quote!(#e.#ix), sub); },
        Pat::Reference(r) => pat_subst(&r.pat, quote!((*#e)), sub),
        Pat::Paren(q) => pat_subst(&q.pat, e, sub),
        _ => {}
    }
}

fn strip_path(p: &mut Path, keep: &BTreeSet<String>) {
    let n = p.segments.len();
    if n < 2 { return; }
    // position from which to keep
    let mut k = n - 1;
    while k > 0 {
        let s = p.segments[k - 1].ident.to_string();
        let up = s.chars().next().map(|c| c.is_uppercase()).unwrap_or(false);
        if up || PRIMS.contains(&s.as_str()) || keep.contains(&s) { k -= 1; } else { break; }
    }
    if k == 0 { return; }
    let segs: Vec<PathSegment> = p.segments.iter().skip(k).cloned().collect();
    p.leading_colon = None;
    p.segments = segs.into_iter().collect();
}

impl<'a, 'b> VisitMut for Tf<'a, 'b> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        strip_path(p, &self.cx.unit.keepmods);
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        // a type whose every lifetime is elided or 'static prints as is
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        let mut work: std::collections::VecDeque<Stmt> = old.into();
        let mut out: Vec<Stmt> = vec![];
        while let Some(mut s) = work.pop_front() {
            let attrs: Vec<Attribute> = match &s {
                Stmt::Local(l) => l.attrs.clone(),
                Stmt::Expr(e, _) => expr_attrs(e).to_vec(),
                Stmt::Macro(m) => m.attrs.clone(),
                Stmt::Item(_) => vec![],
            };
            if !cfg_ok(&attrs, &self.cx.unit.features) { continue; }
            match &mut s {
                Stmt::Local(l) => l.attrs.clear(),
                Stmt::Expr(e, _) => clear_attrs(e),
                Stmt::Macro(m) => m.attrs.clear(),
                _ => {}
            }
            self.builder_stmt(&mut s);
            // items in bodies: `use` is dropped
            if let Stmt::Item(Item::Use(_)) = &s { continue; }
            // #[cfg(feature = ..)] { ... } blocks stay blocks
            let (mac, semi) = match &s {
                Stmt::Macro(m) => (Some(m.mac.clone()), m.semi_token.is_some() || (!work.is_empty() && matches!(m.mac.delimiter, MacroDelimiter::Brace(_)))),
                Stmt::Expr(Expr::Macro(m), semi) => (Some(m.mac.clone()), semi.is_some()),
                _ => (None, false),
            };
            if let Some(mac) = mac {
                let name = mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                if semi && (LOG.contains(&name.as_str()) || self.cx.unit.drop_macros.contains(&name)) { continue; }
                if let Some(ts) = self.expand_macro(&mac) {
                    if let Some(stmts) = macros::as_stmts(ts.clone()) {
                        let n = stmts.len();
                        for (k, mut st) in stmts.into_iter().enumerate().rev() {
                            if semi && k + 1 == n { if let Stmt::Expr(_, sm @ None) = &mut st { *sm = Some(Default::default()); } }
                            work.push_front(st);
                        }
                        continue;
                    }
                    self.err.get_or_insert("macro expansion does not parse".into());
                    continue;
                }
            }
            // dropped effect-free calls (metrics)
            if let Stmt::Expr(e, Some(_)) = &s {
                let mut r = e;
                while let Expr::MethodCall(m) = r { r = &m.receiver; }
                if let Expr::Path(p) = r {
                    if p.path.segments.len() > 1 && self.cx.unit.drop_paths.contains(&p.path.segments[0].ident.to_string()) {
                        continue;
                    }
                }
            }
            // a value nobody reads, of a dropped path, made without waiting or leaving (the metrics task)
            if let Stmt::Local(Local { pat: Pat::Ident(id), init: Some(LocalInit { expr, diverge: None, .. }), .. }) = &s {
                if id.ident.to_string().starts_with('_') && drops(expr, &self.cx.unit.drop_paths) { continue; }
            }
            let norm = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
            let src = norm(&s.to_token_stream().to_string());
            let hooks = |v: &Vec<(String, String)>| -> Vec<String> { v.iter().filter(|(p, _)| match norm(p).strip_prefix('^') { Some(q) => src.starts_with(q), None => src.contains(&norm(p)) }).map(|(_, t)| t.clone()).collect() };
            let (bef, aft, att) = (hooks(&self.spec.before), hooks(&self.spec.after), hooks(&self.spec.attry));
            for t in bef { if let Some(m) = self.mark("__VX_GHOST", t) { out.push(m); } }
            let first_loop = self.loops;
            let was_for = matches!(&s, Stmt::Expr(Expr::ForLoop(_), _));
            self.visit_stmt_mut(&mut s);
            let _ = first_loop;
            // ghost text between a call and the `?` on its result
            let tr = match &mut s {
                Stmt::Expr(Expr::Try(t), _) => Some(t),
                Stmt::Local(Local { init: Some(LocalInit { expr, .. }), .. }) => match &mut **expr { Expr::Try(t) => Some(t), _ => None },
                _ => None,
            };
            if let Some(t) = tr {
                for txt in att {
                    if let Some(m) = self.mark("__VX_GHOST", txt) { let e = &t.expr; t.expr = parse_quote!({ let vx_try = #e; #m vx_try }); }
                }
            }
            // a `for` statement is flattened so that its ghost variables stay visible after it
            match s {
                Stmt::Expr(Expr::Block(b), _) if was_for => out.extend(b.block.stmts),
                s => out.push(s),
            }
            for t in aft { if let Some(m) = self.mark("__VX_GHOST", t) { out.push(m); } }
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // cfg'd call arguments, struct fields, match arms
        match e {
            Expr::Call(c) => { let f = &self.cx.unit.features; c.args = std::mem::take(&mut c.args).into_iter().filter(|a| cfg_ok(expr_attrs(a), f)).map(|mut a| { clear_attrs(&mut a); a }).collect(); }
            Expr::MethodCall(c) => { let f = &self.cx.unit.features; c.args = std::mem::take(&mut c.args).into_iter().filter(|a| cfg_ok(expr_attrs(a), f)).map(|mut a| { clear_attrs(&mut a); a }).collect(); }
            Expr::Struct(s) => { let f = &self.cx.unit.features; s.fields = std::mem::take(&mut s.fields).into_iter().filter(|x| cfg_ok(&x.attrs, f)).map(|mut x| { x.attrs.clear(); x }).collect(); }
            Expr::Match(m) => { let f = &self.cx.unit.features; m.arms.retain(|a| cfg_ok(&a.attrs, f)); for a in &mut m.arms { a.attrs.clear(); } }
            _ => {}
        }
        if self.cx.unit.sql { self.sql_expr(e); }
        self.builder_expr(e);
        // macros in expression position
        if let Expr::Macro(m) = e {
            if let Some(ts) = self.expand_macro(&m.mac.clone()) {
                match macros::as_expr(ts) {
                    Some(x) => { *e = x; return self.visit_expr_mut(e); }
                    None => { self.err.get_or_insert("macro expansion does not parse".into()); return; }
                }
            }
            // unknown macro with expression arguments: visit them
            if let Ok(args) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                let mut v: Vec<Expr> = args.into_iter().collect();
                for a in &mut v { self.visit_expr_mut(a); }
                m.mac.tokens = quote!(#(#v),*);
            }
            return;
        }
        // spawn(async move { .. })  ->  spawn_NAME(args)
        if let Expr::Call(c) = e {
            let is_spawn = matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map(|s| s.ident == "spawn").unwrap_or(false));
            if is_spawn && c.args.len() == 1 {
                if let Expr::Async(a) = &c.args[0] {
                    let n = self.spawns;
                    self.spawns += 1;
                    match self.spec.spawns.get(&n).cloned() {
                        Some(call) => {
                            let call = subst_text(&call, &self.map);
                            let name = call.split('(').next().unwrap().trim().to_string();
                            self.lifted.push((name.clone(), a.block.clone()));
                            match parse_str::<Expr>(&format!("spawn_{call}")) {
                                Ok(x) => { *e = x; if let Expr::Call(c) = e { c.args.push(parse_quote!(Tracked(w))); } }
                                Err(_) => { self.err.get_or_insert("bad spawn directive".into()); }
                            }
                        }
                        None => { self.err.get_or_insert("spawned task without a contract".into()); }
                    }
                    return;
                }
            }
        }
        if let Expr::Async(a) = e {
            let n = self.asyncs;
            self.asyncs += 1;
            match self.spec.asyncs.get(&n).cloned() {
                Some(call) => {
                    let call = subst_text(&call, &self.map);
                    let name = call.split('(').next().unwrap().trim().to_string();
                    self.lifted.push((name, a.block.clone()));
                    let ty = &self.self_ty;
                    match parse_str::<Expr>(&format!("{ty}{call}")) {
                        Ok(x) => { *e = x; if let Expr::Call(c) = e { c.args.push(parse_quote!(Tracked(w))); } }
                        Err(_) => { self.err.get_or_insert("bad async directive".into()); }
                    }
                }
                None => { self.err.get_or_insert("async block without a contract".into()); }
            }
            return;
        }
        if let Expr::Await(a) = e {
            let inner = (*a.base).clone();
            // waiting for a value itself (not for a call), or for a spawned task: an effect of its own, which the contracts have a stub for or not
            let spawned = matches!(&inner, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "spawn")));
            if spawned || matches!(&inner, Expr::Path(_) | Expr::Field(_) | Expr::Reference(_) | Expr::Unary(_)) {
                let mut inner = inner;
                self.visit_expr_mut(&mut inner);
                *e = parse_quote!(vx_await(#inner, Tracked(w)));
                return;
            }
            *e = inner;
            return self.visit_expr_mut(e);
        }
        // loops
        if matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) {
            self.has_loop = true;
            let n = self.loops;
            self.loops += 1;
            let saved = self.map.clone();
            match e {
                Expr::ForLoop(f) => {
                    let k = self.its;
                    self.its += 1;
                    let it = format_ident!("vx_it{}", k);
                    self.map.insert("$it".into(), it.to_string());
                    self.map.insert(format!("$it{n}"), it.to_string());
                    let iter_ghost = format!("vx_it{k}");
                    let mut inner_map = self.map.clone();
                    inner_map.insert("$it".into(), iter_ghost.clone());
                    self.visit_expr_mut(&mut f.expr);
                    self.visit_pat_mut(&mut f.pat);
                    self.visit_block_mut(&mut f.body);
                    self.map.insert("$it".into(), iter_ghost.clone());
                    let (pat, ex) = (f.pat.clone(), f.expr.clone());
                    self.at_continue(&mut f.body, n);
                    let body = &f.body.stmts;
                    let mut spec = self.spec.loops.get(&n).cloned().unwrap_or_default();
                    let auto_inv = format!("invariant {iter_ghost}.wf(), {iter_ghost}.all() == vx_all{k},");
                    if !spec.contains("invariant") { spec = format!("    {auto_inv}\n{spec}"); }
                    else { spec = spec.replacen("invariant", &auto_inv, 1); }
                    if !spec.contains("decreases") { spec.push_str(&format!("    decreases {iter_ghost}.left(),\n")); }
                    let m = self.mark("__VX_SPEC", spec);
                    let st = self.spec.loopstart.get(&n).cloned().unwrap_or_default();
                    let st = self.mark("__VX_GHOST", st);
                    let en = self.spec.loopend.get(&n).cloned().unwrap_or_default();
                    let en = self.mark("__VX_GHOST", en);
                    let al = self.spec.afterloop.get(&n).cloned().unwrap_or_default();
                    let al = self.mark("__VX_GHOST", al);
                    let bl = self.spec.beforeloop.get(&n).cloned().unwrap_or_default();
                    let bl = self.mark("__VX_GHOST", bl);
                    let label = &f.label;
                    let ga = self.mark("__VX_GHOST", format!("let ghost vx_all{k} = {iter_ghost}.all();\n"));
                    let blk: Block = parse_quote!({
                        let mut #it = vx_into_it(#ex);
                        #ga
                        #bl
                        #label while #it.vx_has_next() {
                            #m
                            let #pat = #it.vx_next();
                            #st
                            #(#body)*
                            #en
                        }
                        #al
                    });
                    *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk });
                }
                Expr::While(w) => {
                    self.visit_expr_mut(&mut w.cond);
                    self.visit_block_mut(&mut w.body);
                    let spec = self.spec.loops.get(&n).cloned().unwrap_or_default();
                    let m = self.mark("__VX_SPEC", spec);
                    let st = self.spec.loopstart.get(&n).cloned().unwrap_or_default();
                    let st = self.mark("__VX_GHOST", st);
                    let en = self.spec.loopend.get(&n).cloned().unwrap_or_default();
                    let en = self.mark("__VX_GHOST", en);
                    self.at_continue(&mut w.body, n);
                    let body = &w.body.stmts;
                    let b: Block = parse_quote!({ #m #st #(#body)* #en });
                    w.body = b;
                }
                Expr::Loop(l) => {
                    if std::env::var("VX_VACUITY").is_ok() && self.spec.diverges { let t = self.spec.loopend.entry(n).or_default(); t.push_str("\nproof { assert(false); }\n"); }
                    self.visit_block_mut(&mut l.body);
                    let spec = self.spec.loops.get(&n).cloned().unwrap_or_default();
                    let m = self.mark("__VX_SPEC", spec);
                    let st = self.spec.loopstart.get(&n).cloned().unwrap_or_default();
                    let st = self.mark("__VX_GHOST", st);
                    let en = self.spec.loopend.get(&n).cloned().unwrap_or_default();
                    let en = self.mark("__VX_GHOST", en);
                    self.at_continue(&mut l.body, n);
                    let body = &l.body.stmts;
                    let b: Block = parse_quote!({ #m #st #(#body)* #en });
                    l.body = b;
                }
                _ => {}
            }
            let keep: Vec<(String, String)> = self.map.iter().filter(|(k, _)| k.starts_with("$it") && k.len() > 3).map(|(k, v)| (k.clone(), v.clone())).collect();
            self.map = saved;
            self.map.extend(keep);
            return;
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "retain" { if let Some(Expr::Closure(c)) = m.args.first_mut() { if c.inputs.len() == 2 { c.attrs.push(parse_quote!(#[vx_mut2])); } } }
        }
        // closures: patterns become lets, the contract is spliced or derived from the body
        if let Expr::Closure(c) = e {
            let n = self.closures;
            self.closures += 1;
            let mut sub: BTreeMap<String, TokenStream> = BTreeMap::new();
            let mut lets: Vec<Stmt> = vec![];
            for (k, p) in c.inputs.iter_mut().enumerate() {
                let base: Pat = match &*p { Pat::Type(t) => (*t.pat).clone(), x => x.clone() };
                match &base {
                    Pat::Ident(_) => {}
                    Pat::Wild(_) => { let id = format_ident!("vx_p{}", k); *p = parse_quote!(#id); }
                    other => {
                        let id = format_ident!("vx_p{}", k);
                        lets.push(parse_quote!(let #other = #id;));
                        pat_subst(other, quote!(#id), &mut sub);
                        let newp: Pat = parse_quote!(#id);
                        *p = if let Pat::Type(t) = p { let ty = &t.ty; let pt: PatType = PatType { attrs: vec![], pat: Box::new(newp), colon_token: Default::default(), ty: ty.clone() }; Pat::Type(pt) } else { newp };
                    }
                }
            }
            c.asyncness = None;
            let mut frame = String::new();
            if c.attrs.iter().any(|a| a.path().is_ident("vx_mut2")) {
                c.attrs.clear();
                if let Some(Pat::Ident(i)) = c.inputs.iter().nth(1) {
                    let id = i.ident.clone();
                    if !sub.values().any(|v| v.to_string().contains(&id.to_string())) {
                        sub.insert(id.to_string(), quote!((*old(#id))));
                        frame = format!(", *final({id}) == *old({id})");
                    }
                }
            }
            let col = if self.cx.unit.sql { self.col_spec(&c.body, &sub) } else { None };
            let spec_src = self.to_spec(&c.body, &sub);
            self.visit_expr_mut(&mut c.body);
            let spec = match self.spec.closures.get(&n) {
                Some(s) => s.clone(),
                None if col.is_some() => col.unwrap_or_default(),
                None => match &spec_src { Some(s) => format!(" -> (vx_r: _) ensures vx_same(vx_r, {s}){frame}"), None => String::new() },
            };
            let body = &c.body;
            let m = self.mark("__VX_SPEC", spec);
            let b: Block = match (&**body, lets.is_empty(), &m) {
                (Expr::Block(b), true, _) if b.label.is_none() => { let s = &b.block.stmts; parse_quote!({ #m #(#s)* }) }
                _ => parse_quote!({ #m #(#lets)* #body }),
            };
            if m.is_some() || !lets.is_empty() {
                c.output = ReturnType::Default;
                *c.body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            // a newtype's derived Deref, made explicit
            Expr::Field(f) if self.deref_self && matches!(f.member, Member::Named(_)) && matches!(&*f.base, Expr::Path(p) if p.path.is_ident("self")) => {
                f.base = parse_quote!(self.0);
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                self.cx.called.insert(name.clone());
                if let Some(r) = self.cx.unit.renames.get(&name) { m.method = Ident::new(r, m.method.span()); }
                if self.cx.effects.contains(&name) { m.args.push(parse_quote!(Tracked(w))); }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    let name = p.path.segments.last().unwrap().ident.to_string();
                    self.cx.called.insert(name.clone());
                    if p.path.segments.len() > 1 {
                        if let Some(r) = self.cx.unit.renames.get(&format!("::{name}")) { p.path.segments.last_mut().unwrap().ident = Ident::new(r, Span::call_site()); }
                    }
                    if self.cx.effects.contains(&name) { c.args.push(parse_quote!(Tracked(w))); }
                }
            }
            _ => {}
        }
    }
}

struct Item_ { attrs: Vec<Attribute>, sig: Signature, block: Block, vis: Visibility }

fn let_names(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'x> syn::visit::Visit<'x> for V {
        fn visit_local(&mut self, l: &'x Local) {
            fn go(p: &Pat, o: &mut Vec<String>) {
                match p {
                    Pat::Ident(i) => o.push(i.ident.to_string()),
                    Pat::Type(t) => go(&t.pat, o),
                    Pat::Tuple(t) => t.elems.iter().for_each(|x| go(x, o)),
                    Pat::TupleStruct(t) => t.elems.iter().for_each(|x| go(x, o)),
                    Pat::Reference(r) => go(&r.pat, o),
                    _ => {}
                }
            }
            go(&l.pat, &mut self.0);
            syn::visit::visit_local(self, l);
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

impl<'b> Cx<'b> {
    fn lines(&self) -> usize { self.out.matches('\n').count() + 1 }

    /// Emits one function; `key` identifies its contract. Returns lifted blocks.
    fn emit_fn(&mut self, key: &str, self_ty: &str, f: Item_, assume: bool, in_trait_impl: bool, source: &str, lifted: bool) -> Res<()> {
        let known = self.unit.fns.get(key).cloned();
        let mut spec = known.clone().unwrap_or_else(|| FnSpec { key: key.into(), ..Default::default() });
        let last = key.rsplit("::").next().unwrap().to_string();
        let mut sig = f.sig.clone();
        let block = f.block.clone();
        // effects of an uncontracted helper: by use
        if known.is_none() && self.effects.contains(&last) { spec.effects = true; }
        sig.asyncness = None;
        let mut map: BTreeMap<String, String> = BTreeMap::new();
        // parameters
        let feats = &self.unit.features;
        sig.inputs = std::mem::take(&mut sig.inputs).into_iter().filter(|a| match a { FnArg::Typed(t) => cfg_ok(&t.attrs, feats), FnArg::Receiver(r) => cfg_ok(&r.attrs, feats) })
            .map(|mut a| { match &mut a { FnArg::Typed(t) => t.attrs.clear(), FnArg::Receiver(r) => r.attrs.clear() } a }).collect();
        let mut k = 0;
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                let name = match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => { let id = format_ident!("vx_arg{}", k); *t.pat = parse_quote!(#id); id.to_string() } };
                if let Some(cn) = spec.params.get(k) { map.insert(cn.clone(), name.clone()); }
                k += 1;
            }
        }
        if !spec.params.is_empty() && k != spec.params.len() { self.notes.insert(format!("{key}: {k} parameters, contract names {}", spec.params.len())); }
        let lets = let_names(&block);
        for (n, ord) in &spec.locals {
            if lets.contains(n) { continue; }
            if let Some(a) = lets.get(*ord) { map.insert(n.clone(), a.clone()); }
        }
        let self_ty_s = self_ty.to_string();
        let texts_n = self.texts.len();
        let deref_self = self.unit.derefs.contains(self_ty) && !lifted;
        let mut tf = Tf { cx: self, spec: spec.clone(), loops: 0, closures: 0, spawns: 0, asyncs: 0, its: 0, lifted: vec![], map: map.clone(), err: None, has_loop: false, deref_self, infos: Default::default(), self_ty: if self_ty_s.is_empty() { String::new() } else { "Self::".to_string() } };
        for a in sig.inputs.iter_mut() { tf.visit_fn_arg_mut(a); }
        tf.visit_return_type_mut(&mut sig.output);
        tf.visit_generics_mut(&mut sig.generics);
        let mut body = block.clone();
        let do_body = !assume && !spec.external;
        let mut lifted_out = vec![];
        let mut has_loop = false;
        let (mut nl, mut ncl) = (0, 0);
        let mut err = None;
        if do_body {
            tf.visit_block_mut(&mut body);
            if let Some(m) = tf.mark("__VX_GHOST", spec.end.clone()) {
                match body.stmts.pop() {
                    Some(Stmt::Expr(t, None)) if matches!(sig.output, ReturnType::Type(..)) => {
                        let st: Stmt = match &sig.output {
                            ReturnType::Type(_, ty) if !ty.to_token_stream().to_string().contains("impl ") => parse_quote!(let vx_result: #ty = #t;),
                            _ => parse_quote!(let vx_result = #t;),
                        };
                        body.stmts.push(st);
                        body.stmts.push(m);
                        body.stmts.push(Stmt::Expr(parse_quote!(vx_result), None));
                    }
                    Some(Stmt::Expr(t, None)) => { body.stmts.push(Stmt::Expr(t, Some(Default::default()))); body.stmts.push(m); }
                    Some(x) => { body.stmts.push(x); body.stmts.push(m); }
                    None => body.stmts.push(m),
                }
            }
            has_loop = tf.has_loop;
            nl = tf.loops;
            ncl = tf.closures;
            err = tf.err.take();
            lifted_out = std::mem::take(&mut tf.lifted);
        }
        let _ = &tf.infos;
        let mut nmarks = self.texts.len() - texts_n;
        // ways out of the function that what is shown at its end does not reach
        if do_body && !spec.end.trim().is_empty() {
            struct V(usize);
            impl VisitMut for V { fn visit_expr_mut(&mut self, e: &mut Expr) { match e { Expr::Closure(_) => {} Expr::Return(_) => { self.0 += 1; visit_mut::visit_expr_mut(self, e) } _ => visit_mut::visit_expr_mut(self, e) } } }
            let mut v = V(0);
            v.visit_block_mut(&mut body);
            nmarks += 1000 * v.0;
        }
        if let Some(e) = err { return Err(format!("{key}: {e}")); }
        if spec.effects { sig.inputs.push(parse_quote!(__vx_w: __VxW)); }
        // contract
        let ret = spec.ret.clone().unwrap_or_else(|| "vx_ret".into());
        let spec_text = subst_text(&spec.spec, &map);
        let begin_text = subst_text(&spec.begin, &map);
        // print signature
        let mut s = String::new();
        s.push_str("#[verifier::loop_isolation(false)]\n");
        for a in &spec.attrs { s.push_str(&format!("#[{a}]\n")); }
        if has_loop { s.push_str("#[verifier::exec_allows_no_decreases_clause]\n"); }
        if !do_body { s.push_str("#[verifier::external_body]\n"); }
        if !in_trait_impl {
            if lifted || !matches!(f.vis, Visibility::Inherited) || true { s.push_str("pub "); }
        }
        let ident = &sig.ident;
        let (ig, _, wc) = sig.generics.split_for_impl();
        let inputs = &sig.inputs;
        let mut sg = quote!(fn #ident #ig (#inputs)).to_string();
        sg = sg.replace("__vx_w : __VxW", "Tracked(w): Tracked<&mut World>");
        s.push_str(&sg);
        if let ReturnType::Type(_, t) = &sig.output { s.push_str(&format!(" -> ({ret}: {})", t.to_token_stream())); }
        if let Some(w) = wc { s.push_str(&format!(" {}", w.to_token_stream())); }
        s.push('\n');
        // vacuity mode: the original keeps its contract only, a copy must fail to prove `false` at its end
        let vacuity = std::env::var("VX_VACUITY").is_ok() && do_body && !in_trait_impl;
        if vacuity {
            let sv = s.replacen("#[verifier::exec_allows_no_decreases_clause]\n", "", 1);
            self.out.push_str("#[verifier::external_body]\n");
            self.out.push_str(&sv);
            self.out.push_str(&spec_text);
            self.out.push_str("{ unimplemented!() }\n");
            s = s.replacen(&format!("fn {ident}"), &format!("fn vxv_{ident}"), 1);
        }
        let start = self.lines();
        self.out.push_str(&s);
        self.out.push_str(&spec_text);
        if vacuity && !spec.diverges {
            let t = spec_text.trim_end();
            if !t.contains("ensures") { self.out.push_str("    ensures false,\n"); }
            else { if !t.ends_with(',') { self.out.push_str(",\n"); } self.out.push_str("    false,\n"); }
        }
        if do_body {
            let texts = self.texts.clone();
            let mut p = print::Printer::new(&texts);
            let mut ts = TokenStream::new();
            for st in &body.stmts { st.to_tokens(&mut ts); }
            p.indent = 1;
            p.ts(ts);
            self.out.push_str("{\n//@BODY\n");
            if vacuity && spec.diverges && nl == 0 { self.out.push_str("proof { assert(false); }\n"); }
            self.out.push_str(&begin_text);
            self.out.push_str(&p.out);
            self.out.push_str("\n}\n");
        } else {
            self.out.push_str("{ unimplemented!() }\n");
        }
        let end = self.lines();
        let base_line = f.sig.ident.span().start().line;
        self.fns.push(json!({
            "key": key, "start": start, "end": end, "verified": do_body, "contract": known.is_some() && !spec.spec.trim().is_empty(),
            "known": known.is_some(), "props": spec.props, "source": source, "line": base_line, "loops": nl, "closures": ncl,
            "loops_expected": spec.loops.keys().max().map(|m| m + 1).unwrap_or(0), "external": spec.external, "lifted": lifted,
            "effects": spec.effects, "vacuity": vacuity, "clauses": clauses(&spec_text), "asserts": nmarks,
        }));
        self.emitted.insert(key.to_string());
        for (name, b) in lifted_out {
            let lkey = if self_ty.is_empty() { name.clone() } else { format!("{self_ty}::{name}") };
            let Some(ls) = self.unit.fns.get(&lkey) else { return Err(format!("{lkey}: lifted block without a contract")) };
            let sigtxt = subst_text(ls.sig.as_ref().ok_or(format!("{lkey}: no @sig"))?, &BTreeMap::new());
            let it: ItemFn = parse_str(&format!("fn {name}{sigtxt} {{}}")).map_err(|e| format!("{lkey}: @sig {e}"))?;
            let item = Item_ { attrs: vec![], sig: it.sig, block: b, vis: f.vis.clone() };
            self.emit_fn(&lkey, self_ty, item, assume, false, source, true)?;
        }
        Ok(())
    }
}

/// The number of postconditions a contract states (top-level commas of the ensures clause).
fn clauses(spec: &str) -> usize {
    let Some(i) = spec.find("ensures") else { return 0 };
    let t = &spec[i + 7..];
    let (mut d, mut n, mut any) = (0i32, 0, false);
    let mut bind = false;
    for (j, c) in t.char_indices() { match c { '|' if bind => bind = false, '|' if t[..j].ends_with("forall") || t[..j].ends_with("exists") => bind = true, _ if bind => {} '(' | '[' | '{' => d += 1, ')' | ']' | '}' => d -= 1, ',' if d == 0 => { if any { n += 1; } any = false; } c if !c.is_whitespace() => any = true, _ => {} } }
    n + any as usize
}

fn ty_name(t: &Type) -> String {
    match t { Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(), Type::Reference(r) => ty_name(&r.elem), _ => String::new() }
}

struct StripAttrs<'a> { keep: &'a BTreeSet<String>, feats: &'a BTreeSet<String> }
impl<'a> VisitMut for StripAttrs<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) { visit_mut::visit_path_mut(self, p); strip_path(p, self.keep); }
    fn visit_item_mut(&mut self, i: &mut Item) {
        match i {
            Item::Struct(s) => s.attrs.clear(), Item::Enum(s) => s.attrs.clear(), Item::Type(s) => s.attrs.clear(), Item::Const(s) => s.attrs.clear(), Item::Trait(s) => s.attrs.clear(), _ => {}
        }
        visit_mut::visit_item_mut(self, i);
    }
    fn visit_fields_mut(&mut self, f: &mut Fields) {
        let fe = self.feats;
        match f {
            Fields::Named(n) => n.named = std::mem::take(&mut n.named).into_iter().filter(|x| cfg_ok(&x.attrs, fe)).map(|mut x| { x.attrs.clear(); x }).collect(),
            Fields::Unnamed(n) => n.unnamed = std::mem::take(&mut n.unnamed).into_iter().filter(|x| cfg_ok(&x.attrs, fe)).map(|mut x| { x.attrs.clear(); x }).collect(),
            _ => {}
        }
        visit_mut::visit_fields_mut(self, f);
    }
    fn visit_variant_mut(&mut self, v: &mut Variant) { v.attrs.clear(); visit_mut::visit_variant_mut(self, v); }
}

fn all_items(file: &File) -> Vec<&Item> {
    fn test_cfg(a: &[Attribute]) -> bool { a.iter().any(|x| x.path().is_ident("cfg") && x.to_token_stream().to_string().contains("test")) }
    file.items.iter().filter(|i| match i {
        Item::Mod(m) => !test_cfg(&m.attrs), Item::Impl(m) => !test_cfg(&m.attrs), Item::Fn(m) => !test_cfg(&m.attrs), _ => true,
    }).collect()
}

fn run() -> Res<()> {
    let a: Vec<String> = std::env::args().collect();
    let (repo, dir, unit_file, out, outj) = (&a[1], &a[2], &a[3], &a[4], &a[5]);
    let mut unit = Unit::default();
    vc::load(dir, unit_file, false, &mut unit)?;
    let mut files: BTreeMap<String, File> = BTreeMap::new();
    let mut need: Vec<String> = unit.macros.clone();
    for p in &unit.pieces {
        match p { Piece::Item { source, .. } | Piece::Impl { source, .. } | Piece::FreeFn { source, .. } => need.push(source.clone()), _ => {} }
    }
    let mut rules = BTreeMap::new();
    for s in need {
        if files.contains_key(&s) { continue; }
        let text = std::fs::read_to_string(format!("{repo}/{s}")).map_err(|e| format!("{s}: {e}"))?;
        let f = syn::parse_file(&text).map_err(|e| format!("{s}: {e}"))?;
        macros::collect(&f, &mut rules);
        files.insert(s, f);
    }
    let effects = unit.effects.clone();
    let mut cx = Cx { unit: &unit, rules, texts: vec![], out: String::new(), fns: vec![], called: Default::default(), emitted: Default::default(), effects, notes: Default::default(), consts: Default::default(), cols: Default::default() };
    for f in &unit.ddl { let text = std::fs::read_to_string(format!("{repo}/{f}")).map_err(|e| format!("{f}: {e}"))?; sql::col_types(&text, &mut cx.cols); }
    if unit.sql { for f in files.values() { for i in all_items(f) { if let Item::Const(c) = i { if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &*c.expr { cx.consts.insert(c.ident.to_string(), s.value()); } } } } }

    // Which uncontracted helpers perform effects (fixpoint by name)
    loop {
        let mut grew = false;
        for f in files.values() {
            for it in all_items(f) {
                let mut chk = |name: String, b: &Block, cx: &mut Cx| {
                    if cx.effects.contains(&name) { return false; }
                    if unit.fns.keys().any(|k| k.rsplit("::").next() == Some(name.as_str())) { return false; }
                    let ts = b.to_token_stream();
                    if cx.effects.iter().any(|e| calls(ts.clone(), e)) { cx.effects.insert(name); true } else { false }
                };
                match it {
                    Item::Fn(x) => grew |= chk(x.sig.ident.to_string(), &x.block, &mut cx),
                    Item::Impl(i) if i.trait_.is_none() => for x in &i.items { if let ImplItem::Fn(x) = x {
                        let key = format!("{}::{}", ty_name(&i.self_ty), x.sig.ident);
                        if !unit.fns.contains_key(&key) && impl_selected(&unit, &ty_name(&i.self_ty), &x.sig.ident.to_string()) { grew |= chk(x.sig.ident.to_string(), &x.block, &mut cx) }
                    } },
                    _ => {}
                }
            }
        }
        if !grew { break; }
    }

    // modules
    let mut env = String::new();
    for p in &unit.pieces { if let Piece::Env(t) = p { env.push_str(t); env.push('\n'); } }
    cx.out.push_str("#![allow(unused, non_camel_case_types, non_snake_case, dead_code)]\nuse vstd::prelude::*;\nuse vstd::std_specs::cmp::*;\nuse vstd::std_specs::convert::*;\nuse std::sync::Arc;\nuse std::cmp::Ordering;\nuse std::hash::Hash;\nuse std::fmt::{Debug, Display};\nuse std::marker::PhantomData;\nverus! {\npub mod env {\nuse super::*;\n");
    cx.out.push_str(&env);
    cx.out.push_str("} // mod env\n#[allow(unused_imports)]\nuse env::*;\npub mod code {\nuse super::*;\nuse super::env::*;\nbroadcast use super::env::vx_axioms;\n");
    let mut has_axioms = false;
    if env.contains("group vx_axioms") { has_axioms = true; }
    if !has_axioms { return Err("no vx_axioms group".into()); }
    for p in unit.pieces.clone() {
        match p {
            Piece::Env(_) => {}
            Piece::Raw(t) => { cx.out.push_str(&t); cx.out.push('\n'); }
            Piece::Ddl(f) => {
                let text = std::fs::read_to_string(format!("{repo}/{f}")).map_err(|e| format!("{f}: {e}"))?;
                let mut arms = String::new();
                for (t, k) in sql::ddl(&text)? { if !k.is_empty() { arms.push_str(&format!("Tbl::{t} => Some(Col::{k}), ")); } }
                cx.out.push_str(&format!("/// the tables' primary keys\npub open spec fn pk(t: Tbl) -> Option<Col> {{ match t {{ {arms}_ => None }} }}\n"));
            }
            Piece::Item { source, kind, name, opts } => {
                let f = &files[&source];
                let found = all_items(f).into_iter().find(|i| match (kind.as_str(), i) {
                    ("struct", Item::Struct(s)) => s.ident == name,
                    ("enum", Item::Enum(s)) => s.ident == name,
                    ("type", Item::Type(s)) => s.ident == name,
                    ("const", Item::Const(s)) => s.ident == name,
                    ("trait", Item::Trait(s)) => s.ident == name,
                    _ => false,
                }).ok_or(format!("{source}: no {kind} {name}"))?;
                let mut it = found.clone();
                let mut derives: BTreeSet<String> = BTreeSet::new();
                let attrs = match &it { Item::Struct(s) => s.attrs.clone(), Item::Enum(s) => s.attrs.clone(), _ => vec![] };
                for at in attrs { if at.path().is_ident("derive") || at.path().is_ident("derivative") { for d in ["Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Debug"] { if tokens_have(at.to_token_stream(), d) { derives.insert(d.into()); } } } }
                StripAttrs { keep: &unit.keepmods, feats: &unit.features }.visit_item_mut(&mut it);
                // private items and fields become visible to the contract module
                match &mut it {
                    Item::Struct(s) => { s.vis = parse_quote!(pub); for f in s.fields.iter_mut() { f.vis = parse_quote!(pub); } }
                    Item::Enum(s) => s.vis = parse_quote!(pub),
                    Item::Type(s) => s.vis = parse_quote!(pub),
                    Item::Const(s) => s.vis = parse_quote!(pub),
                    _ => {}
                }
                let txts: Vec<String> = vec![];
                let mut pr = print::Printer::new(&txts);
                pr.ts(it.to_token_stream());
                for o in &opts { if let Some(at) = o.strip_prefix("attr=") { for x in at.split(';') { cx.out.push_str(&format!("#[{}]\n", x.replace('~', " "))); } } }
                cx.out.push_str(&pr.out);
                cx.out.push('\n');
                // derived impls: structural, trusted
                if !opts.iter().any(|o| o == "noderive") {
                    let (gen, ident) = match &it { Item::Struct(s) => (s.generics.clone(), s.ident.clone()), Item::Enum(s) => (s.generics.clone(), s.ident.clone()), _ => (Generics::default(), format_ident!("x")) };
                    for d in &derives { cx.out.push_str(&derived(d, &gen, &ident)); }
                }
            }
            Piece::FreeFn { source, name, assume } => {
                let f = &files[&source];
                let x = all_items(f).into_iter().find_map(|i| match i { Item::Fn(x) if x.sig.ident == name => Some(x.clone()), _ => None }).ok_or(format!("{source}: no fn {name}"))?;
                cx.emit_fn(&name, "", Item_ { attrs: x.attrs, sig: x.sig, block: *x.block, vis: x.vis }, assume, false, &source, false)?;
            }
            Piece::Impl { source, ty, tr, only, skip, assume, header, ofdef } => {
                let f = &files[&source];
                let mut any = false;
                for it in all_items(f) {
                    let im: ItemImpl = match it {
                        Item::Impl(im) => im.clone(),
                        // the default methods of a trait, emitted for the type the header names
                        Item::Trait(t) if ofdef && t.ident == ty => {
                            let id = &t.ident;
                            let mut im: ItemImpl = parse_quote!(impl #id {});
                            for x in &t.items { if let TraitItem::Fn(m) = x { if let Some(b) = &m.default { im.items.push(ImplItem::Fn(ImplItemFn { attrs: m.attrs.clone(), vis: Visibility::Inherited, defaultness: None, sig: m.sig.clone(), block: b.clone() })); } } }
                            im
                        }
                        _ => continue,
                    };
                    let im = &im;
                    if ty_name(&im.self_ty) != ty { continue; }
                    let trn = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    if trn != tr { continue; }
                    any = true;
                    let mut im2 = im.clone();
                    im2.attrs.clear();
                    let mut sa = StripAttrs { keep: &unit.keepmods, feats: &unit.features };
                    sa.visit_generics_mut(&mut im2.generics);
                    sa.visit_type_mut(&mut im2.self_ty);
                    if let Some((_, p, _)) = &mut im2.trait_ { sa.visit_path_mut(p); }
                    let (ig, _, wc) = im2.generics.split_for_impl();
                    let st = &im2.self_ty;
                    let head = match (&header, &im2.trait_) {
                        (Some(h), _) => h.clone(),
                        (None, Some((_, p, _))) => quote!(impl #ig #p for #st #wc).to_string(),
                        (None, None) => quote!(impl #ig #st #wc).to_string(),
                    };
                    cx.out.push_str(&head);
                    cx.out.push_str(" {\n");
                    for x in &im.items {
                        match x {
                            ImplItem::Fn(m) => {
                                let n = m.sig.ident.to_string();
                                if !cfg_ok(&m.attrs, &unit.features) { continue; }
                                if let Some(o) = &only { if !o.contains(&n) { 
                                    // a function that is not part of the baseline list but is called by listed ones
                                    if unit.fns.contains_key(&format!("{ty}::{n}")) || skip.contains(&n) || !is_called_by(f, &ty, o, &n, &unit) { continue; }
                                } }
                                if skip.contains(&n) { continue; }
                                let key = format!("{ty}::{n}");
                                cx.emit_fn(&key, &ty, Item_ { attrs: m.attrs.clone(), sig: m.sig.clone(), block: m.block.clone(), vis: m.vis.clone() }, assume, tr.is_some(), &source, false)?;
                            }
                            ImplItem::Type(t) => { let mut t = t.clone(); t.attrs.clear(); sa_type(&mut t, &unit); cx.out.push_str(&t.to_token_stream().to_string()); cx.out.push('\n'); }
                            ImplItem::Const(t) => { let mut t = t.clone(); t.attrs.clear(); cx.out.push_str(&t.to_token_stream().to_string()); cx.out.push('\n'); }
                            _ => {}
                        }
                    }
                    cx.out.push_str("}\n");
                }
                if !any { return Err(format!("{source}: no impl {ty}")); }
            }
        }
    }
    // free helper functions of the same files that the extracted code calls
    let mut done = false;
    while !done {
        done = true;
        for (s, f) in &files {
            if unit.macros.contains(s) && !unit.pieces.iter().any(|p| matches!(p, Piece::Impl { source, .. } | Piece::FreeFn { source, .. } if source == s)) { continue; }
            for it in all_items(f) {
                if let Item::Fn(x) = it {
                    let n = x.sig.ident.to_string();
                    if cx.called.contains(&n) && !cx.emitted.contains(&n) && !env_defines(&env, &n) && !unit.pieces.iter().any(|p| matches!(p, Piece::Raw(t) if env_defines(t, &n))) {
                        let assume_all = unit.pieces.iter().all(|p| match p { Piece::Impl { source, assume, .. } | Piece::FreeFn { source, assume, .. } if source == s => *assume, _ => true });
                        if assume_all { continue; }
                        cx.emit_fn(&n, "", Item_ { attrs: vec![], sig: x.sig.clone(), block: (*x.block).clone(), vis: x.vis.clone() }, false, false, s, false)?;
                        done = false;
                    }
                }
            }
        }
    }
    cx.out.push_str("} // mod code\nfn main() {}\n} // verus!\n");
    // a task or block lifted out of a function whose body is not part of this unit
    let any_assumed = unit.pieces.iter().any(|p| matches!(p, Piece::Impl { assume: true, .. }));
    for (k, f) in unit.fns.iter() { if !cx.emitted.contains(k) && !(f.sig.is_some() && any_assumed) { return Err(format!("lost anchor: {k} is not in the source")); } }
    std::fs::write(out, &cx.out).map_err(|e| e.to_string())?;
    std::fs::write(outj, serde_json::to_string_pretty(&json!({ "fns": cx.fns, "notes": cx.notes })).unwrap()).map_err(|e| e.to_string())?;
    Ok(())
}

fn sa_type(t: &mut ImplItemType, unit: &Unit) { StripAttrs { keep: &unit.keepmods, feats: &unit.features }.visit_type_mut(&mut t.ty); }

fn env_defines(env: &str, n: &str) -> bool { env.contains(&format!("fn {n}(")) || env.contains(&format!("fn {n}<")) }

fn impl_selected(unit: &Unit, ty: &str, name: &str) -> bool {
    unit.pieces.iter().any(|p| match p { Piece::Impl { ty: t, skip, .. } => t == ty && !skip.iter().any(|s| s == name), _ => false })
}

fn calls(ts: TokenStream, name: &str) -> bool {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    for i in 0..t.len() {
        match &t[i] {
            TokenTree::Ident(id) if id == name => { if matches!(t.get(i + 1), Some(TokenTree::Group(_))) { return true; } }
            TokenTree::Group(g) => { if calls(g.stream(), name) { return true; } }
            _ => {}
        }
    }
    false
}

/// Is `n` called (transitively through functions outside the list) by one of the listed functions of the type?
fn is_called_by(f: &File, ty: &str, only: &[String], n: &str, unit: &Unit) -> bool {
    let mut bodies: BTreeMap<String, TokenStream> = BTreeMap::new();
    for it in all_items(f) { if let Item::Impl(im) = it { if ty_name(&im.self_ty) == ty && im.trait_.is_none() { for x in &im.items { if let ImplItem::Fn(m) = x { bodies.insert(m.sig.ident.to_string(), m.block.to_token_stream()); } } } } }
    let mut seen: BTreeSet<String> = only.iter().cloned().collect();
    let mut work: Vec<String> = only.to_vec();
    while let Some(w) = work.pop() {
        let Some(b) = bodies.get(&w) else { continue };
        for k in bodies.keys() {
            if !seen.contains(k) && calls(b.clone(), k) && !unit.fns.contains_key(&format!("{ty}::{k}")) {
                if k == n { return true; }
                seen.insert(k.clone());
                work.push(k.clone());
            }
        }
    }
    false
}

fn derived(d: &str, gen: &Generics, ident: &Ident) -> String {
    let (ig, tg, wc) = gen.split_for_impl();
    let mut g2 = gen.clone();
    let bound: TypeParamBound = match d { "Clone" => parse_quote!(Clone), "Copy" => parse_quote!(Copy), "PartialEq" => parse_quote!(PartialEq), "Eq" => parse_quote!(Eq), "PartialOrd" => parse_quote!(PartialOrd), "Ord" => parse_quote!(Ord), "Debug" => parse_quote!(Debug), _ => parse_quote!(Hash) };
    for p in g2.type_params_mut() { p.bounds.push(bound.clone()); }
    let (ig2, _, _) = g2.split_for_impl();
    let _ = ig;
    let h = |t: &str| format!("impl {} {t} for {} {} {}", ig2.to_token_stream(), ident, tg.to_token_stream(), wc.to_token_stream());
    match d {
        "Clone" => format!("{} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n", h("Clone")),
        "Copy" => format!("{} {{}}\n", h("Copy")),
        "PartialEq" => format!("{} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}\n", h("PartialEq")),
        "Eq" => format!("{} {{}}\n", h("Eq")),
        "PartialOrd" => format!("{} {{ #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> (r: Option<Ordering>) {{ unimplemented!() }} }}\n", h("PartialOrd")),
        "Ord" => format!("{} {{ #[verifier::external_body] fn cmp(&self, o: &Self) -> (r: Ordering) {{ unimplemented!() }} }}\n", h("Ord")),
        "Debug" => format!("#[verifier::external] {} {{ fn fmt(&self, s: &mut std::fmt::Formatter) -> std::fmt::Result {{ unimplemented!() }} }}\n", h("Debug")),
        "Hash" => format!("#[verifier::external] {} {{ fn hash<VxH: std::hash::Hasher>(&self, s: &mut VxH) {{ unimplemented!() }} }}\n", h("Hash")),
        _ => String::new(),
    }
}

fn main() {
    if let Err(e) = run() {
        eprintln!("vx: {e}");
        std::process::exit(3);
    }
}
/// an expression that calls into a dropped path and neither waits nor leaves
fn drops(e: &Expr, paths: &BTreeSet<String>) -> bool {
    struct V<'a> { paths: &'a BTreeSet<String>, hit: bool, leaves: bool }
    impl<'a> syn::visit::Visit<'_> for V<'a> {
        fn visit_path(&mut self, p: &Path) { if p.segments.len() > 1 && self.paths.contains(&p.segments[0].ident.to_string()) { self.hit = true; } syn::visit::visit_path(self, p); }
        fn visit_expr_await(&mut self, _: &syn::ExprAwait) { self.leaves = true; }
        fn visit_expr_try(&mut self, _: &syn::ExprTry) { self.leaves = true; }
        fn visit_expr_return(&mut self, _: &syn::ExprReturn) { self.leaves = true; }
        fn visit_macro(&mut self, _: &Macro) { self.leaves = true; }
    }
    let mut v = V { paths, hit: false, leaves: false };
    syn::visit::Visit::visit_expr(&mut v, e);
    v.hit && !v.leaves
}
