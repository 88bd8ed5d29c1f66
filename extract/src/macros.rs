//! A small macro_rules! expander: matches literal tokens and $x:expr / ident / ty / tt / literal fragments (no repetitions).
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::BTreeMap;
use syn::parse::{Parse, ParseStream, Parser};

pub struct Rule { pub pat: Vec<TokenTree>, pub body: TokenStream }
pub type Rules = Vec<Rule>;

pub fn collect(file: &syn::File, out: &mut BTreeMap<String, Rules>) {
    struct V<'a>(&'a mut BTreeMap<String, Rules>);
    impl<'a> syn::visit::Visit<'_> for V<'a> {
        fn visit_item_macro(&mut self, m: &syn::ItemMacro) {
            if m.mac.path.is_ident("macro_rules") {
                if let Some(id) = &m.ident {
                    self.0.insert(id.to_string(), parse_rules(m.mac.tokens.clone()));
                }
            }
        }
    }
    syn::visit::Visit::visit_file(&mut V(out), file);
}

fn parse_rules(ts: TokenStream) -> Rules {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < t.len() {
        let TokenTree::Group(p) = &t[i] else { i += 1; continue };
        // => is two puncts
        let mut j = i + 1;
        while j < t.len() && !matches!(t[j], TokenTree::Group(_)) { j += 1; }
        if j < t.len() {
            if let TokenTree::Group(b) = &t[j] {
                out.push(Rule { pat: p.stream().into_iter().collect(), body: b.stream() });
            }
        }
        i = j + 1;
    }
    out
}

pub fn expand(rules: &Rules, input: TokenStream) -> Option<TokenStream> {
    for r in rules {
        if let Some(b) = try_match(&r.pat, input.clone()) {
            return Some(subst(r.body.clone(), &b));
        }
    }
    None
}

fn try_match(pat: &[TokenTree], input: TokenStream) -> Option<BTreeMap<String, TokenStream>> {
    let pat = pat.to_vec();
    let f = move |inp: ParseStream| -> syn::Result<BTreeMap<String, TokenStream>> {
        let mut b = BTreeMap::new();
        let mut i = 0;
        while i < pat.len() {
            match &pat[i] {
                TokenTree::Punct(p) if p.as_char() == '$' => {
                    let (TokenTree::Ident(name), TokenTree::Ident(frag)) = (&pat[i + 1], &pat[i + 3]) else {
                        return Err(inp.error("unsupported pattern"));
                    };
                    use quote::ToTokens;
                    let ts = match frag.to_string().as_str() {
                        "expr" => {
                            let e: syn::Expr = inp.parse()?;
                            let simple = matches!(e, syn::Expr::Path(_) | syn::Expr::Lit(_) | syn::Expr::MethodCall(_) | syn::Expr::Call(_)
                                | syn::Expr::Field(_) | syn::Expr::Await(_) | syn::Expr::Paren(_) | syn::Expr::Macro(_) | syn::Expr::Index(_) | syn::Expr::Try(_));
                            let t = e.to_token_stream();
                            if simple { t } else { quote::quote!((#t)) }
                        }
                        "ident" => <syn::Ident as syn::ext::IdentExt>::parse_any(inp)?.to_token_stream(),
                        "ty" => inp.parse::<syn::Type>()?.to_token_stream(),
                        "tt" => TokenStream::from(inp.parse::<TokenTree>()?),
                        "literal" => inp.parse::<syn::Lit>()?.to_token_stream(),
                        _ => return Err(inp.error("unsupported fragment")),
                    };
                    b.insert(name.to_string(), ts);
                    i += 4;
                }
                other => {
                    let t: TokenTree = inp.parse()?;
                    if t.to_string() != other.to_string() {
                        return Err(inp.error("mismatch"));
                    }
                    i += 1;
                }
            }
        }
        if !inp.is_empty() {
            // tolerate a trailing comma
            let _ = inp.parse::<Option<syn::Token![,]>>();
            if !inp.is_empty() { return Err(inp.error("extra")); }
        }
        Ok(b)
    };
    f.parse2(input).ok()
}

fn subst(ts: TokenStream, b: &BTreeMap<String, TokenStream>) -> TokenStream {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < t.len() {
        match &t[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(id)) = t.get(i + 1) {
                    if let Some(v) = b.get(&id.to_string()) {
                        out.extend(v.clone());
                        i += 2;
                        continue;
                    }
                    if id == "crate" {
                        out.push(TokenTree::Ident(id.clone()));
                        i += 2;
                        continue;
                    }
                }
                out.push(t[i].clone());
                i += 1;
            }
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), subst(g.stream(), b));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
                i += 1;
            }
            x => { out.push(x.clone()); i += 1; }
        }
    }
    out.into_iter().collect()
}

/// Expansion as statements.
pub struct Stmts(pub Vec<syn::Stmt>);
impl Parse for Stmts {
    fn parse(input: ParseStream) -> syn::Result<Self> { Ok(Stmts(syn::Block::parse_within(input)?)) }
}
pub fn as_stmts(ts: TokenStream) -> Option<Vec<syn::Stmt>> { syn::parse2::<Stmts>(ts).ok().map(|s| s.0) }
pub fn as_expr(ts: TokenStream) -> Option<syn::Expr> {
    if let Ok(e) = syn::parse2::<syn::Expr>(ts.clone()) { return Some(e); }
    let g = TokenTree::Group(Group::new(Delimiter::Brace, ts));
    syn::parse2::<syn::Expr>(TokenStream::from(g)).ok()
}

/// select! over named futures: `match vx_selectN(a, b, ..) { VxSelN::S0(pat) => handler, .. }`
pub fn select(ts: TokenStream) -> Option<TokenStream> {
    struct Arm { pat: syn::Pat, fut: syn::Expr, body: syn::Expr }
    struct Arms(Vec<Arm>);
    impl Parse for Arms {
        fn parse(inp: ParseStream) -> syn::Result<Self> {
            let mut v = vec![];
            if inp.peek(syn::Ident) && inp.peek2(syn::Token![;]) { let i: syn::Ident = inp.parse()?; if i != "biased" { return Err(inp.error("not biased")); } inp.parse::<syn::Token![;]>()?; }
            while !inp.is_empty() {
                let pat = syn::Pat::parse_multi_with_leading_vert(inp)?;
                inp.parse::<syn::Token![=]>()?;
                let fut: syn::Expr = inp.parse()?;
                inp.parse::<syn::Token![=>]>()?;
                let body: syn::Expr = if inp.peek(syn::token::Brace) { syn::Expr::Block(inp.parse()?) } else { inp.parse()? };
                if !inp.is_empty() && inp.peek(syn::Token![,]) { inp.parse::<syn::Token![,]>()?; }
                v.push(Arm { pat, fut, body });
            }
            Ok(Arms(v))
        }
    }
    let arms = syn::parse2::<Arms>(ts).ok()?.0;
    // each one a future that already exists: naming it starts nothing
    let named = |e: &syn::Expr| match e { syn::Expr::Path(_) => true, syn::Expr::Reference(r) => matches!(&*r.expr, syn::Expr::Path(_)), _ => false };
    if arms.is_empty() || !arms.iter().all(|a| named(&a.fut)) { return None; }
    let (f, ty) = (quote::format_ident!("vx_select{}", arms.len()), quote::format_ident!("VxSel{}", arms.len()));
    let futs: Vec<_> = arms.iter().map(|a| &a.fut).collect();
    let cases: Vec<_> = arms.iter().enumerate().map(|(i, a)| { let v = quote::format_ident!("S{}", i); let (p, b) = (&a.pat, &a.body); quote::quote!(#ty::#v(#p) => #b) }).collect();
    Some(quote::quote!(match #f(#(#futs),*) { #(#cases),* }))
}
