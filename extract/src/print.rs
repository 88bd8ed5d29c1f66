//! Token printer: one statement per line, splices the contract texts in at the markers.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> { pub out: String, pub indent: usize, pub texts: &'a [String], joint: bool, nl: bool }

impl<'a> Printer<'a> {
    pub fn new(texts: &'a [String]) -> Self { Printer { out: String::new(), indent: 0, texts, joint: false, nl: true } }
    fn newline(&mut self) { if !self.nl { self.out.push('\n'); } self.nl = true; self.joint = false; }
    fn word(&mut self, s: &str) {
        if self.nl { for _ in 0..self.indent { self.out.push_str("    "); } self.nl = false; }
        else if !self.joint { self.out.push(' '); }
        self.out.push_str(s);
        self.joint = false;
    }
    fn raw(&mut self, s: &str) {
        self.newline();
        self.out.push_str(s);
        if !s.ends_with('\n') { self.out.push('\n'); }
        self.nl = true;
    }
    fn text(&mut self, n: usize) { let t = self.texts[n].clone(); if !t.trim().is_empty() { self.raw(&t); } }
    pub fn ts(&mut self, ts: TokenStream) {
        let t: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < t.len() {
            // ghost statement marker:  __VX_GHOST ! ( N ) ;
            if let TokenTree::Ident(id) = &t[i] {
                if id == "__VX_GHOST" {
                    if let Some(TokenTree::Group(g)) = t.get(i + 2) {
                        let n: usize = g.stream().to_string().trim().parse().unwrap();
                        self.text(n);
                        i += 3;
                        if let Some(TokenTree::Punct(p)) = t.get(i) { if p.as_char() == ';' { i += 1; } }
                        continue;
                    }
                }
            }
            match &t[i] {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    match g.delimiter() {
                        Delimiter::Brace => {
                            // spec marker as the first statement
                            let mut rest = g.stream();
                            if let (Some(TokenTree::Ident(id)), Some(TokenTree::Group(a))) = (inner.first(), inner.get(2)) {
                                if id == "__VX_SPEC" {
                                    let n: usize = a.stream().to_string().trim().parse().unwrap();
                                    self.text(n);
                                    rest = inner[4..].iter().cloned().collect();
                                }
                            }
                            self.word("{");
                            self.indent += 1;
                            self.newline();
                            self.ts(rest);
                            self.newline();
                            self.indent -= 1;
                            self.word("}");
                            // keep `else`, `)`, `,`, `.`, `;` and the like on the line; otherwise break
                            match t.get(i + 1) {
                                Some(TokenTree::Ident(x)) if x == "else" => {}
                                Some(TokenTree::Punct(_)) | None => {}
                                _ => self.newline(),
                            }
                        }
                        d => {
                            let (o, c) = match d { Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), _ => ("", "") };
                            if !o.is_empty() { self.word(o); }
                            self.ts(g.stream());
                            if !c.is_empty() { self.word(c); }
                        }
                    }
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    self.word(&c.to_string());
                    if p.spacing() == Spacing::Joint || c == '\'' { self.joint = true; }
                    if c == ';' || (c == ',' && false) { self.newline(); }
                }
                TokenTree::Ident(x) if x.to_string().starts_with("__vx_txt_") => { let n: usize = x.to_string()[9..].parse().unwrap(); let t = self.texts[n].clone(); self.word(&t); }
                x => self.word(&x.to_string()),
            }
            i += 1;
        }
    }
}
