//! Token printer with placeholders for contract text.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
    pub raws: &'a [String],
    pub out: String,
    need_space: bool,
}
impl<'a> Printer<'a> {
    pub fn new(raws: &'a [String]) -> Self {
        Printer { raws, out: String::new(), need_space: false }
    }
    fn word(&mut self, s: &str) {
        if self.need_space {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.need_space = true;
    }
    fn nl(&mut self) {
        self.out.push('\n');
        self.need_space = false;
    }
    pub fn stream(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    if (s == "__vx_raw" || s == "__vx_clo") && i + 2 < v.len() {
                        if let TokenTree::Group(g) = &v[i + 2] {
                            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                            let n: usize = inner[0].to_string().parse().unwrap();
                            self.nl();
                            let t = self.raws[n].clone();
                            self.out.push_str(&t);
                            self.nl();
                            if s == "__vx_clo" {
                                let rest: TokenStream = inner[2..].iter().cloned().collect();
                                self.stream(rest);
                            }
                            i += 3;
                            if s == "__vx_raw" && i < v.len() {
                                if let TokenTree::Punct(p) = &v[i] {
                                    if p.as_char() == ';' {
                                        i += 1;
                                    }
                                }
                            }
                            continue;
                        }
                    }
                    self.word(&s);
                }
                TokenTree::Literal(l) => self.word(&l.to_string()),
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if c == '\'' {
                        // lifetime
                        if self.need_space {
                            self.out.push(' ');
                        }
                        self.out.push('\'');
                        self.need_space = false;
                    } else {
                        self.word(&c.to_string());
                        if p.spacing() == Spacing::Joint {
                            self.need_space = false;
                        }
                        if c == ';' || c == ',' {
                            self.nl();
                        }
                    }
                }
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    let mut inner = g.stream();
                    if g.delimiter() == Delimiter::Brace {
                        let iv: Vec<TokenTree> = inner.clone().into_iter().collect();
                        if let Some(TokenTree::Ident(id)) = iv.first() {
                            if id == "__vx_inv" {
                                if let TokenTree::Group(gg) = &iv[2] {
                                    let n: usize = gg.stream().to_string().parse().unwrap();
                                    self.nl();
                                    let t = self.raws[n].clone();
                                    self.out.push_str(&t);
                                    self.nl();
                                    inner = iv[4..].iter().cloned().collect();
                                }
                            }
                        }
                    }
                    self.word(o);
                    if o == "{" {
                        self.nl();
                    } else {
                        self.need_space = false;
                    }
                    self.stream(inner);
                    if o == "{" {
                        self.nl();
                    }
                    self.need_space = false;
                    self.word(c);
                    if o == "{" {
                        self.nl();
                    }
                }
            }
            i += 1;
        }
    }
}
