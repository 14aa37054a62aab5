//! Prints a token stream as readable Rust, expanding the `__txt!`/`__head!` markers.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::HashMap;

pub struct Printer<'a> {
    pub txt: &'a HashMap<usize, String>,
    pub out: String,
    indent: usize,
    bol: bool,
    glue: bool,
}

impl<'a> Printer<'a> {
    pub fn new(txt: &'a HashMap<usize, String>, indent: usize) -> Self {
        Printer { txt, out: String::new(), indent, bol: true, glue: true }
    }

    fn nl(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
        if !self.out.ends_with('\n') {
            self.out.push('\n');
        }
        self.bol = true;
        self.glue = true;
    }

    fn word(&mut self, s: &str, space_before: bool) {
        if self.bol {
            for _ in 0..self.indent {
                self.out.push_str("    ");
            }
            self.bol = false;
        } else if space_before && !self.glue {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.glue = false;
    }

    pub fn raw_lines(&mut self, text: &str) {
        self.nl();
        for l in text.lines() {
            for _ in 0..self.indent {
                self.out.push_str("    ");
            }
            self.out.push_str(l.trim_end());
            self.out.push('\n');
        }
        self.bol = true;
        self.glue = true;
    }

    fn marker(tts: &[TokenTree], i: usize, name: &str) -> Option<usize> {
        if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) =
            (tts.get(i), tts.get(i + 1), tts.get(i + 2))
        {
            if id == name && p.as_char() == '!' {
                return g.stream().to_string().trim().parse().ok();
            }
        }
        None
    }

    pub fn stream(&mut self, ts: TokenStream, in_block: bool) {
        let tts: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        let mut prev_joint = false;
        while i < tts.len() {
            if let Some(n) = Self::marker(&tts, i, "__txt") {
                let t = self.txt[&n].clone();
                let stmt = matches!(tts.get(i + 3), Some(TokenTree::Punct(p)) if p.as_char() == ';');
                if stmt && in_block {
                    self.raw_lines(&t);
                    i += 4;
                } else {
                    // expression position
                    self.word("", true);
                    self.out.push_str(&t);
                    i += 3;
                }
                prev_joint = false;
                continue;
            }
            match &tts[i] {
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    self.word(&s, !prev_joint);
                    prev_joint = false;
                }
                TokenTree::Literal(l) => {
                    self.word(&l.to_string(), !prev_joint);
                    prev_joint = false;
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    match c {
                        ';' => {
                            self.word(";", false);
                            if in_block {
                                self.nl();
                            }
                            prev_joint = false;
                        }
                        ',' => {
                            self.word(",", false);
                            prev_joint = false;
                            if in_block {
                                self.nl();
                            }
                        }
                        '.' | '?' => {
                            self.word(&c.to_string(), c == '.' && prev_joint);
                            self.glue = c == '.';
                            prev_joint = false;
                        }
                        '\'' => {
                            self.word("'", true);
                            self.glue = true;
                            prev_joint = true;
                        }
                        '&' | '!' | '*' | '#' => {
                            self.word(&c.to_string(), !prev_joint);
                            if p.spacing() == Spacing::Joint {
                                self.glue = true;
                            } else if c == '!' || c == '&' || c == '#' {
                                self.glue = true;
                            }
                            prev_joint = p.spacing() == Spacing::Joint;
                        }
                        ':' => {
                            // `::` glued, `:` followed by a space
                            if p.spacing() == Spacing::Joint
                                && matches!(tts.get(i + 1), Some(TokenTree::Punct(q)) if q.as_char() == ':')
                            {
                                self.word("::", false);
                                self.glue = true;
                                i += 2;
                                prev_joint = false;
                                continue;
                            }
                            self.word(":", false);
                            prev_joint = false;
                        }
                        _ => {
                            self.word(&c.to_string(), !prev_joint);
                            prev_joint = p.spacing() == Spacing::Joint;
                            if prev_joint {
                                self.glue = true;
                            }
                        }
                    }
                }
                TokenTree::Group(g) => {
                    match g.delimiter() {
                        Delimiter::Parenthesis | Delimiter::Bracket => {
                            let (o, c) = if g.delimiter() == Delimiter::Parenthesis { ("(", ")") } else { ("[", "]") };
                            let after_ident = i > 0 && matches!(&tts[i - 1], TokenTree::Ident(id) if !is_kw(&id.to_string()))
                                || i > 0 && matches!(&tts[i - 1], TokenTree::Group(_))
                                || i > 0 && matches!(&tts[i - 1], TokenTree::Punct(p) if ">".contains(p.as_char()));
                            self.word(o, !after_ident);
                            self.glue = true;
                            self.stream(g.stream(), false);
                            self.word(c, false);
                        }
                        Delimiter::Brace => {
                            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                            let mut skip = 0;
                            if let Some(n) = Self::marker(&inner, 0, "__head") {
                                let t = self.txt[&n].clone();
                                self.indent += 1;
                                self.raw_lines(&t);
                                self.indent -= 1;
                                skip = 4;
                            }
                            self.word("{", true);
                            let rest: TokenStream = inner.into_iter().skip(skip).collect();
                            if rest.is_empty() {
                                self.word("}", false);
                            } else {
                                self.indent += 1;
                                self.nl();
                                self.stream(rest, true);
                                self.indent -= 1;
                                self.nl();
                                self.word("}", false);
                            }
                            // newline after a block unless followed by else / . / , / ; / )
                            let cont = match tts.get(i + 1) {
                                Some(TokenTree::Ident(id)) => id == "else",
                                Some(TokenTree::Punct(p)) => !"#&*".contains(p.as_char()),
                                None => true,
                                _ => false,
                            };
                            if in_block && !cont {
                                self.nl();
                            }
                        }
                        Delimiter::None => {
                            self.stream(g.stream(), in_block);
                        }
                    }
                    prev_joint = false;
                }
            }
            i += 1;
        }
    }
}

fn is_kw(s: &str) -> bool {
    matches!(s, "in" | "if" | "match" | "while" | "return" | "let" | "mut" | "else" | "for" | "as" | "move" | "where")
}

pub fn print(ts: TokenStream, txt: &HashMap<usize, String>, indent: usize, in_block: bool) -> String {
    let mut p = Printer::new(txt, indent);
    p.stream(ts, in_block);
    p.out
}
