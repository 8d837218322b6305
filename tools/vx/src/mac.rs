//! expansion of the macros that a file defines for itself with `macro_rules!`
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::collections::HashMap;

enum Pat {
    Frag(String, String),
    Rep(Vec<Pat>, Option<String>, char),
    Group(Delimiter, Vec<Pat>),
    Tok(String),
}
#[derive(Clone)]
enum Bind {
    One(Vec<TokenTree>),
    Many(Vec<HashMap<String, Bind>>),
}
type Binds = HashMap<String, Bind>;

fn parse_pat(ts: TokenStream) -> Option<Vec<Pat>> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match v.get(i + 1)? {
                TokenTree::Ident(n) => {
                    let TokenTree::Ident(k) = v.get(i + 3)? else { return None };
                    out.push(Pat::Frag(n.to_string(), k.to_string()));
                    i += 4;
                }
                TokenTree::Group(g) => {
                    let mut j = i + 2;
                    let mut sep = None;
                    loop {
                        let t = v.get(j)?.to_string();
                        if t == "*" || t == "+" || t == "?" {
                            break;
                        }
                        sep = Some(format!("{}{t}", sep.unwrap_or_default()));
                        j += 1;
                    }
                    out.push(Pat::Rep(parse_pat(g.stream())?, sep, v[j].to_string().chars().next()?));
                    i = j + 1;
                }
                _ => return None,
            },
            TokenTree::Group(g) => {
                out.push(Pat::Group(g.delimiter(), parse_pat(g.stream())?));
                i += 1
            }
            t => {
                out.push(Pat::Tok(t.to_string()));
                i += 1
            }
        }
    }
    Some(out)
}

fn matches(pats: &[Pat], v: &[TokenTree], at: &mut usize, b: &mut Binds) -> Option<()> {
    for (pi, p) in pats.iter().enumerate() {
        match p {
            Pat::Tok(t) => {
                if v.get(*at)?.to_string() != *t {
                    return None;
                }
                *at += 1;
            }
            Pat::Group(d, ps) => {
                let TokenTree::Group(g) = v.get(*at)? else { return None };
                if g.delimiter() != *d {
                    return None;
                }
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                let mut k = 0;
                matches(ps, &inner, &mut k, b)?;
                if k != inner.len() {
                    return None;
                }
                *at += 1;
            }
            Pat::Frag(n, k) => {
                let t = v.get(*at)?;
                let got = match k.as_str() {
                    "ident" => {
                        let TokenTree::Ident(_) = t else { return None };
                        *at += 1;
                        vec![t.clone()]
                    }
                    "literal" => {
                        let TokenTree::Literal(_) = t else { return None };
                        *at += 1;
                        vec![t.clone()]
                    }
                    "tt" | "block" => {
                        *at += 1;
                        vec![t.clone()]
                    }
                    "expr" | "ty" | "path" | "pat" => {
                        // up to the token that follows in the pattern, a separator or the end
                        let stop = match pats.get(pi + 1) {
                            Some(Pat::Tok(t)) => t.clone(),
                            _ => ",".into(),
                        };
                        let mut got = vec![];
                        let mut angle = 0i32;
                        while let Some(t) = v.get(*at) {
                            let s = t.to_string();
                            if angle <= 0 && (s == stop || s == "," || s == ";") {
                                break;
                            }
                            if k != "expr" {
                                angle += (s == "<") as i32 - (s == ">") as i32;
                            }
                            got.push(t.clone());
                            *at += 1;
                        }
                        if got.is_empty() {
                            return None;
                        }
                        got
                    }
                    _ => return None,
                };
                b.insert(n.clone(), Bind::One(got));
            }
            Pat::Rep(ps, sep, op) => {
                let mut all = vec![];
                loop {
                    let mut k = *at;
                    if !all.is_empty() {
                        if let Some(s) = sep {
                            let mut seen = String::new();
                            while seen.len() < s.len() {
                                match v.get(k) {
                                    Some(t) => seen.push_str(&t.to_string()),
                                    None => break,
                                }
                                k += 1;
                            }
                            if seen != *s {
                                break;
                            }
                        }
                    }
                    let mut one = Binds::new();
                    if k >= v.len() || matches(ps, v, &mut k, &mut one).is_none() {
                        break;
                    }
                    *at = k;
                    all.push(one);
                    if *op == '?' {
                        break;
                    }
                }
                if *op == '+' && all.is_empty() {
                    return None;
                }
                fn names(ps: &[Pat], out: &mut Vec<String>) {
                    for p in ps {
                        match p {
                            Pat::Frag(n, _) => out.push(n.clone()),
                            Pat::Rep(q, _, _) | Pat::Group(_, q) => names(q, out),
                            _ => {}
                        }
                    }
                }
                let mut ns = vec![];
                names(ps, &mut ns);
                for n in ns {
                    b.insert(n, Bind::Many(all.clone()));
                }
            }
        }
    }
    Some(())
}

/// tokens as text; tokens that touch in the source touch in the text
struct Out {
    s: String,
    end: usize,
}
impl Out {
    fn leaf(&mut self, t: &str, span: proc_macro2::Span) {
        let r = span.byte_range();
        if r.start != self.end || r.start == r.end {
            self.s.push(' ');
        }
        self.s.push_str(t);
        self.end = r.end;
    }
    fn tree(&mut self, t: &TokenTree) {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                self.leaf(o, g.span_open());
                for x in g.stream() {
                    self.tree(&x);
                }
                self.leaf(c, g.span_close());
            }
            t => self.leaf(&t.to_string(), t.span()),
        }
    }
}

fn transcribe(ts: TokenStream, b: &Binds, out: &mut Out) -> Option<()> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match v.get(i + 1)? {
                TokenTree::Ident(n) => {
                    let Bind::One(t) = b.get(&n.to_string())? else { return None };
                    out.end = usize::MAX;
                    for x in t {
                        out.tree(x);
                    }
                    out.end = usize::MAX;
                    i += 2;
                }
                TokenTree::Group(g) => {
                    let mut j = i + 2;
                    let mut sep = String::new();
                    loop {
                        let t = v.get(j)?.to_string();
                        if t == "*" || t == "+" || t == "?" {
                            break;
                        }
                        sep.push_str(&t);
                        j += 1;
                    }
                    // the repetition that binds a variable used in here
                    fn used(ts: TokenStream, out: &mut Vec<String>) {
                        let v: Vec<TokenTree> = ts.into_iter().collect();
                        for (k, t) in v.iter().enumerate() {
                            match t {
                                TokenTree::Group(g) => used(g.stream(), out),
                                TokenTree::Punct(p) if p.as_char() == '$' => {
                                    if let Some(TokenTree::Ident(n)) = v.get(k + 1) {
                                        out.push(n.to_string())
                                    }
                                }
                                _ => {}
                            }
                        }
                    }
                    let mut ns = vec![];
                    used(g.stream(), &mut ns);
                    let all = ns.iter().find_map(|n| match b.get(n) {
                        Some(Bind::Many(a)) => Some(a.clone()),
                        _ => None,
                    })?;
                    for (k, one) in all.iter().enumerate() {
                        if k > 0 {
                            out.s.push_str(&sep);
                        }
                        let mut b2 = b.clone();
                        b2.extend(one.clone());
                        transcribe(g.stream(), &b2, out)?;
                    }
                    i = j + 1;
                }
                _ => return None,
            },
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                out.leaf(o, g.span_open());
                transcribe(g.stream(), b, out)?;
                out.leaf(c, g.span_close());
                i += 1;
            }
            t => {
                out.tree(t);
                i += 1;
            }
        }
    }
    Some(())
}

/// the text an invocation of `rules` (the tokens of a `macro_rules!` body) with `input` stands for
pub fn expand(rules: TokenStream, input: TokenStream) -> Option<String> {
    let v: Vec<TokenTree> = rules.into_iter().collect();
    let input: Vec<TokenTree> = input.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        let TokenTree::Group(pat) = &v[i] else { return None };
        let TokenTree::Group(body) = v.get(i + 3)? else { return None };
        i += 4;
        if let Some(TokenTree::Punct(p)) = v.get(i) {
            if p.as_char() == ';' {
                i += 1
            }
        }
        let pats = parse_pat(pat.stream())?;
        let mut b = Binds::new();
        let mut at = 0;
        let mut inp = input.clone();
        // a trailing comma is not significant here
        if matches!(inp.last(), Some(TokenTree::Punct(p)) if p.as_char() == ',') {
            inp.pop();
        }
        if matches(&pats, &inp, &mut at, &mut b).is_some() && at == inp.len() {
            let mut out = Out { s: String::new(), end: usize::MAX };
            transcribe(body.stream(), &b, &mut out)?;
            return Some(out.s);
        }
    }
    None
}
