//! vx: mechanical extraction of functions from /repo into a Verus file.
//!
//! usage: vx TEMPLATE REPO OUT.rs OUT.json
//!
//! The template is a Verus file whose lines starting with `//@` are directives; everything else is
//! copied. The text of every function/type that comes from the repository is taken from the
//! repository's current source by byte range; vx only inserts ghost text (contracts, invariants,
//! proof blocks) and applies the rewrites the template lists, each of which is reported.
mod mac;
use proc_macro2::Span;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::HashMap;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

fn die(kind: &str, msg: String) -> ! {
    // exit 3: the code no longer has the shape the contracts are anchored to
    println!("{}", json!({"vx_error": kind, "message": msg}));
    std::process::exit(3)
}

struct Src {
    text: String,
    file: syn::File,
}

enum Found<'a> {
    Item(&'a syn::Item),
    ImplFn(&'a syn::ItemImpl, &'a syn::ImplItemFn),
    TraitFn(&'a syn::ItemTrait, &'a syn::TraitItemFn),
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// not part of the code that is compiled here (Linux, no tests, no verification hooks)
fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| match &a.meta {
        syn::Meta::List(l) if l.path.is_ident("cfg") => match l.parse_args::<syn::Meta>() {
            Ok(m) => !cfg_holds(&m),
            Err(_) => false,
        },
        _ => false,
    })
}

fn cfg_holds(m: &syn::Meta) -> bool {
    let parts = |l: &syn::MetaList| {
        l.parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated)
            .map(|p| p.into_iter().collect::<Vec<_>>())
            .unwrap_or_default()
    };
    match m {
        syn::Meta::Path(p) => !["test", "windows", "kani", "stronghold_verif"].iter().any(|n| p.is_ident(n)),
        syn::Meta::List(l) if l.path.is_ident("not") => !parts(l).iter().all(cfg_holds),
        syn::Meta::List(l) if l.path.is_ident("any") => parts(l).iter().any(cfg_holds),
        syn::Meta::List(l) => parts(l).iter().all(cfg_holds),
        syn::Meta::NameValue(v) => {
            let n = norm(&v.to_token_stream().to_string());
            if n == "feature=\"insecure\"" {
                return false; // not a default feature
            }
            !n.starts_with("target_") || ["\"linux\"", "\"x86_64\"", "\"64\"", "\"unix\"", "\"little\""].iter().any(|x| n.ends_with(x))
        }
    }
}

fn walk_items<'a>(items: &'a [syn::Item], f: &mut dyn FnMut(&'a syn::Item)) {
    for i in items {
        match i {
            syn::Item::Mod(m) => {
                if is_cfg_test(&m.attrs) {
                    continue;
                }
                if let Some((_, its)) = &m.content {
                    walk_items(its, f);
                }
            }
            _ => {}
        }
        f(i);
    }
}

/// selector of an impl: `Type` or `Trait for Type` (generics ignored unless given)
fn impl_matches(im: &syn::ItemImpl, sel: &str) -> bool {
    let ty = norm(&im.self_ty.to_token_stream().to_string());
    let ty_base = ty.split('<').next().unwrap().to_string();
    let (tr, want_ty) = match sel.split_once(" for ") {
        Some((t, y)) => (Some(norm(t)), norm(y)),
        None => (None, norm(sel)),
    };
    let ty_ok = ty == want_ty || ty_base == want_ty;
    if !ty_ok {
        return false;
    }
    match (&im.trait_, tr) {
        (None, None) => true,
        (Some((_, p, _)), Some(t)) => {
            let full = norm(&p.to_token_stream().to_string());
            let base = full.split('<').next().unwrap().to_string();
            full == t || base == t
        }
        _ => false,
    }
}

fn find_fn<'a>(src: &'a Src, sel: &str) -> Option<Found<'a>> {
    // `name` | `Type::name` | `Trait for Type::name` | `trait Trait::name`
    let mut res = None;
    if let Some(idx) = sel.rfind("::") {
        let (imp, name) = (&sel[..idx], &sel[idx + 2..]);
        if let Some(tr) = imp.strip_prefix("trait ") {
            walk_items(&src.file.items, &mut |i| {
                if let syn::Item::Trait(t) = i {
                    if t.ident == tr.trim() {
                        for ti in &t.items {
                            if let syn::TraitItem::Fn(f) = ti {
                                if f.sig.ident == name {
                                    res = Some(Found::TraitFn(t, f));
                                }
                            }
                        }
                    }
                }
            });
            return res;
        }
        walk_items(&src.file.items, &mut |i| {
            if let syn::Item::Impl(im) = i {
                if impl_matches(im, imp) && !is_cfg_test(&im.attrs) {
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            if f.sig.ident == name && !is_cfg_test(&f.attrs) {
                                res = Some(Found::ImplFn(im, f));
                            }
                        }
                    }
                }
            }
        });
    } else {
        walk_items(&src.file.items, &mut |i| {
            if let syn::Item::Fn(f) = i {
                if f.sig.ident == sel && !is_cfg_test(&f.attrs) {
                    res = Some(Found::Item(i));
                }
            }
        });
    }
    res
}

#[derive(Clone)]
struct LoopInfo {
    kind: &'static str,
    whole: std::ops::Range<usize>,
    body_open: usize,  // offset of `{`
    body_close: usize, // offset of `}`
    pat: Option<std::ops::Range<usize>>,
    pat_text: String,
    expr_start: usize,
}

struct LoopFinder<'t> {
    loops: Vec<LoopInfo>,
    _t: &'t str,
}
fn r(s: Span) -> std::ops::Range<usize> {
    s.byte_range()
}
impl<'ast, 't> Visit<'ast> for LoopFinder<'t> {
    fn visit_expr_while(&mut self, n: &'ast syn::ExprWhile) {
        self.loops.push(LoopInfo {
            kind: "while",
            whole: r(n.span()),
            body_open: r(n.body.brace_token.span.open()).start,
            body_close: r(n.body.brace_token.span.close()).start,
            pat: None,
            pat_text: String::new(),
            expr_start: r(n.cond.span()).start,
        });
        visit::visit_expr_while(self, n)
    }
    fn visit_expr_loop(&mut self, n: &'ast syn::ExprLoop) {
        self.loops.push(LoopInfo {
            kind: "loop",
            whole: r(n.span()),
            body_open: r(n.body.brace_token.span.open()).start,
            body_close: r(n.body.brace_token.span.close()).start,
            pat: None,
            pat_text: String::new(),
            expr_start: 0,
        });
        visit::visit_expr_loop(self, n)
    }
    fn visit_expr_for_loop(&mut self, n: &'ast syn::ExprForLoop) {
        self.loops.push(LoopInfo {
            kind: "for",
            whole: r(n.span()),
            body_open: r(n.body.brace_token.span.open()).start,
            body_close: r(n.body.brace_token.span.close()).start,
            pat: Some(r(n.pat.span())),
            pat_text: n.pat.to_token_stream().to_string(),
            expr_start: r(n.expr.span()).start,
        });
        visit::visit_expr_for_loop(self, n)
    }
}

struct StmtFinder {
    stmts: Vec<std::ops::Range<usize>>,
    is_local: Vec<bool>,
}
impl<'ast> Visit<'ast> for StmtFinder {
    fn visit_stmt(&mut self, n: &'ast syn::Stmt) {
        self.stmts.push(r(n.span()));
        self.is_local.push(matches!(n, syn::Stmt::Local(_)));
        visit::visit_stmt(self, n)
    }
}

// attributes (incl. doc comments) inside an item, to be dropped
struct AttrFinder {
    ranges: Vec<std::ops::Range<usize>>,
    off: Vec<std::ops::Range<usize>>, // elements that are not compiled here
}
impl<'ast> Visit<'ast> for AttrFinder {
    fn visit_attribute(&mut self, n: &'ast syn::Attribute) {
        if is_cfg_test(std::slice::from_ref(n)) {
            die("cfg", format!("conditional code inside an extracted item: {}", norm(&n.to_token_stream().to_string())));
        }
        self.ranges.push(r(n.span()));
    }
    fn visit_field(&mut self, n: &'ast syn::Field) {
        if is_cfg_test(&n.attrs) {
            self.off.push(r(n.span()));
        } else {
            visit::visit_field(self, n)
        }
    }
    fn visit_variant(&mut self, n: &'ast syn::Variant) {
        if is_cfg_test(&n.attrs) {
            self.off.push(r(n.span()));
        } else {
            visit::visit_variant(self, n)
        }
    }
    fn visit_arm(&mut self, n: &'ast syn::Arm) {
        if is_cfg_test(&n.attrs) {
            self.off.push(r(n.span()));
        } else {
            visit::visit_arm(self, n)
        }
    }
}
/// the range of an element of a list together with the comma that follows it
fn with_comma(text: &str, a: std::ops::Range<usize>) -> std::ops::Range<usize> {
    let rest = &text[a.end..];
    let ws = rest.len() - rest.trim_start().len();
    if rest[ws..].starts_with(',') { a.start..a.end + ws + 1 } else { a }
}

// macro statements to be dropped: logging and debug assertions
const DROP_MACROS: &[&str] = &["debug_assert", "info", "error", "warn", "debug", "trace", "println"];
struct MacFinder {
    ranges: Vec<(std::ops::Range<usize>, String)>,
}
impl<'ast> Visit<'ast> for MacFinder {
    fn visit_stmt(&mut self, n: &'ast syn::Stmt) {
        if let syn::Stmt::Macro(m) = n {
            let last = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if DROP_MACROS.contains(&last.as_str()) {
                self.ranges.push((r(n.span()), last));
                return;
            }
        }
        visit::visit_stmt(self, n)
    }
}

#[derive(Default)]
struct FnSpec {
    ret: Option<String>,
    sig: String,
    start: String,
    tail: Option<String>,
    loops: HashMap<usize, (Option<String>, String)>, // kind expectation, invariants
    loopvar: HashMap<usize, String>,
    loopiter: HashMap<usize, String>,
    forwhile: HashMap<usize, String>,
    loopstart: HashMap<usize, String>,
    loopend: HashMap<usize, String>,
    before: HashMap<usize, String>,
    after: HashMap<usize, String>,
    at: Vec<(String, usize, bool, bool, String)>, // pattern, nth, before?, optional, text
    replace: Vec<(String, String, bool)>,         // from, to, must
    rx: Vec<(String, String, bool)>,              // regex, to, must
    nloops: Option<usize>,
    vis_drop: bool,
    attrs: String,
    rename: Option<String>,
    sigonly: bool,
    closures: HashMap<usize, String>, // n-th closure: its contract `-> (r: T) ensures ..`
}

/// is the expression one the verifier also reads as a specification?
fn pure(e: &syn::Expr, purefns: &[String]) -> bool {
    use syn::Expr::*;
    match e {
        Path(_) => true,
        Lit(l) => !matches!(l.lit, syn::Lit::Int(ref i) if i.suffix().is_empty()) && !matches!(l.lit, syn::Lit::Str(_)),
        Field(f) => pure(&f.base, purefns),
        Reference(x) => x.mutability.is_none() && pure(&x.expr, purefns),
        Unary(u) => pure(&u.expr, purefns),
        Paren(x) => pure(&x.expr, purefns),
        Tuple(t) => t.elems.iter().all(|x| pure(x, purefns)),
        Binary(b) => pure(&b.left, purefns) && pure(&b.right, purefns),
        Call(c) => match &*c.func {
            Path(p) => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                (n.chars().next().unwrap().is_uppercase() || purefns.contains(&n)) && c.args.iter().all(|x| pure(x, purefns))
            }
            _ => false,
        },
        MethodCall(m) => {
            let n = m.method.to_string();
            (["is_some", "is_none", "len"].contains(&n.as_str()) || purefns.contains(&n))
                && pure(&m.receiver, purefns)
                && m.args.iter().all(|x| pure(x, purefns))
        }
        Struct(s) => s.rest.is_none() && s.fields.iter().all(|f| pure(&f.expr, purefns)),
        Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            syn::Stmt::Expr(e, None) => pure(e, purefns),
            _ => false,
        },
        _ => false,
    }
}

/// `&x` inside a pattern is not supported by the verifier: (pattern without it, the lets that undo it)
fn lower_pat(p: &syn::Pat, text: &str) -> (String, String) {
    let lets = std::cell::RefCell::new(String::new());
    fn go(p: &syn::Pat, text: &str, lets: &std::cell::RefCell<String>) -> String {
        match p {
            syn::Pat::Reference(x) => {
                if let syn::Pat::Ident(i) = &*x.pat {
                    lets.borrow_mut().push_str(&format!("let {} = *vx_q_{}; ", i.ident, i.ident));
                    format!("vx_q_{}", i.ident)
                } else {
                    text[r(p.span())].to_string()
                }
            }
            syn::Pat::Tuple(t) => {
                let e: Vec<String> = t.elems.iter().map(|x| go(x, text, lets)).collect();
                format!("({})", e.join(", "))
            }
            syn::Pat::Paren(x) => go(&x.pat, text, lets),
            _ => text[r(p.span())].to_string(),
        }
    }
    let s = go(p, text, &lets);
    (s, lets.into_inner())
}

struct ClosureFinder<'t> {
    n: usize,
    text: &'t str,
    purefns: &'t [String],
    given: &'t HashMap<usize, String>,
    edits: Vec<(usize, usize, String)>,
    notes: Vec<String>,
}
impl<'ast, 't> Visit<'ast> for ClosureFinder<'t> {
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let k = self.n;
        self.n += 1;
        let b = r(c.body.span());
        let after = r(c.or2_token.span()).end;
        let is_block = matches!(&*c.body, syn::Expr::Block(_));
        // patterns in the parameters become lets
        let mut lets = String::new(); // exec
        let mut smatch: Vec<(String, String, String)> = vec![]; // spec: (scrutinee, pattern, lets)
        for (i, inp) in c.inputs.iter().enumerate() {
            let pat = match inp {
                syn::Pat::Type(t) => &*t.pat,
                p => p,
            };
            if matches!(pat, syn::Pat::Ident(_)) {
                continue;
            }
            if matches!(pat, syn::Pat::Wild(_)) {
                let g = r(pat.span());
                self.edits.push((g.start, g.end, format!("vx_p{i}")));
                continue;
            }
            let (p2, l2) = lower_pat(pat, self.text);
            let v = format!("vx_p{i}");
            let g = r(pat.span());
            self.edits.push((g.start, g.end, v.clone()));
            lets.push_str(&format!("let {p2} = {v}; {l2}"));
            smatch.push((v, p2, l2));
        }
        let (o, cl) = if is_block && lets.is_empty() { (String::new(), "") } else { (format!("{{ {lets}"), " }") };
        if let Some(g) = self.given.get(&k) {
            let end = match &c.output {
                syn::ReturnType::Default => after,
                syn::ReturnType::Type(_, t) => r(t.span()).end,
            };
            self.edits.push((after, end, format!(" {}", g.trim_end())));
            self.edits.push((b.start, b.start, format!(" {o}")));
            self.edits.push((b.end, b.end, cl.into()));
            self.notes.push(format!("contract given to closure {k}"));
        } else if matches!(c.output, syn::ReturnType::Default) && pure(&c.body, self.purefns) {
            let body = &self.text[b.clone()];
            let inner = match &*c.body {
                syn::Expr::Block(x) => match &x.block.stmts[0] {
                    syn::Stmt::Expr(e, None) => &self.text[r(e.span())],
                    _ => body,
                },
                _ => body,
            };
            let mut sp = inner.to_string();
            for (v, p2, l2) in smatch.iter().rev() {
                sp = format!("match {v} {{ {p2} => {{ {l2}{sp} }} }}");
            }
            let (o, cl) = if is_block { (o.clone(), cl) } else { (format!("{{ {lets}"), " }") };
            self.edits.push((after, after, format!(" -> (vx_r: _) ensures vx_same(vx_r, {sp}) {o}")));
            self.edits.push((b.end, b.end, cl.into()));
            self.notes.push(format!("closure {k} given its own body as contract"));
        } else if !lets.is_empty() {
            self.edits.push((b.start, b.start, o));
            self.edits.push((b.end, b.end, cl.into()));
            self.notes.push(format!("closure {k}: parameter pattern turned into lets"));
        }
        visit::visit_expr_closure(self, c)
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let takes = ["map_err", "map", "and_then", "ok_or_else", "or_else"].contains(&m.method.to_string().as_str());
        if takes {
            if let Some(syn::Expr::Path(p)) = m.args.first() {
                let n = p.path.segments.last().unwrap().ident.to_string();
                if n.chars().next().unwrap().is_uppercase() {
                    let g = r(p.span());
                    let t = &self.text[g.clone()];
                    self.edits.push((g.start, g.end, format!("|vx_e| -> (vx_r: _) ensures vx_same(vx_r, {t}(vx_e)) {{ {t}(vx_e) }}")));
                    self.notes.push(format!("constructor {t} as a function: eta-expanded"));
                }
            }
        }
        visit::visit_expr_method_call(self, m)
    }
}

fn parse_quoted(s: &str) -> (String, &str) {
    let s = s.trim_start();
    if !s.starts_with('"') {
        die("template", format!("expected quoted string: {s}"));
    }
    let mut out = String::new();
    let mut esc = false;
    for (i, c) in s[1..].char_indices() {
        if esc {
            match c {
                '"' => out.push('"'),
                c => {
                    out.push('\\');
                    out.push(c)
                }
            }
            esc = false;
        } else if c == '\\' {
            esc = true;
        } else if c == '"' {
            return (out, &s[1 + i + 1..]);
        } else {
            out.push(c)
        }
    }
    die("template", format!("unterminated string: {s}"))
}

fn parse_spec(lines: &[&str]) -> FnSpec {
    let mut sp = FnSpec::default();
    enum Cur {
        None,
        Sig,
        Start,
        Tail,
        Loop(usize),
        LoopStart(usize),
        LoopEnd(usize),
        Before(usize),
        After(usize),
        At(usize),
        Closure(usize),
    }
    let mut cur = Cur::None;
    for l in lines {
        let t = l.trim_start();
        if let Some(d) = t.strip_prefix('@') {
            let (w, rest) = d.split_once(char::is_whitespace).unwrap_or((d, ""));
            let rest = rest.trim();
            let num = || rest.split_whitespace().next().unwrap_or("0").parse::<usize>().unwrap_or(0);
            cur = Cur::None;
            match w {
                "ret" => sp.ret = Some(rest.to_string()),
                "sig" => cur = Cur::Sig,
                "start" => cur = Cur::Start,
                "tail" => {
                    sp.tail = Some(String::new());
                    cur = Cur::Tail
                }
                "attr" => sp.attrs.push_str(&format!("{rest}\n")),
                "rename" => sp.rename = Some(rest.to_string()),
                "nloops" => sp.nloops = Some(num()),
                "loop" => {
                    let n = num();
                    let kind = rest.split_whitespace().nth(1).map(|s| s.to_string());
                    sp.loops.insert(n, (kind, String::new()));
                    cur = Cur::Loop(n)
                }
                "loopvar" => {
                    sp.loopvar.insert(num(), rest.split_whitespace().nth(1).unwrap().to_string());
                }
                "forwhile" => {
                    sp.forwhile.insert(num(), rest.split_whitespace().nth(1).unwrap().to_string());
                }
                "loopiter" => {
                    sp.loopiter.insert(num(), rest.split_whitespace().nth(1).unwrap().to_string());
                }
                "loopstart" => cur = Cur::LoopStart(num()),
                "loopend" => cur = Cur::LoopEnd(num()),
                "before" => cur = Cur::Before(num()),
                "after" => cur = Cur::After(num()),
                "at" => {
                    // @at before|after "pattern" [n] [opt]
                    let (ba, r2) = rest.split_once(char::is_whitespace).unwrap();
                    let (p, r3) = parse_quoted(r2);
                    let mut n = 0;
                    let mut opt = false;
                    for w in r3.split_whitespace() {
                        if w == "opt" {
                            opt = true
                        } else if let Ok(k) = w.parse() {
                            n = k
                        }
                    }
                    sp.at.push((p, n, ba == "before", opt, String::new()));
                    cur = Cur::At(sp.at.len() - 1)
                }
                "replace" => {
                    let (a, r2) = parse_quoted(rest);
                    let r2 = r2.trim_start().strip_prefix("=>").unwrap_or_else(|| die("template", l.to_string()));
                    let (b, r3) = parse_quoted(r2);
                    sp.replace.push((a, b, r3.contains("must")));
                }
                "rx" => {
                    let (a, r2) = parse_quoted(rest);
                    let r2 = r2.trim_start().strip_prefix("=>").unwrap_or_else(|| die("template", l.to_string()));
                    let (b, r3) = parse_quoted(r2);
                    sp.rx.push((a, b, r3.contains("must")));
                }
                "closure" => {
                    sp.closures.insert(num(), String::new());
                    cur = Cur::Closure(num())
                }
                "novis" => sp.vis_drop = true,
                "sigonly" => sp.sigonly = true,
                _ => die("template", format!("unknown section {l}")),
            }
            continue;
        }
        let tgt = match cur {
            Cur::None => continue,
            Cur::Sig => &mut sp.sig,
            Cur::Start => &mut sp.start,
            Cur::Tail => sp.tail.as_mut().unwrap(),
            Cur::Loop(n) => &mut sp.loops.get_mut(&n).unwrap().1,
            Cur::LoopStart(n) => sp.loopstart.entry(n).or_default(),
            Cur::LoopEnd(n) => sp.loopend.entry(n).or_default(),
            Cur::Before(n) => sp.before.entry(n).or_default(),
            Cur::After(n) => sp.after.entry(n).or_default(),
            Cur::At(i) => &mut sp.at[i].4,
            Cur::Closure(n) => sp.closures.get_mut(&n).unwrap(),
        };
        tgt.push_str(l);
        tgt.push('\n');
    }
    sp
}

#[derive(Clone)]
struct Edit {
    start: usize,
    end: usize,
    text: String,
    ord: usize,
}

fn apply(text: &str, range: std::ops::Range<usize>, mut edits: Vec<Edit>) -> String {
    edits.sort_by_key(|e| (e.start, e.end, e.ord));
    let mut out = String::new();
    let mut pos = range.start;
    for e in edits {
        if e.start < range.start || e.end > range.end {
            continue;
        }
        if e.start < pos {
            // nested inside a removed range
            continue;
        }
        out.push_str(&text[pos..e.start]);
        out.push_str(&e.text);
        pos = e.end.max(e.start);
    }
    out.push_str(&text[pos..range.end]);
    out
}

struct Ctx {
    repo: String,
    srcs: HashMap<String, Src>,
    rewrites: Vec<(String, String)>,
    drop_attrs_keep: Vec<String>,
    closures: bool,
    bodies_off: bool,
    macros: bool,
    purefns: Vec<String>,
    report: Vec<Value>,
    dropped: Vec<String>,
}

/// `E.for_each(|P| BODY)` as a statement is read as `for P in E BODY` (no `return` or `?` in BODY)
fn lower_for_each(mut text: String, name: &str) -> String {
    struct F {
        hit: Option<(std::ops::Range<usize>, std::ops::Range<usize>, std::ops::Range<usize>, std::ops::Range<usize>, bool)>,
    }
    struct Esc(bool);
    impl<'a> Visit<'a> for Esc {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
            self.0 = true;
        }
    }
    impl<'a> Visit<'a> for F {
        fn visit_stmt(&mut self, st: &'a syn::Stmt) {
            if let syn::Stmt::Expr(syn::Expr::MethodCall(m), _) = st {
                if m.method == "for_each" && m.args.len() == 1 {
                    if let Some(syn::Expr::Closure(c)) = m.args.first() {
                        let mut e = Esc(false);
                        e.visit_expr(&c.body);
                        if c.inputs.len() == 1 && !e.0 && matches!(c.output, syn::ReturnType::Default) {
                            let blk = matches!(&*c.body, syn::Expr::Block(_));
                            self.hit = Some((r(m.span()), r(m.receiver.span()), r(c.inputs[0].span()), r(c.body.span()), blk));
                            return;
                        }
                    }
                }
            }
            visit::visit_stmt(self, st)
        }
    }
    loop {
        let file = syn::parse_file(&text).unwrap_or_else(|e| die("parse", format!("{name}: {e}")));
        let mut f = F { hit: None };
        f.visit_file(&file);
        let Some((whole, recv, pat, body, blk)) = f.hit else { return text };
        let (a, b) = if blk { ("", "") } else { ("{ ", "; }") };
        let new = format!("for {} in {} {a}{}{b}", &text[pat], &text[recv], &text[body]);
        text.replace_range(whole, &new);
    }
}

/// `E.fold(INIT, |A, P| BODY)` is read as `{ let mut A = INIT; for P in E { A = BODY; } A }`, and
/// `E.try_fold(INIT, |A, P| BODY)?` as `{ let mut A = INIT; for P in E { A = (BODY)?; } A }`
fn lower_fold(mut text: String, name: &str) -> String {
    type Rg = std::ops::Range<usize>;
    struct F {
        hit: Option<(Rg, Rg, Rg, Rg, Rg, Rg, bool)>,
    }
    struct Esc(bool);
    impl<'a> Visit<'a> for Esc {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
            self.0 = true
        }
    }
    fn look(whole: Rg, m: &syn::ExprMethodCall, tr: bool) -> Option<(Rg, Rg, Rg, Rg, Rg, Rg, bool)> {
        if m.method == if tr { "try_fold" } else { "fold" } && m.args.len() == 2 {
            if let syn::Expr::Closure(c) = &m.args[1] {
                let mut e = Esc(false);
                e.visit_expr(&c.body);
                if c.inputs.len() == 2 && !e.0 && matches!(c.output, syn::ReturnType::Default) && matches!(c.inputs[0], syn::Pat::Ident(_)) {
                    return Some((whole, r(m.receiver.span()), r(m.args[0].span()), r(c.inputs[0].span()), r(c.inputs[1].span()), r(c.body.span()), tr));
                }
            }
        }
        None
    }
    impl<'a> Visit<'a> for F {
        fn visit_expr(&mut self, x: &'a syn::Expr) {
            if self.hit.is_some() {
                return;
            }
            match x {
                syn::Expr::MethodCall(m) => self.hit = look(r(m.span()), m, false),
                syn::Expr::Try(t) => {
                    if let syn::Expr::MethodCall(m) = &*t.expr {
                        self.hit = look(r(t.span()), m, true)
                    }
                }
                _ => {}
            }
            if self.hit.is_none() {
                visit::visit_expr(self, x)
            }
        }
    }
    loop {
        let file = syn::parse_file(&text).unwrap_or_else(|e| die("parse", format!("{name}: {e}")));
        let mut f = F { hit: None };
        f.visit_file(&file);
        let Some((whole, recv, init, acc, pat, body, tr)) = f.hit else { return text };
        let a = text[acc].trim_start_matches("mut ").to_string();
        let b = if tr { format!("({})?", &text[body]) } else { text[body].to_string() };
        let new = format!("{{ let mut {a} = {}; for {} in {} {{ {a} = {b}; }} {a} }}", &text[init], &text[pat], &text[recv]);
        text.replace_range(whole, &new);
    }
}

/// invocations of macros that the file defines itself are replaced by what they stand for
fn expand_macros(mut text: String, name: &str) -> String {
    struct F {
        defs: HashMap<String, proc_macro2::TokenStream>,
        hit: Option<(std::ops::Range<usize>, syn::Macro, bool)>,
    }
    impl<'a> Visit<'a> for F {
        fn visit_item(&mut self, i: &'a syn::Item) {
            if let syn::Item::Mod(m) = i {
                if is_cfg_test(&m.attrs) {
                    return;
                }
            }
            if let syn::Item::Macro(m) = i {
                if m.ident.is_some() || is_cfg_test(&m.attrs) {
                    return;
                }
                if self.hit.is_none() && m.mac.path.get_ident().map(|n| self.defs.contains_key(&n.to_string())) == Some(true) {
                    self.hit = Some((r(m.span()), m.mac.clone(), true));
                }
                return;
            }
            visit::visit_item(self, i)
        }
        fn visit_stmt(&mut self, s: &'a syn::Stmt) {
            if let syn::Stmt::Macro(m) = s {
                if self.hit.is_none() && m.mac.path.get_ident().map(|n| self.defs.contains_key(&n.to_string())) == Some(true) {
                    self.hit = Some((r(m.span()), m.mac.clone(), false));
                }
                return;
            }
            visit::visit_stmt(self, s)
        }
        fn visit_expr_macro(&mut self, m: &'a syn::ExprMacro) {
            if self.hit.is_none() && m.mac.path.get_ident().map(|n| self.defs.contains_key(&n.to_string())) == Some(true) {
                self.hit = Some((r(m.span()), m.mac.clone(), false));
            }
        }
    }
    for _ in 0..500 {
        let file = syn::parse_file(&text).unwrap_or_else(|e| die("parse", format!("{name}: {e}")));
        let mut f = F { defs: HashMap::new(), hit: None };
        walk_items(&file.items, &mut |i| {
            if let syn::Item::Macro(m) = i {
                if let Some(n) = &m.ident {
                    f.defs.insert(n.to_string(), m.mac.tokens.clone());
                }
            }
        });
        f.visit_file(&file);
        let Some((whole, m, item)) = f.hit else { return text };
        let n = m.path.get_ident().unwrap().to_string();
        let new = mac::expand(f.defs[&n].clone(), m.tokens.clone())
            .unwrap_or_else(|| die("parse", format!("{name}: macro {n} is not one that is expanded here")));
        let new = if item { format!("{new}\n") } else if new.trim_start().starts_with('{') { new } else { format!("({new})") };
        text.replace_range(whole, &new);
    }
    die("parse", format!("{name}: macros do not end"))
}

impl Ctx {
    fn src(&mut self, path: &str) -> &Src {
        if !self.srcs.contains_key(path) {
            let full = format!("{}/{}", self.repo, path);
            let text = std::fs::read_to_string(&full).unwrap_or_else(|e| die("anchor", format!("{full}: {e}")));
            let text = if self.macros { expand_macros(text, &full) } else { text };
            let text = lower_fold(lower_for_each(text, &full), &full);
            let file = syn::parse_file(&text).unwrap_or_else(|e| die("parse", format!("{full}: {e}")));
            self.srcs.insert(path.to_string(), Src { text, file });
        }
        &self.srcs[path]
    }

    fn rewrite(&self, mut s: String) -> String {
        for (a, b) in &self.rewrites {
            let re = regex::Regex::new(a).unwrap_or_else(|e| die("template", format!("{e}")));
            s = re.replace_all(&s, b.as_str()).into_owned();
        }
        s
    }

    fn emit_fn(&mut self, path: &str, sel: &str, sp: FnSpec) -> String {
        self.src(path);
        let src = &self.srcs[path];
        let text = &src.text;
        let found = find_fn(src, sel).unwrap_or_else(|| die("anchor", format!("{path}: fn {sel} not found")));
        let (attrs, vis, sig, block, whole): (&Vec<syn::Attribute>, Option<&syn::Visibility>, &syn::Signature, Option<&syn::Block>, Span) =
            match &found {
                Found::Item(syn::Item::Fn(f)) => (&f.attrs, Some(&f.vis), &f.sig, Some(&f.block), f.span()),
                Found::ImplFn(_, f) => (&f.attrs, Some(&f.vis), &f.sig, Some(&f.block), f.span()),
                Found::TraitFn(_, f) => (&f.attrs, None, &f.sig, f.default.as_ref(), f.span()),
                _ => die("anchor", format!("{path}: {sel}: unexpected item")),
            };
        let whole = r(whole);
        let mut edits: Vec<Edit> = vec![];
        let mut ord = 0usize;
        let mut push = |edits: &mut Vec<Edit>, s: usize, e: usize, t: String| {
            ord += 1;
            edits.push(Edit { start: s, end: e, text: t, ord });
        };
        let mut dropped: Vec<String> = vec![];
        for a in attrs {
            let n = a.path().to_token_stream().to_string();
            if !n.contains("doc") {
                dropped.push(format!("attribute #[{}]", n));
            }
            let rg = r(a.span());
            push(&mut edits, rg.start, rg.end, String::new());
        }
        if sp.vis_drop {
            if let Some(v) = vis {
                let rg = r(v.span());
                push(&mut edits, rg.start, rg.end, String::new());
            }
        }
        if let Some(n) = &sp.rename {
            let rg = r(sig.ident.span());
            push(&mut edits, rg.start, rg.end, n.clone());
        }
        if let (Some(name), syn::ReturnType::Type(_, ty)) = (&sp.ret, &sig.output) {
            let rg = r(ty.span());
            push(&mut edits, rg.start, rg.start, format!("({name}: "));
            push(&mut edits, rg.end, rg.end, ")".into());
        }
        let mut nloops = 0;
        if let Some(b) = block {
            let open = r(b.brace_token.span.open());
            let close = r(b.brace_token.span.close());
            // contract between the signature and the body
            push(&mut edits, open.start, open.start, format!("\n{}", sp.sig));
            for (i, a) in sig.inputs.iter().enumerate() {
                let syn::FnArg::Typed(t) = a else { continue };
                if matches!(&*t.pat, syn::Pat::Tuple(_) | syn::Pat::TupleStruct(_) | syn::Pat::Struct(_)) {
                    let rg = r(t.pat.span());
                    if !sp.sigonly {
                        push(&mut edits, open.end, open.end, format!("\nlet {} = vx_a{i};", &text[rg.clone()]));
                    }
                    push(&mut edits, rg.start, rg.end, format!("vx_a{i}"));
                    dropped.push(format!("parameter pattern {} turned into a let", &text[rg]));
                }
            }
            if sp.sigonly {
                push(&mut edits, open.start, close.end, "{ unimplemented!() }".into());
            } else {
            // vacuity probe: every function under contract must fail this
            let probe = std::env::var("VX_PROBE").is_ok() && !sp.sigonly && !sp.attrs.contains("external_body");
            let probe = if probe { "\nassert(false);\n" } else { "" };
            if !sp.start.is_empty() || !probe.is_empty() {
                push(&mut edits, open.end, open.end, format!("\n{}{}", sp.start, probe));
            }
            let mut mf = MacFinder { ranges: vec![] };
            mf.visit_block(b);
            for (rg, n) in mf.ranges {
                dropped.push(format!("{n}!(..) statement"));
                push(&mut edits, rg.start, rg.end, String::new());
            }
            let mut af = AttrFinder { ranges: vec![], off: vec![] };
            af.visit_block(b);
            for rg in af.off.iter().map(|a| with_comma(text, a.clone())).chain(af.ranges) {
                dropped.push("attribute in body".into());
                push(&mut edits, rg.start, rg.end, String::new());
            }
            if self.closures {
                let mut cf = ClosureFinder { n: 0, text, purefns: &self.purefns, given: &sp.closures, edits: vec![], notes: vec![] };
                cf.visit_block(b);
                for (k, _) in &sp.closures {
                    if *k >= cf.n {
                        die("anchor", format!("{path}: fn {sel}: no closure {k}"));
                    }
                }
                for (x, y, t) in cf.edits {
                    push(&mut edits, x, y, t);
                }
                dropped.extend(cf.notes);
            }
            let mut lf = LoopFinder { loops: vec![], _t: text };
            lf.visit_block(b);
            nloops = lf.loops.len();
            let want = sp.nloops.unwrap_or(sp.loops.len());
            if want != nloops {
                die("anchor", format!("{path}: fn {sel}: {nloops} loops where the contract is anchored to {want}"));
            }
            for (k, (kind, inv)) in &sp.loops {
                let l = lf.loops.get(*k).unwrap_or_else(|| die("anchor", format!("{sel}: loop {k} missing")));
                if let Some(kd) = kind {
                    if kd != l.kind {
                        die("anchor", format!("{path}: fn {sel}: loop {k} is `{}`, the contract is anchored to `{kd}`", l.kind));
                    }
                }
                match sp.forwhile.get(k) {
                    Some(v) => push(&mut edits, l.body_open, l.body_open, format!("); while {v}.more()\n{inv}\ndecreases {v}.left(),\n")),
                    None => push(&mut edits, l.body_open, l.body_open, format!("\n{inv}")),
                }
            }
            let mut whiled = vec![];
            for (k, v) in &sp.forwhile {
                // `for P in E { B }` -> `let mut v = vx_for(E); while v.more() { let P = v.take(); B }` (a for loop may not `continue`)
                let l = &lf.loops[*k];
                if l.kind != "for" || !sp.loops.contains_key(k) {
                    die("anchor", format!("{path}: fn {sel}: loop {k} is not a for loop with a contract"));
                }
                whiled.push(l.body_open);
                let p = l.pat.clone().unwrap();
                push(&mut edits, l.whole.start, l.expr_start, format!("let mut {v} = vx_for("));
                push(&mut edits, l.body_open + 1, l.body_open + 1, format!(" let {} = {v}.take();", &text[p]));
                dropped.push("for loop read as a while loop that takes the elements one by one".into());
            }
            for (k, v) in &sp.loopvar {
                let l = &lf.loops[*k];
                if l.pat_text.trim() == "_" {
                    let p = l.pat.clone().unwrap();
                    push(&mut edits, p.start, p.end, v.clone());
                }
            }
            for (k, v) in &sp.loopiter {
                let l = &lf.loops[*k];
                push(&mut edits, l.expr_start, l.expr_start, format!("{v}: "));
            }
            if self.closures {
                struct ForPats(Vec<(std::ops::Range<usize>, usize, syn::Pat)>);
                impl<'a> Visit<'a> for ForPats {
                    fn visit_expr_for_loop(&mut self, n: &'a syn::ExprForLoop) {
                        self.0.push((r(n.pat.span()), r(n.body.brace_token.span.open()).end, (*n.pat).clone()));
                        visit::visit_expr_for_loop(self, n)
                    }
                }
                let mut fp = ForPats(vec![]);
                fp.visit_block(b);
                for (rg, open, p) in fp.0 {
                    if whiled.contains(&(open - 1)) {
                        continue;
                    }
                    let (p2, l2) = lower_pat(&p, text);
                    if !l2.is_empty() {
                        push(&mut edits, rg.start, rg.end, p2);
                        push(&mut edits, open, open, format!(" {l2}"));
                        dropped.push("reference pattern of a for loop turned into lets".into());
                    }
                }
            }
            {
                // `if c { ..; continue; } rest` at the top level of a for body -> `if c { .. } else { rest }`
                struct ForBodies<'a>(Vec<&'a syn::Block>);
                impl<'a> Visit<'a> for ForBodies<'a> {
                    fn visit_expr_for_loop(&mut self, n: &'a syn::ExprForLoop) {
                        self.0.push(&n.body);
                        visit::visit_expr_for_loop(self, n)
                    }
                }
                let mut fb = ForBodies(vec![]);
                fb.visit_block(b);
                for blk in fb.0 {
                    if whiled.contains(&r(blk.brace_token.span.open()).start) {
                        continue;
                    }
                    for st in &blk.stmts {
                        let syn::Stmt::Expr(syn::Expr::If(i), _) = st else { continue };
                        if i.else_branch.is_some() {
                            continue;
                        }
                        let Some(last @ syn::Stmt::Expr(syn::Expr::Continue(c), _)) = i.then_branch.stmts.last() else { continue };
                        if c.label.is_some() {
                            continue;
                        }
                        let rg = r(last.span());
                        push(&mut edits, rg.start, rg.end, String::new());
                        let e = r(st.span()).end;
                        push(&mut edits, e, e, " else {".into());
                        let close = r(blk.brace_token.span.close()).start;
                        push(&mut edits, close, close, "}".into());
                        dropped.push("`if c { continue; } rest` in a for body read as `if c { } else { rest }`".into());
                    }
                }
            }
            for (k, v) in &sp.loopstart {
                let l = &lf.loops[*k];
                push(&mut edits, l.body_open + 1, l.body_open + 1, format!("\n{v}"));
            }
            for (k, v) in &sp.loopend {
                let l = &lf.loops[*k];
                push(&mut edits, l.body_close, l.body_close, v.clone());
            }
            for (k, v) in &sp.before {
                let l = &lf.loops[*k];
                push(&mut edits, l.whole.start, l.whole.start, format!("{v}\n"));
            }
            for (k, v) in &sp.after {
                let l = &lf.loops[*k];
                push(&mut edits, l.whole.end, l.whole.end, format!("\n{v}"));
            }
            if !sp.at.is_empty() {
                let mut sf = StmtFinder { stmts: vec![], is_local: vec![] };
                sf.visit_block(b);
                for (pat, n, before, opt, t) in &sp.at {
                    // innermost statements containing the pattern: skip those that contain another match
                    let hits: Vec<_> = sf
                        .stmts
                        .iter()
                        .filter(|rg| norm(&text[(*rg).clone()]).contains(&norm(pat)))
                        .filter(|rg| {
                            !sf.stmts.iter().any(|o| {
                                (o.start > rg.start || o.end < rg.end)
                                    && o.start >= rg.start
                                    && o.end <= rg.end
                                    && norm(&text[o.clone()]).contains(&norm(pat))
                            })
                        })
                        .collect();
                    match hits.get(*n) {
                        Some(rg) => {
                            if *before {
                                push(&mut edits, rg.start, rg.start, format!("{t}\n"))
                            } else {
                                push(&mut edits, rg.end, rg.end, format!("\n{t}"))
                            }
                        }
                        None if *opt => {}
                        None => die("anchor", format!("{path}: fn {sel}: no statement matching {pat:?}")),
                    }
                }
            }
            if let Some(tail) = &sp.tail {
                match b.stmts.last() {
                    Some(syn::Stmt::Expr(e, None)) => {
                        let rg = r(e.span());
                        push(&mut edits, rg.start, rg.start, "let vx_r = ".into());
                        push(&mut edits, rg.end, rg.end, format!(";\n{tail}\nvx_r"));
                    }
                    _ => push(&mut edits, close.start, close.start, format!("\n{tail}")),
                }
            }
            }
        } else {
            // trait method without body: contract before the `;`
            push(&mut edits, whole.end - 1, whole.end - 1, format!("\n{}", sp.sig));
        }
        let mut out = apply(text, whole.clone(), edits);
        for (a, b, must) in &sp.replace {
            if *must && !out.contains(a.as_str()) {
                die("anchor", format!("{path}: fn {sel}: rewrite pattern {a:?} not found"));
            }
            if out.contains(a.as_str()) {
                dropped.push(format!("rewrite {a:?} => {b:?}"));
            }
            out = out.replace(a.as_str(), b);
        }
        for (a, b, must) in &sp.rx {
            let re = regex::Regex::new(a).unwrap_or_else(|e| die("template", format!("{e}")));
            if *must && !re.is_match(&out) {
                die("anchor", format!("{path}: fn {sel}: rewrite pattern {a:?} not found"));
            }
            if re.is_match(&out) {
                dropped.push(format!("rewrite /{a}/ => {b:?}"));
            }
            out = re.replace_all(&out, b.as_str()).into_owned();
        }
        let line = text[..whole.start].matches('\n').count() + 1;
        let mut has_contract = String::new();
        for w in ["requires", "ensures", "decreases"] {
            if sp.sig.contains(w) {
                has_contract.push_str(w);
                has_contract.push(' ');
            }
        }
        self.report.push(json!({
            "fn": sel, "file": path, "line": line, "loops": nloops,
            "loop_contracts": sp.loops.len(), "contract": has_contract.trim(), "drops": dropped, "proved_elsewhere": self.bodies_off,
        }));
        let attrs = if block.is_none() { sp.attrs.replace("#[verifier::external_body]\n", "") } else { sp.attrs.clone() };
        let out = format!("{}{}", attrs, out);
        self.rewrite(out)
    }

    fn emit_item(&mut self, path: &str, kind: &str, name: &str, opts: &str) -> String {
        self.src(path);
        let src = &self.srcs[path];
        let text = &src.text;
        if let (Some((imp, cname)), "const") = (name.rsplit_once("::"), kind) {
            // associated constant (the template is inside an impl block of the same type)
            let mut found = None;
            walk_items(&src.file.items, &mut |i| {
                if let syn::Item::Impl(im) = i {
                    if impl_matches(im, imp) && !is_cfg_test(&im.attrs) {
                        for ii in &im.items {
                            if let syn::ImplItem::Const(c) = ii {
                                if c.ident == cname {
                                    found = Some((r(c.const_token.span).start, r(c.span()).end));
                                }
                            }
                        }
                    }
                }
            });
            let (a, b) = found.unwrap_or_else(|| die("anchor", format!("{path}: const {name} not found")));
            let body = text[a..b].to_string();
            self.report.push(json!({"item": format!("const {name}"), "file": path}));
            let vis = if imp.contains(" for ") { "" } else { "pub " };
            let opts = if opts.is_empty() { String::new() } else { format!("{opts}\n") };
            return self.rewrite(format!("{opts}{vis}{body}"));
        }
        let mut hit: Option<&syn::Item> = None;
        walk_items(&src.file.items, &mut |i| {
            let ok = match (kind, i) {
                ("struct", syn::Item::Struct(s)) => s.ident == name,
                ("enum", syn::Item::Enum(s)) => s.ident == name,
                ("const", syn::Item::Const(s)) => s.ident == name,
                ("type", syn::Item::Type(s)) => s.ident == name,
                _ => false,
            };
            if ok {
                hit = Some(i)
            }
        });
        let item = hit.unwrap_or_else(|| die("anchor", format!("{path}: {kind} {name} not found")));
        let rg = r(item.span());
        let mut af = AttrFinder { ranges: vec![], off: vec![] };
        af.visit_item(item);
        let mut edits = vec![];
        for (i, a) in af.off.iter().map(|a| with_comma(text, a.clone())).chain(af.ranges).enumerate() {
            edits.push(Edit { start: a.start, end: a.end, text: String::new(), ord: i });
        }
        // make everything public for the single-file crate (visibility does not affect semantics)
        struct VisF(Vec<std::ops::Range<usize>>, Vec<usize>);
        impl<'a> Visit<'a> for VisF {
            fn visit_field(&mut self, f: &'a syn::Field) {
                if is_cfg_test(&f.attrs) {
                    return;
                }
                match &f.vis {
                    syn::Visibility::Inherited => {
                        let s = f.ident.as_ref().map(|i| r(i.span()).start).unwrap_or(r(f.ty.span()).start);
                        self.1.push(s)
                    }
                    syn::Visibility::Public(_) => {}
                    v => self.0.push(r(v.span())),
                }
            }
        }
        if let syn::Item::Struct(s) = item {
            let mut v = VisF(vec![], vec![]);
            v.visit_item_struct(s);
            for x in v.0 {
                edits.push(Edit { start: x.start, end: x.end, text: "pub".into(), ord: 9000 });
            }
            for x in v.1 {
                edits.push(Edit { start: x, end: x, text: "pub ".into(), ord: 9000 });
            }
        }
        let vis = match item {
            syn::Item::Struct(s) => Some(&s.vis),
            syn::Item::Enum(s) => Some(&s.vis),
            syn::Item::Const(s) => Some(&s.vis),
            syn::Item::Type(s) => Some(&s.vis),
            _ => None,
        };
        let mut prefix = "";
        match vis {
            Some(syn::Visibility::Inherited) => prefix = "pub ",
            Some(syn::Visibility::Restricted(v)) => {
                let x = r(v.span());
                edits.push(Edit { start: x.start, end: x.end, text: "pub".into(), ord: 9001 })
            }
            _ => {}
        }
        let mut start = rg.start;
        // skip leading attributes so the prefix lands before the keyword
        let mut afk = AttrFinder { ranges: vec![], off: vec![] };
        afk.visit_item(item);
        let keyword = match item {
            syn::Item::Struct(s) => r(s.struct_token.span).start,
            syn::Item::Enum(s) => r(s.enum_token.span).start,
            syn::Item::Const(s) => r(s.const_token.span).start,
            syn::Item::Type(s) => r(s.type_token.span).start,
            _ => rg.start,
        };
        if prefix == "pub " {
            start = keyword;
        }
        let body = apply(text, start..rg.end, edits);
        self.dropped.push(format!("{path}: {kind} {name}: attributes/derives, visibility widened"));
        self.report.push(json!({"item": format!("{kind} {name}"), "file": path}));
        let opts = if opts.is_empty() { String::new() } else { format!("{opts}\n") };
        self.rewrite(format!("{opts}{prefix}{body}"))
    }

    fn emit_impl_header(&mut self, path: &str, sel: &str) -> String {
        self.src(path);
        let src = &self.srcs[path];
        let mut hit = None;
        walk_items(&src.file.items, &mut |i| {
            if let syn::Item::Impl(im) = i {
                if hit.is_none() && impl_matches(im, sel) {
                    hit = Some(im)
                }
            }
        });
        let im = hit.unwrap_or_else(|| die("anchor", format!("{path}: impl {sel} not found")));
        let s = r(im.impl_token.span).start;
        let e = r(im.brace_token.span.open()).end;
        self.rewrite(src.text[s..e].to_string())
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 5 {
        eprintln!("usage: vx TEMPLATE REPO OUT.rs OUT.json");
        std::process::exit(2);
    }
    let tpath = std::path::Path::new(&a[1]);
    let mut tpl = std::fs::read_to_string(tpath).expect("template");
    // textual includes, relative to the template
    loop {
        let mut changed = false;
        let mut out = String::new();
        for l in tpl.lines() {
            if let Some(f) = l.trim_start().strip_prefix("//@include ") {
                let p = tpath.parent().unwrap().join(f.trim());
                out.push_str(&std::fs::read_to_string(&p).unwrap_or_else(|e| die("template", format!("{p:?}: {e}"))));
                changed = true;
            } else {
                out.push_str(l);
            }
            out.push('\n');
        }
        tpl = out;
        if !changed {
            break;
        }
    }
    let mut cx = Ctx {
        repo: a[2].clone(),
        srcs: HashMap::new(),
        rewrites: vec![],
        drop_attrs_keep: vec![],
        closures: false,
        bodies_off: false,
        macros: false,
        purefns: vec![],
        report: vec![],
        dropped: vec![],
    };
    let _ = &cx.drop_attrs_keep;
    let lines: Vec<&str> = tpl.lines().collect();
    let mut out = String::new();
    let mut map: Vec<Value> = vec![];
    let mut i = 0;
    let mut default_path = String::new();
    while i < lines.len() {
        let l = lines[i];
        let t = l.trim_start();
        if let Some(d) = t.strip_prefix("//@") {
            let d = d.trim();
            let (w, rest) = d.split_once(char::is_whitespace).unwrap_or((d, ""));
            let rest = rest.trim();
            match w {
                "file" => default_path = rest.to_string(),
                "rewrite" => {
                    let (x, r2) = parse_quoted(rest);
                    let r2 = r2.trim_start().strip_prefix("=>").expect("=>");
                    let (y, _) = parse_quoted(r2);
                    cx.dropped.push(format!("rewrite {x:?} => {y:?}"));
                    cx.rewrites.push((x, y));
                }
                "closures" => cx.closures = rest == "on",
                // the contracts that follow are proved elsewhere: only they are read here, not the bodies
                "bodies" => cx.bodies_off = rest == "off",
                // macros that a file defines itself are expanded
                "macros" => cx.macros = rest == "on",
                "rewrites" if rest == "clear" => cx.rewrites.clear(),
                "purefn" => cx.purefns.push(rest.to_string()),
                "item" => {
                    let mut p = rest.splitn(3, char::is_whitespace);
                    let (k, n, o) = (p.next().unwrap(), p.next().unwrap(), p.next().unwrap_or(""));
                    let s = cx.emit_item(&default_path.clone(), k, n, o);
                    out.push_str(&s);
                    out.push('\n');
                }
                "impl" => {
                    let s = cx.emit_impl_header(&default_path.clone(), rest);
                    out.push_str(&s);
                    out.push('\n');
                }
                "fn" => {
                    let mut body = vec![];
                    i += 1;
                    while i < lines.len() && lines[i].trim() != "//@end" {
                        body.push(lines[i]);
                        i += 1;
                    }
                    if i >= lines.len() {
                        die("template", format!("no //@end for fn {rest}"));
                    }
                    let mut sp = parse_spec(&body);
                    if cx.bodies_off {
                        sp.sigonly = true;
                        sp.attrs.push_str("#[verifier::external_body]\n");
                    }
                    let s = cx.emit_fn(&default_path.clone(), rest, sp);
                    let l0 = out.matches('\n').count() + 1;
                    out.push_str(&s);
                    out.push('\n');
                    let l1 = out.matches('\n').count();
                    map.push(json!({"fn": rest, "file": default_path, "from": l0, "to": l1}));
                }
                _ => die("template", format!("unknown directive {l}")),
            }
        } else {
            out.push_str(l);
            out.push('\n');
        }
        i += 1;
    }
    std::fs::write(&a[3], &out).expect("write out");
    std::fs::write(&a[4], serde_json::to_string_pretty(&json!({
        "functions": cx.report, "lines": map, "extraction": cx.dropped,
    })).unwrap()).expect("write json");
}
