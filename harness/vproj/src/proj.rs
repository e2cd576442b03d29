//! The event stream of an item: the same function walks the annotated source
//! (side A) and the expansion (side B).
use crate::canon::{Ev as Part, attrs_of, expr_text, is_hooq, is_inert, is_vp, is_vw, list, path_text};
use crate::text::{digest, norm};
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{Map, Value, json};
use syn::visit::{self, Visit};
use syn::{Attribute, Block, Expr, Lit, Meta, Stmt};

pub struct Ev {
    pub open: bool,
    pub k: &'static str,
    pub d: Map<String, Value>,
}

pub struct Walk {
    pub b: bool,
    pub evs: Vec<Ev>,
    pub left: usize,
    pub errs: Vec<String>,
}

fn first_pos(ts: TokenStream) -> (usize, usize) {
    match ts.into_iter().next() {
        Some(t) => {
            let s = match &t {
                TokenTree::Group(g) => g.span_open().start(),
                t => t.span().start(),
            };
            (s.line, s.column + 1)
        }
        None => (0, 0),
    }
}

// ---- methods -------------------------------------------------------------

/// `$name` fields of a probe: `__f!(name, $name)`.
fn fields(ts: TokenStream) -> Option<(Option<String>, Vec<String>, Vec<TokenTree>)> {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut parts: Vec<Vec<TokenTree>> = vec![vec![]];
    for t in toks {
        match &t {
            TokenTree::Punct(p) if p.as_char() == ',' => parts.push(vec![]),
            _ => parts.last_mut().unwrap().push(t),
        }
    }
    if parts.last().is_some_and(|p| p.is_empty()) {
        parts.pop();
    }
    let tag = match parts.first()?.as_slice() {
        [TokenTree::Literal(l)] => Some(l.to_string().trim_matches('"').to_string()),
        _ => return None,
    };
    let mut fs = Vec::new();
    let mut rest = Vec::new();
    for p in &parts[1..] {
        match p.as_slice() {
            [TokenTree::Ident(f), TokenTree::Punct(_), TokenTree::Group(g)] if f == "__f" => {
                let n = g.stream().into_iter().next()?.to_string();
                fs.push(n);
            }
            p => rest.extend(p.iter().cloned()),
        }
    }
    Some((tag, fs, rest))
}

/// A method of the shape the checks use: `.__vp("tag", f..)` and `$so_far`
/// joined by dots, or `__vw("tag", f.., BODY)`.
pub fn method(ts: TokenStream) -> Option<Value> {
    let mut t: Vec<TokenTree> = ts.into_iter().collect();
    let mut exc = false;
    if let Some(TokenTree::Punct(p)) = t.last() {
        if p.as_char() == '!' {
            exc = true;
            t.pop();
        }
    }
    let is = |t: Option<&TokenTree>, c: char| matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c);
    let so_far = |t: Option<&TokenTree>| matches!(t, Some(TokenTree::Ident(i)) if i == "so_far" || i == "sofar");
    if is(t.first(), '.') {
        let mut seq = Vec::new();
        let mut i = 0;
        while i < t.len() {
            if !is(t.get(i), '.') {
                return None;
            }
            i += 1;
            if is(t.get(i), '$') && so_far(t.get(i + 1)) {
                seq.push(json!({"so": true}));
                i += 2;
            } else if let (Some(TokenTree::Ident(id)), Some(TokenTree::Group(g))) = (t.get(i), t.get(i + 1)) {
                if id != "__vp" {
                    return None;
                }
                let (tag, fs, rest) = fields(g.stream())?;
                if !rest.is_empty() {
                    return None;
                }
                seq.push(json!({"so": false, "tag": tag, "f": fs}));
                i += 2;
            } else {
                return None;
            }
        }
        return Some(json!({"m": "i", "exc": exc, "seq": seq}));
    }
    match t.as_slice() {
        [TokenTree::Punct(p), TokenTree::Ident(e)] if p.as_char() == '$' && e == "expr" => {
            Some(json!({"m": "r", "exc": exc, "seq": [], "body": "id"}))
        }
        [TokenTree::Ident(id), TokenTree::Group(g)] if id == "__vw" => {
            let (tag, fs, rest) = fields(g.stream())?;
            let body = rest.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" ");
            let body = match body.as_str() {
                "$ expr" => "expr",
                "$ so_far" | "$ sofar" => "so",
                "$ expr . $ so_far" | "$ expr . $ sofar" => "expr.so",
                _ => return None,
            };
            Some(json!({"m": "r", "exc": exc, "seq": [{"so": false, "tag": tag, "f": fs}], "body": body}))
        }
        _ => None,
    }
}

fn none_rec() -> Value {
    json!({"s": "?", "v": [], "x": [], "b": false, "n": "", "t": "", "w": "", "p": [], "m": {"m": "x", "exc": false, "seq": [], "body": "expr"}})
}

pub fn full_method(v: Value) -> Value {
    let mut v = v;
    if v.get("body").is_none() {
        v["body"] = json!("expr");
    }
    for s in v["seq"].as_array_mut().unwrap() {
        if s.get("tag").is_none() {
            s["tag"] = json!("");
            s["f"] = json!([]);
        }
    }
    v
}

fn strings(ts: TokenStream) -> Vec<String> {
    ts.into_iter()
        .filter_map(|t| match t {
            TokenTree::Literal(l) => syn::parse_str::<syn::LitStr>(&l.to_string()).ok().map(|l| l.value()),
            _ => None,
        })
        .collect()
}

fn split(v: Vec<String>) -> (Vec<String>, Vec<String>) {
    let mut a = vec![];
    let mut b = vec![];
    for s in v {
        match s.strip_prefix('!') {
            Some(x) => b.push(x.to_string()),
            None => a.push(s),
        }
    }
    (a, b)
}

pub fn flavor_path(e: &Expr) -> Option<Vec<String>> {
    let p: Vec<String> = match e {
        Expr::Path(p) if p.path.segments.iter().all(|s| s.arguments.is_none()) => {
            p.path.segments.iter().map(|s| s.ident.to_string()).collect()
        }
        Expr::Lit(l) => match &l.lit {
            Lit::Str(s) => s.value().replace("::", ".").split('.').map(|s| s.to_string()).collect(),
            _ => return None,
        },
        _ => return None,
    };
    p.iter().all(|n| !n.is_empty()).then_some(p)
}

/// A list of string literals and nothing else.
fn only_strings(ts: TokenStream) -> bool {
    use syn::parse::Parser;
    syn::punctuated::Punctuated::<syn::LitStr, syn::Token![,]>::parse_terminated.parse2(ts).is_ok()
}

impl Walk {
    pub fn new(b: bool) -> Self {
        Walk { b, evs: vec![], left: 0, errs: vec![] }
    }

    /// hooq's own attributes of a node, as records of the specification.
    pub fn attrs(&mut self, attrs: &[Attribute]) -> Vec<Value> {
        let mut out = Vec::new();
        for a in attrs.iter().filter(|a| is_inert(a)) {
            let name = path_text(a.path());
            let name = name.strip_prefix("hooq::").unwrap_or(&name).to_string();
            let plain = a.path().leading_colon.is_none() && a.path().segments.len() == 2;
            let mut r = none_rec();
            let mut set = |k: &str, v: Value| r[k] = v;
            let mut unreadable = false;
            let ok = plain
                && match (&a.meta, name.as_str()) {
                (Meta::Path(_), "skip") | (Meta::Path(_), "skip_all") => {
                    set("s", json!(name));
                    true
                }
                (Meta::List(l), "method") => match method(l.tokens.clone()) {
                    Some(m) => {
                        set("s", json!("method"));
                        set("m", full_method(m));
                        true
                    }
                    None => {
                        unreadable = true;
                        false
                    }
                },
                (Meta::List(l), "hook_targets") if only_strings(l.tokens.clone()) => {
                    set("s", json!("targets"));
                    set("v", json!(strings(l.tokens.clone())));
                    true
                }
                (Meta::List(l), "tail_expr_idents") if only_strings(l.tokens.clone()) => {
                    let (a, b) = split(strings(l.tokens.clone()));
                    set("s", json!("tails"));
                    set("v", json!(a));
                    set("x", json!(b));
                    true
                }
                (Meta::List(l), "ignore_tail_expr_idents") if only_strings(l.tokens.clone()) => {
                    set("s", json!("ignore"));
                    set("v", json!(strings(l.tokens.clone())));
                    true
                }
                (Meta::List(l), "result_types") if only_strings(l.tokens.clone()) => {
                    set("s", json!("results"));
                    set("v", json!(strings(l.tokens.clone())));
                    true
                }
                (Meta::List(l), "hook_in_macros") if matches!(l.tokens.to_string().as_str(), "true" | "false") => {
                    set("s", json!("macros"));
                    set("b", json!(l.tokens.to_string() == "true"));
                    true
                }
                (Meta::List(l), "binding" | "var") => match syn::parse2::<syn::MetaNameValue>(l.tokens.clone()) {
                    Ok(nv) if nv.path.get_ident().is_some() => {
                        set("s", json!("bind"));
                        set("n", json!(path_text(&nv.path)));
                        set("t", json!(digest(norm(nv.value.to_token_stream()))));
                        true
                    }
                    _ => false,
                },
                (
                    Meta::NameValue(nv),
                    "flavor" | "method" | "hook_targets" | "tail_expr_idents" | "result_types" | "hook_in_macros"
                    | "bindings",
                ) => match flavor_path(&nv.value) {
                    Some(p) => {
                        set("s", json!("flavor"));
                        set("w", json!(name));
                        set("p", json!(p));
                        true
                    }
                    None => false,
                },
                (Meta::NameValue(nv), n) if n != "ignore_tail_expr_idents" => {
                    set("s", json!("bind"));
                    set("n", json!(n));
                    set("t", json!(digest(norm(nv.value.to_token_stream()))));
                    true
                }
                _ => false,
            };
            if ok {
                out.push(r);
            } else if !unreadable {
                r["s"] = json!("bad");
                out.push(r);
            } else {
                self.errs.push(format!("attribute: {}", norm(a.to_token_stream())));
            }
        }
        if self.b {
            self.left += out.len();
        }
        out
    }

    fn open(&mut self, k: &'static str, d: Value) {
        let Value::Object(d) = d else { panic!() };
        self.evs.push(Ev { open: true, k, d });
    }
    fn close(&mut self, k: &'static str, d: Value) {
        let Value::Object(d) = d else { panic!() };
        self.evs.push(Ev { open: false, k, d });
    }

    fn layer(&mut self, mode: &str, args: Vec<&Expr>) -> Value {
        let mut f = Map::new();
        let mut tag = String::new();
        let mut kind = String::from("none");
        for (i, a) in args.iter().enumerate() {
            match a {
                Expr::Lit(l) if i == 0 => {
                    if let Lit::Str(s) = &l.lit {
                        tag = s.value();
                    }
                }
                Expr::Macro(m) if m.mac.path.is_ident("__f") => {
                    let mut it = m.mac.tokens.clone().into_iter();
                    let name = it.next().map(|t| t.to_string()).unwrap_or_default();
                    it.next();
                    let rest: TokenStream = it.collect();
                    let text = match name.as_str() {
                        "line" | "col" | "column" => {
                            norm(rest).chars().take_while(|c| c.is_ascii_digit()).collect()
                        }
                        "path" | "file" | "count" | "nth" | "fn_name" | "fnname" => {
                            match syn::parse2::<syn::LitStr>(rest.clone()) {
                                Ok(l) => l.value(),
                                Err(_) => norm(rest),
                            }
                        }
                        "fn_sig" | "fnsig" => match syn::parse2::<syn::LitStr>(rest.clone()) {
                            Ok(l) if l.value() == "<unknown>" => l.value(),
                            Ok(l) => match l.value().parse::<TokenStream>() {
                                Ok(t) => norm(t),
                                Err(_) => l.value(),
                            },
                            Err(_) => norm(rest),
                        },
                        "expr" => match syn::parse2::<Expr>(rest.clone()) {
                            Ok(e) => expr_text(&e),
                            Err(_) => norm(rest),
                        },
                        _ => norm(rest),
                    };
                    if name == "count" || name == "nth" {
                        kind = match text.split_once(' ') {
                            Some((_, k)) => match k {
                                "?" => "q",
                                "return" => "ret",
                                "tail expr" => "tail",
                                _ => "none",
                            },
                            None => "none",
                        }
                        .into();
                    }
                    f.insert(name, json!(digest(text)));
                }
                _ => {
                    tag.push_str("/bad");
                }
            }
        }
        json!({"y": mode, "tag": tag, "kind": kind, "f": f})
    }

    /// An expression in a given role.
    fn slot(&mut self, e: &Expr, role: &'static str) {
        // outermost form
        let mut d = Map::new();
        d.insert("r".into(), json!(role));
        let tailish = role != "x" && role != "retval";
        let mut rest_attrs: Option<Vec<Attribute>> = None;
        let mut copy;
        let mut e = e;
        if !self.b {
            let callee = match e {
                Expr::Call(c) => match &*c.func {
                    Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
                    _ => "".into(),
                },
                _ => "".into(),
            };
            d.insert("callee".into(), json!(callee));
            d.insert("ret".into(), json!(matches!(e, Expr::Return(_))));
            d.insert("top".into(), json!(matches!(e, Expr::Try(_))));
            d.insert("ver".into(), json!(matches!(e, Expr::Verbatim(_))));
            let mut at = vec![];
            if tailish {
                copy = e.clone();
                if let Some(a) = attrs_of(&mut copy) {
                    at = self.attrs(a);
                    a.retain(|a| !is_hooq(a));
                    rest_attrs = Some(vec![]);
                }
                e = &copy;
                let ts = e.to_token_stream();
                let (l, c) = first_pos(ts.clone());
                d.insert("line".into(), json!(l));
                d.insert("col".into(), json!(c));
                d.insert("src".into(), json!(digest(norm(ts))));
            } else {
                d.insert("line".into(), json!(0));
                d.insert("col".into(), json!(0));
                d.insert("src".into(), json!(""));
            }
            d.insert("at".into(), json!(at));
        }
        let _ = rest_attrs;
        self.open("slot", Value::Object(d.clone()));
        // peel
        let mut opened: Vec<&'static str> = vec![];
        let mut syms: Vec<Value> = vec![];
        let mut cur = e;
        loop {
            match cur {
                Expr::Paren(x) => {
                    self.node(&x.attrs, &mut opened);
                    cur = &x.expr;
                }
                Expr::Group(x) => {
                    self.node(&x.attrs, &mut opened);
                    cur = &x.expr;
                }
                Expr::Try(x) => {
                    let at = self.attrs(&x.attrs);
                    let mut y = x.clone();
                    y.attrs.retain(|a| !is_hooq(a));
                    let p = x.question_token.spans[0].start();
                    let src = digest(norm(y.to_token_stream()));
                    if !self.b {
                        self.open("q", json!({"at": at, "line": p.line, "col": p.column + 1, "src": src}));
                        opened.push("q");
                    }
                    syms.push(json!({"y": "?", "tag": "", "kind": "", "f": {}, "e": digest(expr_text(&x.expr))}));
                    cur = &x.expr;
                }
                Expr::MethodCall(x) if self.b && is_vp(x) => {
                    self.attrs(&x.attrs);
                    let mut l = self.layer("i", x.args.iter().collect());
                    l["e"] = json!(digest(expr_text(&x.receiver)));
                    syms.push(l);
                    cur = &x.receiver;
                }
                Expr::Call(x) if self.b && is_vw(x) => {
                    self.attrs(&x.attrs);
                    let mut args: Vec<&Expr> = x.args.iter().collect();
                    let last = args.pop().unwrap();
                    let mut l = self.layer("r", args);
                    l["e"] = json!(digest(expr_text(last)));
                    syms.push(l);
                    cur = last;
                }
                _ => break,
            }
        }
        syms.reverse();
        self.base(cur);
        for k in opened.into_iter().rev() {
            self.close(k, json!({}));
        }
        let mut c = Map::new();
        if self.b {
            c.insert("obs".into(), json!(syms));
        }
        self.close("slot", Value::Object(c));
    }

    fn node(&mut self, attrs: &[Attribute], opened: &mut Vec<&'static str>) {
        let at = self.attrs(attrs);
        if !at.is_empty() && !self.b {
            self.open("node", json!({"at": at}));
            opened.push("node");
        }
    }

    fn base(&mut self, e: &Expr) {
        match e {
            Expr::Return(x) => {
                let at = self.attrs(&x.attrs);
                let mut y = x.clone();
                y.attrs.retain(|a| !is_hooq(a));
                let p = x.return_token.span.start();
                let src = digest(norm(y.to_token_stream()));
                self.open("ret", json!({"at": at, "line": p.line, "col": p.column + 1, "src": src}));
                if let Some(v) = &x.expr {
                    self.slot(v, "retval");
                }
                self.close("ret", json!({}));
            }
            Expr::Closure(x) => {
                let at = self.attrs(&x.attrs);
                let mut y = x.clone();
                y.attrs.retain(|a| !is_hooq(a));
                *y.body = syn::parse_quote!({});
                let rt = match &x.output {
                    syn::ReturnType::Type(_, t) => type_name(t),
                    _ => "".into(),
                };
                let mut sig = y.to_token_stream();
                if self.b {
                    sig = TokenStream::new();
                }
                self.open("closure", json!({"at": at, "sig": digest(norm(sig)), "rt": rt}));
                match &*x.body {
                    Expr::Block(b) => {
                        // label, attributes and the block are the closure's own body
                        let mut o = vec![];
                        self.node(&b.attrs, &mut o);
                        self.block(&b.block, "fn");
                        for k in o {
                            self.close(k, json!({}));
                        }
                    }
                    e => self.slot(e, "fn"),
                }
                self.close("closure", json!({}));
            }
            Expr::If(x) => {
                let mut o = vec![];
                self.node(&x.attrs, &mut o);
                self.slot(&x.cond, "x");
                self.block(&x.then_branch, "blk");
                if let Some((_, e)) = &x.else_branch {
                    self.open("scope", json!({}));
                    self.slot(e, "x");
                    self.close("scope", json!({}));
                }
                for k in o {
                    self.close(k, json!({}));
                }
            }
            Expr::Match(x) => {
                let mut o = vec![];
                self.node(&x.attrs, &mut o);
                self.slot(&x.expr, "x");
                self.open("scope", json!({}));
                for a in &x.arms {
                    if let Some((_, g)) = &a.guard {
                        self.slot(g, "x");
                    }
                    match &*a.body {
                        e @ Expr::Block(_) => self.slot(e, "x"),
                        e => self.slot(e, "blk"),
                    }
                }
                self.close("scope", json!({}));
                for k in o {
                    self.close(k, json!({}));
                }
            }
            Expr::Macro(x) => self.mac(&x.attrs, &x.mac),
            Expr::Struct(x) => {
                let mut o = vec![];
                self.node(&x.attrs, &mut o);
                for f in &x.fields {
                    let mut o = vec![];
                    self.node(&f.attrs, &mut o);
                    self.slot(&f.expr, "x");
                    for k in o {
                        self.close(k, json!({}));
                    }
                }
                if let Some(e) = &x.rest {
                    self.slot(e, "x");
                }
                for k in o {
                    self.close(k, json!({}));
                }
            }
            Expr::Verbatim(_) => {}
            e => {
                let mut o = vec![];
                let mut c = e.clone();
                if let Some(a) = attrs_of(&mut c) {
                    let a = a.clone();
                    self.node(&a, &mut o);
                }
                visit::visit_expr(self, e);
                for k in o {
                    self.close(k, json!({}));
                }
            }
        }
    }

    fn block(&mut self, b: &Block, tail: &'static str) {
        self.open("scope", json!({}));
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            self.stmt(s, if i + 1 == n { tail } else { "x" });
        }
        self.close("scope", json!({}));
    }

    fn stmt(&mut self, s: &Stmt, tail: &'static str) {
        match s {
            Stmt::Local(l) => {
                if let Some(i) = &l.init {
                    let mut o = vec![];
                    self.node(&l.attrs, &mut o);
                    self.slot(&i.expr, "x");
                    if let Some((_, d)) = &i.diverge {
                        self.slot(d, "x");
                    }
                    for k in o {
                        self.close(k, json!({}));
                    }
                }
            }
            Stmt::Item(i) => self.item(i),
            Stmt::Expr(e, None) => self.slot(e, tail),
            Stmt::Expr(e, Some(_)) => self.slot(e, "x"),
            Stmt::Macro(m) => self.mac(&m.attrs, &m.mac),
        }
    }

    fn mac(&mut self, attrs: &[Attribute], m: &syn::Macro) {
        let at = self.attrs(attrs);
        let l = list(&m.tokens);
        self.open("macro", json!({"at": at, "parsed": l.is_some(), "toks": digest(norm(m.tokens.clone()))}));
        for (p, _) in l.into_iter().flat_map(|l| l.0) {
            match p {
                Part::File(f) => f.items.iter().for_each(|i| self.item(i)),
                Part::Item(i) => self.item(&i),
                Part::Expr(e) => self.slot(&e, "x"),
                Part::Stmt(s) => self.stmt(&s, "x"),
            }
        }
        self.close("macro", json!({"toks": digest(norm(m.tokens.clone()))}));
    }

    fn func(&mut self, attrs: &[Attribute], sig: &syn::Signature, b: &Block) {
        let at = self.attrs(attrs);
        let rt = match &sig.output {
            syn::ReturnType::Type(_, t) => type_name(t),
            _ => "".into(),
        };
        self.open(
            "fn",
            json!({"at": at, "name": sig.ident.to_string(), "sig": digest(norm(sig.to_token_stream())), "rt": rt}),
        );
        self.block(b, "fn");
        self.close("fn", json!({}));
    }

    fn const_like(&mut self, attrs: &[Attribute], e: &Expr) {
        let mut o = vec![];
        self.node(attrs, &mut o);
        self.slot(e, "x");
        for k in o {
            self.close(k, json!({}));
        }
    }

    pub fn item(&mut self, i: &syn::Item) {
        use syn::{ImplItem, Item, TraitItem};
        match i {
            Item::Fn(f) => self.func(&f.attrs, &f.sig, &f.block),
            Item::Const(c) => self.const_like(&c.attrs, &c.expr),
            Item::Static(c) => self.const_like(&c.attrs, &c.expr),
            Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    let mut o = vec![];
                    self.node(&m.attrs, &mut o);
                    items.iter().for_each(|i| self.item(i));
                    for k in o {
                        self.close(k, json!({}));
                    }
                }
            }
            Item::Impl(m) => {
                let mut o = vec![];
                self.node(&m.attrs, &mut o);
                for i in &m.items {
                    match i {
                        ImplItem::Fn(f) => self.func(&f.attrs, &f.sig, &f.block),
                        ImplItem::Const(c) => self.const_like(&c.attrs, &c.expr),
                        ImplItem::Macro(m) => self.mac(&m.attrs, &m.mac),
                        _ => {}
                    }
                }
                for k in o {
                    self.close(k, json!({}));
                }
            }
            Item::Trait(m) => {
                let mut o = vec![];
                self.node(&m.attrs, &mut o);
                for i in &m.items {
                    match i {
                        TraitItem::Fn(f) => {
                            if let Some(b) = &f.default {
                                self.func(&f.attrs, &f.sig, b)
                            }
                        }
                        TraitItem::Const(c) => {
                            if let Some((_, e)) = &c.default {
                                self.const_like(&c.attrs, e)
                            }
                        }
                        TraitItem::Macro(m) => self.mac(&m.attrs, &m.mac),
                        _ => {}
                    }
                }
                for k in o {
                    self.close(k, json!({}));
                }
            }
            Item::Macro(m) if m.ident.is_none() => self.mac(&m.attrs, &m.mac),
            _ => {}
        }
    }
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => String::new(),
    }
}

// Generic descent: sub-expressions become slots, blocks become scopes, and
// whatever cannot hold code is not entered.
impl<'a> Visit<'a> for Walk {
    fn visit_expr(&mut self, e: &'a Expr) {
        self.slot(e, "x");
    }
    fn visit_block(&mut self, b: &'a Block) {
        self.block(b, "blk");
    }
    fn visit_attribute(&mut self, _: &'a Attribute) {}
    fn visit_pat(&mut self, _: &'a syn::Pat) {}
    fn visit_type(&mut self, _: &'a syn::Type) {}
    fn visit_path(&mut self, _: &'a syn::Path) {}
    fn visit_qself(&mut self, _: &'a syn::QSelf) {}
    fn visit_member(&mut self, _: &'a syn::Member) {}
    fn visit_angle_bracketed_generic_arguments(&mut self, _: &'a syn::AngleBracketedGenericArguments) {}
}
