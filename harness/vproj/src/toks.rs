//! vproj --tokens JOB.json: the tokens of expressions with their places.
//!
//! JOB: {"jobs": [{"disk": path, "ranges": [{"id", "l0", "c0", "l1", "c1"}]}]}, lines from 1, columns from 0.
//! Prints one line per range: {"id", "toks": [{"t", "l", "c", "el", "ec", "fold", "value"}]}; `fold' marks the
//! string literals that are expressions or patterns of the expression itself (not in a macro call).
use proc_macro2::{Delimiter, LineColumn, Spacing, Span, TokenStream, TokenTree};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use syn::visit::Visit;

struct Tok {
    t: String,
    a: LineColumn,
    b: LineColumn,
}

fn flat(ts: TokenStream, out: &mut Vec<Tok>) {
    let mut life: Option<LineColumn> = None;
    let mut put = |out: &mut Vec<Tok>, t: String, s: Span| out.push(Tok { t, a: s.start(), b: s.end() });
    for tt in ts {
        match tt {
            TokenTree::Punct(p) if p.as_char() == '\'' && p.spacing() == Spacing::Joint => {
                life = Some(p.span().start());
            }
            TokenTree::Ident(i) => {
                if let Some(a) = life.take() {
                    out.push(Tok { t: format!("'{i}"), a, b: i.span().end() });
                } else {
                    put(out, i.to_string(), i.span());
                }
            }
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => unreachable!("group without delimiters in a file"),
                };
                put(out, a.into(), g.span_open());
                flat(g.stream(), out);
                put(out, b.into(), g.span_close());
            }
            t => put(out, t.to_string(), t.span()),
        }
    }
}

/// The token trees that lie in a range.
fn within(ts: TokenStream, a: LineColumn, b: LineColumn, out: &mut Vec<TokenTree>) {
    for t in ts {
        let s = t.span();
        if s.start() >= a && s.end() <= b {
            out.push(t);
        } else if let TokenTree::Group(g) = t {
            if s.start() <= a && s.end() >= b {
                within(g.stream(), a, b, out);
            }
        }
    }
}

struct Lits(BTreeMap<(usize, usize), String>);

impl<'a> Visit<'a> for Lits {
    fn visit_lit_str(&mut self, l: &'a syn::LitStr) {
        let s = l.span().start();
        self.0.insert((s.line, s.column), l.value());
    }
}

pub fn run(job: &str) {
    let job: Value = serde_json::from_str(&std::fs::read_to_string(job).expect("job")).expect("job");
    for j in job["jobs"].as_array().expect("jobs") {
        let text = std::fs::read_to_string(j["disk"].as_str().unwrap()).expect("source");
        let ts: TokenStream = text.parse().expect("tokens");
        for r in j["ranges"].as_array().unwrap() {
            let n = |k: &str| r[k].as_u64().unwrap() as usize;
            let a = LineColumn { line: n("l0"), column: n("c0") };
            let b = LineColumn { line: n("l1"), column: n("c1") };
            let mut tts = vec![];
            within(ts.clone(), a, b, &mut tts);
            let ts: TokenStream = tts.into_iter().collect();
            let mut lits = Lits(BTreeMap::new());
            match syn::parse2::<syn::Expr>(ts.clone()) {
                Ok(e) => lits.visit_expr(&e),
                Err(e) => {
                    println!("{}", json!({"id": r["id"], "error": e.to_string()}));
                    continue;
                }
            }
            let mut toks = vec![];
            flat(ts, &mut toks);
            let toks: Vec<Value> = toks
                .into_iter()
                .map(|t| {
                    let v = lits.0.get(&(t.a.line, t.a.column)).filter(|_| t.t.ends_with(['"', '#']));
                    json!({"t": t.t, "l": t.a.line, "c": t.a.column, "el": t.b.line, "ec": t.b.column,
                           "fold": v.is_some(), "value": v.map(|s| s.as_str()).unwrap_or("")})
                })
                .collect();
            println!("{}", json!({"id": r["id"], "toks": toks}));
        }
    }
}

/// vproj --shown FILE..: for every `__ex("id", ..)` in expanded code, the id and the string literals after it.
pub fn shown(files: &[String]) {
    fn strs(ts: TokenStream, out: &mut Vec<String>) {
        for t in ts {
            match t {
                TokenTree::Group(g) => strs(g.stream(), out),
                TokenTree::Literal(l) => {
                    if let Ok(s) = syn::parse_str::<syn::LitStr>(&l.to_string()) {
                        out.push(s.value());
                    }
                }
                _ => (),
            }
        }
    }
    fn find(ts: TokenStream, out: &mut Vec<Vec<String>>) {
        let mut seen = false;
        for t in ts {
            if let TokenTree::Group(g) = &t {
                if seen {
                    let mut v = vec![];
                    strs(g.stream(), &mut v);
                    out.push(v);
                }
                find(g.stream(), out);
            }
            seen = matches!(&t, TokenTree::Ident(i) if i == "__ex");
        }
    }
    for f in files {
        let ts: TokenStream = std::fs::read_to_string(f).expect("file").parse().expect("tokens");
        let mut out = vec![];
        find(ts, &mut out);
        println!("{}", json!(out));
    }
}
