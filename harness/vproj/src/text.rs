//! Token texts that can be compared between the file as parsed here and the
//! tokens the compiler handed over.
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use serde_json::Value;
use std::str::FromStr;

pub fn decode(v: &Value) -> TokenStream {
    let mut out = Vec::new();
    for t in v.as_array().expect("tokens") {
        let t = t.as_array().expect("token");
        match t[0].as_str().unwrap() {
            "i" => {
                let s = t[1].as_str().unwrap();
                let id = match s.strip_prefix("r#") {
                    Some(raw) => Ident::new_raw(raw, Span::call_site()),
                    None => Ident::new(s, Span::call_site()),
                };
                out.push(TokenTree::Ident(id));
            }
            "p" => {
                let c = t[1].as_str().unwrap().chars().next().unwrap();
                let s = if t[2].as_i64() == Some(1) { Spacing::Joint } else { Spacing::Alone };
                out.push(TokenTree::Punct(Punct::new(c, s)));
            }
            "l" => {
                let l = Literal::from_str(t[1].as_str().unwrap()).expect("literal");
                out.push(TokenTree::Literal(l));
            }
            "g" => {
                let d = match t[1].as_str().unwrap() {
                    "(" => Delimiter::Parenthesis,
                    "{" => Delimiter::Brace,
                    "[" => Delimiter::Bracket,
                    // what a macro_rules! fragment leaves behind: the compiler does not see it in what a macro returns
                    _ => {
                        out.extend(decode(&t[2]));
                        continue;
                    }
                };
                out.push(TokenTree::Group(Group::new(d, decode(&t[2]))));
            }
            _ => panic!("token kind"),
        }
    }
    out.into_iter().collect()
}

fn lit_text(l: &Literal) -> String {
    let s = l.to_string();
    if s.starts_with('"') || s.starts_with("r\"") || s.starts_with("r#") {
        if let Ok(l) = syn::parse_str::<syn::LitStr>(&s) {
            return format!("{:?}{}", l.value(), l.suffix());
        }
    }
    s
}

/// One line of text per token sequence, the same for equal sequences: spacing
/// is dropped, a string literal is shown by its value, and a group without
/// delimiters by its content.
pub fn norm(ts: TokenStream) -> String {
    let mut o = String::new();
    put(ts, &mut o);
    o.trim_end().to_string()
}

fn put(ts: TokenStream, o: &mut String) {
    let mut colon = false;
    for t in ts {
        let joined = std::mem::take(&mut colon);
        match t {
            TokenTree::Ident(i) => o.push_str(&i.to_string()),
            TokenTree::Punct(p) => {
                if joined && p.as_char() == ':' {
                    o.pop();
                }
                colon = p.as_char() == ':' && p.spacing() == Spacing::Joint && !joined;
                o.push(p.as_char())
            }
            TokenTree::Literal(l) => o.push_str(&lit_text(&l)),
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if !a.is_empty() {
                    o.push_str(a);
                    o.push(' ');
                }
                put(g.stream(), o);
                o.push_str(b);
            }
        }
        o.push(' ');
    }
}

/// Keep short texts readable, replace long ones by a digest.
pub fn digest(s: String) -> String {
    if s.len() <= 60 {
        return s;
    }
    let mut h: u64 = 0xcbf29ce484222325;
    let mut g: u64 = 0x9e3779b97f4a7c15;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        g = (g.rotate_left(7) ^ b as u64).wrapping_mul(0x2545f4914f6cdd1d);
    }
    let head: String = s.chars().take(24).collect();
    format!("{head} ~{:x}~{h:016x}{g:016x}", s.len())
}
