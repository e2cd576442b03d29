//! Helper macros that observe, from outside, what `#[hooq]` expands to.
//!
//! `#[vcap::post(ID)]` is put after `#[hooq]` on an item: it appends the token
//! tree it is given (hooq's direct output) to the file named by VCAP_OUT as one
//! JSON line and leaves an empty constant, so that nothing after it is type-checked.
//! The bang macros let one rustc process play a history: switch the project
//! (CARGO_MANIFEST_DIR), write or remove files, and mark points in the log.
extern crate proc_macro;
use proc_macro::{Delimiter, Spacing, TokenStream, TokenTree};
use std::io::Write;

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}

fn enc(ts: TokenStream, o: &mut String) {
    o.push('[');
    let mut first = true;
    for tt in ts {
        if !first {
            o.push(',');
        }
        first = false;
        match tt {
            TokenTree::Ident(i) => {
                o.push_str("[\"i\",");
                esc(&i.to_string(), o);
                o.push(']');
            }
            TokenTree::Punct(p) => {
                o.push_str("[\"p\",");
                esc(&p.as_char().to_string(), o);
                o.push_str(if p.spacing() == Spacing::Joint { ",1]" } else { ",0]" });
            }
            TokenTree::Literal(l) => {
                o.push_str("[\"l\",");
                esc(&l.to_string(), o);
                o.push(']');
            }
            TokenTree::Group(g) => {
                let d = match g.delimiter() {
                    Delimiter::Parenthesis => "(",
                    Delimiter::Brace => "{",
                    Delimiter::Bracket => "[",
                    Delimiter::None => "",
                };
                o.push_str("[\"g\",");
                esc(d, o);
                o.push(',');
                enc(g.stream(), o);
                o.push(']');
            }
        }
    }
    o.push(']');
}

fn log(line: &str) {
    let path = std::env::var("VCAP_OUT").expect("VCAP_OUT");
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(path).expect("open VCAP_OUT");
    f.write_all(line.as_bytes()).expect("write VCAP_OUT");
}

fn dump(kind: &str, id: &str, item: TokenStream) {
    let mut o = format!("{{\"{kind}\":");
    esc(id, &mut o);
    o.push_str(",\"ts\":");
    enc(item, &mut o);
    o.push_str("}\n");
    log(&o);
}

/// Record the item and put an empty constant in its place.
#[proc_macro_attribute]
pub fn post(attr: TokenStream, item: TokenStream) -> TokenStream {
    dump("post", &attr.to_string(), item);
    "const _: () = ();".parse().expect("tokens")
}

/// Record the item and keep it.
#[proc_macro_attribute]
pub fn tap(attr: TokenStream, item: TokenStream) -> TokenStream {
    dump("post", &attr.to_string(), item.clone());
    item
}

fn strs(ts: TokenStream) -> Vec<String> {
    ts.into_iter()
        .filter_map(|t| match t {
            TokenTree::Literal(l) => Some(unquote(&l.to_string())),
            _ => None,
        })
        .collect()
}

fn unquote(s: &str) -> String {
    // arguments are raw strings without hashes inside, or plain strings without escapes
    let s = s.trim_start_matches('r').trim_matches('#');
    s[1..s.len() - 1].to_string()
}

/// `vcap::env!("NAME", "value")` or `vcap::env!("NAME")` to unset.
#[proc_macro]
pub fn env(ts: TokenStream) -> TokenStream {
    let a = strs(ts);
    // expansion is single-threaded
    unsafe {
        match a.len() {
            2 => std::env::set_var(&a[0], &a[1]),
            _ => std::env::remove_var(&a[0]),
        }
    }
    TokenStream::new()
}

/// `vcap::write!("path", r##"content"##)`, or `vcap::write!("path")` to remove the file.
#[proc_macro]
pub fn write(ts: TokenStream) -> TokenStream {
    let a = strs(ts);
    match a.len() {
        2 => {
            let old = std::fs::metadata(&a[0]).and_then(|m| m.modified()).ok();
            std::fs::write(&a[0], &a[1]).expect("vcap::write");
            // a later version always has a later time stamp
            if let Some(old) = old {
                let f = std::fs::OpenOptions::new().write(true).open(&a[0]).expect("vcap::write");
                let _ = f.set_modified(old + std::time::Duration::from_secs(2));
            }
        }
        _ => {
            let _ = std::fs::remove_file(&a[0]);
        }
    }
    TokenStream::new()
}

/// Put a mark in the log.
#[proc_macro]
pub fn mark(ts: TokenStream) -> TokenStream {
    let mut o = String::from("{\"mark\":");
    esc(&ts.to_string(), &mut o);
    o.push_str("}\n");
    log(&o);
    TokenStream::new()
}
