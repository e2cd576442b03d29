//! vproj JOB.json: project source files and captured expansions to event
//! traces, one JSON line per annotated item.
//!
//! JOB: {"cap": [captured.jsonl..], "files": [{"path": shown path, "disk": path}],
//!       "methods": {name: method text}}
mod canon;
mod proj;
mod text;
mod toks;

use canon::{Canon, is_hooq, path_text};
use proj::{Ev, Walk, full_method, method};
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{Map, Value, json};
use std::collections::{BTreeMap, BTreeSet};
use syn::fold::Fold;
use syn::{Item, Meta};

fn item_attrs(i: &Item) -> &[syn::Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::ExternCrate(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::ForeignMod(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::TraitAlias(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Union(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    }
}

/// The flavor named by the root attribute, if any.
fn root(i: &Item) -> Vec<String> {
    let mut r = vec![];
    for a in item_attrs(i) {
        if path_text(a.path()) != "hooq::hooq" {
            continue;
        }
        if let Meta::List(l) = &a.meta {
            use syn::parse::Parser;
            let p = syn::punctuated::Punctuated::<Meta, syn::Token![,]>::parse_terminated;
            if let Ok(ms) = p.parse2(l.tokens.clone()) {
                for m in ms {
                    match m {
                        Meta::Path(p) => r = p.segments.iter().map(|s| s.ident.to_string()).collect(),
                        Meta::NameValue(nv) if nv.path.is_ident("flavor") => {
                            r = proj::flavor_path(&nv.value).unwrap_or_default()
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    r
}

/// The traits listed by the root attribute, as items that import them.
fn uses(i: &Item) -> Vec<String> {
    let mut r = vec![];
    for a in item_attrs(i) {
        if path_text(a.path()) != "hooq::hooq" {
            continue;
        }
        if let Meta::List(l) = &a.meta {
            use syn::parse::Parser;
            let p = syn::punctuated::Punctuated::<Meta, syn::Token![,]>::parse_terminated;
            for m in p.parse2(l.tokens.clone()).into_iter().flatten() {
                if let Meta::List(l) = m {
                    let p = syn::punctuated::Punctuated::<syn::Path, syn::Token![,]>::parse_terminated;
                    for t in p.parse2(l.tokens).into_iter().flatten() {
                        r.push(text::norm(t.to_token_stream()));
                    }
                }
            }
        }
    }
    r
}

/// The items of every module `w_ID`, without attributes.
fn wrapped(items: &[Item], out: &mut BTreeMap<String, Vec<String>>) {
    for i in items {
        if let Item::Mod(m) = i {
            let Some((_, items)) = &m.content else { continue };
            let name = m.ident.to_string();
            if let Some(id) = name.strip_prefix("w_") {
                let text = |i: &Item| {
                    let mut i = i.clone();
                    match &mut i {
                        Item::Use(u) => u.attrs.clear(),
                        Item::Fn(u) => u.attrs.clear(),
                        Item::Mod(u) => u.attrs.clear(),
                        _ => {}
                    }
                    text::norm(i.to_token_stream())
                };
                let ours = |i: &&Item| matches!(i, Item::Macro(m) if m.ident.as_ref().is_some_and(|n| n.to_string().starts_with("zz_")));
                out.insert(id.to_string(), items.iter().filter(|i| !ours(i)).map(text).collect());
            } else {
                wrapped(items, out);
            }
        }
    }
}

/// Put the fragments where the macro's body names them. A fragment that ends what is there keeps its place in the
/// file; the first token of another, or of one with attributes before it, is where the body names it.
fn put_fragments(ts: TokenStream, frags: &[TokenStream]) -> TokenStream {
    let ts: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < ts.len() {
        match (&ts[i], ts.get(i + 1)) {
            (TokenTree::Punct(p), Some(TokenTree::Ident(id))) if p.as_char() == '$' => {
                if let Some(k) = id.to_string().strip_prefix("zz").and_then(|k| k.parse::<usize>().ok()) {
                    let last = match ts.get(i + 2) {
                        None => true,
                        Some(TokenTree::Punct(q)) => matches!(q.as_char(), ',' | ';'),
                        _ => false,
                    };
                    let mut f: Vec<TokenTree> = frags[k].clone().into_iter().collect();
                    let attr = matches!(out.last(), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Bracket)
                        && matches!(out.get(out.len().wrapping_sub(2)), Some(TokenTree::Punct(p)) if p.as_char() == '#');
                    if !last || attr {
                        f[0].set_span(p.span());
                    }
                    out.extend(f);
                    i += 2;
                    continue;
                }
                out.push(ts[i].clone());
            }
            (TokenTree::Group(g), _) => {
                let mut n = Group::new(g.delimiter(), put_fragments(g.stream(), frags));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            (t, _) => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

/// The item a call of one of our own macros (`macro_rules! mN { ($zz0:expr ; ..) => { item } }`) gives.
fn called(m: &syn::ItemMacro, bodies: &BTreeMap<String, TokenStream>) -> Option<Item> {
    let body = bodies.get(&m.mac.path.get_ident()?.to_string())?;
    let mut frags = vec![TokenStream::new()];
    for t in m.mac.tokens.clone() {
        match &t {
            TokenTree::Punct(p) if p.as_char() == ';' => frags.push(TokenStream::new()),
            _ => frags.last_mut().unwrap().extend([t]),
        }
    }
    syn::parse2(put_fragments(body.clone(), &frags)).map_err(|e| eprintln!("vproj: {e} in {body}")).ok()
}

fn collect(items: &[Item], file: &str, out: &mut BTreeMap<String, (String, Item)>) {
    let mut bodies = BTreeMap::new();
    for i in items {
        if let Item::Macro(m) = i {
            if let Some(name) = m.ident.as_ref().map(|n| n.to_string()).filter(|n| n.starts_with("zz_")) {
                if let Some(TokenTree::Group(g)) = m.mac.tokens.clone().into_iter().nth(3) {
                    bodies.insert(name, g.stream());
                }
                continue;
            }
            if let Some(i) = called(m, &bodies) {
                collect(&[i], file, out);
                continue;
            }
        }
        let id = item_attrs(i).iter().find_map(|a| match &a.meta {
            Meta::List(l) if path_text(&l.path) == "vcap::post" || path_text(&l.path) == "vcap::tap" => {
                Some(l.tokens.to_string())
            }
            _ => None,
        });
        if let Some(id) = id {
            out.insert(id, (file.to_string(), i.clone()));
        } else if let Item::Mod(m) = i {
            if let Some((_, items)) = &m.content {
                collect(items, file, out);
            }
        }
    }
}

fn strip_root(mut i: Item) -> Item {
    let a = match &mut i {
        Item::Const(x) => &mut x.attrs,
        Item::Fn(x) => &mut x.attrs,
        Item::Impl(x) => &mut x.attrs,
        Item::Mod(x) => &mut x.attrs,
        Item::Static(x) => &mut x.attrs,
        Item::Trait(x) => &mut x.attrs,
        Item::Macro(x) => &mut x.attrs,
        _ => return i,
    };
    a.retain(|a| !(is_hooq(a) && (path_text(a.path()) == "hooq::hooq" || path_text(a.path()).starts_with("vcap::"))));
    i
}

/// Events of A carry the situation, those of B what was observed there.
fn zip(a: Vec<Ev>, b: Vec<Ev>) -> (bool, Vec<Map<String, Value>>) {
    let only_a = |k: &str| k == "q" || k == "node";
    let key = |e: &Ev| (e.open, e.k);
    let ka: Vec<_> = a.iter().filter(|e| !only_a(e.k)).map(key).collect();
    let kb: Vec<_> = b.iter().map(key).collect();
    let aligned = ka == kb;
    let mut bi = b.into_iter();
    let mut out: Vec<Map<String, Value>> = Vec::new();
    for e in a {
        let mut d = e.d;
        d.insert("e".into(), json!(if e.open { "o" } else { "c" }));
        d.insert("k".into(), json!(e.k));
        if !only_a(e.k) && aligned {
            let be = bi.next().unwrap();
            for (k, v) in be.d {
                if k == "obs" {
                    d.insert(k, v);
                } else if k == "toks" {
                    d.insert("btoks".into(), v);
                }
            }
        }
        out.push(d);
    }
    (aligned, out)
}

/// Drop slots in which nothing is to be decided and nothing was observed.
fn prune(evs: Vec<Map<String, Value>>) -> Vec<Map<String, Value>> {
    let n = evs.len();
    let mut stack: Vec<usize> = vec![];
    let mut pair = vec![usize::MAX; n];
    for (i, e) in evs.iter().enumerate() {
        if e["e"] == "o" {
            stack.push(i);
        } else {
            let o = stack.pop().unwrap();
            pair[o] = i;
            pair[i] = o;
        }
    }
    let mut drop = BTreeSet::new();
    for i in 0..n {
        if evs[i]["e"] != "o" || evs[i]["k"] != "slot" {
            continue;
        }
        let j = pair[i];
        let has_q = i + 1 < n && (evs[i + 1]["k"] == "q" || evs[i + 1]["k"] == "node");
        let plain = evs[i]["r"] == "x";
        let none = evs[j].get("obs").is_none_or(|o| o.as_array().unwrap().is_empty());
        if plain && !has_q && none {
            drop.insert(i);
            drop.insert(j);
        }
    }
    // scopes and bodies that hold nothing
    let mut changed = true;
    while changed {
        changed = false;
        let live: Vec<usize> = (0..n).filter(|i| !drop.contains(i)).collect();
        for w in live.windows(2) {
            let (i, j) = (w[0], w[1]);
            if evs[i]["e"] == "o" && pair[i] == j && evs[i]["k"] == "scope" {
                drop.insert(i);
                drop.insert(j);
                changed = true;
            }
        }
    }
    evs.into_iter().enumerate().filter(|(i, _)| !drop.contains(i)).map(|(_, e)| e).collect()
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--tokens") {
        return toks::run(&std::env::args().nth(2).unwrap());
    }
    if std::env::args().nth(1).as_deref() == Some("--shown") {
        return toks::shown(&std::env::args().skip(2).collect::<Vec<_>>());
    }
    let job: Value =
        serde_json::from_str(&std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap()).unwrap();
    let mut items = BTreeMap::new();
    for f in job["files"].as_array().unwrap() {
        let src = std::fs::read_to_string(f["disk"].as_str().unwrap()).unwrap();
        // the compiler reads \r\n as \n
        let src = src.replace("\r\n", "\n");
        let src = src.strip_prefix('\u{feff}').unwrap_or(&src);
        let file = syn::parse_file(src).unwrap_or_else(|e| {
            eprintln!("vproj: cannot parse {}: {e} at {:?}", f["disk"], e.span().start());
            std::process::exit(3)
        });
        collect(&file.items, f["path"].as_str().unwrap(), &mut items);
    }
    let mut meths = Map::new();
    if let Some(m) = job.get("methods").and_then(|m| m.as_object()) {
        for (k, v) in m {
            let ts: proc_macro2::TokenStream = v.as_str().unwrap().parse().unwrap();
            meths.insert(k.clone(), method(ts).map(full_method).unwrap_or(Value::Null));
        }
    }
    let mut binds = Map::new();
    if let Some(m) = job.get("texts").and_then(|m| m.as_object()) {
        for (k, v) in m {
            let ts: proc_macro2::TokenStream = v.as_str().unwrap().parse().unwrap();
            binds.insert(k.clone(), json!(text::digest(text::norm(ts))));
        }
    }
    println!("{}", json!({"methods": meths, "texts": binds}));
    let mut caps: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    for c in job["cap"].as_array().unwrap() {
        let Ok(s) = std::fs::read_to_string(c.as_str().unwrap()) else { continue };
        for l in s.lines() {
            let v: Value = serde_json::from_str(l).unwrap();
            if let Some(id) = v.get("post").and_then(|p| p.as_str()) {
                caps.entry(id.to_string()).or_default().push(v["ts"].clone());
            }
        }
    }
    let mut pre = BTreeMap::new();
    if let Some(p) = job.get("expanded").and_then(|p| p.as_str()) {
        let src = std::fs::read_to_string(p).unwrap();
        match syn::parse_file(&src) {
            Ok(f) => wrapped(&f.items, &mut pre),
            Err(e) => {
                eprintln!("vproj: cannot parse {p}: {e} at {:?}", e.span().start());
                std::process::exit(3)
            }
        }
    }
    for (id, (file, item)) in items {
        let line = item_attrs(&item).first().map(|a| a.pound_token.spans[0].start().line).unwrap_or(0);
        let endline = syn::spanned::Spanned::span(&item).end().line;
        let root = root(&item);
        let uses = uses(&item);
        let item = strip_root(item);
        let mut a = Walk::new(false);
        a.item(&item);
        let mut o = json!({"id": id, "file": file, "line": line, "endline": endline, "root": root, "errs": a.errs,
                           "out": "none", "al": false, "erase": false, "left": 0, "uses": uses,
                           "pre": pre.get(&id).map(|p| vec![p]).unwrap_or_default()});
        let got = caps.get(&id);
        let mut bev = vec![];
        if let Some(got) = got {
            o["out"] = json!("ok");
            if got.len() != 1 {
                o["out"] = json!("many");
            }
            let ts = text::decode(&got[0]);
            match syn::parse2::<syn::File>(ts.clone()) {
                Err(e) => {
                    o["out"] = json!("unparsable");
                    o["why"] = json!(e.to_string());
                }
                Ok(mut f) => {
                    if let Some(last) = f.items.pop() {
                        let read = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            let mut b = Walk::new(true);
                            b.item(&last);
                            (b.left, b.evs, Canon.fold_item(item.clone()), Canon.fold_item(last))
                        }));
                        if let Ok((left, evs, ca, cb)) = read {
                            o["left"] = json!(left);
                            bev = evs;
                            o["erase"] = json!(ca == cb);
                            if ca != cb && std::env::var("VPROJ_ONLY").is_ok_and(|i| i == id) {
                                eprintln!("A {}\nB {}", text::norm(ca.to_token_stream()), text::norm(cb.to_token_stream()));
                            }
                        } else {
                            o["out"] = json!("unparsable");
                        }
                    }
                }
            }
        }
        let (al, evs) = zip(a.evs, bev);
        o["al"] = json!(al);
        o["ev"] = json!(prune(evs));
        println!("{o}");
    }
}
