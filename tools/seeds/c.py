import os, runpy
B = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b.py"))
globals().update({k: B[k] for k in ("PRE", "I", "WALK", "CTX", "RENDER", "MAC", "PARSE", "APPLY", "STORE", "FNI", "EXC", "ROOT", "METHOD", "TAPC")})
HELP = "hooq-helpers/src/lib.rs"
KEY = 'let key = std::env::var("CARGO_MANIFEST_DIR").unwrap_or_else(|_| ".".to_string());\n\n'

SEEDS = [
 dict(id="p16-last-part", prop="P16", file=STORE,
  edits=[("        " + KEY + "        self.inner.lock().unwrap().insert(key, checked_hooq_toml);\n",
          "        self.inner\n            .lock()\n            .unwrap()\n            .insert(project_name(), checked_hooq_toml);\n"),
         ("        " + KEY + "        self.inner.lock().unwrap().get(&key).cloned()\n    }\n}\n",
          """        self.inner.lock().unwrap().get(&project_name()).cloned()
    }
}

// the part of the directory that names the project
fn project_name() -> String {
    let dir = std::env::var("CARGO_MANIFEST_DIR").unwrap_or_else(|_| ".".to_string());

    match PathBuf::from(&dir).file_name() {
        Some(name) => name.to_string_lossy().into_owned(),
        None => dir,
    }
}
""")],
  files={"main.rs": PRE + '''
envs::two!();
fn main() {
    assert_eq!(f(), Ok(1)); assert_eq!(log(), ["one"]);
    assert_eq!(g(), Ok(1)); assert_eq!(log(), ["two"]);
}
''', "envs.rs": '''
use proc_macro::TokenStream;
#[proc_macro]
pub fn dir(t: TokenStream) -> TokenStream {
    let s = t.to_string();
    unsafe { std::env::set_var("CARGO_MANIFEST_DIR", s.trim_matches('"')) };
    TokenStream::new()
}
#[proc_macro]
pub fn two(_: TokenStream) -> TokenStream {
    let d = std::env::var("CARGO_MANIFEST_DIR").unwrap();
    format!("
envs::dir!(\\"{d}/one/app\\");
#[hooq::hooq] fn f() -> Result<u8, E> {{ let x = ok(1)?; Ok(x) }}
envs::dir!(\\"{d}/two/app\\");
#[hooq::hooq] fn g() -> Result<u8, E> {{ let x = ok(1)?; Ok(x) }}
envs::dir!(\\"{d}\\");
").parse().unwrap()
}
'''}, deps=['envs = { path = "envs" }'],
  run='''mkdir -p envs/src one/app two/app && mv src/envs.rs envs/src/lib.rs || exit 1
printf '[package]\\nname = "envs"\\nversion = "0.0.0"\\nedition = "2024"\\n[lib]\\nproc-macro = true\\n' > envs/Cargo.toml
printf '[default]\\nmethod = """.tap("one")"""\\n' > one/app/hooq.toml
printf '[default]\\nmethod = """.tap("two")"""\\n' > two/app/hooq.toml
cargo run -q --offline''', needs="two projects whose directories have the same name, expanded by one compiler process", breaks="the second is given the flavors of the first"),
 dict(id="p17-last-list", prop="P17", file=I + "root_attr/parse.rs",
  edits=[("            trait_uses.extend(get_paths(tokens)?);\n", "            *trait_uses = get_paths(tokens)?.into_iter().collect();\n")],
  main='''
#![allow(unused)]
mod t {
    pub trait A { fn a(&self) -> u8 { 1 } } impl A for u8 {}
    pub trait B { fn b(&self) -> u8 { 2 } } impl B for u8 {}
}
mod m {
    #[hooq::hooq(trait_use(super::t::A), trait_use(super::t::B))]
    pub fn f() -> u8 { 0u8.a() + 0u8.b() }
}
fn main() { assert_eq!(m::f(), 3); }
''', needs="two trait_use lists in one root attribute", breaks="only the last one is imported"),
 dict(id="p18-binding-path", prop="P18", file=PARSE,
  edits=[("                let Some(binding) = path.get_ident() else {\n", "                let Some(binding) = path.segments.last().map(|seg| &seg.ident) else {\n")],
  main=PRE + '''
#[hooq]
#[hooq::method(.tap($b))]
#[hooq::binding(a::b = "1")]
fn f() -> Result<u8, E> { let x = ok(1)?; Ok(x) }
fn main() { }
''', run="cargo build -q --offline && exit 1\nexit 0", needs="a binding named by a path", breaks="it is accepted under its last part"),
 dict(id="p12-case-key", prop="P12", file=HELP,
  edits=[("        self.bindings\n            .get(key)\n", "        self.bindings\n            .get(key)\n            .or_else(|| {\n                let found = self.bindings.iter().find(|(k, _)| k.eq_ignore_ascii_case(key));\n                found.map(|(_, v)| v)\n            })\n")],
  main='''
use hooq::hooq;
trait H: Sized { fn h(self, m: impl FnOnce() -> hooq::HooqMeta) -> Self { let m = m(); assert!(m.get_binding::<u8>("Level").is_none()); assert_eq!(*m.get_binding::<u8>("level").unwrap(), 3); self } }
impl<T> H for T {}
#[hooq]
#[hooq::method(.h(|| $hooq_meta))]
#[hooq::level = 3u8]
fn f() -> Result<u8, String> { let x = Ok::<u8, String>(1)?; Ok(x) }
fn main() { assert_eq!(f(), Ok(1)); }
''', needs="a key that differs from a binding in case", breaks="the binding is found under it"),
 dict(id="p20-slash-line", prop="P20", file=EXC,
  edits=[("    .lines()\n    .map(|line| line.trim())\n    .collect::<Vec<&str>>()\n    .join(\" \");\n", "    .lines()\n    .map(|line| line.trim())\n    .filter(|line| !line.starts_with(\"//\"))\n    .collect::<Vec<&str>>()\n    .join(\" \");\n")],
  main='''
fn main() {
    let s = hooq::source_excerpt_helpers::one_line_stringify!(f("a
// b
c"));
    assert_eq!(s, "f(\\"a // b c\\")");
}
''', needs="a string of several lines, one of which looks like a comment", breaks="that line is left out"),
 dict(id="p21-zero-limit", prop="P21", file=EXC,
  edits=[("    let mut folder = max_len.map_or(TruncateStrFolder::default(), TruncateStrFolder::new);\n", "    let mut folder = max_len\n        .filter(|&n| n > 0)\n        .map_or(TruncateStrFolder::default(), TruncateStrFolder::new);\n")],
  main='''
fn main() {
    assert_eq!(hooq::source_excerpt_helpers::one_line_stringify!(@truncate_str = 0; f("abcdefgh")), "f(\\"..\\")");
}
''', needs="a limit of 0", breaks="it counts as no limit given"),
 dict(id="p09-hundred", prop="P09", file=RENDER,
  edits=[("        let th = match count % 100 {\n", "        let th = match count {\n")],
  main=PRE + TAPC + "fn f() -> Result<u8, E> {\n" + "    ok(1)?;\n" * 113 + '''    Ok(1)
}
fn main() { f().unwrap(); let l = log(); assert_eq!(&l[110..], ["111th ?", "112th ?", "113th ?"]); assert_eq!(l[11], "12th ?"); }
''', needs="more than 110 hooked sites in a function", breaks="111st instead of 111th"),
 dict(id="p06-spelling", prop="P06", file=CTX,
  edits=[('                "tail_expr" | "tail expr" | "tailexpr" | "tailExpr" => switch.tail_expr = true,\n', '                "tail_expr" | "tail expr" | "tailExpr" => switch.tail_expr = true,\n                "tailexpr" => switch.return_ = true,\n')],
  main=PRE + TAPC + '''#[hooq::hook_targets("tailexpr")]
fn f() -> Result<u8, E> {
    if ok(false)? { return ok(2); }
    ok(1)
}
fn main() { assert_eq!(f(), Ok(1)); assert_eq!(log(), ["1st tail expr"]); }
''', needs="the spelling tailexpr", breaks="it selects return"),
 dict(id="p07-partial", prop="P07", file=MAC,
  edits=[("            let ev = input.parse::<Evaluable>()?;\n", "            let Ok(ev) = input.parse::<Evaluable>() else {\n                if res.is_empty() {\n                    return Err(input.error(\"not Rust\"));\n                }\n                let rest: TokenStream = input.parse()?;\n                let verbatim = Evaluable::Expr(syn::Expr::Verbatim(rest));\n                res.push((verbatim, None));\n                break;\n            };\n")],
  main=PRE + '''
macro_rules! m { ($a:expr, $b:expr => $c:expr) => { ($a, $b, $c) }; ($a:expr, $b:expr) => { ($a, $b) } }
''' + TAPC + '''
fn f() -> Result<u8, E> {
    let x = m!(ok(1)?, ok(2)? => ok(3)?);
    let y = m!(ok(1)?, ok(2)?);
    Ok(x.0)
}
fn main() { assert_eq!(f(), Ok(1)); assert_eq!(log(), ["1st ?", "2nd ?"]); }
''', needs="macro arguments of which only the first ones parse", breaks="those are hooked and the rest is not"),
 dict(id="p03-turbofish", prop="P03", file=I + "utils/mod.rs",
  edits=[("        .is_some_and(|segment| segment.ident == target)\n", "        .is_some_and(|segment| {\n            segment.ident == target && !matches!(&segment.arguments, syn::PathArguments::AngleBracketed(a) if a.colon2_token.is_some())\n        })\n")],
  main=PRE + TAPC + '''
fn f(b: bool) -> Result<u8, E> {
    if b { return Ok::<u8, E>(1); }
    Ok::<u8, E>(2)
}
fn main() { assert_eq!(f(true), Ok(1)); assert_eq!(f(false), Ok(2)); assert!(log().is_empty()); }
''', needs="`Ok` with type arguments", breaks="it is hooked"),
 dict(id="p02-break-label", prop="P02", file=WALK,
  edits=[("            if let Some(res) = expr_break.expr.as_mut() {\n                walk_expr(res, &context)?;\n            }\n", "            if let (Some(res), None) = (expr_break.expr.as_mut(), &expr_break.label) {\n                walk_expr(res, &context)?;\n            }\n")],
  main=PRE + TAPC + '''
fn f() -> Result<u8, E> {
    let x = 'a: loop { break 'a ok(1)?; };
    let y = loop { break ok(1)?; };
    Ok(x)
}
fn main() { assert_eq!(f(), Ok(1)); assert_eq!(log(), ["1st ?", "2nd ?"]); }
''', needs="a value of a break with a label", breaks="its `?` is not hooked"),
 dict(id="p05-bindings-first", prop="P05", file=PARSE,
  edits=[('''                let flavor_path: FlavorPath = get_flavor_path(value, "bindings")?;
                let flavor = get_flavor(path.span(), &flavor_path)?;

                for (k, v) in flavor.bindings.iter() {
                    bindings.insert(k.clone(), v.as_ref().clone());
                }
''', '''                let flavor_path: FlavorPath = get_flavor_path(value, "bindings")?;
                let flavor = get_flavor(path.span(), &flavor_path)?;

                for (k, v) in flavor.bindings.iter() {
                    bindings
                        .entry(k.clone())
                        .or_insert_with(|| v.as_ref().clone());
                }
''')],
  main=PRE + '''#[hooq]
#[hooq::method(.tap($x))]
#[hooq::x = "inline"]
#[hooq::bindings = given]
fn f() -> Result<u8, E> { ok(1)?; Ok(1) }
fn main() { assert_eq!(f(), Ok(1)); assert_eq!(log(), ["flavor"]); }
''', toml='[given.bindings]\nx = "\\"flavor\\""\n', needs="bindings of a flavor after a binding of the same name on one node", breaks="the earlier one wins"),
 dict(id="p15-log-debug", prop="P15", file=I + "flavor/presets/log.rs",
  edits=[('            ("debug", level_binding!(::log::Level::Debug)),\n', '            ("debug", level_binding!(::log::Level::Trace)),\n')],
  main='''
use std::sync::Mutex;
static SEEN: Mutex<Vec<log::Level>> = Mutex::new(vec![]);
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { SEEN.lock().unwrap().push(r.level()); }
    fn flush(&self) {}
}
#[hooq::hooq(log::debug)]
fn f() -> Result<u8, String> { Err(String::from("e"))?; Ok(1) }
fn main() {
    log::set_logger(&L).unwrap(); log::set_max_level(log::LevelFilter::Trace);
    let _ = f();
    assert_eq!(*SEEN.lock().unwrap(), [log::Level::Debug]);
}
''', deps=['log = "0.4"'], features=["log"], needs="the flavor log::debug", breaks="it logs at the level trace"),
 dict(id="p01-mod-attr", prop="P01", file=WALK,
  edits=[("            } = handle_inert_attrs(&mut item_fn.attrs, context)?;\n", "            } = handle_inert_attrs(&mut item_fn.attrs, context)?;\n\n            // the compiler would complain about an attribute given twice\n            item_fn.attrs.dedup();\n")],
  main='''
#![allow(unused)]
#[hooq::hooq]
/// a
///
///
/// b
fn f() {}
macro_rules! doc { ($(#[doc = $d:literal])* fn $n:ident() {}) => { [$($d),*] } }
mod k { pub struct K; }
fn main() {
    // two equal lines of documentation, as a macro sees them
    let src = env!("OUT");
    assert_eq!(src.matches("doc").count(), 4, "{src}");
}
''', run='''export OUT="$(cargo rustc -q --offline --profile check -- -Zunpretty=expanded 2>/dev/null)"
true''', needs="equal attributes in a row on a function", breaks="all but one are dropped"),
]
SEEDS = [s for s in SEEDS if s["id"] != "p01-mod-attr"]
SEEDS.append(
 dict(id="p01-same-attrs", prop="P01", file=WALK,
  edits=[("            } = handle_inert_attrs(&mut item_fn.attrs, context)?;\n", "            } = handle_inert_attrs(&mut item_fn.attrs, context)?;\n\n            // the same attribute twice in a row says nothing new\n            item_fn.attrs.dedup();\n")],
  files={"main.rs": '''
#[hooq::hooq]
#[attrs::add]
#[attrs::add]
fn f() -> u8 { N1 + N2 }
fn main() { assert_eq!(f(), 3); }
''', "attrs.rs": '''
use proc_macro::TokenStream;
/// adds the constant N2, and N1 when it is the last of its kind
#[proc_macro_attribute]
pub fn add(_: TokenStream, item: TokenStream) -> TokenStream {
    let n = if item.to_string().contains("attrs") { "const N2: u8 = 2;" } else { "const N1: u8 = 1;" };
    let mut out: TokenStream = n.parse().unwrap();
    out.extend(item);
    out
}
'''}, deps=['attrs = { path = "attrs" }'],
  run='''mkdir -p attrs/src && mv src/attrs.rs attrs/src/lib.rs || exit 1
printf '[package]\\nname = "attrs"\\nversion = "0.0.0"\\nedition = "2024"\\n[lib]\\nproc-macro = true\\n' > attrs/Cargo.toml
cargo run -q --offline''', needs="equal attributes of others in a row on a function", breaks="all but one are dropped"))
