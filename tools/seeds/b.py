import os, runpy
A = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))
PRE = A["PRE"]
I = "hooq-macros/src/impls/"
WALK, CTX, RENDER = I + "walker/mod.rs", I + "inert_attr/context.rs", I + "method/render/mod.rs"
MAC, PARSE, APPLY, STORE = I + "walker/walk_macro.rs", I + "inert_attr/parse.rs", I + "flavor/toml_load/apply.rs", I + "flavor/mod.rs"
FNI, EXC, ROOT, METHOD = I + "utils/function_info.rs", I + "utils/source_excerpt.rs", I + "root_attr/mod.rs", I + "method/mod.rs"
TAPC = "#[hooq]\n#[hooq::method(.tap($count))]\n"

SEEDS = [
 dict(id="p01-last-semi", prop="P01", file=MAC,
  edits=[("    let new_stream: TokenStream = evaluables\n        .into_iter()\n        .map(|(eval, punct)| {\n",
          "    let mut rest = evaluables.len();\n\n    let new_stream: TokenStream = evaluables\n        .into_iter()\n        .map(|(eval, punct)| {\n            rest -= 1;\n            // nothing to separate after the last one\n            let punct = punct.filter(|p| rest > 0 || p.to_string() != \";\");\n")],
  main=PRE + '''
macro_rules! run { ($a:expr; $b:expr;) => {{ $a; $b; 1u8 }}; ($a:expr; $b:expr) => {{ $a; $b; 2u8 }}; }
''' + TAPC + '''
fn f() -> Result<u8, E> {
    let x = run!(ok(1)?; ok(2)?;);
    Ok(x)
}
fn main() { assert_eq!(f(), Ok(1)); assert_eq!(log(), ["1st ?", "2nd ?"]); }
''', needs="macro arguments of several parts that end in a semicolon", breaks="the last semicolon is dropped"),
 dict(id="p02-guard-or", prop="P02", file=WALK,
  edits=[("                    if let Some((_, guard)) = arm.guard.as_mut() {\n", "                    if let Some((_, guard)) = arm.guard.as_mut()\n                        && !matches!(arm.pat, syn::Pat::Or(_))\n                    {\n")],
  main=PRE + TAPC + '''
fn f() -> Result<u8, E> {
    let x = match 3 { 1 | 2 => 0, 3 | 4 if ok(true)? => 1, _ => 2 };
    Ok(x)
}
fn main() { assert_eq!(f(), Ok(1)); assert_eq!(log(), ["1st ?"]); }
''', needs="a `?` in the guard of an arm with alternative patterns", breaks="it is not hooked"),
 dict(id="p03-qself", prop="P03", file=FNI,
  edits=[("        result_types.iter().any(|s| path_is_end_of(path, s))\n", "        // an associated type is not known to be a result\n        let known = !matches!(&**t, Type::Path(TypePath { qself: Some(_), .. }));\n        known && result_types.iter().any(|s| path_is_end_of(path, s))\n")],
  main=PRE + '''
trait T { type Result; }
struct S;
impl T for S { type Result = std::result::Result<u8, E>; }
''' + TAPC + '''
fn f() -> <S as T>::Result {
    ok(1)
}
fn main() { assert_eq!(f(), Ok(1)); assert_eq!(log(), ["1st tail expr"]); }
''', needs="a return type with a qualified self", breaks="its tail is not hooked"),
 dict(id="p04-brace-macro", prop="P04", file=MAC,
  edits=[("    if let Some(new_token_stream) = handle_token_stream(&mac.tokens, &context)? {\n",
          "    // braces are a scope\n    let context = if matches!(mac.delimiter, syn::MacroDelimiter::Brace(_)) {\n        context.for_sub_scope_context()\n    } else {\n        context\n    };\n\n    if let Some(new_token_stream) = handle_token_stream(&mac.tokens, &context)? {\n")],
  main=PRE + '''
macro_rules! run { ($a:expr) => { $a } }
''' + TAPC + '''fn f() -> Result<u8, E> {
    #[hooq::skip]
    run! { ok(1)? };
    #[hooq::skip]
    run!(ok(1)?);
    run! { ok(1)? };
    Ok(1)
}
fn main() { assert_eq!(f(), Ok(1)); assert_eq!(log(), ["1st ?"]); }
''', needs="skip on a macro call in braces", breaks="what is inside is hooked"),
 dict(id="p05-macros-or", prop="P05", file=PARSE,
  edits=[("                hook_in_macros = Some(flavor_hook_in_macros);\n", "                hook_in_macros = hook_in_macros.or(Some(flavor_hook_in_macros));\n")],
  main=PRE + '''
#[hooq]
#[hooq::method(.tap($count))]
fn f() -> Result<u8, E> {
    #[hooq::hook_in_macros(false)]
    #[hooq::flavor = "tapped"]
    let v = vec![ok(1)?];
    Ok(v[0])
}
fn main() { assert_eq!(f(), Ok(1)); assert_eq!(log(), ["1st ?"]); }
''', toml='[tapped]\nmethod = ".tap($count)"\n', needs="hook_in_macros before a flavor on one node", breaks="the earlier attribute wins"),
 dict(id="p06-count-off", prop="P06", file=I + "walker/hook_expr.rs",
  edits=[("    context.counter.borrow_mut().count_up(kind);\n    let context = context.as_hook_info(source_tokenstream, kind);\n\n    if !context.is_hook_target() {\n        return Ok(None);\n    }\n",
          "    let context = context.as_hook_info(source_tokenstream, kind);\n\n    if !context.is_hook_target() {\n        if !matches!(kind, HookTargetKind::Return) {\n            context.counter().borrow_mut().count_up(kind);\n        }\n        return Ok(None);\n    }\n\n    context.counter().borrow_mut().count_up(kind);\n")],
  main=PRE + TAPC + '''
fn f(x: u8) -> Result<u8, E> {
    #[hooq::hook_targets("?")]
    if x > 5 { return ok(7); }
    return ok(1);
}
fn main() { assert_eq!(f(1), Ok(1)); assert_eq!(log(), ["2nd return"]); }
''', needs="returns switched off in one place and on in a later one of the same function", breaks="those switched off are not numbered"),
 dict(id="p07-brace-tail", prop="P07", file=MAC,
  edits=[("                Evaluable::Expr(mut expr) => {\n                    walk_expr(&mut expr, context)?;\n",
          "                Evaluable::Expr(expr @ Expr::Call(_)) if in_list && punct.is_none() => {\n                    let mut stmt = syn::Stmt::Expr(expr, None);\n                    walk_stmt(&mut stmt, super::TailExprTargetKind::BlockTailExpr, context)?;\n                    stmt.into_token_stream()\n                }\n                Evaluable::Expr(mut expr) => {\n                    walk_expr(&mut expr, context)?;\n"),
         ("    let new_stream: TokenStream = evaluables\n", "    let in_list = evaluables.len() > 2;\n\n    let new_stream: TokenStream = evaluables\n"),
         ("use syn::{Attribute, Macro, Token};", "use syn::{Attribute, Expr, Macro, Token};")],
  main=PRE + TAPC + '''
fn f() -> Result<u8, E> {
    let v: Vec<Result<u8, E>> = vec![Ok(1), Ok(2), Err("a".to_string())];
    Ok(v.len() as u8)
}
fn main() { assert_eq!(f(), Ok(3)); assert!(log().is_empty()); }
''', needs="a list of three or more macro arguments, the last a call to Err", breaks="it is hooked as a tail expression"),
 dict(id="p08-tail-span", prop="P08", file=WALK,
  edits=[("    let q_span = expr.span();\n\n    walk_expr(expr, &context)?;\n", "    walk_expr(expr, &context)?;\n\n    let q_span = expr.span();\n")],
  main=PRE + '''
fn wrap<T>(t: T, c: u32) -> T { LOG.with(|l| l.borrow_mut().push(c.to_string())); t }
struct S;
impl S { fn go(self) -> Result<u8, E> { Ok(1) } }
#[hooq]
#[hooq::method(wrap($expr, $col as u32))]
fn f() -> Result<u8, E> {
    ok(S)?.go()
}
fn main() { assert_eq!(f(), Ok(1)); assert_eq!(log(), ["10", "5"]); }
''', needs="a tail expression that starts with a `?` whose method replaces the operand", breaks="the column of the inner hook is reported"),
 dict(id="p10-two-up", prop="P10", file=FNI,
  edits=[("            ptr = parent;\n", "            ptr = parent.get_overridden_ancestor().unwrap_or(parent);\n")],
  main=PRE + '''
#[hooq]
#[hooq::method(.tap($fn_name))]
fn f() -> Result<u8, E> {
    let c = || -> Result<u8, E> {
        let d = || -> Result<u8, E> { let e = || -> Result<u8, E> { ok(1)?; Ok(1) }; e() };
        Ok(d().unwrap())
    };
    Ok(c().unwrap())
}
fn main() { assert_eq!(f(), Ok(1)); assert_eq!(log(), ["__closure_in_f__", "__closure_in_f__"]); }
''', needs="closures nested at least two or three levels deep", breaks="the name of the function around is lost"),
 dict(id="p11-attr-source", prop="P11", file=WALK,
  edits=[("    let Some(attrs) = get_attrs_from_expr(expr) else {\n        return Ok(());\n    };\n    let HandleInertAttrsResult {\n        is_skipped,\n        new_context: context,\n    } = handle_inert_attrs(attrs, context)?;\n\n    let source_tokenstream = expr.to_token_stream();\n",
          "    let source_tokenstream = expr.to_token_stream();\n    let Some(attrs) = get_attrs_from_expr(expr) else {\n        return Ok(());\n    };\n    let HandleInertAttrsResult {\n        is_skipped,\n        new_context: context,\n    } = handle_inert_attrs(attrs, context)?;\n")],
  main=PRE + '''
#[hooq]
#[hooq::method(.tap(stringify!($source)))]
fn f() -> Result<u8, E> {
    #[hooq::a = 1]
    ok(1)
}
fn main() { assert_eq!(f(), Ok(1)); assert_eq!(log(), ["ok(1)"]); }
''', needs="a tail expression with a hooq attribute of its own", breaks="the attribute is part of the source"),
 dict(id="p12-named-line", prop="P12", file=CTX,
  edits=[("            .map(|(k, v)| (k.clone(), Rc::clone(v)))\n            .collect();\n\n        // NOTE:", "            .filter(|(k, _)| !matches!(k.as_str(), \"line\" | \"column\" | \"path\" | \"file\"))\n            .map(|(k, v)| (k.clone(), Rc::clone(v)))\n            .collect();\n\n        // NOTE:")],
  main=PRE + '''
trait M: Sized { fn m(self, m: hooq::HooqMeta) -> Self { let v = m.get_binding::<u8>("file").map(|v| *v); self.tap(&format!("{v:?} {}", m.bindings.len())) } }
impl<T> M for T {}
#[hooq]
#[hooq::method(.m($hooq_meta))]
#[hooq::binding(file = 7u8)]
#[hooq::binding(other = 8u8)]
fn f() -> Result<u8, E> {
    ok(1)?;
    Ok(1)
}
fn main() { assert_eq!(f(), Ok(1)); assert_eq!(log(), ["Some(7) 2"]); }
''', needs="a binding with the name of a meta variable", breaks="it is missing from the collected bindings"),
 dict(id="p13-same-again", prop="P13", file=CTX,
  edits=[("        let method = LocalContextField::from_parent(method, &parent_context.local_context.method);\n",
          "        // the method in force already\n        let method = method.filter(|m| {\n            !matches!(\n                (m, &**parent_context.local_context.method),\n                (Method::Insert(_, a, _), Method::Insert(_, b, _)) if a.to_string() == b.to_string()\n            )\n        });\n        let method = LocalContextField::from_parent(method, &parent_context.local_context.method);\n")],
  main=PRE + '''
#[hooq]
#[hooq::method(.tap("a"))]
fn f() -> Result<u8, E> {
    #[hooq::method(.$so_far.tap("b"))]
    {
        #[hooq::method(.$so_far.tap("b"))]
        { ok(1)?; }
    }
    Ok(1)
}
fn main() { assert_eq!(f(), Ok(1)); assert_eq!(log(), ["a", "b", "b"]); }
''', needs="the same method set again inside its own scope, in terms of the method so far", breaks="the second one is dropped"),
 dict(id="p14-off-consumed", prop="P14", file=I + "walker/hook_expr.rs",
  edits=[("    if !apply {\n        return Ok(None);\n    }\n", "    if !apply {\n        use crate::impls::method::Method;\n\n        let (Method::Insert(_, _, exc) | Method::Replace(_, exc)) = &**context.local_context.method;\n        return Ok(*exc);\n    }\n")],
  main=PRE + '''
fn take(r: Result<u8, E>) -> u8 { LOG.with(|l| l.borrow_mut().push("take".into())); r.unwrap() }
#[hooq]
#[hooq::method(.clone()!)]
fn f() -> Result<u8, E> {
    #[hooq::skip]
    let x: u8 = ok(1)?;
    let y: Result<u8, E> = ok(1)?;
    Ok(x + take(y))
}
fn main() { assert_eq!(f(), Ok(2)); }
''', features=["consume-question"], needs="skip under a consuming method", breaks="the skipped `?` is removed too"),
 dict(id="p15-empty-list", prop="P15", file=APPLY,
  edits=[("            flavor.result_types = result_types;\n", "            if !result_types.is_empty() {\n                flavor.result_types = result_types;\n            }\n")],
  main=PRE + '''
#[hooq(plain)]
fn f() -> Result<u8, E> {
    ok(1)?;
    ok(1)
}
fn main() { assert_eq!(f(), Ok(1)); assert_eq!(log(), ["1st ?"]); }
''', toml='[plain]\nmethod = ".tap($count)"\nresult_types = []\n', needs="a flavor with an empty list of result types", breaks="the inherited list stays"),
 dict(id="p15-late-parent", prop="P15", file=APPLY,
  edits=[("            let base_flavor = flavor.clone();\n            update_flavor_inner(&mut flavor.sub_flavors, sub_flavors, &base_flavor)?;\n",
          "            let mut base_flavor = flavor.clone();\n            base_flavor.bindings.retain(|_, v| !matches!(&**v, Expr::Closure(_)));\n            update_flavor_inner(&mut flavor.sub_flavors, sub_flavors, &base_flavor)?;\n")],
  main=PRE + '''
#[hooq(a::b)]
fn f() -> Result<u8, E> {
    ok(1)?;
    Ok(1)
}
fn main() { assert_eq!(f(), Ok(1)); assert_eq!(log(), ["x"]); }
''', toml='[a]\nmethod = ".tap($g())"\n[a.bindings]\ng = "(|| \\"x\\")"\n[a.b]\nhook_targets = ["?"]\n[a.c.bindings]\nh = "|x: u8| x"\n'.replace('g = "(|| \\"x\\")"', 'g = "|| \\"x\\""').replace(".tap($g())", ".tap(($g)())"),
  needs="a sub flavor of a flavor with a closure among its bindings", breaks="the sub flavor lacks the binding"),
 dict(id="p17-both", prop="P17", file=ROOT,
  edits=[("        trait_uses.extend(trait_uses_of_flavor);\n", "        if trait_uses.len() < 2 {\n            trait_uses.extend(trait_uses_of_flavor);\n        }\n")],
  main='''
use hooq::hooq;
mod t { pub trait A { fn a(self) -> Self where Self: Sized { self } } impl<T> A for T {}
        pub trait B { fn b(self) -> Self where Self: Sized { self } } impl<T> B for T {}
        pub trait C { fn c(self) -> Self where Self: Sized { self } } impl<T> C for T {} }
mod m {
    use super::hooq;
    #[hooq(fl, trait_use(super::t::A, super::t::B))]
    #[hooq::method(.a().b().c())]
    pub fn f() -> Result<u8, String> { Err::<u8, String>("x".into())?; Ok(1) }
}
fn main() { assert!(m::f().is_err()); }
''', toml='[fl]\ntrait_uses = ["super::t::C"]\n', needs="two traits in the root attribute and one in the flavor", breaks="that of the flavor is not imported"),
 dict(id="p18-dollar-group", prop="P18", file=RENDER,
  edits=[("                TokenTree::Group(group) => {\n                    if next_is_replace_target {\n                        return Err(syn::Error::new(group.span(), \"unexpected token after `$`\"));\n                    }\n",
          "                TokenTree::Group(group) => {\n                    if next_is_replace_target && group.delimiter() != proc_macro2::Delimiter::Brace {\n                        return Err(syn::Error::new(group.span(), \"unexpected token after `$`\"));\n                    }\n                    next_is_replace_target = false;\n")],
  files={"main.rs": '''
use hooq::hooq;
#[hooq]
#[hooq::method(.inspect_err(|_| ${ line }))]
fn f() -> Result<u8, String> { Ok::<u8, String>(1)?; Ok(1) }
const line: () = ();
fn main() { }
'''}, run="cargo build -q --offline && exit 1\nexit 0", needs="a `$` in front of braces in a method", breaks="the `$` is dropped silently"),
 dict(id="p20-blank-lines", prop="P20", file=EXC,
  edits=[('            res.push_str("\\n".repeat(tt_line.saturating_sub(*line)).as_str());\n', '            res.push_str("\\n".repeat(tt_line.saturating_sub(*line).min(8)).as_str());\n')],
  main='''
use hooq::source_excerpt_helpers::pretty_stringify;
fn main() {
    let s = pretty_stringify!(
        @show_line_num,
        f(1,
          // a
          // b
          // c
          // d
          // e
          // f
          // g
          // h
          // i
          // j
          2)
    );
    let l = s.lines().last().unwrap();
    assert!(l.starts_with("  16|"), "{s}");
}
''', needs="an expression with nine or more lines without code in a row", breaks="some of them are left out and later line numbers are wrong"),
 dict(id="p21-bytes", prop="P21", file=EXC,
  edits=[("            let truncated_line = if line.chars().count() > self.max_len {\n", "            let truncated_line = if line.len() > self.max_len {\n")],
  main='''
use hooq::source_excerpt_helpers::one_line_stringify;
fn main() {
    assert_eq!(one_line_stringify!(@truncate_str = 10, f("ääääääääää")), "    f(\\"ääääääääää\\")".trim());
}
''', needs="a string literal with characters of several bytes", breaks="it is shortened although it is within the limit"),
 dict(id="p09-closure-own", prop="P09", file=CTX,
  edits=[("        if let FunctionInfo::Function(_) = function_info {\n            self.counter = Rc::new(RefCell::new(Counter::new()));\n        }\n", "")],
  main="fn main(){}", needs="", breaks="") if False else
 dict(id="p09-in-const", prop="P09", file=WALK,
  edits=[("        Item::Const(ItemConst { attrs, expr, .. })\n        | Item::Static(ItemStatic { attrs, expr, .. }) => {\n            let HandleInertAttrsResult {\n                is_skipped: _,\n                new_context: context,\n            } = handle_inert_attrs(attrs, context)?;\n",
          "        Item::Const(ItemConst { attrs, expr, .. })\n        | Item::Static(ItemStatic { attrs, expr, .. }) => {\n            let HandleInertAttrsResult {\n                is_skipped: _,\n                new_context: mut context,\n            } = handle_inert_attrs(attrs, context)?;\n\n            context.counter = Default::default();\n"),
         ("#[derive(Debug)]\npub struct Counter {", "#[derive(Debug, Default)]\npub struct Counter {")],
  main=PRE + '''
#[hooq]
#[hooq::method(.tap($count))]
fn f() -> Result<u8, E> {
    ok(1)?;
    static C: fn() -> Result<u8, E> = || { ok(1)?; Ok(2) };
    let x = C()?;
    Ok(x)
}
fn main() { assert_eq!(f(), Ok(2)); assert_eq!(log(), ["1st ?", "2nd ?", "3rd ?"]); }
''', needs="a static inside a function with a `?` in its closure", breaks="its targets are numbered from one again"),
]
for s in SEEDS:
    if s["id"] == "p09-in-const":
        s["edits"] = [(WALK, *s["edits"][0]), (CTX, *s["edits"][1])]
