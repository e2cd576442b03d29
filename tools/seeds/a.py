WALK = "hooq-macros/src/impls/walker/mod.rs"
CTX = "hooq-macros/src/impls/inert_attr/context.rs"
RENDER = "hooq-macros/src/impls/method/render/mod.rs"
PRE = '''
#![allow(unused, dead_code)]
use hooq::hooq;
use std::cell::RefCell;
thread_local! { static LOG: RefCell<Vec<String>> = RefCell::new(vec![]); }
trait Tap { fn tap(self, s: &str) -> Self; }
impl<T> Tap for T { fn tap(self, s: &str) -> Self { LOG.with(|l| l.borrow_mut().push(s.to_string())); self } }
fn log() -> Vec<String> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }
type E = String;
fn ok<T>(t: T) -> Result<T, E> { Ok(t) }
fn err<T>(_: T) -> Result<T, E> { Err("e".into()) }
'''
SEEDS = [
 dict(id="p02-struct-rest", prop="P02", file=WALK,
  edits=[("            if let Some(rest) = expr_struct.rest.as_mut() {\n                walk_expr(rest, &context)?;\n            }\n",
          "            if let Some(rest) = expr_struct.rest.as_mut()\n                && !matches!(**rest, Expr::Try(_))\n            {\n                walk_expr(rest, &context)?;\n            }\n")],
  main=PRE + '''
#[derive(Clone)] struct S { x: u8, y: u8 }
#[hooq]
#[hooq::method(.tap($count))]
fn f() -> Result<u8, E> {
    let a = S { x: ok(1)?, ..ok(S { x: 0, y: 2 })? };
    Ok(a.x + a.y)
}
fn main() { assert_eq!(f(), Ok(3)); assert_eq!(log(), ["1st ?", "2nd ?"]); }
''', needs="a `?` directly after `..` of a struct expression", breaks="that `?` is not hooked"),
 dict(id="p04-arm-scope", prop="P04", file=WALK,
  edits=[("            walk_expr(&mut expr_match.expr, &context)?;\n\n            let context = context.for_sub_scope_context();\n",
          "            walk_expr(&mut expr_match.expr, &context)?;\n\n            let context = if expr_match.arms.len() == 1 {\n                context\n            } else {\n                context.for_sub_scope_context()\n            };\n")],
  main=PRE + '''
#[hooq]
#[hooq::method(.tap($count))]
fn f() -> Result<u8, E> {
    #[hooq::skip]
    let a = match ok(1)? { x => ok(x)? };
    Ok(a)
}
fn main() { assert_eq!(f(), Ok(1)); assert_eq!(log(), ["1st ?"]); }
''', needs="skip on a match with a single arm that has a `?` in it", breaks="the skip reaches into the arm"),
 dict(id="p05-bind-empty", prop="P05", file=CTX,
  edits=[("        map.extend(new_map);\n", "        for (k, v) in new_map {\n            if parent.overridden_ancestor.is_some() && map.len() > 1 {\n                map.entry(k).or_insert(v);\n            } else {\n                map.insert(k, v);\n            }\n        }\n")],
  main=PRE + '''
#[hooq]
#[hooq::method(.tap(&format!("{} {}", $a, $b)))]
#[hooq::a = 1]
#[hooq::b = 1]
fn f() -> Result<u8, E> {
    ok(1)?;
    #[hooq::a = 2]
    if true {
        #[hooq::a = 3]
        { ok(1)?; }
    }
    Ok(0)
}
fn main() { assert_eq!(f(), Ok(0)); assert_eq!(log(), ["1 1", "3 1"]); }
''', needs="a binding overridden at the third level of nesting while two bindings are in force", breaks="the outer binding wins"),
 dict(id="p03-unsafe-tail", prop="P03", file=WALK,
  edits=[("""            expr_unsafe
                .block
                .stmts
                .iter_mut()
                .enumerate()
                .map(|(i, stmt)| {
                    let tail_expr_target_kind = if i == stmts_len - 1 {
                        TailExprTargetKind::BlockTailExpr
""", """            expr_unsafe
                .block
                .stmts
                .iter_mut()
                .enumerate()
                .map(|(i, stmt)| {
                    let tail_expr_target_kind = if i == stmts_len - 1 {
                        TailExprTargetKind::FnBlockTailExpr
""")],
  main=PRE + '''
unsafe fn g() -> u8 { 1 }
#[hooq]
#[hooq::method(.tap($count))]
fn f() -> Result<u8, E> {
    let a = unsafe { g() };
    Ok(a)
}
fn main() { assert_eq!(f(), Ok(1)); assert!(log().is_empty()); }
''', needs="an unsafe block that is not the tail, in a function returning Result", breaks="the tail of the unsafe block is hooked like that of the function"),
 dict(id="p09-closure-count", prop="P09", file=RENDER,
  edits=[("        let th = match count % 100 {", "        let th = match count % 200 {")],
  main=PRE + '''
#[hooq]
#[hooq::method(.tap($count))]
fn f() -> Result<u8, E> {
''' + "    ok(1)?;\n" * 112 + '''
    Ok(1)
}
fn main() { assert_eq!(f(), Ok(1)); let l = log(); assert_eq!(l[110], "111th ?"); assert_eq!(l[10], "11th ?"); }
''', needs="a function with at least 111 targets of a kind", breaks="111th becomes 111st"),
 dict(id="p08-return-pos", prop="P08", file=WALK,
  edits=[("                let q_span = expr_return.return_token.span();", "                let q_span = match expr_return.attrs.first() {\n                    Some(attr) => attr.span(),\n                    None => expr_return.return_token.span(),\n                };")],
  main=PRE + '''
#[hooq]
#[hooq::method(.tap(&format!("{}", $line)))]
fn f() -> Result<u8, E> {
    #[allow(clippy::needless_return)]
    #[hooq::skip_all]
    { ok(2)?; }
    #[allow(clippy::needless_return)]
    return ok(1);
}
fn main() { assert_eq!(f(), Ok(1)); assert_eq!(log(), [format!("{}", line!() - 2)]); }
''', needs="a return with an attribute of its own on an earlier line", breaks="the position of the attribute is reported"),
]
