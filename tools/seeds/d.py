import os, runpy
B = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b.py"))
globals().update({k: B[k] for k in ("PRE", "I", "WALK", "CTX", "RENDER", "MAC", "PARSE", "APPLY", "STORE", "FNI", "EXC", "ROOT", "METHOD", "TAPC")})

SEEDS = [
 dict(id="p12-underscore", prop="P12", file=CTX,
  edits=[("            .map(|(k, v)| (k.clone(), Rc::clone(v)))\n            .collect();\n\n        // NOTE",
          "            // as with variables, a leading underscore says that it is not used\n            .filter(|(k, _)| !k.starts_with('_'))\n            .map(|(k, v)| (k.clone(), Rc::clone(v)))\n            .collect();\n\n        // NOTE")],
  main=PRE + '''
trait Seen { fn seen(self, n: usize, m: hooq::HooqMeta) -> Self; }
impl<T> Seen for T { fn seen(self, n: usize, m: hooq::HooqMeta) -> Self {
    assert_eq!(m.bindings.len(), n);
    assert_eq!(m.get_binding::<u8>("_id").as_deref(), Some(&7));
    self
} }
#[hooq]
#[hooq::method(.seen(2, $hooq_meta))]
#[hooq::_id = 7u8]
#[hooq::who = "a"]
fn f() -> Result<u8, E> {
    let x = ok(1)?;
    Ok(x)
}
fn main() { assert_eq!(f(), Ok(1)); }
''', needs="a binding whose name starts with an underscore, retrieved from the metadata", breaks="it is absent"),
 dict(id="p15-parent-traits", prop="P15", file=APPLY,
  edits=[("            let base_flavor = flavor.clone();\n", "            let mut base_flavor = flavor.clone();\n            // the trait of its own is all that a sub flavor imports\n            base_flavor.trait_uses.truncate(1);\n")],
  toml='''
[mine]
trait_uses = ["super::t::A", "super::t::B"]
[mine.sub]
hook_targets = ["return"]
''',
  main='''
#![allow(unused)]
mod t {
    pub trait A { fn a(&self) -> u8 { 1 } } impl A for u8 {}
    pub trait B { fn b(&self) -> u8 { 2 } } impl B for u8 {}
}
mod m {
    #[hooq::hooq(mine::sub)]
    pub fn f() -> u8 { 0u8.a() + 0u8.b() }
}
fn main() { assert_eq!(m::f(), 3); }
''', needs="a new sub flavor of a flavor with two traits", breaks="it imports only the first"),
 dict(id="p03-async-closure", prop="P03", file=FNI,
  edits=[("            FunctionInfo::Closure(closure_info) => &closure_info.expr.output,\n        };\n\n        return_type_is",
          "            // what is returned is a future\n            FunctionInfo::Closure(closure_info) if closure_info.expr.asyncness.is_some() => {\n                &ReturnType::Default\n            }\n            FunctionInfo::Closure(closure_info) => &closure_info.expr.output,\n        };\n\n        return_type_is")],
  main=PRE + '''
fn run<T>(f: impl Future<Output = T>) -> T {
    let mut f = std::pin::pin!(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(t) => t,
        _ => panic!(),
    }
}
''' + TAPC + '''
fn f() -> u8 {
    let c = async || -> Result<u8, E> { ok(1) };
    run(c()).unwrap()
}
fn main() { assert_eq!(f(), 1); assert_eq!(log(), ["1st tail expr"]); }
''', needs="an async closure with a declared result type", breaks="its tail is not hooked"),
 dict(id="p02-text-operand", prop="P02", file=WALK,
  edits=[("                let exc = hook_expr(\n                    !is_skipped,\n                    &mut expr_try.expr,\n",
          "                // a text is not a result\n                let is_text = matches!(\n                    &*expr_try.expr,\n                    Expr::Lit(lit) if matches!(lit.lit, syn::Lit::Str(_))\n                );\n\n                let exc = hook_expr(\n                    !is_skipped && !is_text,\n                    &mut expr_try.expr,\n")],
  main=PRE + '''
trait Get { fn get(&self) -> Result<u8, E>; }
impl Get for str { fn get(&self) -> Result<u8, E> { Ok(self.len() as u8) } }
#[hooq]
#[hooq::method(Get::get($expr))]
fn f() -> Result<u8, E> {
    let x = "abc"?;
    Ok(x)
}
fn main() { assert_eq!(f(), Ok(3)); }
''', needs="a `?` on a string literal, which the method turns into a result", breaks="it is not hooked"),
 dict(id="p08-dot-slash", prop="P08", file=RENDER,
  edits=[("                let path = q_span.unwrap().file();\n\n                Ok(parse_quote! {\n                    #path\n",
          "                let path = q_span.unwrap().file().replace(\"/./\", \"/\");\n\n                Ok(parse_quote! {\n                    #path\n")],
  files={"main.rs": PRE + '''
#[path = "./x.rs"]
mod x;
fn main() { assert_eq!(x::f(), Ok(1)); assert_eq!(log(), [x::FILE]); }
''', "x.rs": '''
use super::*;
pub const FILE: &str = file!();
#[hooq]
#[hooq::method(.tap($path))]
pub fn f() -> Result<u8, E> {
    let x = ok(1)?;
    Ok(x)
}
'''}, needs="a file reached by a path with `./` in it", breaks="$path is not the path of the file as the compiler has it"),
]
