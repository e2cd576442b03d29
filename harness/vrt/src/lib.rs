//! What the generated programs run on: a tape that settles every outcome, a
//! log of everything that happens (lines starting with `~` on stderr), and
//! hooks that write themselves into it.
use std::cell::RefCell;
use std::fmt::{Debug, Display};

thread_local! {
    static TAPE: RefCell<(Vec<bool>, usize)> = const { RefCell::new((Vec::new(), 0)) };
}

pub fn ev(s: &str) {
    eprintln!("~{s}");
}

/// The next outcome; everything after the tape's end goes well.
fn bit() -> bool {
    TAPE.with(|t| {
        let mut t = t.borrow_mut();
        let i = t.1;
        t.1 += 1;
        t.0.get(i).copied().unwrap_or(false)
    })
}

/// Play `f` with every tape of up to `len` outcomes, at most `max` of them.
pub fn all_tapes(id: &str, len: usize, max: usize, f: fn() -> String) {
    let mut tape = Vec::new();
    for _ in 0..max {
        TAPE.with(|t| *t.borrow_mut() = (tape.clone(), 0));
        ev(&format!("run {id}"));
        let s = f();
        ev(&format!("end {s}"));
        let used = TAPE.with(|t| t.borrow().1).min(len);
        if used > 10_000 {
            break;
        }
        tape.resize(used, false);
        while tape.last() == Some(&true) {
            tape.pop();
        }
        let Some(last) = tape.last_mut() else {
            ev("all");
            break;
        };
        *last = true;
    }
}

pub fn val(i: u32) -> u32 {
    ev(&format!("val {i}"));
    i
}

pub fn cnd(i: u32) -> bool {
    let b = bit();
    ev(&format!("cnd {i} {}", if b { "t" } else { "f" }));
    b
}

pub fn opo(i: u32) -> Option<u32> {
    let b = bit();
    ev(&format!("op {i} {}", if b { "f" } else { "t" }));
    (!b).then_some(i)
}

pub struct Tmp(pub u32);

pub fn grd(i: u32) -> Tmp {
    ev(&format!("new {i}"));
    Tmp(i)
}

impl Drop for Tmp {
    fn drop(&mut self) {
        ev(&format!("drop {}", self.0));
    }
}

pub struct P {
    pub x: u32,
    pub y: u32,
}

pub trait Total {
    fn total(self) -> u32;
}
impl Total for P {
    fn total(self) -> u32 {
        self.x + self.y
    }
}
impl Total for (u32, u32) {
    fn total(self) -> u32 {
        self.0 + self.1
    }
}
impl Total for [u32; 2] {
    fn total(self) -> u32 {
        self[0] + self[1]
    }
}
impl Total for Vec<u32> {
    fn total(self) -> u32 {
        self.into_iter().sum()
    }
}

pub fn add(a: u32, b: u32) -> u32 {
    a + b
}

pub fn same(a: u32) -> u32 {
    a
}

pub trait Num {
    fn plus(self, b: u32) -> u32;
    fn odd(self) -> bool;
}
impl Num for u32 {
    fn plus(self, b: u32) -> u32 {
        self + b
    }
    fn odd(self) -> bool {
        self % 2 == 1
    }
}

#[macro_export]
macro_rules! id {
    ($e:expr) => {
        $e
    };
}

#[macro_export]
macro_rules! twice {
    ($e:expr) => {{
        let a: u32 = $e;
        let b: u32 = $e;
        a + b
    }};
}

#[macro_export]
macro_rules! pick {
    ($c:expr, $a:expr, $b:expr) => {
        if $c { $a } else { $b }
    };
}

pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    loop {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
}

/// Goes to sleep once before it is done.
#[derive(Default)]
pub struct Nap(bool);

impl Future for Nap {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 {
            return std::task::Poll::Ready(());
        }
        self.0 = true;
        std::task::Poll::Pending
    }
}

/// Errors of some operations, turned into the errors of functions by `?`.
#[derive(Debug)]
pub struct L(pub u32);

impl Display for L {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "L({})", self.0)
    }
}
impl std::error::Error for L {}

pub struct E0(pub u32);

impl Debug for E0 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "E({})", self.0)
    }
}
impl Display for E0 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "E({})", self.0)
    }
}
impl std::error::Error for E0 {}
impl From<L> for E0 {
    fn from(l: L) -> Self {
        E0(l.0 + 100)
    }
}

macro_rules! ops {
    ($m:ident, $t:ty, $new:expr, $show:expr) => {
        pub mod $m {
            pub use crate::*;
            pub type E = $t;
            pub fn err(i: u32) -> E {
                $new(E0(i))
            }
            pub fn show(r: Result<u32, E>) -> String {
                match r {
                    Ok(x) => format!("Ok({x})"),
                    Err(e) => $show(e),
                }
            }
            pub fn op(i: u32) -> Result<u32, E> {
                let b = bit();
                ev(&format!("op {i} {}", if b { "f" } else { "t" }));
                if b { Err(err(i)) } else { Ok(i) }
            }
            pub fn op1(i: u32, _: u32) -> Result<u32, E> {
                op(i)
            }
            pub fn ope(i: u32) -> Result<u32, L> {
                let b = bit();
                ev(&format!("op {i} {}", if b { "f" } else { "t" }));
                if b { Err(L(i)) } else { Ok(i) }
            }
            pub async fn aop(i: u32) -> Result<u32, E> {
                Nap::default().await;
                op(i)
            }
            pub trait Ops {
                fn meth(&self, i: u32, _: u32) -> Result<u32, E>;
            }
            impl Ops for u32 {
                fn meth(&self, i: u32, _: u32) -> Result<u32, E> {
                    op(i)
                }
            }
            pub trait TmpOps {
                fn op(&self, i: u32) -> Result<u32, E>;
            }
            impl TmpOps for Tmp {
                fn op(&self, i: u32) -> Result<u32, E> {
                    op(i)
                }
            }
        }
    };
}

/// All reports an error carries, the outermost first.
fn chain<'a>(es: impl Iterator<Item = &'a (dyn std::error::Error + 'static)>) -> String {
    let ls: Vec<String> = es.map(|e| e.to_string().lines().next().unwrap_or("").to_string()).collect();
    format!("Err({})", ls.join("; "))
}

ops!(plain, E0, |e: E0| e, |e: E| format!("Err({e:?})"));
ops!(any, anyhow::Error, anyhow::Error::new, |e: E| chain(e.chain()));
ops!(ey, eyre::Report, eyre::Report::new, |e: E| chain(e.chain()));

pub fn showo(r: Option<u32>) -> String {
    format!("{r:?}")
}

/// Hooks that only look.
pub trait Hook: Sized + Debug {
    fn h(self, line: usize, col: usize) -> Self {
        ev(&format!("hook {line}:{col} {self:?}"));
        self
    }
    fn more(self, line: usize, col: usize) -> Self {
        ev(&format!("more {line}:{col} {self:?}"));
        self
    }
    fn hook(self, f: impl FnOnce() -> hooq::HooqMeta) -> Self {
        let m = f();
        ev(&format!("meta {}:{} {self:?}", m.line, m.column));
        self
    }
}
impl<T: Debug> Hook for T {}

pub fn hh<T: Debug>(line: usize, col: usize, v: T) -> T {
    v.h(line, col)
}

fn first(s: &str) -> &str {
    s.lines().next().unwrap_or("")
}

struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        ev(&format!("log {} {}", r.level(), first(&r.args().to_string())));
    }
    fn flush(&self) {}
}

struct Sub;
#[derive(Default)]
struct Fields(std::collections::BTreeMap<&'static str, String>);
impl tracing::field::Visit for Fields {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn Debug) {
        self.0.insert(f.name(), format!("{v:?}"));
    }
    fn record_str(&mut self, f: &tracing::field::Field, v: &str) {
        self.0.insert(f.name(), v.to_string());
    }
}
impl tracing::Subscriber for Sub {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut f = Fields::default();
        e.record(&mut f);
        let g = |k: &str| f.0.get(k).cloned().unwrap_or_default();
        ev(&format!("log {} ({}:{}:{}) {}", e.metadata().level(), g("path"), g("line"), g("col"), g("error")));
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

pub fn init() {
    log::set_logger(&Logger).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    tracing::subscriber::set_global_default(Sub).unwrap();
}

/// Hooks that show what they are given.
pub mod metas {
    use hooq::{BindingPayload, HooqMeta};
    use std::any::Any;
    use std::collections::HashMap;
    use std::fmt::Debug;

    #[derive(Debug, Clone, PartialEq)]
    pub struct K(pub u8);
    #[derive(Debug, Clone, PartialEq)]
    pub struct G<T>(pub T);

    fn js(s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }

    macro_rules! types {
        ($($t:ty),* $(,)?) => {
            /// Every type `get` finds the binding to be of, with its value.
            fn as_types(m: &HooqMeta, k: &str, out: &mut Vec<(String, String)>) {
                $(if let Some(v) = m.get_binding::<$t>(k) {
                    out.push((stringify!($t).replace(' ', ""), format!("{:?}", *v)));
                })*
            }
            fn payload_types(p: &BindingPayload, out: &mut Vec<(String, String)>) {
                let a: &dyn Any = &*p.value;
                $(if let Some(v) = a.downcast_ref::<$t>() {
                    out.push((stringify!($t).replace(' ', ""), format!("{v:?}")));
                })*
            }
        };
    }
    types!(u8, i8, u32, i32, u64, i64, usize, f32, f64, bool, char, (), &'static str, String, Option<u32>, Option<i32>,
        (u8, char), (u32, u32), [u8; 2], [u32; 3], &'static [u8; 2], Vec<u8>, Vec<u32>, K, G<u8>, G<u32>, Box<u8>, Box<u32>,
        Result<u8, String>, std::rc::Rc<u8>, fn(u8) -> u8);

    fn list(out: Vec<(String, String)>) -> String {
        let v: Vec<_> = out.iter().map(|(t, v)| format!("{{\"t\":{},\"v\":{}}}", js(t), js(v))).collect();
        format!("[{}]", v.join(","))
    }

    fn squeeze(s: &str) -> String {
        s.chars().filter(|c| !c.is_whitespace()).collect()
    }

    pub type Vars = (usize, usize, &'static str, &'static str, &'static str, &'static str);

    fn show(meta: Option<&HooqMeta>, v: Vars, b: &HashMap<String, BindingPayload>, x: u32, named: bool) {
        let mut ks: Vec<_> = b.keys().collect();
        ks.sort();
        let mut bs = Vec::new();
        let mut absent = 0;
        for k in ks {
            let mut out = Vec::new();
            match meta {
                Some(m) => as_types(m, k, &mut out),
                None => payload_types(&b[k], &mut out),
            }
            bs.push(format!("{{\"n\":{},\"e\":{},\"as\":{}}}", js(k), js(&squeeze(&b[k].expr)), list(out)));
        }
        if let Some(m) = meta {
            for k in ["nope", "", "line", "bnd1", "Bnd", "b nd", "bindings", "level2"] {
                if !b.contains_key(k) {
                    let mut out = Vec::new();
                    as_types(m, k, &mut out);
                    absent += out.len();
                }
            }
        }
        let text = |v: &Vars| format!("{}:{} {} {} {} {}", v.0, v.1, v.2, v.3, squeeze(v.4), v.5);
        let of_meta = match meta {
            Some(m) => text(&(m.line, m.column, m.path, m.file, m.source_str, m.count)),
            None => text(&v),
        };
        super::ev(&format!(
            "{{\"line\":{},\"vars\":{},\"meta\":{},\"count\":{},\"source\":{},\"x\":{x},\"absent\":{absent},\"named\":{named},\"b\":[{}]}}",
            v.0,
            js(&text(&v)),
            js(&of_meta),
            js(v.5),
            js(&squeeze(v.4)),
            bs.join(",")
        ));
    }

    pub trait Meta: Sized {
        fn m(self, meta: HooqMeta, v: Vars, x: u32) -> Self {
            show(Some(&meta), v, &meta.bindings, x, true);
            self
        }
        fn mf(self, meta: impl FnOnce() -> HooqMeta, v: Vars, x: u32) -> Self {
            self.m(meta(), v, x)
        }
        /// with the value of the binding named `k` on its own
        fn n<T: Any + Debug + PartialEq>(self, w: T, k: &str, meta: HooqMeta, v: Vars, x: u32) -> Self {
            let named = meta.get_binding::<T>(k).is_some_and(|u| *u == w);
            show(Some(&meta), v, &meta.bindings, x, named);
            self
        }
        fn bs(self, b: HashMap<String, BindingPayload>, v: Vars, x: u32) -> Self {
            show(None, v, &b, x, true);
            self
        }
    }
    impl<T> Meta for T {}

    pub fn probe(i: u32) -> Result<u32, String> {
        Ok(i)
    }
    pub fn two(i: u32, _: u32) -> Result<u32, String> {
        Ok(i)
    }
    pub fn r#try(i: u32) -> Result<u32, String> {
        Ok(i)
    }
    pub fn text(s: &str) -> Result<u32, String> {
        Ok(s.len() as u32)
    }
}
