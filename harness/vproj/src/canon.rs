//! What is left of code when hooks, `?`, redundant parentheses and hooq's own
//! attributes are taken out: equal for the annotated item and its expansion.
use crate::text::norm;
use proc_macro2::{Literal, TokenStream, TokenTree};
use quote::ToTokens;
use syn::fold::{self, Fold};
use syn::parse::Parse;
use syn::parse::discouraged::Speculative;
use syn::{Attribute, Expr, Token};

pub fn path_text(p: &syn::Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

pub fn is_hooq(a: &Attribute) -> bool {
    let mut s = a.path().segments.iter();
    let first = s.next().map(|s| s.ident.to_string());
    first.as_deref() == Some("hooq") || path_text(a.path()).starts_with("vcap::")
}

pub fn is_inert(a: &Attribute) -> bool {
    is_hooq(a) && path_text(a.path()) != "hooq::hooq" && !path_text(a.path()).starts_with("vcap::")
}

pub enum Ev {
    File(syn::File),
    Item(syn::Item),
    Expr(syn::Expr),
    Stmt(syn::Stmt),
}

/// Arguments of a macro call read as a list of items, expressions and
/// statements, each ended by `,`, `;` or the end.
pub struct List(pub Vec<(Ev, Option<char>)>);

fn try_one<T: Parse>(input: syn::parse::ParseStream) -> Option<T> {
    let f = input.fork();
    let r = f.parse::<T>().ok()?;
    if f.is_empty() || f.peek(Token![;]) || f.peek(Token![,]) {
        input.advance_to(&f);
        Some(r)
    } else {
        None
    }
}

impl Parse for List {
    fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
        let mut v = Vec::new();
        while !input.is_empty() {
            let ev = if let Some(x) = try_one(input) {
                Ev::File(x)
            } else if let Some(x) = try_one(input) {
                Ev::Item(x)
            } else if let Some(x) = try_one(input) {
                Ev::Expr(x)
            } else if let Some(x) = try_one(input) {
                Ev::Stmt(x)
            } else {
                return Err(input.error("not a list of code"));
            };
            let mut p = None;
            if input.parse::<Option<Token![,]>>()?.is_some() {
                p = Some(',');
            } else if input.parse::<Option<Token![;]>>()?.is_some() {
                p = Some(';');
            }
            v.push((ev, p));
        }
        Ok(List(v))
    }
}

pub fn list(ts: &TokenStream) -> Option<List> {
    syn::parse2::<List>(ts.clone()).ok()
}

fn opaque(ts: TokenStream) -> TokenStream {
    TokenStream::from_iter([TokenTree::Literal(Literal::string(&norm(ts)))])
}

pub fn attrs_of(e: &mut Expr) -> Option<&mut Vec<Attribute>> {
    use Expr::*;
    Some(match e {
        Array(x) => &mut x.attrs,
        Assign(x) => &mut x.attrs,
        Async(x) => &mut x.attrs,
        Await(x) => &mut x.attrs,
        Binary(x) => &mut x.attrs,
        Block(x) => &mut x.attrs,
        Break(x) => &mut x.attrs,
        Call(x) => &mut x.attrs,
        Cast(x) => &mut x.attrs,
        Closure(x) => &mut x.attrs,
        Const(x) => &mut x.attrs,
        Continue(x) => &mut x.attrs,
        Field(x) => &mut x.attrs,
        ForLoop(x) => &mut x.attrs,
        Group(x) => &mut x.attrs,
        If(x) => &mut x.attrs,
        Index(x) => &mut x.attrs,
        Infer(x) => &mut x.attrs,
        Let(x) => &mut x.attrs,
        Lit(x) => &mut x.attrs,
        Loop(x) => &mut x.attrs,
        Macro(x) => &mut x.attrs,
        Match(x) => &mut x.attrs,
        MethodCall(x) => &mut x.attrs,
        Paren(x) => &mut x.attrs,
        Path(x) => &mut x.attrs,
        Range(x) => &mut x.attrs,
        RawAddr(x) => &mut x.attrs,
        Reference(x) => &mut x.attrs,
        Repeat(x) => &mut x.attrs,
        Return(x) => &mut x.attrs,
        Struct(x) => &mut x.attrs,
        Try(x) => &mut x.attrs,
        TryBlock(x) => &mut x.attrs,
        Tuple(x) => &mut x.attrs,
        Unary(x) => &mut x.attrs,
        Unsafe(x) => &mut x.attrs,
        While(x) => &mut x.attrs,
        Yield(x) => &mut x.attrs,
        _ => return None,
    })
}

pub fn is_vp(m: &syn::ExprMethodCall) -> bool {
    m.method == "__vp"
}

pub fn is_vw(c: &syn::ExprCall) -> bool {
    matches!(&*c.func, Expr::Path(p) if p.path.is_ident("__vw")) && c.args.len() >= 2
}

pub struct Canon;

impl Canon {
    fn list(&mut self, ts: &TokenStream) -> Option<TokenStream> {
        let l = list(ts)?;
        let mut o = TokenStream::new();
        for (ev, p) in l.0 {
            let t = match ev {
                Ev::File(x) => Canon.fold_file(x).into_token_stream(),
                Ev::Item(x) => Canon.fold_item(x).into_token_stream(),
                Ev::Expr(x) => dbg_tokens(&Canon.fold_expr(x)),
                Ev::Stmt(x) => Canon.fold_stmt(x).into_token_stream(),
            };
            o.extend(opaque(t));
            o.extend(opaque(p.map(String::from).unwrap_or_default().parse().unwrap()));
        }
        Some(o)
    }
}

// A token text that shows how the expression is grouped.
fn dbg_tokens(e: &Expr) -> TokenStream {
    struct Par;
    impl Fold for Par {
        fn fold_expr(&mut self, e: Expr) -> Expr {
            let e = fold::fold_expr(self, e);
            match e {
                Expr::Binary(_) | Expr::Unary(_) | Expr::Cast(_) | Expr::Range(_) | Expr::Assign(_)
                | Expr::Reference(_) | Expr::MethodCall(_) | Expr::Field(_) | Expr::Index(_) | Expr::Call(_) => {
                    Expr::Paren(syn::ExprParen {
                        attrs: vec![],
                        paren_token: Default::default(),
                        expr: Box::new(e),
                    })
                }
                e => e,
            }
        }
    }
    Par.fold_expr(e.clone()).into_token_stream()
}

impl Fold for Canon {
    fn fold_attributes(&mut self, v: Vec<Attribute>) -> Vec<Attribute> {
        v.into_iter().filter(|a| !is_hooq(a)).map(|a| self.fold_attribute(a)).collect()
    }
    fn fold_attribute(&mut self, a: Attribute) -> Attribute {
        let mut a = fold::fold_attribute(self, a);
        if let syn::Meta::List(l) = &mut a.meta {
            l.tokens = opaque(std::mem::take(&mut l.tokens));
        }
        a
    }
    fn fold_lit_str(&mut self, l: syn::LitStr) -> syn::LitStr {
        if l.suffix().is_empty() { syn::LitStr::new(&l.value(), l.span()) } else { l }
    }
    fn fold_macro(&mut self, m: syn::Macro) -> syn::Macro {
        let mut m = m;
        m.tokens = match self.list(&m.tokens) {
            Some(t) => t,
            None => opaque(std::mem::take(&mut m.tokens)),
        };
        m
    }
    fn fold_item_macro(&mut self, mut i: syn::ItemMacro) -> syn::ItemMacro {
        if i.ident.is_some() {
            i.attrs = self.fold_attributes(i.attrs);
            i.mac.tokens = opaque(i.mac.tokens);
            i
        } else {
            fold::fold_item_macro(self, i)
        }
    }
    fn fold_item(&mut self, i: syn::Item) -> syn::Item {
        match i {
            syn::Item::Verbatim(t) => syn::Item::Verbatim(opaque(t)),
            i => fold::fold_item(self, i),
        }
    }
    fn fold_type(&mut self, t: syn::Type) -> syn::Type {
        match t {
            syn::Type::Verbatim(t) => syn::Type::Verbatim(opaque(t)),
            syn::Type::Group(g) => self.fold_type(*g.elem),
            t => fold::fold_type(self, t),
        }
    }
    fn fold_pat(&mut self, t: syn::Pat) -> syn::Pat {
        match t {
            syn::Pat::Verbatim(t) => syn::Pat::Verbatim(opaque(t)),
            t => fold::fold_pat(self, t),
        }
    }
    fn fold_expr(&mut self, e: Expr) -> Expr {
        let mut e = e;
        let mut kept: Vec<Attribute> = Vec::new();
        loop {
            let (attrs, inner) = match e {
                Expr::Paren(x) => (x.attrs, *x.expr),
                Expr::Group(x) => (x.attrs, *x.expr),
                Expr::Try(x) => (x.attrs, *x.expr),
                Expr::MethodCall(x) if is_vp(&x) => (x.attrs, *x.receiver),
                Expr::Call(mut x) if is_vw(&x) => {
                    let last = x.args.pop().unwrap().into_value();
                    (x.attrs, last)
                }
                other => {
                    e = other;
                    break;
                }
            };
            kept.extend(attrs.into_iter().filter(|a| !is_hooq(a)).map(|a| self.fold_attribute(a)));
            e = inner;
        }
        let mut e = match e {
            Expr::Verbatim(t) => Expr::Verbatim(opaque(t)),
            e => fold::fold_expr(self, e),
        };
        if !kept.is_empty() {
            if let Some(a) = attrs_of(&mut e) {
                kept.append(a);
                *a = kept;
            }
        }
        e
    }
}

/// The text of an expression, without parentheses around it.
pub fn expr_text(e: &Expr) -> String {
    let mut e = e;
    loop {
        match e {
            Expr::Paren(x) if x.attrs.is_empty() => e = &x.expr,
            Expr::Group(x) if x.attrs.is_empty() => e = &x.expr,
            _ => break,
        }
    }
    // attributes in front of an operand move to the method call made of it
    let mut e = e.clone();
    if let Some(a) = attrs_of(&mut e) {
        a.retain(|a| !matches!(a.style, syn::AttrStyle::Outer));
    }
    norm(e.to_token_stream())
}
