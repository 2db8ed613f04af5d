//! `#[pyclass]`, `#[pymethods]` and `#[pymodule]` for the model of pyo3: the items stay as they
//! are, and every method becomes callable by its Python name with Python values.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::parse::{Parse, ParseStream};
use syn::{parse_macro_input, Expr, FnArg, ImplItem, ItemFn, ItemImpl, Pat, ReturnType, Token, Type};

const OURS: &[&str] = &["new", "pyo3", "getter", "setter", "staticmethod", "classmethod", "classattr", "args", "pyo3_signature", "text_signature"];
fn ours(a: &syn::Attribute) -> bool { OURS.iter().any(|n| a.path().is_ident(n)) }

#[proc_macro_attribute]
pub fn pyclass(_a: TokenStream, item: TokenStream) -> TokenStream {
    let mut s = parse_macro_input!(item as syn::ItemStruct);
    for f in s.fields.iter_mut() { f.attrs.retain(|a| !a.path().is_ident("pyo3")); }
    let name = &s.ident;
    let text = name.to_string();
    quote! { #s impl ::pyo3::Named for #name { const NAME: &'static str = #text; } }.into()
}

/// `(a, b = 1, *, c = None)`
struct Signature(Vec<(String, Option<Expr>)>);
impl Parse for Signature {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        // signature = ( ... ), maybe among other options
        let mut out = Vec::new();
        while !i.is_empty() {
            let key: syn::Ident = i.parse()?;
            i.parse::<Token![=]>()?;
            if key == "signature" {
                let inner;
                syn::parenthesized!(inner in i);
                while !inner.is_empty() {
                    if inner.peek(Token![*]) { inner.parse::<Token![*]>()?; }
                    else if inner.peek(Token![/]) { inner.parse::<Token![/]>()?; }
                    else {
                        let n: syn::Ident = inner.parse()?;
                        let d = if inner.peek(Token![=]) { inner.parse::<Token![=]>()?; Some(inner.parse::<Expr>()?) } else { None };
                        out.push((n.to_string(), d));
                    }
                    if inner.peek(Token![,]) { inner.parse::<Token![,]>()?; }
                }
            } else { i.parse::<Expr>()?; }
            if i.peek(Token![,]) { i.parse::<Token![,]>()?; }
        }
        Ok(Signature(out))
    }
}
fn last(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Group(g) => last(&g.elem),
        Type::Reference(r) => last(&r.elem),
        _ => String::new(),
    }
}
fn is_none(e: &Expr) -> bool { matches!(e, Expr::Path(p) if p.path.is_ident("None")) }

#[proc_macro_attribute]
pub fn pymethods(_a: TokenStream, item: TokenStream) -> TokenStream {
    let mut im = parse_macro_input!(item as ItemImpl);
    let ty = im.self_ty.clone();
    let mut arms = Vec::new();
    let mut new = quote! { Err(::pyo3::PyErr::new("TypeError", "no constructor")) };
    for it in im.items.iter_mut() {
        let f = match it { ImplItem::Fn(f) => f, _ => continue };
        let is_new = f.attrs.iter().any(|a| a.path().is_ident("new"));
        let is_static = f.attrs.iter().any(|a| a.path().is_ident("staticmethod"));
        let sig: Vec<(String, Option<Expr>)> = f.attrs.iter().filter(|a| a.path().is_ident("pyo3")).filter_map(|a| a.parse_args::<Signature>().ok()).flat_map(|s| s.0).collect();
        let has_sig = !sig.is_empty();
        f.attrs.retain(|a| !ours(a));
        let fname = &f.sig.ident;
        let text = fname.to_string();
        let mut lets = Vec::new();
        let mut call = Vec::new();
        let mut pos = 0usize;
        let mut receiver = false;
        for (k, arg) in f.sig.inputs.iter().enumerate() {
            match arg {
                FnArg::Receiver(_) => receiver = true,
                FnArg::Typed(t) => {
                    let v = format_ident!("arg{}", k);
                    if last(&t.ty) == "Python" { call.push(quote! { ::pyo3::Python::token() }); continue; }
                    let n = match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => String::new() };
                    let opt = last(&t.ty) == "Option" && !matches!(&*t.ty, Type::Reference(_));
                    let default = sig.iter().find(|(m, _)| *m == n).and_then(|(_, d)| d.clone());
                    let missing = match default {
                        Some(d) if opt && !is_none(&d) => quote! { Some(#d) },
                        Some(d) => quote! { #d },
                        None if opt && !has_sig => quote! { None },
                        None => quote! { return Err(::pyo3::PyErr::new("TypeError", "missing argument")) },
                    };
                    lets.push(quote! { let #v = match ::pyo3::argument(args, kwargs, #pos, #n) { Some(o) => ::pyo3::FromPy::from_py(o)?, None => #missing }; });
                    pos += 1;
                    call.push(quote! { #v });
                }
            }
        }
        let wrap = match &f.sig.output {
            ReturnType::Type(_, t) if { let l = last(t); l == "PyResult" || l == "Result" } => true,
            _ => false,
        };
        let target = if receiver { quote! { self.#fname(#(#call),*) } } else { quote! { Self::#fname(#(#call),*) } };
        if is_new {
            new = if wrap { quote! { #(#lets)* #target } } else { quote! { #(#lets)* Ok(#target) } };
        } else if receiver || is_static {
            let res = if wrap { quote! { #target?  } } else { quote! { #target } };
            arms.push(quote! { #text => { if args.len() > #pos { return Err(::pyo3::PyErr::new("TypeError", "too many arguments")); } #(#lets)* let r = #res; Ok(::pyo3::IntoPy::into_py(r)) } });
        }
    }
    quote! {
        #im
        impl ::pyo3::Methods for #ty {
            fn py_new(args: &[::pyo3::Obj], kwargs: &[(&str, ::pyo3::Obj)]) -> ::pyo3::PyResult<Self> { #new }
            fn py_call(&mut self, name: &str, args: &[::pyo3::Obj], kwargs: &[(&str, ::pyo3::Obj)]) -> ::pyo3::PyResult<::pyo3::Obj> {
                match name { #(#arms)* _ => Err(::pyo3::PyErr::new("AttributeError", "no such method")) }
            }
        }
    }.into()
}

#[proc_macro_attribute]
pub fn pymodule(_a: TokenStream, item: TokenStream) -> TokenStream {
    let f = parse_macro_input!(item as ItemFn);
    let n = &f.sig.ident;
    let call = if f.sig.inputs.len() == 2 { quote! { #n(::pyo3::Python::token(), m) } } else { quote! { #n(m) } };
    quote! { #f pub fn __verif_module(m: &::pyo3::prelude::PyModule) -> ::pyo3::PyResult<()> { #call } }.into()
}

#[proc_macro_attribute]
pub fn pyfunction(_a: TokenStream, item: TokenStream) -> TokenStream { item }
