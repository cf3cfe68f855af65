//! Model of PyO3's attribute macros: keep the annotated Rust code unchanged (only visibility is
//! widened), and add an argument-binding wrapper `__w_<name>(args) -> PyResult<Obj>` per function
//! that follows the declared Python signature.
use proc_macro::TokenStream;
use proc_macro2::{TokenStream as TS, Span, TokenTree, Delimiter};
use quote::{quote, format_ident, ToTokens};
use syn::*;

fn is_py_attr(a: &Attribute) -> bool {
    let p = a.path();
    let l = p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
    matches!(l.as_str(), "pyo3" | "getter" | "setter" | "new" | "staticmethod" | "classmethod" | "classattr" | "pyfunction" | "text_signature" | "args")
}
fn has(attrs: &[Attribute], n: &str) -> bool { attrs.iter().any(|a| a.path().segments.last().map(|s| s.ident == n).unwrap_or(false)) }

#[derive(Clone)]
enum SigEnt { Pos(String, Option<TS>), KwOnly(String, Option<TS>), Args(String), Kwargs(String) }

fn split_commas(ts: TS) -> Vec<Vec<TokenTree>> {
    let mut out = vec![]; let mut cur = vec![];
    for t in ts { if let TokenTree::Punct(p) = &t { if p.as_char() == ',' { out.push(std::mem::take(&mut cur)); continue; } } cur.push(t); }
    if !cur.is_empty() { out.push(cur); }
    out
}
fn parse_sig(ts: TS) -> Vec<SigEnt> {
    let mut out = vec![]; let mut kwonly = false;
    for ent in split_commas(ts) {
        let stars = ent.iter().take_while(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == '*')).count();
        if let Some(TokenTree::Punct(p)) = ent.first() { if p.as_char() == '/' { continue; } }
        let rest = &ent[stars..];
        let name = rest.iter().find_map(|t| if let TokenTree::Ident(i) = t { Some(i.to_string()) } else { None });
        if stars == 1 { kwonly = true; if let Some(n) = name { out.push(SigEnt::Args(n)); } continue; }
        if stars == 2 { out.push(SigEnt::Kwargs(name.unwrap())); continue; }
        let def: Option<TS> = rest.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == '=')).map(|i| rest[i + 1..].iter().cloned().collect());
        let n = name.unwrap().trim_start_matches("r#").to_string();
        out.push(if kwonly { SigEnt::KwOnly(n, def) } else { SigEnt::Pos(n, def) });
    }
    out
}
/// (python name override, signature) from #[pyo3(...)] / #[pyfunction(...)]
fn opts(attrs: &[Attribute], extra: TS) -> (Option<String>, Option<Vec<SigEnt>>) {
    let mut lists: Vec<TS> = vec![extra];
    for a in attrs { if let Meta::List(l) = &a.meta { if is_py_attr(a) { lists.push(l.tokens.clone()); } } }
    let (mut name, mut sig) = (None, None);
    for l in lists { for ent in split_commas(l) {
        if let Some(TokenTree::Ident(i)) = ent.first() {
            if i == "signature" { if let Some(TokenTree::Group(g)) = ent.last() { if g.delimiter() == Delimiter::Parenthesis { sig = Some(parse_sig(g.stream())); } } }
            if i == "name" { if let Some(TokenTree::Literal(x)) = ent.last() { name = Some(x.to_string().trim_matches('"').to_string()); } }
        }
    } }
    (name, sig)
}
fn last_ident(t: &Type) -> String { if let Type::Path(p) = t { p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() } else { String::new() } }

/// build `let` bindings and call argument list
fn bind_args(inputs: Vec<(String, Type)>, sig: Option<Vec<SigEnt>>) -> (TS, Vec<TS>) {
    let params: Vec<(String, Type)> = inputs;
    let names: Vec<String> = params.iter().filter(|(_, t)| last_ident(t) != "Python").map(|(n, _)| n.clone()).collect();
    let sig = sig.unwrap_or_else(|| names.iter().map(|n| {
        SigEnt::Pos(n.clone(), None) }).collect());
    let mut pre = TS::new(); let mut table = std::collections::HashMap::new();
    let mut pos = 0usize;
    for e in &sig {
        match e {
            SigEnt::Pos(n, d) => { let v = format_ident!("__v_{}", n); let i = pos; pos += 1; pre.extend(quote! { let #v = __args.get(#i, #n); }); table.insert(n.clone(), (v, d.clone(), 0)); }
            SigEnt::KwOnly(n, d) => { let v = format_ident!("__v_{}", n); pre.extend(quote! { let #v = __args.kw(#n); }); table.insert(n.clone(), (v, d.clone(), 0)); }
            SigEnt::Args(n) => { let v = format_ident!("__v_{}", n); let i = pos; pre.extend(quote! { let #v = __args.rest(#i); }); table.insert(n.clone(), (v, None, 1)); }
            SigEnt::Kwargs(n) => { let v = format_ident!("__v_{}", n); pre.extend(quote! { let #v = __args.kwrest(); }); table.insert(n.clone(), (v, None, 2)); }
        }
    }
    let va = sig.iter().any(|e| matches!(e, SigEnt::Args(_))); let vk = sig.iter().any(|e| matches!(e, SigEnt::Kwargs(_)));
    pre.extend(quote! { if __args.leftover(#pos, #va, #vk) { return Err(::pyo3::exceptions::PyTypeError::new_err("unexpected argument")); } });
    let mut call = vec![];
    for (n, t) in &params {
        if last_ident(t) == "Python" { call.push(quote! { ::pyo3::Python::assume() }); continue; }
        let key = n.trim_start_matches("r#").to_string();
        match table.get(&key) {
            None => call.push(quote! { compile_error!("parameter not in signature") }),
            Some((v, d, 0)) => {
                let isopt = last_ident(t) == "Option";
                let miss = match d {
                    Some(d) => if isopt && d.to_string() != "None" { quote! { ::pyo3::SomeWrap::wrap(#d) } } else { quote! { #d } },
                    None => quote! { return Err(::pyo3::exceptions::PyTypeError::new_err("missing required argument")) },
                };
                call.push(quote! { match &#v { Some(__b) => ::pyo3::FromArg::from_arg(__b)?, None => #miss } });
            }
            Some((v, _, 1)) => call.push(quote! { ::pyo3::FromArg::from_arg(&#v)? }),
            Some((v, _, _)) => call.push(quote! { #v.as_ref() }),
        }
    }
    (pre, call)
}
fn params_of(inputs: &syn::punctuated::Punctuated<FnArg, Token![,]>) -> Vec<(String, Type)> {
    inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a {
        let n = match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => "_".into() };
        Some((n, (*t.ty).clone())) } else { None }).collect()
}

#[proc_macro_attribute]
pub fn pyfunction(attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = parse_macro_input!(item as ItemFn);
    let (name, sig) = opts(&f.attrs, attr.into());
    f.attrs.retain(|a| !is_py_attr(a));
    f.vis = parse_quote!(pub);
    let id = f.sig.ident.clone();
    let pyname = name.unwrap_or(id.to_string().trim_start_matches("r#").to_string());
    let (pre, call) = bind_args(params_of(&f.sig.inputs), sig);
    let w = format_ident!("__w_{}", id.to_string().trim_start_matches("r#"));
    let nm = format_ident!("__n_{}", id.to_string().trim_start_matches("r#"));
    quote! { #f
        #[allow(warnings)] #[doc(hidden)] #[inline(never)] pub fn #w(__args: &::pyo3::Args) -> ::pyo3::PyResult<::pyo3::Obj> { #pre let __r = #id(#(#call),*); ::pyo3::ret(__r) }
        #[allow(warnings)] #[doc(hidden)] pub const #nm: &str = #pyname;
    }.into()
}
#[proc_macro_attribute]
pub fn pymodule(_a: TokenStream, item: TokenStream) -> TokenStream { item }

#[proc_macro_attribute]
pub fn pyclass(attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut s = parse_macro_input!(item as ItemStruct);
    let (name, _) = opts(&[], attr.into());
    s.attrs.retain(|a| !is_py_attr(a));
    for f in s.fields.iter_mut() { f.attrs.retain(|a| !is_py_attr(a)); f.vis = parse_quote!(pub); }
    let id = s.ident.clone(); let nm = name.unwrap_or(id.to_string());
    s.vis = parse_quote!(pub);
    quote! { #s
        impl ::pyo3::PyClass for #id { const NAME: &'static str = #nm; }
        impl<'py> ::pyo3::IntoPyObject<'py> for #id { type Target = #id; type Output = ::pyo3::Bound<'py, #id>; type Error = ::pyo3::PyErr; fn into_pyobject(self, _py: ::pyo3::Python<'py>) -> ::pyo3::PyResult<::pyo3::Bound<'py, #id>> { Ok(::pyo3::Bound::of(::pyo3::native(self))) } }
    }.into()
}

#[proc_macro_attribute]
pub fn pymethods(_a: TokenStream, item: TokenStream) -> TokenStream {
    let mut im = parse_macro_input!(item as ItemImpl);
    let ty = im.self_ty.clone();
    let mut extra = vec![];
    for it in im.items.iter_mut() {
        if let ImplItem::Fn(f) = it {
            let (_n, sig) = opts(&f.attrs, TS::new());
            let stat = has(&f.attrs, "staticmethod") || has(&f.attrs, "new");
            f.attrs.retain(|a| !is_py_attr(a));
            f.vis = parse_quote!(pub);
            let id = f.sig.ident.clone();
            let base = id.to_string().trim_start_matches("r#").to_string();
            let w = format_ident!("__w_{}", base);
            let mut inputs = params_of(&f.sig.inputs);
            let (mut pre_self, mut selfarg) = (TS::new(), None);
            if !stat {
                match f.sig.inputs.first() {
                    Some(FnArg::Receiver(r)) => {
                        if r.mutability.is_some() { pre_self = quote! { let mut __s = __slf.try_borrow_mut()?; }; selfarg = Some(quote! { &mut *__s }); }
                        else { pre_self = quote! { let __s = __slf.try_borrow()?; }; selfarg = Some(quote! { &*__s }); }
                    }
                    Some(FnArg::Typed(_)) => {
                        let (_, t) = inputs.remove(0);
                        let ts = t.to_token_stream().to_string();
                        if ts.contains("PyRefMut") { pre_self = quote! { let __s = __slf.try_borrow_mut()?; }; selfarg = Some(quote! { __s }); }
                        else if ts.contains("PyRef") { pre_self = quote! { let __s = __slf.try_borrow()?; }; selfarg = Some(quote! { __s }); }
                        else if ts.starts_with('&') { selfarg = Some(quote! { __slf }); }
                        else { selfarg = Some(quote! { __slf.clone().unbind() }); }
                    }
                    None => {}
                }
            }
            let (pre, call) = bind_args(inputs, sig);
            let call: Vec<TS> = selfarg.into_iter().chain(call.into_iter()).collect();
            let slf = if stat { quote! {} } else { quote! { __slf: &::pyo3::Bound<'_, #ty>, } };
            extra.push(quote! { #[allow(warnings)] #[doc(hidden)] #[inline(never)] pub fn #w(#slf __args: &::pyo3::Args) -> ::pyo3::PyResult<::pyo3::Obj> { #pre_self #pre let __r = <#ty>::#id(#(#call),*); ::pyo3::ret(__r) } });
        }
    }
    let _ = Span::call_site();
    quote! { #im impl #ty { #(#extra)* } }.into()
}
