//! Is a generated text well-formed Rust of the promised shape?
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::quote;
use syn::parse::{Parse, ParseStream, Parser};

#[derive(Debug, Clone)]
pub enum Form {
    Func { params: Vec<(String, String)>, ret: Option<String> },
    Macro { params: Vec<(String, String)>, variadic: bool, body: TokenStream },
}

pub fn unraw(s: &str) -> &str {
    s.strip_prefix("r#").unwrap_or(s)
}
fn is_p(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}
/// `$a : expr , $b : ident , $($__VA_ARGS__ : expr),*`
fn matcher(ts: TokenStream) -> Result<(Vec<(String, String)>, bool), String> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let (mut out, mut var, mut i) = (vec![], false, 0);
    while i < v.len() {
        if !is_p(v.get(i), '$') {
            return Err(format!("unexpected `{}` in the macro's parameters", v[i]));
        }
        match v.get(i + 1) {
            Some(TokenTree::Ident(n)) => {
                if !is_p(v.get(i + 2), ':') {
                    return Err("parameter without a kind".into());
                }
                let k = v.get(i + 3).map(|t| t.to_string()).unwrap_or_default();
                if !["expr", "ident", "ty", "tt"].contains(&k.as_str()) {
                    return Err(format!("unknown parameter kind {k:?}"));
                }
                if n == "crate" {
                    return Err("parameter `$crate`".into());
                }
                out.push((unraw(&n.to_string()).to_string(), k));
                i += 4;
            }
            Some(TokenTree::Group(g)) => {
                let s = g.stream().to_string().replace(' ', "");
                if s != "$__VA_ARGS__:expr" || !is_p(v.get(i + 2), ',') || !is_p(v.get(i + 3), '*') || i + 4 != v.len() {
                    return Err("malformed repetition in the macro's parameters".into());
                }
                var = true;
                i += 4;
            }
            _ => return Err("stray `$` in the macro's parameters".into()),
        }
        if i < v.len() {
            if !is_p(v.get(i), ',') {
                return Err("missing comma in the macro's parameters".into());
            }
            i += 1;
        }
    }
    Ok((out, var))
}
fn none(ts: TokenStream) -> TokenTree {
    TokenTree::Group(Group::new(Delimiter::None, ts))
}
/// The macro's body after substituting an argument for every parameter.
pub fn substitute(ts: TokenStream, params: &[(String, String)], variadic: bool) -> Result<TokenStream, String> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match v.get(i + 1) {
                Some(TokenTree::Ident(n)) => {
                    let s = n.to_string();
                    let Some(k) = params.iter().position(|x| x.0 == unraw(&s)) else {
                        return Err(format!("undeclared macro parameter `${s}`"));
                    };
                    let id = Ident::new(&format!("arg{k}"), Span::call_site());
                    out.push(match params[k].1.as_str() {
                        "expr" => none(quote! { 1 + #id }),
                        "ty" => none(quote! { [u8; 2] }),
                        _ => TokenTree::Ident(id),
                    });
                    i += 2;
                }
                Some(TokenTree::Group(g)) => {
                    if g.stream().to_string().replace(' ', "") != "$__VA_ARGS__" || !is_p(v.get(i + 2), ',') || !is_p(v.get(i + 3), '*') {
                        return Err("malformed repetition".into());
                    }
                    if !variadic {
                        return Err("undeclared macro parameter `$__VA_ARGS__`".into());
                    }
                    out.push(none(quote! { 1 + va1 }));
                    i += 4;
                }
                _ => return Err("stray `$`".into()),
            },
            TokenTree::Group(g) => {
                out.push(TokenTree::Group(Group::new(g.delimiter(), substitute(g.stream(), params, variadic)?)));
                i += 1;
            }
            t => {
                out.push(t.clone());
                i += 1;
            }
        }
    }
    Ok(out.into_iter().collect())
}

struct OffsetOf;
impl Parse for OffsetOf {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        i.parse::<syn::Type>()?;
        i.parse::<syn::Token![,]>()?;
        loop {
            i.parse::<syn::Member>()?;
            if i.is_empty() {
                return Ok(OffsetOf);
            }
            i.parse::<syn::Token![.]>()?;
        }
    }
}
struct Idents;
impl Parse for Idents {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        use syn::ext::IdentExt;
        loop {
            Ident::parse_any(i)?;
            if i.is_empty() {
                return Ok(Idents);
            }
            i.parse::<syn::Token![,]>()?;
            if i.is_empty() {
                return Ok(Idents);
            }
        }
    }
}
/// One item of an `asm!` invocation.
#[derive(Debug, Clone, PartialEq)]
pub enum AsmItem {
    Line(String),
    /// Direction, register class or quoted register, operand, target of `=>`.
    Operand(String, String, String, Option<String>),
    Options(Vec<String>),
    ClobberAbi(String),
}
pub struct AsmArgs(pub Vec<AsmItem>);
impl Parse for AsmArgs {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        use syn::ext::IdentExt;
        let mut v = vec![];
        while !i.is_empty() {
            if i.peek(syn::LitStr) {
                if v.iter().any(|x| !matches!(x, AsmItem::Line(_))) {
                    return Err(i.error("template after operands"));
                }
                v.push(AsmItem::Line(i.parse::<syn::LitStr>()?.value()));
            } else {
                let id = Ident::parse_any(i)?.to_string();
                let c;
                syn::parenthesized!(c in i);
                match id.as_str() {
                    "options" => {
                        let mut o = vec![];
                        while !c.is_empty() {
                            o.push(c.parse::<Ident>()?.to_string());
                            if !c.is_empty() {
                                c.parse::<syn::Token![,]>()?;
                            }
                        }
                        v.push(AsmItem::Options(o));
                    }
                    "clobber_abi" => v.push(AsmItem::ClobberAbi(c.parse::<syn::LitStr>()?.value())),
                    "in" | "out" | "inout" | "lateout" | "inlateout" => {
                        let reg = if c.peek(syn::LitStr) {
                            format!("{:?}", c.parse::<syn::LitStr>()?.value())
                        } else {
                            c.parse::<Ident>()?.to_string()
                        };
                        if !c.is_empty() {
                            return Err(c.error("register class"));
                        }
                        let e = if i.peek(syn::Token![_]) {
                            i.parse::<syn::Token![_]>()?;
                            "_".to_string()
                        } else {
                            let e: syn::Expr = i.parse()?;
                            quote! { #e }.to_string()
                        };
                        let to = if i.peek(syn::Token![=>]) {
                            i.parse::<syn::Token![=>]>()?;
                            let e: syn::Expr = i.parse()?;
                            Some(quote! { #e }.to_string())
                        } else {
                            None
                        };
                        v.push(AsmItem::Operand(id, reg, e, to));
                    }
                    _ => return Err(i.error(format!("unknown asm item {id}"))),
                }
            }
            if i.is_empty() {
                break;
            }
            i.parse::<syn::Token![,]>()?;
        }
        Ok(AsmArgs(v))
    }
}

/// Checks the arguments of every macro invocation in the tokens.
pub fn inner_macros(ts: &TokenStream) -> Result<(), String> {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    for i in 0..v.len() {
        if let TokenTree::Group(g) = &v[i] {
            let mac = i >= 2 && is_p(v.get(i - 1), '!') && !is_p(v.get(i + 1), '=');
            if let (true, TokenTree::Ident(n)) = (mac, &v[i.saturating_sub(2)]) {
                let s = g.stream();
                let e = |w: &str, e: syn::Error| Err(format!("arguments of {w}! do not parse ({e}): {}", g.stream()));
                type Exprs = syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>;
                match n.to_string().as_str() {
                    "addr_of_mut" | "addr_of" => {
                        if let Err(x) = syn::parse2::<syn::Expr>(s) {
                            return e("addr_of_mut", x);
                        }
                    }
                    "concat" | "format" => {
                        if let Err(x) = Exprs::parse_terminated.parse2(s) {
                            return e("concat", x);
                        }
                    }
                    "line" | "file" => {
                        if !s.is_empty() {
                            return Err("arguments of line!".into());
                        }
                    }
                    "offset_of" | "offsetof" => {
                        if let Err(x) = syn::parse2::<OffsetOf>(s) {
                            return e("offset_of", x);
                        }
                    }
                    "concat_idents" => {
                        if let Err(x) = syn::parse2::<Idents>(s) {
                            return e("concat_idents", x);
                        }
                    }
                    "asm" | "global_asm" => {
                        if let Err(x) = syn::parse2::<AsmArgs>(s) {
                            return e("asm", x);
                        }
                    }
                    "stringify" => continue,
                    "if" | "while" | "return" | "else" | "in" | "break" | "match" => (),
                    m => return Err(format!("unexpected macro {m}!")),
                }
            }
            inner_macros(&g.stream())?;
        }
    }
    Ok(())
}
fn has_dollar(ts: &TokenStream) -> bool {
    ts.clone().into_iter().any(|t| match t {
        TokenTree::Punct(p) => p.as_char() == '$',
        TokenTree::Group(g) => has_dollar(&g.stream()),
        _ => false,
    })
}
/// A generated constant is one expression and one type.
pub fn check_var(value: &str, ty: Option<&str>) -> Result<(), String> {
    let e: syn::Expr = syn::parse_str(value).map_err(|e| format!("value does not parse as an expression ({e}): {value}"))?;
    let ts = quote! { #e };
    if has_dollar(&ts) {
        return Err(format!("`$` in a constant: {value}"));
    }
    inner_macros(&value.parse().map_err(|e| format!("{e}"))?)?;
    if let Some(t) = ty {
        syn::parse_str::<syn::Type>(t).map_err(|e| format!("type does not parse ({e}): {t}"))?;
    }
    Ok(())
}
/// A generated function-like macro is one function, or one macro and its re-export.
pub fn check_fn(name: &str, params: &[String], out: &str) -> Result<Form, String> {
    let f: syn::File = syn::parse_str(out).map_err(|e| format!("output does not parse ({e})"))?;
    if !f.attrs.is_empty() {
        return Err("inner attributes".into());
    }
    let named: Vec<&str> = params.iter().filter(|p| *p != "...").map(|s| s.as_str()).collect();
    let variadic = params.iter().any(|p| p == "...");
    let want = |p: &[(String, String)]| {
        let n: Vec<&str> = p.iter().map(|x| x.0.as_str()).collect();
        if n == named {
            Ok(())
        } else {
            Err(format!("parameters are {n:?}, expected {named:?}"))
        }
    };
    match f.items.as_slice() {
        [syn::Item::Fn(i)] => {
            if !matches!(i.vis, syn::Visibility::Public(_)) || i.sig.unsafety.is_none() || unraw(&i.sig.ident.to_string()) != name {
                return Err("not a public unsafe function of the macro's name".into());
            }
            match &i.sig.abi {
                Some(syn::Abi { name: Some(n), .. }) if n.value() == "C" => (),
                _ => return Err("not an extern \"C\" function".into()),
            }
            if !i.sig.generics.params.is_empty() || i.sig.variadic.is_some() || i.sig.asyncness.is_some() || i.sig.constness.is_some() {
                return Err("unexpected function header".into());
            }
            let mut ps = vec![];
            for a in &i.sig.inputs {
                match a {
                    syn::FnArg::Typed(t) => match &*t.pat {
                        syn::Pat::Ident(p) => {
                            let ty = &t.ty;
                            ps.push((unraw(&p.ident.to_string()).to_string(), quote! { #ty }.to_string()))
                        }
                        _ => return Err("parameter is not an identifier".into()),
                    },
                    _ => return Err("self parameter".into()),
                }
            }
            want(&ps)?;
            if variadic {
                return Err("variadic macro generated as a function".into());
            }
            let ts: TokenStream = out.parse().map_err(|e| format!("{e}"))?;
            if has_dollar(&ts) {
                return Err("`$` in a function".into());
            }
            let b = &i.block;
            inner_macros(&quote! { #b })?;
            let ret = match &i.sig.output {
                syn::ReturnType::Default => None,
                syn::ReturnType::Type(_, t) => Some(quote! { #t }.to_string()),
            };
            Ok(Form::Func { params: ps, ret })
        }
        [syn::Item::Macro(m), syn::Item::Use(u)] => {
            let mname = format!("__cmacro__{name}");
            if m.mac.path.to_token_string() != "macro_rules" || m.ident.as_ref().map(|i| i.to_string()) != Some(mname.clone()) {
                return Err(format!("not a definition of {mname}"));
            }
            let at: Vec<String> = m.attrs.iter().map(|a| quote! { #a }.to_string().replace(' ', "")).collect();
            if !at.contains(&"#[macro_export]".to_string()) {
                return Err("macro is not exported".into());
            }
            let us = quote! { #u }.to_string();
            let ok = us == format!("pub use {mname} as {name} ;") || us == format!("pub use {mname} as r#{name} ;");
            if !ok {
                return Err(format!("unexpected re-export {us:?}"));
            }
            let v: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
            let (TokenTree::Group(pg), TokenTree::Group(bg)) = (&v[0], &v[v.len().saturating_sub(2).max(1).min(v.len() - 1)]) else {
                return Err("malformed macro rule".into());
            };
            if v.len() != 5 || !is_p(v.get(1), '=') || !is_p(v.get(2), '>') || !is_p(v.get(4), ';') || bg.delimiter() != Delimiter::Brace {
                return Err("malformed macro rule".into());
            }
            let (ps, va) = matcher(pg.stream())?;
            want(&ps)?;
            if va != variadic {
                return Err("wrong variadic parameter".into());
            }
            let body = substitute(bg.stream(), &ps, va)?;
            // The macro may be called where an expression or where statements are expected.
            syn::parse2::<syn::Expr>(body.clone())
                .map(|_| ())
                .or_else(|_| syn::Block::parse_within.parse2(body.clone()).map(|_| ()))
                .map_err(|e| format!("body does not parse once arguments are substituted ({e}): {}", bg.stream()))?;
            inner_macros(&body)?;
            Ok(Form::Macro { params: ps, variadic: va, body: bg.stream() })
        }
        _ => Err("neither a function nor a macro with its re-export".into()),
    }
}
trait ToS {
    fn to_token_string(&self) -> String;
}
impl ToS for syn::Path {
    fn to_token_string(&self) -> String {
        quote! { #self }.to_string()
    }
}
