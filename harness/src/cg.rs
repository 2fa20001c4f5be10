//! Parsing and generating macros through the library's public interface.
use crate::lib_if::lib_tok;
use cmacro::{CodegenContext, CodegenError, ExpansionError, FnMacro, MacroSet, MacroToken, ParserError, VarMacro};
use std::collections::BTreeMap;

/// A table-driven generation context.
#[derive(Default, Clone, Debug)]
pub struct Ctx {
    pub target: Option<String>,
    pub ffi: Option<String>,
    pub tr: Option<String>,
    pub args: BTreeMap<String, String>,
    pub enums: BTreeMap<String, (String, String)>,
    pub tys: BTreeMap<String, String>,
    pub fields: BTreeMap<(String, String), String>,
    pub fns: BTreeMap<String, (Vec<String>, String)>,
}
fn ty(s: &str) -> syn::Type {
    syn::parse_str(s).unwrap_or_else(|e| panic!("harness: bad type {s:?}: {e}"))
}
impl CodegenContext for Ctx {
    fn rust_target(&self) -> Option<String> {
        self.target.clone()
    }
    fn ffi_prefix(&self) -> Option<syn::Path> {
        self.ffi.as_ref().map(|s| syn::parse_str(s).expect("harness: path"))
    }
    fn trait_prefix(&self) -> Option<syn::Path> {
        self.tr.as_ref().map(|s| syn::parse_str(s).expect("harness: path"))
    }
    fn macro_arg_ty(&self, _m: &str, a: &str) -> Option<syn::Type> {
        self.args.get(a).map(|s| ty(s))
    }
    fn resolve_enum_variant(&self, v: &str) -> Option<(syn::Type, syn::Expr)> {
        self.enums.get(v).map(|(t, e)| (ty(t), syn::parse_str(e).expect("harness: expr")))
    }
    fn resolve_ty(&self, t: &str) -> Option<syn::Type> {
        self.tys.get(t).map(|s| ty(s))
    }
    fn resolve_field_ty(&self, t: &str, f: &str) -> Option<syn::Type> {
        let strip = |s: &str| s.replace(' ', "");
        self.fields.iter().find(|((a, b), _)| strip(a) == strip(t) && b == f).map(|(_, s)| ty(s))
    }
    fn function(&self, n: &str) -> Option<(Vec<syn::Type>, syn::Type)> {
        self.fns.get(n).map(|(a, r)| (a.iter().map(|s| ty(s)).collect(), ty(r)))
    }
}
impl Ctx {
    pub fn show(&self) -> String {
        let mut v = vec![];
        if let Some(t) = &self.target {
            v.push(format!("target={t}"));
        }
        if let Some(t) = &self.ffi {
            v.push(format!("ffi={t}"));
        }
        if let Some(t) = &self.tr {
            v.push(format!("core={t}"));
        }
        for (k, x) in &self.args {
            v.push(format!("arg {k}: {x}"));
        }
        for (k, x) in &self.enums {
            v.push(format!("enum {k}: {x:?}"));
        }
        for (k, x) in &self.tys {
            v.push(format!("type {k}: {x}"));
        }
        for (k, x) in &self.fields {
            v.push(format!("field {}.{}: {x}", k.0, k.1));
        }
        for (k, x) in &self.fns {
            v.push(format!("fn {k}({}) -> {}", x.0.join(", "), x.1));
        }
        v.join("; ")
    }
}

#[derive(Debug, PartialEq)]
pub enum GErr {
    BadToken(String),
    Expand(ExpansionError),
    Parse(ParserError),
    Gen(CodegenError),
}

/// A token as the library sees it, or an error naming the unrecognised text.
pub fn toks<S: AsRef<str>>(v: &[S]) -> Result<Vec<MacroToken<'_>>, GErr> {
    v.iter().map(|s| lib_tok(s.as_ref()).ok_or_else(|| GErr::BadToken(s.as_ref().into()))).collect()
}
/// Defines, expands, parses and generates one variable-like macro.
pub fn var_gen<S: AsRef<str>>(name: &str, body: &[S], cx: &Ctx) -> Result<(String, Option<String>), GErr> {
    let mut m = MacroSet::new();
    m.define_var_macro(name, body.iter().map(|s| s.as_ref()).collect::<Vec<_>>());
    let t = m.expand_var_macro(name).map_err(GErr::Expand)?;
    let mut v = VarMacro::parse(name, &t).map_err(GErr::Parse)?;
    let (a, b) = v.generate(cx).map_err(GErr::Gen)?;
    Ok((a.to_string(), b.map(|b| b.to_string())))
}
/// Defines, expands, parses and generates one function-like macro.
pub fn fn_gen<A: AsRef<str>, S: AsRef<str>>(name: &str, args: &[A], body: &[S], cx: &Ctx) -> Result<String, GErr> {
    let mut m = MacroSet::new();
    m.define_fn_macro(name, args.iter().map(|s| s.as_ref()).collect::<Vec<_>>(), body.iter().map(|s| s.as_ref()).collect::<Vec<_>>());
    let (a, b) = m.expand_fn_macro(name).map_err(GErr::Expand)?;
    let mut f = FnMacro::parse(name, &a, &b).map_err(GErr::Parse)?;
    Ok(f.generate(cx).map_err(GErr::Gen)?.to_string())
}
/// The generated function or macro definition, taken apart.
#[derive(Debug, Clone)]
pub enum FnOut {
    Macro { params: Vec<(String, String)>, variadic: bool, body: proc_macro2::TokenStream },
    Func { params: Vec<(String, String)>, ret: Option<String>, body: proc_macro2::TokenStream },
}
/// Type spelled without whitespace, for comparisons.
pub fn tn(s: &str) -> String {
    let mut o = String::new();
    let mut p = ' ';
    for w in s.split_whitespace() {
        let c = w.chars().next().unwrap();
        let id = |c: char| c.is_alphanumeric() || c == '_';
        if id(p) && id(c) {
            o.push(' ');
        }
        o.push_str(w);
        p = w.chars().last().unwrap();
    }
    o
}
/// Takes apart the output for a function-like macro; an error says in which way it is malformed.
pub fn split_fn(name: &str, out: &str) -> Result<FnOut, String> {
    use proc_macro2::{Delimiter, TokenStream, TokenTree};
    use quote::ToTokens;
    let ts: TokenStream = out.parse().map_err(|e| format!("does not lex as Rust: {e}"))?;
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    if out.contains("macro_rules") {
        let mac = format!("__cmacro__{name}");
        let pos = v.iter().position(|t| t.to_string() == "macro_rules").ok_or("no macro_rules")?;
        let head: TokenStream = v[..pos].iter().cloned().collect();
        if tn(&head.to_string()) != "#[doc(hidden)]#[macro_export]" {
            return Err(format!("unexpected attributes {head}"));
        }
        if v.len() < pos + 4 || v[pos + 1].to_string() != "!" || v[pos + 2].to_string() != mac {
            return Err("macro has the wrong name".into());
        }
        let TokenTree::Group(g) = &v[pos + 3] else { return Err("no macro body".into()) };
        let tail: TokenStream = v[pos + 4..].iter().cloned().collect();
        let u: syn::ItemUse = syn::parse2(tail.clone()).map_err(|e| format!("bad re-export {tail}: {e}"))?;
        if tn(&u.to_token_stream().to_string()) != format!("pub use {mac} as {name};") {
            return Err(format!("unexpected re-export {tail}"));
        }
        let r: Vec<TokenTree> = g.stream().into_iter().collect();
        if r.len() < 4 || r.len() > 5 {
            return Err("macro has not one rule".into());
        }
        let (TokenTree::Group(p), TokenTree::Group(b)) = (&r[0], &r[3]) else { return Err("macro rule malformed".into()) };
        if p.delimiter() != Delimiter::Parenthesis || b.delimiter() != Delimiter::Brace || r[1].to_string() != "=" || r[2].to_string() != ">" {
            return Err("macro rule malformed".into());
        }
        let mut params = vec![];
        let mut variadic = false;
        let ps = tn(&p.stream().to_string()).replace(' ', "");
        if !ps.is_empty() {
            // `$($x:expr),*` contains a comma of its own
            let (ps, va) = match ps.strip_suffix("$($__VA_ARGS__:expr),*") {
                Some(r) => (r.strip_suffix(',').unwrap_or(r).to_string(), true),
                None => (ps, false),
            };
            variadic = va;
            if !ps.is_empty() {
                for p in ps.split(',') {
                    let (n, k) = p.strip_prefix('$').and_then(|p| p.split_once(':')).ok_or(format!("bad macro parameter {p}"))?;
                    params.push((n.to_string(), k.to_string()));
                }
            }
        }
        Ok(FnOut::Macro { params, variadic, body: b.stream() })
    } else {
        let f: syn::ItemFn = syn::parse2(ts).map_err(|e| format!("is not one function: {e}"))?;
        if f.sig.ident != name {
            return Err("function has the wrong name".into());
        }
        let head = format!("{} {}", f.vis.to_token_stream(), {
            let mut s = f.sig.clone();
            s.inputs.clear();
            s.output = syn::ReturnType::Default;
            s.to_token_stream()
        });
        if tn(&head) != format!("pub unsafe extern\"C\"fn {name}()") {
            return Err(format!("unexpected signature {head}"));
        }
        let mut params = vec![];
        for i in &f.sig.inputs {
            let syn::FnArg::Typed(p) = i else { return Err("self parameter".into()) };
            let syn::Pat::Ident(n) = &*p.pat else { return Err("parameter pattern".into()) };
            params.push((n.ident.to_string(), tn(&p.ty.to_token_stream().to_string())));
        }
        let ret = match &f.sig.output {
            syn::ReturnType::Default => None,
            syn::ReturnType::Type(_, t) => Some(tn(&t.to_token_stream().to_string())),
        };
        let body = f.block.stmts.iter().map(|s| s.to_token_stream()).collect();
        Ok(FnOut::Func { params, ret, body })
    }
}
