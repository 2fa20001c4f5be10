#![allow(dead_code, unused_imports)]
use cmacro::*;
use std::collections::BTreeMap;
/// Tokens of a text whose tokens are separated by spaces (a string literal may contain spaces).
fn split(s: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut cur = String::new();
    let mut q: Option<char> = None;
    let mut esc = false;
    for c in s.chars() {
        match q {
            Some(d) => {
                cur.push(c);
                if esc { esc = false } else if c == '\\' { esc = true } else if c == d { q = None }
            }
            None if c == ' ' => { if !cur.is_empty() { v.push(std::mem::take(&mut cur)) } }
            None => { if c == '"' || c == '\'' { q = Some(c) } cur.push(c) }
        }
    }
    if !cur.is_empty() { v.push(cur) }
    v
}
#[derive(Default, Clone)]
struct Cx {
    target: Option<&'static str>,
    ffi: Option<&'static str>,
    core: Option<&'static str>,
    args: BTreeMap<&'static str, &'static str>,
    enums: BTreeMap<&'static str, (&'static str, &'static str)>,
    tys: BTreeMap<&'static str, &'static str>,
    fields: BTreeMap<(&'static str, &'static str), &'static str>,
    fns: BTreeMap<&'static str, (Vec<&'static str>, &'static str)>,
}
fn ty(s: &str) -> syn::Type { syn::parse_str(s).unwrap() }
impl CodegenContext for Cx {
    fn rust_target(&self) -> Option<String> { self.target.map(|s| s.to_string()) }
    fn ffi_prefix(&self) -> Option<syn::Path> { self.ffi.map(|s| syn::parse_str(s).unwrap()) }
    fn trait_prefix(&self) -> Option<syn::Path> { self.core.map(|s| syn::parse_str(s).unwrap()) }
    fn macro_arg_ty(&self, _m: &str, a: &str) -> Option<syn::Type> { self.args.get(a).map(|s| ty(s)) }
    fn resolve_enum_variant(&self, v: &str) -> Option<(syn::Type, syn::Expr)> {
        self.enums.get(v).map(|(t, e)| (ty(t), syn::parse_str(e).unwrap()))
    }
    fn resolve_ty(&self, t: &str) -> Option<syn::Type> { self.tys.get(t).map(|s| ty(s)) }
    fn resolve_field_ty(&self, t: &str, f: &str) -> Option<syn::Type> {
        let strip = |s: &str| s.replace(' ', "");
        self.fields.iter().find(|((a, b), _)| strip(a) == strip(t) && *b == f).map(|(_, s)| ty(s))
    }
    fn function(&self, n: &str) -> Option<(Vec<syn::Type>, syn::Type)> {
        self.fns.get(n).map(|(a, r)| (a.iter().map(|s| ty(s)).collect(), ty(r)))
    }
}
/// Canonical display of a token.
fn tok(t: &MacroToken) -> String {
    match t {
        MacroToken::Arg(a) => format!("<{a:?}>"),
        MacroToken::Identifier(i) => i.as_str().to_string(),
        MacroToken::IdentifierContinue(i) => i.as_str().to_string(),
        MacroToken::Lit(Lit::Int(i)) => format!("{i:?}"),
        MacroToken::Lit(l) => format!("{l:?}"),
        MacroToken::Punctuation(p) => {
            for s in ["(", ")", "[", "]", "{", "}", ",", "+", "-", "*", "/", "%", "=", "==", "!=", "<", ">", "<=", ">=", "&", "|", "&&", "||", "<<", ">>", "##", "#", "...", ".", "->", "++", "--", "+=", "-=", ";", ":", "?", "!", "~", "^"] {
                if *p == *s { return s.to_string() }
            }
            format!("{p:?}")
        }
        MacroToken::Comment(_) => "/**/".into(),
    }
}
fn show(t: &[MacroToken]) -> String {
    t.iter().filter(|t| !matches!(t, MacroToken::Comment(_))).map(tok).collect::<Vec<_>>().join(" ")
}
/// Defines the macros (`N body` or `N(a,b) body`) in order.
fn set(defs: &[&str]) -> MacroSet {
    let mut m = MacroSet::new();
    for d in defs {
        let (head, body) = d.split_once(' ').unwrap_or((d, ""));
        match head.split_once('(') {
            Some((n, a)) => {
                let a = a.trim_end_matches(')');
                let a: Vec<&str> = a.split(',').filter(|s| !s.is_empty()).collect();
                m.define_fn_macro(n, a, split(body));
            }
            None => { m.define_var_macro(head, split(body)); }
        }
    }
    m
}
/// The expansion of the macro X of the set.
fn expand(defs: &[&str]) -> Result<String, ExpansionError> {
    set(defs).expand_var_macro("X").map(|t| show(&t))
}
/// Generated value and type of a variable-like macro.
fn var(body: &str, cx: &Cx) -> Result<(String, Option<String>), String> {
    let mut m = MacroSet::new();
    m.define_var_macro("X", split(body));
    let t = m.expand_var_macro("X").map_err(|e| format!("expand: {e:?}"))?;
    let mut v = VarMacro::parse("X", &t).map_err(|e| format!("parse: {e:?}"))?;
    let (a, b) = v.generate(cx).map_err(|e| format!("generate: {e:?}"))?;
    Ok((squash(&a.to_string()), b.map(|b| squash(&b.to_string()))))
}
/// Generated code of a function-like macro.
fn func(args: &str, body: &str, cx: &Cx) -> Result<String, String> {
    let mut m = MacroSet::new();
    m.define_fn_macro("X", args.split(',').filter(|s| !s.is_empty()).collect::<Vec<_>>(), split(body));
    let (a, b) = m.expand_fn_macro("X").map_err(|e| format!("expand: {e:?}"))?;
    let mut f = FnMacro::parse("X", &a, &b).map_err(|e| format!("parse: {e:?}"))?;
    Ok(squash(&f.generate(cx).map_err(|e| format!("generate: {e:?}"))?.to_string()))
}
/// Rust text with whitespace only where two words meet.
fn squash(s: &str) -> String {
    let mut o = String::new();
    for w in s.split_whitespace() {
        let id = |c: char| c.is_alphanumeric() || c == '_';
        if o.chars().last().map_or(false, id) && w.chars().next().map_or(false, id) { o.push(' ') }
        o.push_str(w);
    }
    o
}
/// Compiles and runs a Rust program; its output.
fn rustc_run(src: &str) -> String {
    let dir = std::env::temp_dir().join(format!("seed-demo-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let f = dir.join("p.rs");
    std::fs::write(&f, src).unwrap();
    let o = std::process::Command::new("rustc").args(["--edition", "2021", "-A", "warnings", "-o"]).arg(dir.join("p")).arg(&f).output().unwrap();
    let out = if !o.status.success() {
        format!("does not compile: {}", String::from_utf8_lossy(&o.stderr))
    } else {
        let r = std::process::Command::new(dir.join("p")).output().unwrap();
        format!("{}{}", String::from_utf8_lossy(&r.stdout), if r.status.success() { "" } else { "FAILED" })
    };
    let _ = std::fs::remove_dir_all(&dir);
    out
}
