//! Development aid: compares the reference preprocessor with `gcc -E`.
use crate::cpp::{self, Cpp, Macro};
use crate::engine::Tape;
use crate::lib_if::*;
use crate::props::expand as ex;
use std::process::Command;

fn norm(v: &[String]) -> Vec<String> {
    v.iter()
        .map(|s| {
            if let (cpp::K::Str, Some(i)) = (cpp::kind(s), s.find('"')) {
                let inner = s[i + 1..s.len() - 1].replace("\\\"", "\"").replace("\\\\", "\\");
                if let Some(t) = cpp::lex(&inner) {
                    return format!("{}<{}>", &s[..i], norm(&t).join(" "));
                }
            }
            s.clone()
        })
        .collect()
}

pub fn gcccheck(seed: u64, n: usize) {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut next = || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x >> 16) as u32
    };
    let mut src = String::new();
    let mut want = vec![];
    for i in 0..n {
        let tape: Vec<u32> = (0..200).map(|_| next()).collect();
        let mut t = Tape::new(&tape);
        let c = match i % 3 {
            0 => ex::BASE,
            1 => ex::Cfg { names: 30, ops: 0, len: 4, wrong_arity: 0, ..ex::BASE },
            _ => ex::Cfg { ops: 8, variadic: 40, ..ex::BASE },
        };
        let (env, defs) = ex::gen_table(&mut t, &c);
        let text = ex::gen_text(&mut t, &env, &c);
        let tab = table(&defs);
        let mut m = Cpp::new(&tab);
        let w = m.expand_text(&text);
        let alt = Cpp::with_contexts(&tab).expand_text(&text);
        if w.is_err() {
            continue;
        }
        for d in &defs {
            src += &d.show();
            src += "\n";
        }
        src += &format!("@@@{i}\n{}\n@@@end\n", text.join(" "));
        for d in &defs {
            src += &format!("#undef {}\n", d.name);
        }
        want.push((i, show_defs(&defs), text, w, m.spanned, alt));
        let _ = tab.values().any(|m| matches!(m, Macro::Obj(_)));
    }
    let f = std::env::temp_dir().join("cmv-gcc.c");
    std::fs::write(&f, &src).unwrap();
    let o = Command::new("gcc").args(["-E", "-P", "-w", "-std=c2x", f.to_str().unwrap()]).output().unwrap();
    let out = String::from_utf8_lossy(&o.stdout);
    let mut missing = 0;
    let mut diffs: Vec<String> = vec![];
    let (mut alts, mut alt_off) = (0, 0);
    let (mut ok, mut bad, mut errs, mut spanned) = (0, 0, 0, 0);
    for (i, d, text, w, sp, alt) in want {
        let Some(a) = out.find(&format!("@@@{i}\n")) else {
            missing += 1;
            continue;
        };
        let rest = &out[a + format!("@@@{i}\n").len()..];
        let Some(e) = rest.find("@@@end") else { continue };
        let body = &rest[..e];
        match w {
            Err(_) => errs += 1,
            Ok(w) => {
                let g = cpp::lex(body).unwrap_or_else(|| vec![body.to_string()]);
                if norm(&g) == norm(&w) {
                    ok += 1;
                    alt_off += (alt.as_ref().map_or(true, |a| norm(&g) != norm(a))) as usize;
                    spanned += (sp > 0) as usize;
                } else if alt.as_ref().map_or(false, |a| norm(&g) == norm(a)) {
                    alts += 1;
                } else {
                    bad += 1;
                    {
                        diffs.push(format!("DIFF (spanned {sp}) {d}\n  text {}\n  gcc   {}\n  model {}", text.join(" "), norm(&g).join(" "), norm(&w).join(" ")));
                    }
                }
            }
        }
    }
    println!("{ok} agree ({spanned} of them spanning), {alts} agree with the context-stack variant only, {alt_off} with the hide-set variant only, {bad} differ, {errs} rejected by the model, {missing} missing");
    diffs.sort_by_key(|d| d.len());
    for d in diffs.iter().take(4) {
        println!("{d}");
    }
    let _ = std::fs::remove_file(&f);
}

fn env_ctx() -> crate::cg::Ctx {
    let g = |k: &str| std::env::var(k).ok();
    let mut c = crate::cg::Ctx { target: g("TARGET"), ffi: g("FFI"), tr: g("CORE"), ..Default::default() };
    for p in g("ARGS").unwrap_or_default().split(';').filter(|s| !s.is_empty()) {
        let (a, b) = p.split_once(':').unwrap();
        c.args.insert(a.into(), b.into());
    }
    for p in g("TYS").unwrap_or_default().split(';').filter(|s| !s.is_empty()) {
        let (a, b) = p.split_once(':').unwrap();
        c.tys.insert(a.into(), b.into());
    }
    for p in g("FNS").unwrap_or_default().split(';').filter(|s| !s.is_empty()) {
        let v: Vec<&str> = p.split(':').collect();
        c.fns.insert(v[0].into(), (v[1].split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(), v[2].into()));
    }
    c
}
/// `cmv var BODY` / `cmv fn ARGS BODY`: show what the library generates.
pub fn show(args: Option<&str>, body: &str) {
    let c = env_ctx();
    for b in body.split('\n') {
        let b = cpp::lex(b).expect("lex");
        let b: Vec<&str> = b.iter().map(|s| s.as_str()).collect();
        match args {
            None => println!("{:?}", crate::cg::var_gen("M", &b, &c)),
            Some(a) => {
                let a: Vec<&str> = a.split(',').filter(|s| !s.is_empty()).collect();
                match crate::cg::fn_gen("m", &a, &b, &c) {
                    Ok(s) => println!("{}", s.replace("# [doc (hidden)] # [macro_export] macro_rules ! ", "").replace("# [allow (non_snake_case , unused_mut , unsafe_code)] # [inline (always)] ", "")),
                    e => println!("{e:?}"),
                }
            }
        }
    }
}

/// `cmv fixtures DIR`: compares what is generated for the repository's header fixtures with the expected files.
pub fn fixtures(dir: &str) {
    use cmacro::{CodegenContext, FnMacro, MacroSet, VarMacro};
    use quote::quote;
    struct C(std::collections::HashMap<String, (Vec<String>, String)>);
    impl CodegenContext for C {
        fn resolve_ty(&self, name: &str) -> Option<syn::Type> {
            if name == "size_t" {
                return None;
            }
            let ty = proc_macro2::Ident::new(name, proc_macro2::Span::call_site());
            Some(syn::parse_quote! { #ty })
        }
        fn function(&self, name: &str) -> Option<(Vec<syn::Type>, syn::Type)> {
            let (a, r) = self.0.get(name)?;
            let p = |t: &str| t.parse::<cmacro::Type>().ok()?.to_rust_ty(self);
            Some((a.iter().map(|t| p(t)).collect::<Option<Vec<_>>>()?, p(r)?))
        }
    }
    let mut names: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|e| e == "h").unwrap_or(false)).collect();
    names.sort();
    for h in names {
        let text = std::fs::read_to_string(&h).unwrap().replace("\\\n", " \n\u{1}");
        let mut text2 = String::new();
        for part in text.split('\n') {
            if let Some(p) = part.strip_prefix('\u{1}') {
                text2.push(' ');
                text2.push_str(p);
            } else {
                text2.push('\n');
                text2.push_str(part);
            }
        }
        let mut m = MacroSet::new();
        let mut order = vec![];
        let mut fns = std::collections::HashMap::new();
        for line in text2.lines() {
            if let Some(d) = line.trim().strip_prefix("#define ") {
                let d = d.trim();
                let n: String = d.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                let rest = &d[n.len()..];
                order.push(n.clone());
                if let Some(r) = rest.strip_prefix('(') {
                    let (a, b) = r.split_once(')').unwrap();
                    let a: Vec<String> = crate::cpp::lex(a).unwrap_or_default().into_iter().filter(|t| t != ",").collect();
                    m.define_fn_macro(n, a, crate::cpp::lex(b).unwrap());
                } else {
                    m.define_var_macro(n, crate::cpp::lex(rest).unwrap());
                }
            } else if line.trim().ends_with(");") && !line.starts_with(' ') {
                let t = crate::cpp::lex(line).unwrap();
                let a = t[3..t.len() - 2].iter().filter(|t| *t != ",").cloned().collect();
                fns.insert(t[1].clone(), (a, t[0].clone()));
            }
        }
        let cx = C(fns);
        let mut out = proc_macro2::TokenStream::new();
        for n in &order {
            if let Ok((a, b)) = m.expand_fn_macro(n.as_str()) {
                match FnMacro::parse(n, &a, &b).map(|mut f| f.generate(&cx)) {
                    Ok(Ok(t)) => out.extend(t),
                    e => println!("  {n}: {:?}", e.map(|x| x.map(|_| ()))),
                }
            }
            if let Ok(b) = m.expand_var_macro(n.as_str()) {
                match VarMacro::parse(n, &b).map(|mut f| f.generate(&cx).map(|(v, t)| (v, t))) {
                    Ok(Ok((v, t))) => {
                        let n = proc_macro2::Ident::new(n, proc_macro2::Span::call_site());
                        let t = t.unwrap_or(quote! { _ });
                        out.extend(quote! { pub const #n: #t = #v; })
                    }
                    e => println!("  {n}: {:?}", e.map(|x| x.map(|_| ()))),
                }
            }
        }
        let exp = std::fs::read_to_string(h.with_extension("rs")).unwrap();
        let exp: syn::File = syn::parse_str(&exp).unwrap();
        match syn::parse2::<syn::File>(out.clone()) {
            Ok(f) => {
                let (a, b) = (quote! { #f }.to_string(), quote! { #exp }.to_string());
                let sq = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ").replace(", }", "}").replace(" ,)", ")").replace(", )", ")");
                if f != exp && sq(&a) != sq(&b) {
                    println!("DIFF {}\n  got {a}\n  exp {b}", h.display());
                }
            }
            Err(e) => println!("NOPARSE {} {e}: {out}", h.display()),
        }
    }
}
