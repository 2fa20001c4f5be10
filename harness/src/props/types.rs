//! C06: spellings of types.
use crate::cg::{self, split_fn, tn, Ctx, FnOut, GErr};
use crate::engine::*;
use cmacro::ast::Type;
use quote::ToTokens;

/// Specifier multisets (sorted) with the FFI type.
const LEGAL: &[(&[&str], &str)] = &[
    (&["void"], "c_void"),
    (&["_Bool"], "bool"),
    (&["bool"], "bool"),
    (&["float"], "f32"),
    (&["double"], "f64"),
    (&["double", "long"], "f64"),
    (&["char"], "c_char"),
    (&["char", "signed"], "c_schar"),
    (&["char", "unsigned"], "c_uchar"),
    (&["short"], "c_short"),
    (&["short", "signed"], "c_short"),
    (&["int", "short"], "c_short"),
    (&["int", "short", "signed"], "c_short"),
    (&["short", "unsigned"], "c_ushort"),
    (&["int", "short", "unsigned"], "c_ushort"),
    (&["int"], "c_int"),
    (&["signed"], "c_int"),
    (&["int", "signed"], "c_int"),
    (&["unsigned"], "c_uint"),
    (&["int", "unsigned"], "c_uint"),
    (&["long"], "c_long"),
    (&["long", "signed"], "c_long"),
    (&["int", "long"], "c_long"),
    (&["int", "long", "signed"], "c_long"),
    (&["long", "unsigned"], "c_ulong"),
    (&["int", "long", "unsigned"], "c_ulong"),
    (&["long", "long"], "c_longlong"),
    (&["long", "long", "signed"], "c_longlong"),
    (&["int", "long", "long"], "c_longlong"),
    (&["int", "long", "long", "signed"], "c_longlong"),
    (&["long", "long", "unsigned"], "c_ulonglong"),
    (&["int", "long", "long", "unsigned"], "c_ulonglong"),
];
const SPECIFIERS: &[&str] = &["void", "bool", "_Bool", "char", "short", "int", "long", "float", "double", "signed", "unsigned"];
const NAMES: &[&str] = &["my_t", "my_int", "P", "size_t", "uint8_t", "type", "Foo_Bar", "wchar_t", "handle"];
const RUST: &[&str] =
    &["my_t", "Other", "c_int", "a::b::C", "::a::C", "*mut Other", "*const *mut a::B", "*const u8", "u8", "f32", "bool", "r#type", "a::r#type::b", "my_int", "FFI::c_ulong", "*mut FFI::c_char", "FFI::c_void", "*const FFI::c_void", "FFI::my_t", "std::os::raw::c_int", "usize", "i64"];

fn permute<T>(t: &mut Tape, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = t.below(i + 1);
        v.swap(i, j)
    }
}
fn quals(t: &mut Tape, v: &mut Vec<String>, many: bool) -> bool {
    let n = t.weighted(if many { &[10, 3, 2, 1] } else { &[10, 4, 1] });
    let first = t.below(2);
    let mut c = false;
    for i in 0..n {
        // only base types may repeat a qualifier
        let q = if n == 2 { (first + i) % 2 } else { t.below(2) };
        v.push(["const", "volatile"][q].into());
        c |= q == 0;
    }
    c
}
struct T {
    c: Vec<String>,
    rust: String,
    void: bool,
    boolean: bool,
    ptr: bool,
    stars: usize,
    fancy: bool,
    /// Without resolution of names.
    plain: String,
}
/// A legal type.
fn gen(t: &mut Tape, cx: &Ctx, params: &[&str], macro_param: bool) -> T {
    let ffi = cx.ffi.as_ref().map(|s| format!("{s}::")).unwrap_or_default();
    let mut c: Vec<String> = vec![];
    let mut konst = false;
    let mut fancy = false;
    let (mut rust, mut plain);
    let kind = t.weighted(&[6, 4, 2, if macro_param { 2 } else { 0 }]);
    let (mut void, mut boolean) = (false, false);
    if kind == 0 {
        let (s, r) = *t.pick(LEGAL);
        let mut s: Vec<&str> = s.to_vec();
        permute(t, &mut s);
        fancy |= s.len() > 1;
        konst |= quals(t, &mut c, true);
        for x in s {
            c.push(x.into());
            konst |= quals(t, &mut c, true);
        }
        rust = if r.starts_with("c_") { format!("{ffi}{r}") } else { r.to_string() };
        plain = rust.clone();
        void = r == "c_void";
        boolean = r == "bool";
    } else {
        konst |= quals(t, &mut c, true);
        if kind == 3 {
            let p = t.pick_s(params);
            c.push(p.clone());
            rust = format!("${p}");
            plain = rust.clone();
        } else {
            if kind == 2 {
                c.push("struct".into())
            }
            let names: Vec<&String> = cx.tys.keys().filter(|k| *k != "size_t" || kind == 1).collect();
            if names.is_empty() {
                c.pop();
                c.push("int".into());
                rust = format!("{ffi}c_int");
                plain = rust.clone();
                c.retain(|x| x != "struct");
            } else {
                let n = names[t.below(names.len())].clone();
                rust = tn(&cx.tys[&n]);
                plain = if n == "type" { "r#type".into() } else { n.clone() };
                c.push(n);
                boolean = rust == "bool";
                void = rust == format!("{ffi}c_void") || rust == "c_void";
            }
        }
        konst |= quals(t, &mut c, false);
    }
    let nptr = t.weighted(&[4, 4, 2, 1]);
    for _ in 0..nptr {
        c.push("*".into());
        let q = if konst { "*const " } else { "*mut " };
        rust = format!("{q}{rust}");
        plain = format!("{q}{plain}");
        konst = quals(t, &mut c, false);
    }
    let ptr = rust.starts_with('*');
    fancy |= c.iter().any(|x| x == "const" || x == "volatile");
    T { c, void: void && nptr == 0, boolean: boolean && nptr == 0, ptr, stars: nptr, rust: tn(&rust), plain: tn(&plain), fancy }
}
/// A sequence which is no type.
fn gen_illegal(t: &mut Tape) -> Option<Vec<String>> {
    let mut v: Vec<String> = vec![];
    match t.weighted(&[6, 2, 2, 2]) {
        0 => {
            let n = 1 + t.count(5);
            let mut s: Vec<&str> = (0..n).map(|_| *t.pick(SPECIFIERS)).collect();
            let order = s.clone();
            s.sort();
            if LEGAL.iter().any(|l| l.0 == &s[..]) {
                return None;
            }
            for x in order {
                if t.chance(1, 6) {
                    v.push("const".into())
                }
                v.push(x.into())
            }
        }
        1 => {
            let n = t.pick_s(&["my_t", "struct", "my_int"]);
            // `bool` is no keyword before C23
            v.push(if n == "struct" { t.pick_s(&["int", "_Bool", "long", "void", "unsigned"]) } else { t.pick_s(SPECIFIERS) });
            let i = t.below(2);
            v.insert(i, n);
        }
        2 => v.extend(t.pick(&[&["const"][..], &["volatile"], &["struct"], &["struct", "int"], &["my_t", "my_int"], &["*"], &["const", "*"], &["struct", "struct", "my_t"], &["struct", "const"], &["my_t", "struct"], &["long", "my_int"], &["my_int", "unsigned"]]).iter().map(|s| s.to_string())),
        _ => {
            // a star before the type
            v.push("*".into());
            v.push(t.pick_s(SPECIFIERS));
        }
    }
    for _ in 0..t.weighted(&[4, 2, 1]) {
        v.push("*".into())
    }
    Some(v)
}
fn context(t: &mut Tape) -> Ctx {
    let mut cx = Ctx::default();
    if t.chance(1, 2) {
        cx.ffi = Some(t.pick_s(&["::core::ffi", "libc", "::libc", "std::os::raw", "ffi"]))
    }
    if t.chance(1, 2) {
        cx.tr = Some(t.pick_s(&["::core", "std", "::std"]))
    }
    if t.chance(1, 2) {
        cx.target = Some(t.pick_s(&["1.64", "nightly", "1.70", "nightly-2023-01-01"]))
    }
    for _ in 0..1 + t.count(5) {
        let n = t.pick_s(NAMES);
        let r = rust_ty(t, &cx);
        cx.tys.insert(n, r);
    }
    cx
}
fn rust_ty(t: &mut Tape, cx: &Ctx) -> String {
    let r = t.pick_s(RUST);
    match &cx.ffi {
        Some(f) => r.replace("FFI", f),
        None => r.replace("FFI::", ""),
    }
}
fn is_bool(s: &str) -> bool {
    s == "bool"
}
fn c06(t: &mut Tape, cxx: &mut Cx) -> Res {
    let mut cx = context(t);
    let mode = t.weighted(&[5, 3, 3, 2, 3, 3, 3, 3]);
    let ffi = cx.ffi.as_ref().map(|s| format!("{s}::")).unwrap_or_default();
    let tr = cx.tr.as_ref().map(|s| format!("{s}::")).unwrap_or_default();
    let size = match (cx.tys.get("size_t"), &cx.target) {
        (Some(t), _) => tn(t),
        (_, Some(t)) if !t.contains("nightly") => "usize".into(),
        _ => format!("{ffi}c_size_t"),
    };
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let cat = |a: &[&str], b: &[String], c: &[&str]| [s(a), b.to_vec(), s(c)].concat();
    let params = ["p", "q"];
    if mode == 7 {
        // refusals
        let Some(v) = gen_illegal(t) else { return cxx.discard("legal") };
        for n in ["my_t", "my_int"] {
            cx.tys.insert(n.into(), "u8".into());
        }
        let place = t.below(4);
        let body = match place {
            0 => cat(&["("], &v, &[")", "x"]),
            1 => cat(&["sizeof", "("], &v, &[")"]),
            2 => cat(&["{"], &v, &["v", "=", "x", ";", "}"]),
            _ => v.clone(),
        };
        cxx.set_desc(format!("illegal: {}", body.join(" ")));
        cxx.class("illegal");
        cxx.nontrivial = true;
        if place == 3 {
            let txt = v.join(" ");
            return match guard(|| txt.parse::<Type>().map(|t| format!("{t:?}"))) {
                Err(p) => fail("panic", format!("parsing the type {txt:?} panicked: {p}")),
                Ok(Ok(o)) => fail("illegal-accepted", format!("{txt:?} is not a type but is parsed as {o}")),
                Ok(Err(_)) => Ok(()),
            };
        }
        // `unsigned my_t = x` declares my_t
        if place == 2 && !matches!(v.last().map(|s| s.as_str()), Some("*")) && v.iter().any(|x| x.starts_with("my_")) {
            return cxx.discard("declares a name");
        }
        if place == 2 && v.iter().all(|x| x == "*") {
            return cxx.discard("assignment");
        }
        return match guard(|| cg::fn_gen("M", &["p"], &body, &cx)) {
            Err(p) => fail("panic", format!("{} panicked: {p}", body.join(" "))),
            Ok(Ok(o)) => fail("illegal-accepted", format!("{} uses an illegal combination of type specifiers but is accepted: {o}", body.join(" "))),
            Ok(Err(_)) => Ok(()),
        };
    }
    let macro_param = mode != 5 && mode != 6 && t.chance(1, 2);
    let ty = gen(t, &cx, &params, macro_param);
    cxx.nontrivial = ty.fancy || ty.stars > 0 || ty.rust.contains("::") || ty.rust != ty.plain;
    let run = |args: &[&str], body: &[String], cx: &Ctx| -> Result<FnOut, Fail> {
        let show = format!("#define M({}) {}   [{}]", args.join(", "), body.join(" "), cx.show());
        match guard(|| cg::fn_gen("M", args, body, cx)) {
            Err(p) => fail("panic", format!("{show} panicked: {p}")),
            Ok(Err(GErr::BadToken(t))) => panic!("harness: token {t}"),
            Ok(Err(e)) => fail("refused", format!("{show}\nuses only legal types but is refused: {e:?}")),
            Ok(Ok(o)) => split_fn("M", &o).map_err(|e| Fail { sig: "malformed".into(), msg: format!("{show}\n{e}\n{o}") }),
        }
    };
    let body_of = |o: FnOut| match o {
        FnOut::Macro { body, .. } => tn(&body.to_string()),
        FnOut::Func { body, .. } => tn(&body.to_string()),
    };
    let want_body = |body: &[String], want: String, cx: &Ctx| -> Res {
        let o = body_of(run(&params, body, cx)?);
        // parentheses and braces around the whole body do not matter here
        let sq = |s: &str| s.replace(' ', "");
        if sq(&o) != sq(&want) {
            return fail("type", format!("#define M(p, q) {}   [{}]\nbody should be {want}\nbut is          {o}", body.join(" "), cx.show()));
        }
        Ok(())
    };
    match mode {
        0 => {
            cxx.class("cast");
            let body = cat(&["("], &ty.c, &[")", "x"]);
            cxx.set_desc(format!("#define M(p, q) {}   [{}]", body.join(" "), cx.show()));
            let want = if ty.boolean && is_bool(&ty.rust) {
                "x != 0".to_string()
            } else if ty.void {
                "{ let _ = x; }".to_string()
            } else {
                format!("x as {}", ty.rust)
            };
            want_body(&body, want, &cx)
        }
        1 => {
            cxx.class("sizeof");
            let body = cat(&["sizeof", "("], &ty.c, &[")"]);
            cxx.set_desc(format!("#define M(p, q) {}   [{}]", body.join(" "), cx.show()));
            want_body(&body, format!("{tr}mem::size_of::<{}>() as {size}", ty.rust), &cx)
        }
        2 => {
            if ty.void {
                return cxx.discard("void variable");
            }
            cxx.class("declaration");
            let st = t.chance(1, 4);
            let body = cat(if st { &["{", "static"] } else { &["{"] }, &ty.c, &["v", "=", "x", ";", "}"]);
            cxx.set_desc(format!("#define M(p, q) {}   [{}]", body.join(" "), cx.show()));
            want_body(&body, format!("{{{} mut v: {} = x;}}", if st { "static" } else { "let" }, ty.rust), &cx)
        }
        3 => {
            cxx.class("function declaration");
            let n = t.count(3);
            let mut body = ty.c.clone();
            body.extend(s(&["f", "("]));
            let mut want = vec![];
            for i in 0..n {
                let mut a = gen(t, &cx, &params, macro_param);
                if a.void {
                    a = T { c: s(&["int"]), rust: format!("{ffi}c_int"), ..a };
                }
                if i > 0 {
                    body.push(",".into())
                }
                body.extend(a.c.clone());
                body.push(format!("a{i}"));
                want.push(format!("a{i}: {}", a.rust));
            }
            body.extend(s(&[")", ";"]));
            cxx.set_desc(format!("#define M(p, q) {}   [{}]", body.join(" "), cx.show()));
            let ret = if ty.void { String::new() } else { format!("-> {}", ty.rust) };
            want_body(&body, format!("extern \"C\" {{ pub fn f({}) {ret}; }}", want.join(", ")), &cx)
        }
        4 => {
            // resolution of types given by the context, and of the result
            cxx.class("signature");
            let r = rust_ty(t, &cx);
            let p = if t.chance(1, 2) { r } else { gen(t, &cx, &params, false).rust };
            if p == "()" || p.ends_with("c_void") && !p.starts_with('*') {
                return cxx.discard("void parameter");
            }
            cx.args.insert("p".into(), p.clone());
            let ty = gen(t, &cx, &params, false);
            let body = cat(&["("], &ty.c, &[")", "p"]);
            let show = format!("#define M(p) {}   [{}]", body.join(" "), cx.show());
            cxx.set_desc(show.clone());
            cxx.nontrivial = true;
            match run(&["p"], &body, &cx)? {
                FnOut::Macro { .. } => fail("signature", format!("{show}\nhas only known types but a macro is generated")),
                FnOut::Func { params, ret, body } => {
                    let want = if ty.void { None } else { Some(ty.rust.clone()) };
                    if params != [("p".to_string(), tn(&p))] || ret != want {
                        return fail("signature", format!("{show}\nshould be (p: {}) -> {want:?}\nbut is {params:?} -> {ret:?} {{ {body} }}", tn(&p)));
                    }
                    Ok(())
                }
            }
        }
        _ => {
            cxx.class("from_str");
            // whitespace between tokens, optional next to `*`
            let mut txt = String::new();
            let ws = |t: &mut Tape| t.pick_s(&[" ", "  ", "\t", " \n "]);
            if t.chance(1, 8) {
                txt += &ws(t)
            }
            for (i, x) in ty.c.iter().enumerate() {
                if i > 0 && (x != "*" && ty.c[i - 1] != "*" || t.chance(1, 2)) {
                    txt += &ws(t)
                }
                txt += x;
            }
            if t.chance(1, 8) {
                txt += &ws(t)
            }
            cxx.set_desc(format!("{txt:?}   [{}]", cx.show()));
            let r = guard(|| txt.parse::<Type>().map_err(|e| format!("{e:?}")).map(|ty| (ty.is_ptr(), ty.is_void(), ty.to_rust_ty(&cx).map(|t| t.to_token_stream().to_string()))));
            let star = ty.stars > 0;
            match r {
                Err(p) => fail("panic", format!("parsing the type {txt:?} panicked: {p}")),
                Ok(Err(e)) => fail("refused", format!("type {txt:?} is refused: {e}")),
                Ok(Ok((p, v, r))) => {
                    let r = r.map(|r| tn(&r));
                    if r.as_deref() != Some(&ty.plain) {
                        return fail("type", format!("type {txt:?} [{}] should be {} but is {r:?}", cx.show(), ty.plain));
                    }
                    if p != star {
                        return fail("is_ptr", format!("type {txt:?}: is_ptr() is {p}"));
                    }
                    // only the builtin counts, which may be qualified
                    if v && (star || !txt.contains("void")) {
                        return fail("is_void", format!("type {txt:?}: is_void() is {v}"));
                    }
                    let plain_void = txt.trim() == "void";
                    if plain_void && !v {
                        return fail("is_void", format!("type {txt:?}: is_void() is {v}"));
                    }
                    Ok(())
                }
            }
        }
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C06",
        rule: "the type has several specifiers, qualifiers, a pointer or a resolved name, or is an illegal combination",
        tape_len: 120,
        quick: 600_000,
        thorough: 20_000_000,
        case: c06,
        enumerate: None,
        batch: None,
        assumptions: &["`restrict`, unions, enums, arrays and function types are outside the supported grammar", "a qualifier is repeated only before or between the specifiers of a base type, and `static` comes first"],
    }]
}
