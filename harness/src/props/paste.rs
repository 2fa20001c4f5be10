//! C19: stringification and pasting of parameters.
use super::typed::canon;
use crate::cg::{self, split_fn, Ctx, FnOut, GErr};
use crate::engine::*;
use proc_macro2::{Delimiter, Group, Literal, Span, TokenStream, TokenTree};

/// Spelling in C and value.
const STRS: &[(&str, &str)] = &[
    ("\"x\"", "x"),
    ("\"\"", ""),
    ("\"a b\"", "a b"),
    ("\"\\n\"", "\n"),
    ("\"\\\"q\\\"\"", "\"q\""),
    ("\"\\\\\"", "\\"),
    ("\"{}\"", "{}"),
    ("\"%s: \"", "%s: "),
    ("\"é\"", "é"),
    ("\"\\x41\"", "A"),
    ("\"\\101\"", "A"),
    ("\"\\xc3\\xa9\"", "é"),
    ("\"a\\0b\"", "a\0b"),
    ("u8\"u\"", "u"),
    ("\"#a ## $b\"", "#a ## $b"),
    ("\"'\"", "'"),
];
const IDS: &[&str] = &["x", "_t", "get_", "v2", "y", "__z", "Foo"];
/// Expected kinds of parameters.
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
enum Kind {
    Unused,
    Expr,
    Ident,
}
struct G<'a, 'b> {
    t: &'a mut Tape<'b>,
    params: Vec<String>,
    variadic: bool,
    kinds: Vec<Kind>,
    tr: String,
    ffi: String,
    ops: usize,
}
type Out = (Vec<String>, String);
impl G<'_, '_> {
    fn param(&mut self, k: Kind) -> usize {
        let i = self.t.below(self.params.len());
        if k > self.kinds[i] {
            self.kinds[i] = k
        }
        i
    }
    fn quote(&self, inner: &str) -> String {
        let (tr, ffi) = (&self.tr, &self.ffi);
        format!("{{ const BYTES: &[u8] = {tr}concat!({inner}, '\\0').as_bytes(); BYTES.as_ptr() as *const {ffi}c_char }}")
    }
    /// A chain of strings.
    fn string(&mut self) -> Out {
        let n = if self.t.chance(1, 25) { 6 + self.t.below(20) } else { 1 + self.t.weighted(&[4, 4, 3, 2, 1]) };
        let mut c = vec![];
        let mut parts: Vec<Result<String, String>> = vec![];
        for i in 0..n {
            let k = self.t.weighted(&[5, 5, if i > 0 || n > 1 { 1 } else { 0 }, if self.variadic { 2 } else { 0 }]);
            match k {
                0 => {
                    let (s, v) = *self.t.pick(STRS);
                    c.push(s.to_string());
                    parts.push(Err(v.into()));
                }
                1 if !self.params.is_empty() => {
                    self.ops += 1;
                    let p = self.param(Kind::Expr);
                    c.push("#".into());
                    c.push(self.params[p].clone());
                    parts.push(Ok(format!("{}stringify!({})", self.tr, self.params[p])));
                }
                2 if !self.params.is_empty() => {
                    // the argument is a string literal
                    let p = self.param(Kind::Expr);
                    c.push(self.params[p].clone());
                    parts.push(Ok(self.params[p].clone()));
                }
                3 => {
                    self.ops += 1;
                    c.push("#".into());
                    c.push("__VA_ARGS__".into());
                    parts.push(Ok(format!("{}stringify!($($__VA_ARGS__),*)", self.tr)));
                }
                _ => {
                    c.push("\"z\"".into());
                    parts.push(Err("z".into()));
                }
            }
        }
        if parts.iter().all(|p| p.is_err()) {
            let v: String = parts.into_iter().map(|p| p.unwrap_err()).collect();
            let mut b = v.into_bytes();
            b.push(0);
            let ffi = &self.ffi;
            if c.iter().any(|c| c.starts_with("u8")) {
                return (c, format!("{{ const BYTES: &[u8; {}] = {}; BYTES.as_ptr() }}", b.len(), Literal::byte_string(&b)));
            }
            return (c, format!("{{ const BYTES: &[u8; {}] = {}; BYTES.as_ptr() as *const {ffi}c_char }}", b.len(), Literal::byte_string(&b)));
        }
        if let [Ok(p)] = &parts[..] {
            if !p.contains("stringify") {
                return (c, p.clone());
            }
        }
        let inner = parts.iter().map(|p| p.clone().unwrap_or_else(|v| Literal::string(&v).to_string())).collect::<Vec<_>>().join(", ");
        (c, self.quote(&inner))
    }
    /// An identifier, possibly pasted.
    fn paste(&mut self) -> Out {
        let n = if self.t.chance(1, 16) { 6 + self.t.below(10) } else { 1 + self.t.weighted(&[1, 6, 4, 2, 1]) };
        let mut c: Vec<String> = vec![];
        let mut parts: Vec<(bool, String)> = vec![];
        let any = !self.params.is_empty();
        for i in 0..n {
            if i > 0 {
                self.ops += 1;
                c.push("##".into());
            }
            if any && self.t.chance(2, 3) {
                let k = if n > 1 { Kind::Ident } else { Kind::Expr };
                let p = self.param(k);
                c.push(self.params[p].clone());
                parts.push((true, self.params[p].clone()));
            } else {
                let s = self.t.pick_s(IDS);
                c.push(s.clone());
                match parts.last_mut() {
                    Some((false, l)) => *l += &s,
                    _ => parts.push((false, s)),
                }
            }
        }
        let r = match &parts[..] {
            [p] => p.1.clone(),
            p => format!("{}concat_idents!({})", self.tr, p.iter().map(|p| p.1.clone()).collect::<Vec<_>>().join(", ")),
        };
        (c, r)
    }
    fn expr(&mut self, d: usize) -> Out {
        let k = if d == 0 { self.t.below(2) } else { self.t.below(8) };
        match k {
            0 => self.string(),
            1 => self.paste(),
            2 => {
                let (mut c, r) = self.paste();
                let n = self.t.count(3);
                c.push("(".into());
                let mut a = vec![];
                for i in 0..n {
                    if i > 0 {
                        c.push(",".into())
                    }
                    if self.t.chance(1, 4) {
                        c.push("1".into());
                        a.push("1".to_string());
                        continue;
                    }
                    let (ac, ar) = self.expr(d - 1);
                    // a string literal alone is passed as it is
                    let lit = ac.iter().all(|s| s.ends_with('"'));
                    c.extend(ac);
                    a.push(if lit { ar } else { format!("({ar}).into()") });
                }
                c.push(")".into());
                (c, format!("{r}({})", a.join(", ")))
            }
            3 => {
                let (mut c, l) = self.paste();
                c.push("+".into());
                let (rc, r) = self.paste();
                c.extend(rc);
                (c, format!("(({l}) + ({r}))"))
            }
            4 => {
                let (mut c, l) = self.paste();
                let (xc, x) = self.expr(d - 1);
                let (yc, y) = self.expr(d - 1);
                c.push("?".into());
                c.extend(xc);
                c.push(":".into());
                c.extend(yc);
                (c, format!("(if {l} != 0 {{ {x} }} else {{ {y} }})"))
            }
            5 => {
                let (mut c, l) = self.string();
                c.insert(0, "(".into());
                for s in [")", "[", "3", "]"] {
                    c.push(s.into())
                }
                (c, format!("(*({l}).add(3))"))
            }
            6 => {
                let (c, l) = self.paste();
                let mut v: Vec<String> = vec!["(".into(), "long".into(), ")".into(), "(".into()];
                v.extend(c);
                v.push(")".into());
                (v, format!("(({l}) as {}c_long)", self.ffi))
            }
            _ => {
                let (c, l) = self.paste();
                let mut v: Vec<String> = vec!["-".into()];
                v.extend(c);
                (v, format!("(- {l})"))
            }
        }
    }
    fn stmt(&mut self, d: usize) -> Out {
        match self.t.below(4) {
            0 => {
                let (mut c, l) = self.paste();
                let (rc, r) = self.expr(d);
                c.push("=".into());
                c.extend(rc);
                c.push(";".into());
                (c, format!("{l} = {r};"))
            }
            1 => {
                let (c, r) = self.expr(d);
                let mut v: Vec<String> = vec!["if".into(), "(".into()];
                let (lc, l) = self.paste();
                v.extend(lc);
                v.push(")".into());
                v.extend(["{".into()]);
                v.extend(c);
                v.extend([";".into(), "}".into()]);
                (v, format!("if {l} != 0 {{ {r}; }}"))
            }
            _ => {
                let (mut c, r) = self.expr(d);
                c.push(";".into());
                (c, format!("{r};"))
            }
        }
    }
}
/// String literals by value, neighbours in `concat!` joined, no `$`.
fn norm(ts: TokenStream, concat: bool) -> TokenStream {
    let mut v: Vec<TokenTree> = vec![];
    let it: Vec<TokenTree> = ts.into_iter().collect();
    let mut pending: Option<String> = None;
    let mut i = 0;
    while i < it.len() {
        match &it[i] {
            TokenTree::Literal(l) => {
                if let Ok(s) = syn::parse_str::<syn::LitStr>(&l.to_string()) {
                    if concat {
                        pending = Some(pending.unwrap_or_default() + &s.value());
                        // the comma between two strings
                        if matches!(it.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char() == ',') && matches!(it.get(i + 2), Some(TokenTree::Literal(l)) if syn::parse_str::<syn::LitStr>(&l.to_string()).is_ok()) {
                            i += 2;
                            continue;
                        }
                        let s = pending.take().unwrap();
                        v.push(TokenTree::Literal(Literal::string(&s)));
                    } else {
                        v.push(TokenTree::Literal(Literal::string(&s.value())));
                    }
                } else if let Ok(s) = syn::parse_str::<syn::LitByteStr>(&l.to_string()) {
                    v.push(TokenTree::Literal(Literal::byte_string(&s.value())));
                } else {
                    v.push(it[i].clone())
                }
            }
            TokenTree::Group(g) => {
                let c = g.delimiter() == Delimiter::Parenthesis
                    && i >= 2
                    && matches!(&it[i - 1], TokenTree::Punct(p) if p.as_char() == '!')
                    && matches!(&it[i - 2], TokenTree::Ident(n) if n == "concat");
                v.push(TokenTree::Group(Group::new(g.delimiter(), norm(g.stream(), c))))
            }
            // all the variadic arguments
            TokenTree::Punct(p) if p.as_char() == '$' && matches!(it.get(i + 1), Some(TokenTree::Group(g)) if g.stream().to_string().replace(' ', "") == "$__VA_ARGS__") => {
                v.push(TokenTree::Ident(proc_macro2::Ident::new("__all__", Span::call_site())));
                i += 3;
            }
            // `$x`, but not `$( .. )`
            TokenTree::Punct(p) if p.as_char() == '$' && matches!(it.get(i + 1), Some(TokenTree::Ident(_))) => (),
            t => v.push(t.clone()),
        }
        i += 1;
    }
    // empty strings do not matter
    if concat {
        let mut w: Vec<TokenTree> = vec![];
        let mut skip = false;
        for t in v {
            if skip && matches!(&t, TokenTree::Punct(p) if p.as_char() == ',') {
                skip = false;
                continue;
            }
            skip = false;
            if t.to_string() == "\"\"" {
                skip = true;
                continue;
            }
            w.push(t)
        }
        v = w;
    }
    v.into_iter().collect()
}
/// Strings of any bytes can only be next to the stringification of an argument if they are UTF-8.
fn bytes(t: &mut Tape, cx: &mut Cx) -> Res {
    const B: &[(&str, &[u8])] = &[
        ("\"\\xff\"", b"\xff"),
        ("\"\\xc3\"", b"\xc3"),
        ("\"\\xa9\"", b"\xa9"),
        ("\"a\\377\"", b"a\xff"),
        ("\"\\xc3\\xa9\"", b"\xc3\xa9"),
        ("\"\\351t\"", b"\xe9t"),
        ("\"\\xe2\\x82\"", b"\xe2\x82"),
        ("\"\\xac\"", b"\xac"),
        ("\"ok\"", b"ok"),
        ("\"\\xed\\xa0\\x80\"", b"\xed\xa0\x80"),
        ("\"\\x7f\"", b"\x7f"),
    ];
    let mut c: Vec<String> = vec![];
    let mut runs: Vec<Vec<u8>> = vec![vec![]];
    let at = t.below(4);
    let n = at + 1 + t.below(4);
    for i in 0..n {
        if i == at || t.chance(1, 4) {
            c.push("#".into());
            c.push("x".into());
            runs.push(vec![]);
        } else {
            let (l, b) = *t.pick(B);
            c.push(l.into());
            runs.last_mut().unwrap().extend(b);
        }
    }
    let show = format!("#define M(x) {}", c.join(" "));
    cx.set_desc(show.clone());
    cx.nontrivial = n > 1;
    let ok = runs.iter().all(|r| std::str::from_utf8(r).is_ok());
    cx.class(if ok { "UTF-8" } else { "not UTF-8" });
    match guard(|| cg::fn_gen("M", &["x"], &c, &Ctx::default())) {
        Err(p) => fail("panic", format!("{show} panicked: {p}")),
        Ok(Err(GErr::Gen(_))) if !ok => Ok(()),
        Ok(Err(err)) => fail("refused", format!("{show}\nis refused: {err:?}")),
        Ok(Ok(o)) if !ok => fail("bytes", format!("{show}\nhas strings which are not UTF-8, but is generated as {o}")),
        Ok(Ok(o)) => {
            let mut want = vec![];
            for (i, r) in runs.iter().enumerate() {
                if i > 0 {
                    want.push("stringify!($x)".to_string());
                }
                if !r.is_empty() {
                    want.push(Literal::string(std::str::from_utf8(r).unwrap()).to_string());
                }
            }
            let strip = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
            let want = strip(&format!("concat!({}, '\\0')", want.join(",")));
            if !strip(&o).contains(&want) {
                return fail("body", format!("{show}\nshould contain {want}, but is\n{o}"));
            }
            Ok(())
        }
    }
}
fn c19(t: &mut Tape, cx: &mut Cx) -> Res {
    if t.chance(1, 40) {
        return bytes(t, cx);
    }
    let mut c = Ctx::default();
    if t.chance(1, 3) {
        c.ffi = Some(t.pick_s(&["::core::ffi", "libc"]))
    }
    if t.chance(1, 3) {
        c.tr = Some(t.pick_s(&["::core", "std"]))
    }
    let np = t.weighted(&[1, 5, 5, 2]);
    let params: Vec<String> = ["a", "b", "msg"][..np].iter().map(|s| s.to_string()).collect();
    // declared types do not matter
    for p in &params {
        if t.chance(1, 4) {
            c.args.insert(p.clone(), t.pick_s(&["u16", "Foo", "*mut Foo"]));
        }
    }
    let typed = c.args.clone();
    let variadic = t.chance(1, 6);
    let p = |s: &Option<String>| s.as_ref().map(|s| format!("{s}::")).unwrap_or_default();
    let (tr, ffi) = (p(&c.tr), p(&c.ffi));
    let mut g = G { t, kinds: vec![Kind::Unused; np], params, variadic, tr, ffi, ops: 0 };
    let d = g.t.below(3);
    let (body, want) = match g.t.below(3) {
        0 => {
            let n = 1 + g.t.below(3);
            let mut b = vec!["{".to_string()];
            let mut r = String::from("{");
            for _ in 0..n {
                let (sc, sr) = g.stmt(d);
                b.extend(sc);
                r += &sr;
            }
            b.push("}".into());
            r.push('}');
            (b, r)
        }
        1 => g.string(),
        _ => g.expr(d),
    };
    let (params, kinds, ops) = (g.params, g.kinds, g.ops);
    // types of parameters decide about conditions
    if ops == 0 {
        return cx.discard("neither operator");
    }
    let mut all: Vec<&str> = params.iter().map(|s| s.as_str()).collect();
    if variadic {
        all.push("...")
    }
    let show = format!("#define M({}) {}   [{}]", all.join(", "), body.join(" "), c.show());
    cx.set_desc(show.clone());
    cx.nontrivial = ops > 1 || body.len() > 4;
    cx.class(if want.contains("stringify") && want.contains("concat_idents") { "both" } else if want.contains("stringify") { "stringify" } else if want.contains("concat_idents") { "paste" } else { "joined" });
    if !typed.is_empty() && (body.iter().any(|b| b == "?" || b == "if")) {
        return cx.discard("condition of a declared type");
    }
    let out = match guard(|| cg::fn_gen("M", &all, &body, &c)) {
        Err(p) => return fail("panic", format!("{show} panicked: {p}")),
        Ok(Err(GErr::BadToken(t))) => panic!("harness: token {t}"),
        Ok(Err(err)) => return fail("refused", format!("{show}\nis refused: {err:?}")),
        Ok(Ok(o)) => o,
    };
    let o = match split_fn("M", &out) {
        Ok(o) => o,
        Err(err) => return fail("malformed", format!("{show}\n{err}\n{out}")),
    };
    let FnOut::Macro { params: p, variadic: v, body: got } = o else {
        if !want.contains("stringify") && !want.contains("concat_idents") {
            return Ok(());
        }
        return fail("form", format!("{show}\nparameters are stringified or pasted, but this is a function\n{out}"));
    };
    let wantp: Vec<(String, String)> = params.iter().zip(&kinds).map(|(n, k)| (n.clone(), if *k == Kind::Ident { "ident" } else { "expr" }.to_string())).collect();
    if p != wantp || v != variadic {
        return fail("parameters", format!("{show}\nparameters should be {wantp:?} but are {p:?}\n{out}"));
    }
    let n = |ts: TokenStream| norm(ts, false).to_string();
    let w: TokenStream = want.parse().unwrap_or_else(|e| panic!("harness: {e}: {want}"));
    let w = canon(&n(w)).unwrap_or_else(|e| panic!("harness: {e}: {want}"));
    let gc = match canon(&n(got)) {
        Ok(g) => g,
        Err(e) => return fail("malformed", format!("{show}\n{e}\n{out}")),
    };
    let sq = |s: &str| s.replace(' ', "").trim_start_matches('{').trim_end_matches(['}', ';']).to_string();
    if sq(&w) != sq(&gc) {
        return fail("body", format!("{show}\nbody should be {w}\nbut is         {gc}\n{out}"));
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C19",
        rule: "two operators, or an operator among at least three other tokens",
        tape_len: 200,
        quick: 300_000,
        thorough: 10_000_000,
        case: c19,
        enumerate: None,
        batch: None,
        assumptions: &["pieces of a pasted name are identifiers (`concat_idents!` takes nothing else); literal text next to stringified parameters is Unicode without `char`-wide prefixes"],
    }]
}
