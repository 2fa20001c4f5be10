//! Properties of arbitrary macro bodies: C11, C12, C13.
use crate::cg::{tn, Ctx};
use crate::engine::*;
use crate::gram::{self, *};
use crate::wf;

pub struct Case {
    pub name: String,
    pub params: Vec<String>,
    pub body: Vec<String>,
    pub cx: Ctx,
    pub var: bool,
}
impl Case {
    pub fn show(&self) -> String {
        let h = if self.var { format!("#define {} ", self.name) } else { format!("#define {}({}) ", self.name, self.params.join(", ")) };
        format!("{h}{}   [{}]", gram::show(&self.body, &self.params), self.cx.show())
    }
}
/// Refusals and results under a guard against panics.
pub fn run(c: &Case) -> Result<Result<(String, Option<String>), GenErr>, Fail> {
    let r = if c.var {
        guard(|| gram::var(&c.name, &c.body, &c.cx))
    } else {
        guard(|| gram::func(&c.name, &c.params, &c.body, &c.cx).map(|o| (o, None)))
    };
    match r {
        Ok(Err(GenErr::Token(t))) => panic!("harness: not a token: {t:?}"),
        Ok(r) => Ok(r),
        Err(p) => Err(Fail { sig: format!("panic:{}", sig_of(&p)), msg: format!("panicked: {p}\n{}", c.show()) }),
    }
}
fn sig_of(p: &str) -> String {
    p.chars().filter(|c| !c.is_ascii_digit()).take(60).collect()
}
pub fn err_class(e: &GenErr) -> &'static str {
    match e {
        GenErr::Token(_) => "token",
        GenErr::Parse(_) => "refused-parse",
        GenErr::Gen(_) => "refused-gen",
    }
}
pub fn gen_case(t: &mut Tape, mutations: bool) -> Case {
    let var = t.chance(1, 4);
    let params = if var { vec![] } else { gram::params(t) };
    let cx = gram::ctx(t, &params);
    let mut g = Gen::new(t, Opt::all(&params));
    let d = 1 + g.t.below(4);
    if var {
        g.o.assign = false;
        g.o.stringify = false;
        g.expr(d)
    } else {
        g.body(d)
    }
    let mut body = g.out;
    if mutations {
        gram::mutate(t, &mut body)
    }
    let name = if t.chance(1, 12) { t.pick_s(RUST_WORDS) } else { t.pick_s(&["M", "F_x", "known_fn", "_m1"]) };
    Case { name, params, body, cx, var }
}
fn well_formed(c: &Case, r: &(String, Option<String>)) -> Result<Option<wf::Form>, String> {
    if c.var {
        wf::check_var(&r.0, r.1.as_deref()).map(|_| None)
    } else {
        wf::check_fn(&c.name, &c.params, &r.0).map(Some)
    }
}

fn c11(t: &mut Tape, cx: &mut Cx) -> Res {
    let m = t.chance(1, 4);
    let c = gen_case(t, m);
    cx.set_desc(c.show());
    let r = match run(&c) {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => {
            cx.class(err_class(&e));
            return Ok(());
        }
        Err(_) => return cx.discard("panicked (C12)"),
    };
    cx.nontrivial = true;
    match well_formed(&c, &r) {
        Ok(f) => {
            cx.class(match f {
                None => "constant",
                Some(wf::Form::Func { .. }) => "function",
                Some(wf::Form::Macro { .. }) => "macro",
            });
            Ok(())
        }
        Err(e) => fail(&format!("ill-formed:{}", e.chars().take(40).collect::<String>()), format!("{e}\n{}\noutput: {}", c.show(), r.0)),
    }
}

/// Names, valid and not, with whether they are identifiers.
fn odd_name(t: &mut Tape) -> (String, bool) {
    let ok = |s: &str| {
        let mut c = s.chars();
        c.next().map(|c| c == '_' || unicode_ident::is_xid_start(c)).unwrap_or(false) && c.all(unicode_ident::is_xid_continue)
    };
    let s: String = match t.below(3) {
        0 => t.pick_s(&["", "1", "1a", "a b", " a", "a ", "a-b", "a.b", "+", "a\n", "\"a\"", "a(b)", "a,b", "##", "...", "0", "é", "ñandú", "a€", "_", "中", "a\u{301}", "\u{301}a", "a\0", "r#type", "#x", "a::b", "a\u{a0}", "/**/a"]),
        1 => {
            let n = t.count(6);
            (0..n).map(|_| *t.pick(&['a', 'Z', '_', '0', '9', ' ', '-', 'é', '€', '.', '(', '\u{2003}'])).collect()
        }
        _ => t.pick_s(RUST_WORDS),
    };
    let o = ok(&s);
    (s, o)
}
fn reserved(s: &str) -> bool {
    matches!(s, "_" | "crate" | "self" | "super" | "Self")
}
/// Token lists in place of parameters, with whether they are a parameter list.
fn odd_params(t: &mut Tape) -> (Vec<String>, bool) {
    let mut v: Vec<String> = gram::params(t);
    let n = t.count(3);
    for _ in 0..n {
        let i = t.below(v.len() + 1);
        v.insert(
            i,
            t.pick_s(&["...", "...", "a", "b", "c", "1", "(", ")", ",", "+", "\"s\"", "'c'", "@0", "@1", "@~9a", "..", ".", "/* c */", "__VA_ARGS__", "_", "crate", "type", "int", "1.5", "##"]),
        );
    }
    // `..` is not a token: two of them are used.
    let v: Vec<String> = v.into_iter().flat_map(|s| if s == ".." { vec![".".into(), ".".into()] } else { vec![s] }).collect();
    let w: Vec<&String> = v.iter().filter(|s| !s.starts_with("/*")).collect();
    let id = |s: &str| s.chars().next().map(|c| c == '_' || c.is_alphabetic()).unwrap_or(false);
    let ok = w.iter().enumerate().all(|(i, s)| (id(s) && !reserved(s) && !w[..i].contains(s)) || (*s == "..." && i + 1 == w.len()));
    (v, ok)
}
/// A body which is not an expression or a statement, whatever the names in it are.
fn bad_body(t: &mut Tape, params: &[String]) -> Vec<String> {
    let mut g = Gen::new(t, Opt::all(params));
    let d = 1 + g.t.below(3);
    if g.t.chance(1, 2) {
        g.expr(d)
    } else {
        g.body(d)
    }
    let e = g.out;
    let mut g = Gen::new(t, Opt::all(params));
    g.expr(2);
    let e2 = g.out;
    let w = |s: &str| s.split(' ').map(String::from).collect::<Vec<_>>();
    let op = t.pick_s(&[
        "-", "+", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", ">", "<=", ">=", "=", "+=", "<<=", "?", ":", ".", "->", ",", "##", "~", "!", "( int )", "sizeof", "#",
    ]);
    let lead = t.pick_s(&["/", "%", ")", ",", "]", "=", "==", ".", "->", "?", ":", "<<", "|", "^", "<", "##", "-=", "}"]);
    match t.below(14) {
        0 => [e, w(&op)].concat(),
        1 => [w(&lead), e].concat(),
        2 => {
            let mut v = e;
            let i = t.below(v.len() + 1);
            v.insert(i, t.pick_s(&["(", ")", "[", "]", "{", "}"]));
            v
        }
        3 => [w("( "), e2.clone(), w(") ? ("), e2, w(")")].concat().into_iter().filter(|s| !s.is_empty()).collect(),
        4 => w(t.pick_s(&["1 2", "1 x", "'a' 1", "1.5 \"s\"", "x 1", "( 1 ) 2 3", "x [ 1 ] 2", "1 ( x )", "\"s\" ( x )", "f ( 1 ) 2", "x . 1", "x -> 2", "x . \"s\"", "x [ ]", "[ 1 ]", "x ( 1 , )", "x ( , )", "x ( , 1 )"]).as_str()),
        5 => w(t.pick_s(&["if", "if ( x )", "if ( x ) else x ;", "else x ;", "do x ;", "do x ; while", "do x ; while ( )", "while ( x )", "do", "if x ;", "if ( ) x ;", "if ( x ) x ; else", "while", "else", "do { x ; } while ( x"]).as_str()),
        6 => w(t.pick_s(&["{ x }", "{ x ; y }", "{ x = 1 y = 2 ; }", "{ x ; 1 2 ; }", "x = ;", "= 1", "int", "int * =", "int x = ;", "const", "unsigned int", "struct", "struct x", "x ; ) y ;", "1 ; 2 3 ;"]).as_str()),
        7 => w(t.pick_s(&["# 1", "# + x", "# ( x )", "#", "# \"s\"", "x #", "x ##", "## x", "x ## + y", "x ## ## y", "x ## ( y )", "@0 ## ##"]).as_str()),
        8 => w(t.pick_s(&["sizeof ( )", "sizeof ( 1 )", "( ) x", "( )", "{ ) }", "sizeof ( int", "sizeof", "( int )", "( struct )", "( const ) x", "( int int ) x", "( short char ) x", "( signed unsigned ) x", "( float double ) x", "( long float ) x", "( long long long ) x"]).as_str()),
        9 => w(t.pick_s(&["__asm__ ( \"nop\"", "__asm__ ( \"nop\" : \"=r\" )", "__asm__ ( \"nop\" : ( x ) )", "__asm__ ( \"nop\" : : \"r\" )", "__asm__ ( \"nop\" : : : x )", "__asm__ ( \"nop\" : : : : : )"]).as_str()),
        10 => [w("1 +"), w(&lead), e2].concat(),
        11 => [w("("), e, w(&op), w(")")].concat(),
        12 => [w("f ("), e2, w(","), w(")")].concat(),
        _ => [w("("), e2, w(") 2 1.5 ;")].concat(),
    }
}
/// Nesting up to 256 levels deep.
fn deep(t: &mut Tape) -> Vec<String> {
    let n = 2 + t.below(255);
    let (a, m, b): (&str, &str, &str) = *t.pick(&[
        ("( ", "x", " )"),
        ("- ", "x", ""),
        ("! ", "@0", ""),
        ("~ ", "x", ""),
        ("+ ", "1", ""),
        ("* ", "@0", ""),
        ("& * ", "x", ""),
        ("* & ", "x", ""),
        ("( int ) ", "x", ""),
        ("( ( int ) ", "1", " )"),
        ("( volatile int * * ) * ", "x", ""),
        ("* ( volatile int * ) ", "x", ""),
        ("f ( ", "@0", " )"),
        ("known_fn ( ", "x", " )"),
        ("f ( 1 , ", "\"s\"", " , 2 )"),
        ("x ? 1 : ", "x", ""),
        ("x ? ", "x", " : 1"),
        ("( x ? ", "@0", " : @0 )"),
        ("{ ", "x ;", " }"),
        ("if ( x ) ", "@0 = 1 ;", ""),
        ("if ( x ) { x ; } else ", "x ;", ""),
        ("do ", "x ;", " while ( x ) ;"),
        ("do { ", "break ;", " } while ( 0 ) ;"),
        ("x + ", "1", ""),
        ("1 + ", "1", ""),
        ("2 * ", "1.5", ""),
        ("1 - ( ", "1", " )"),
        ("x == ( ", "1", " )"),
        ("x = ", "1", ""),
        ("x += ( ", "1", " )"),
        ("", "x", " . y"),
        ("", "x", " -> y"),
        ("", "x", " [ 1 ]"),
        ("", "x", " + 1"),
        ("", "\"a\"", " \"b\""),
        ("", "x", " ## y"),
        ("", "x", " ## @0"),
        ("", "# @0", " # @0"),
        ("", "x ;", " x = 1 ;"),
        ("", "f ( 1", " , 1 )"),
        ("a [ ", "1", " ]"),
        ("* ( x + ", "1", " )"),
        ("* ++ ", "x", ""),
        ("++ * ", "x", ""),
        ("( * ", "x", " ) ++"),
        ("* ( ", "x", " = y )"),
        ("sizeof ( int ) + ", "1", ""),
        ("( x , ", "1", " )"),
        ("1 << ", "1", ""),
        ("( ", "1 +", " )"),
        ("( ", "int", " )"),
    ]);
    // Ill-formed nesting takes time exponential in its depth.
    let bad = matches!((a, m), ("( x , ", _) | (_, "1 +") | (_, "int")) || b == " , 1 )" || b == " # @0";
    let n = if bad { n % 9 } else { n };
    let mut v: Vec<String> = vec![];
    let mut add = |s: &str| v.extend(s.split(' ').filter(|s| !s.is_empty()).map(String::from));
    for _ in 0..n {
        add(a);
    }
    add(m);
    for _ in 0..n {
        add(b);
    }
    v
}

fn c12(t: &mut Tape, cx: &mut Cx) -> Res {
    let k = t.weighted(&[40, 8, 8, 24, 12, 8, 8]);
    let mut c = gen_case(t, k == 0);
    match k {
        0 => cx.class("mutated body"),
        1 => {
            let (n, ok) = odd_name(t);
            c.name = n;
            cx.set_desc(c.show());
            cx.nontrivial = !ok;
            let refused = matches!(run(&c)?, Err(GenErr::Parse(cmacro::ParserError::InvalidMacroName)));
            let skip = c.name.starts_with("__") || reserved(&c.name);
            cx.class(if ok { "name" } else { "invalid name" });
            if !skip && refused == ok {
                return fail("name", format!("{}: {:?}\n{}", if ok { "a valid name was refused" } else { "an invalid name was accepted" }, c.name, c.show()));
            }
            return Ok(());
        }
        2 => {
            let (p, ok) = odd_params(t);
            c.var = false;
            c.name = "M".into();
            c.params = p;
            c.body = vec!["1".into()];
            cx.set_desc(c.show());
            cx.nontrivial = !ok;
            let refused = matches!(run(&c)?, Err(GenErr::Parse(cmacro::ParserError::InvalidMacroArgs)));
            cx.class(if ok { "parameters" } else { "invalid parameters" });
            if refused == ok {
                return fail("parameters", format!("{}\n{}", if ok { "a parameter list was refused" } else { "a token list which is no parameter list was accepted" }, c.show()));
            }
            return Ok(());
        }
        3 => {
            c.body = bad_body(t, &c.params);
            cx.class("invalid body");
            cx.set_desc(c.show());
            cx.nontrivial = true;
            if let Ok(o) = run(&c)? {
                return fail("bad-body", format!("a body which is neither an expression nor statements was accepted\n{}\noutput: {}", c.show(), o.0));
            }
            return Ok(());
        }
        4 => {
            c.body = deep(t);
            if c.params.is_empty() || c.params[0] == "..." {
                c.body.iter_mut().filter(|s| *s == "@0").for_each(|s| *s = "x".into());
            }
            cx.class("nested");
        }
        6 => {
            let s = texts(t, &c)?;
            cx.set_desc(format!("text {s:?}"));
            cx.class("text");
            cx.nontrivial = true;
            return Ok(());
        }
        _ => {
            let n = t.below(12);
            c.body = vec![];
            for _ in 0..n {
                gram::mutate(t, &mut c.body);
            }
            cx.class("token soup");
        }
    }
    cx.set_desc(c.show());
    cx.nontrivial = true;
    match run(&c)? {
        Ok(_) => cx.class("accepted"),
        Err(e) => cx.class(err_class(&e)),
    }
    Ok(())
}

/// Arbitrary texts handed to everything which takes a string.
fn texts(t: &mut Tape, c: &Case) -> Result<String, Fail> {
    use cmacro::ast::*;
    let n = t.below(10);
    let s: String = if t.chance(1, 2) {
        (0..n).map(|_| t.pick_s(&["int", "unsigned", "const", "*", "struct", "long", "char", "(", ")", "x", "::", "volatile", "union", "/*", "*/", "1", "é", ";", "<", ">", "restrict", "enum", "void", "&", "\"", "'", "\\", "##", "size_t", "type", "crate", "_"]) + if t.chance(3, 4) { " " } else { "" }).collect()
    } else {
        (0..n).map(|_| *t.pick(&['\'', '"', '\\', 'x', 'u', 'U', 'L', '8', '0', '1', '9', 'e', 'p', '.', '+', '-', 'f', 'l', 'b', '\n', '/', '*', '#', 'é', '€', '\u{0}', '𝒳', 'R', '(', '?', 'n', ' '])).collect()
    };
    let r = guard(|| {
        let s = s.as_str();
        if let Ok(ty) = s.parse::<cmacro::Type>() {
            let _ = ty.to_rust_ty(&c.cx);
        }
        let _ = Identifier::try_from(s);
        let _ = IdentifierContinue::try_from(s);
        let _ = Lit::try_from(s);
        let _ = LitInt::try_from(s);
        let _ = LitFloat::try_from(s);
        let _ = LitChar::try_from(s);
        let _ = LitString::try_from(s);
        let _ = Comment::try_from(s);
        let _ = Punctuation::try_from(s);
    });
    match r {
        Ok(()) => Ok(s),
        Err(p) => Err(Fail { sig: format!("panic:{}", sig_of(&p)), msg: format!("panicked: {p}\ntext: {s:?}") }),
    }
}

/// Comments do not change what is generated.
fn c13(t: &mut Tape, cx: &mut Cx) -> Res {
    let m = t.chance(1, 4);
    let c = gen_case(t, m);
    let mut d = Case { name: c.name.clone(), params: c.params.clone(), body: c.body.clone(), cx: c.cx.clone(), var: c.var };
    let n = 1 + t.count(5);
    let dense = t.chance(1, 4);
    let comment = |t: &mut Tape| t.pick_s(&["/* c */", "/**/", "/* x + 1 */", "/* ## \" */", "/*(*/"]);
    if dense {
        d.body = d.body.iter().flat_map(|s| [comment(t), s.clone()]).collect();
        d.body.push(comment(t));
    } else {
        for _ in 0..n {
            let i = t.below(d.body.len() + 1);
            d.body.insert(i, comment(t));
        }
    }
    if !c.var && t.chance(1, 4) {
        let i = t.below(d.params.len() + 1);
        d.params.insert(i, comment(t));
    }
    cx.set_desc(d.show());
    let (a, b) = match (run(&c), run(&d)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => return cx.discard("panicked (C12)"),
        (_, Err(f)) | (Err(f), _) => return Err(Fail { sig: format!("only one {}", f.sig), msg: f.msg }),
    };
    cx.nontrivial = a.is_ok() && c.body.len() > 1;
    cx.class(match &a {
        Ok(_) => "accepted",
        Err(e) => err_class(e),
    });
    if a != b {
        return fail("comments", format!("with comments: {b:?}\nwithout: {a:?}\n{}\n{}", d.show(), c.show()));
    }
    // The same through a macro set.
    let txt = |c: &Case| -> Vec<String> { c.body.iter().map(|s| gram::show(std::slice::from_ref(s), &c.params)).collect() };
    let clean: Vec<String> = d.params.iter().filter(|s| !s.starts_with('/')).cloned().collect();
    let (x, y) = (txt(&c), d.body.iter().map(|s| gram::show(std::slice::from_ref(s), &clean)).collect::<Vec<_>>());
    if x.iter().any(|s| s.starts_with('@')) {
        return Ok(());
    }
    let f = |p: &[String], b: &[String]| {
        guard(|| {
            if c.var {
                crate::cg::var_gen(&c.name, b, &c.cx).map_err(|e| format!("{e:?}"))
            } else {
                crate::cg::fn_gen(&c.name, p, b, &c.cx).map(|o| (o, None)).map_err(|e| format!("{e:?}"))
            }
        })
    };
    match (f(&c.params, &x), f(&d.params, &y)) {
        (Ok(a), Ok(b)) if a != b && (a.is_ok() || b.is_ok()) => fail("comments-set", format!("through a macro set\nwith comments: {b:?}\nwithout: {a:?}\n{}\n{}", d.show(), c.show())),
        (Ok(_), Ok(_)) | (Err(_), Err(_)) => Ok(()),
        (Ok(_), Err(p)) => fail("comments-panic", format!("through a macro set, panicked only with comments: {p}\n{}", d.show())),
        (Err(p), Ok(_)) => fail("comments-panic", format!("through a macro set, panicked only without comments: {p}\n{}", d.show())),
    }
}

const FFI: &[&str] = &[
    "c_char", "c_schar", "c_uchar", "c_short", "c_ushort", "c_int", "c_uint", "c_long", "c_ulong", "c_longlong", "c_ulonglong", "c_float", "c_double", "c_void", "c_size_t", "c_ssize_t",
];
/// The output with prefixes, from the output without.
fn prefixed(ts: proc_macro2::TokenStream, ffi: &proc_macro2::TokenStream, tr: &proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, TokenStream, TokenTree};
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let p = |i: usize, c: char| matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == c);
    let mut out = TokenStream::new();
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), prefixed(g.stream(), ffi, tr));
                n.set_span(g.span());
                out.extend([TokenTree::Group(n)]);
            }
            TokenTree::Ident(id) => {
                let id = id.to_string();
                let after_path = i >= 2 && p(i - 1, ':') && p(i - 2, ':');
                let after_dot = i >= 1 && p(i - 1, '.');
                let path = p(i + 1, ':') && p(i + 2, ':');
                let mac = p(i + 1, '!') && matches!(v.get(i + 2), Some(TokenTree::Group(_)));
                if !after_path && !after_dot {
                    if FFI.contains(&id.as_str()) {
                        out.extend(ffi.clone());
                    } else if id == "CStr" && !tr.is_empty() {
                        out.extend(tr.clone());
                        out.extend("ffi::".parse::<TokenStream>().unwrap());
                    } else if (path && matches!(id.as_str(), "ptr" | "mem" | "arch" | "ffi" | "f32" | "f64" | "primitive"))
                        || (mac && matches!(id.as_str(), "concat" | "stringify" | "line" | "file" | "format" | "concat_idents"))
                    {
                        out.extend(tr.clone());
                    }
                }
                out.extend([v[i].clone()]);
            }
            _ => out.extend([v[i].clone()]),
        }
    }
    out
}
fn c08(t: &mut Tape, cx: &mut Cx) -> Res {
    let m = t.chance(1, 6);
    let mut c = gen_case(t, m);
    // User identifiers named like generated items.
    for s in c.body.iter_mut() {
        if matches!(s.as_str(), "x" | "foo" | "n2" | "value" | "len") && t.chance(1, 6) {
            *s = t.pick_s(&["ptr", "mem", "line", "file", "concat", "ffi", "core", "std", "f64", "c_thing", "MAX"]);
        }
    }
    if t.chance(1, 5) {
        // Special values.
        let lits: Vec<usize> = (0..c.body.len()).filter(|i| c.body[*i].starts_with(|c: char| c.is_ascii_digit())).collect();
        if !lits.is_empty() {
            let i = *t.pick(&lits);
            let v: &[&str] = *t.pick(&[
                &["1e39f"][..],
                &["(", "-", "1e39f", ")"],
                &["(", "-", "1e999", ")"],
                &["(", "0.0", "/", "0.0", ")"],
                &["(", "0.0f", "/", "0.0f", ")"],
                &["1e999L"],
                &["__INT_MAX__"],
                &["__LONG_LONG_MAX__"],
                &["__SCHAR_MAX__"],
                &["'a'"],
                &["(", "(", "int", "*", ")", "0", ")"],
                &["(", "(", "const", "char", "*", ")", "0", ")"],
                &["sizeof", "(", "long", ")"],
                &["__LINE__"],
                &["\"s\""],
            ]);
            c.body.splice(i..=i, v.iter().map(|s| s.to_string()));
            cx.class("special value");
        }
    }
    const P: &[&str] = &["::core::ffi", "libc", "std::os::raw", "a::b::c", "::x", "crate::sys", "r#type::y"];
    let old = c.cx.ffi.take().unwrap_or_default();
    let pf = if t.chance(3, 4) { t.pick_s(P) } else { String::new() };
    let pt = if t.chance(3, 4) { t.pick_s(&["::core", "std", "::std", "my::core", "crate"]) } else { String::new() };
    c.cx.tr = None;
    let map = |c: &Ctx, f: &dyn Fn(&str) -> String| {
        let mut d = c.clone();
        d.args.values_mut().for_each(|v| *v = f(v));
        d.enums.values_mut().for_each(|v| v.0 = f(&v.0));
        d.tys.values_mut().for_each(|v| *v = f(v));
        d.fields.values_mut().for_each(|v| *v = f(v));
        d.fns.values_mut().for_each(|v| {
            v.0.iter_mut().for_each(|v| *v = f(v));
            v.1 = f(&v.1)
        });
        d
    };
    let a = map(&c.cx, &|s| if old.is_empty() { s.into() } else { s.replace(&format!("{old}::c_"), "c_") });
    let mut b = map(&a, &|s| prefix_ffi(s, &pf));
    if !pf.is_empty() {
        b.ffi = Some(pf.clone());
    }
    if !pt.is_empty() {
        b.tr = Some(pt.clone());
    }
    c.cx = a;
    let d = Case { name: c.name.clone(), params: c.params.clone(), body: c.body.clone(), cx: b, var: c.var };
    cx.set_desc(d.show());
    let (x, y) = match (run(&c), run(&d)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => return cx.discard("panicked (C12)"),
        (_, Err(f)) | (Err(f), _) => return Err(Fail { sig: format!("only one {}", f.sig), msg: f.msg }),
    };
    let (x, y) = match (x, y) {
        (Err(a), Err(b)) => {
            cx.class(err_class(&a));
            if std::mem::discriminant(&a) != std::mem::discriminant(&b) {
                return fail("refusal", format!("with prefixes: {b:?}\nwithout: {a:?}\n{}", d.show()));
            }
            return Ok(());
        }
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return fail("outcome", format!("with prefixes: {b:?}\nwithout: {a:?}\n{}", d.show())),
    };
    let path = |s: &str| -> proc_macro2::TokenStream { if s.is_empty() { Default::default() } else { format!("{s}::").parse().unwrap() } };
    let conv = |s: &str| -> Result<String, Fail> {
        let ts: proc_macro2::TokenStream = s.parse().map_err(|e| Fail { sig: "lex".into(), msg: format!("{e}: {s}") })?;
        Ok(tn(&prefixed(ts, &path(&pf), &path(&pt)).to_string()))
    };
    let e = (conv(&x.0)?, x.1.as_deref().map(conv).transpose()?);
    let g = (tn(&y.0), y.1.as_deref().map(tn));
    cx.nontrivial = e.0 != tn(&x.0);
    cx.class(if pf.is_empty() { "no FFI prefix" } else { "FFI prefix" });
    cx.class(if pt.is_empty() { "no core prefix" } else { "core prefix" });
    if e != g {
        return fail("prefix", format!("expected {e:?}\ngot      {g:?}\n{}", d.show()));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            rule: "the macro is accepted, has more than one token and at least one comment is inserted",
            tape_len: 400,
            quick: 300_000,
            thorough: 8_000_000,
            case: c13,
            enumerate: None,
            batch: None,
            assumptions: &["comments are tokens of the body; the outcome of both is compared exactly"],
        },
        Prop {
            id: "C08",
            rule: "at least one item of the output is prefixed",
            tape_len: 400,
            quick: 300_000,
            thorough: 8_000_000,
            case: c08,
            enumerate: None,
            batch: None,
            assumptions: &["the prefixed output is derived from the output without prefixes by a token-level model of which items are prefixed"],
        },
        Prop {
            id: "C12",
            rule: "the body is ill-formed, mutated or deeply nested, or the name or parameter list is invalid",
            tape_len: 400,
            quick: 400_000,
            thorough: 10_000_000,
            case: c12,
            enumerate: None,
            batch: None,
            assumptions: &["a stack of 64 MB; well-formed nesting up to 256 levels, ill-formed nesting up to 9 levels (the parser backtracks)"],
        },
        Prop {
        id: "C11",
        rule: "the library generated code for the macro (it was not refused)",
        tape_len: 400,
        quick: 300_000,
        thorough: 8_000_000,
        case: c11,
        enumerate: None,
        batch: None,
        assumptions: &["well-formedness is judged by the syn parser; arguments substituted for parameters are of the kind the macro declares"],
    }]
}
