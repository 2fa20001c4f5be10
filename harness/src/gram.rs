//! Macro bodies drawn from (a superset of) the grammar of C expressions and statements, as token lists.
//!
//! `@3` stands for the macro's parameter number 3, `@~12ab` for an identifier continuation; every other token is
//! spelled as in C.
use crate::cg::Ctx;
use crate::engine::Tape;
use crate::lib_if::lib_tok;
use cmacro::{CodegenError, FnMacro, MacroToken, ParserError, VarMacro};

/// What a generator may use.
#[derive(Clone)]
pub struct Opt {
    pub params: Vec<String>,
    pub strings: bool,
    pub asm: bool,
    pub paste: bool,
    pub stringify: bool,
    pub keywords: bool,
    pub line_file: bool,
    pub assign: bool,
    pub ints: bool,
}
impl Opt {
    pub fn all(params: &[String]) -> Opt {
        Opt {
            params: params.to_vec(),
            strings: true,
            asm: true,
            paste: true,
            stringify: true,
            keywords: true,
            line_file: true,
            assign: true,
            ints: true,
        }
    }
}

pub const NAMES: &[&str] = &["x", "foo", "my_var", "Obj", "_tmp", "n2", "value"];
pub const FIELDS: &[&str] = &["x", "len", "next", "flags"];
/// Names that are keywords in Rust and plain identifiers in C.
pub const RUST_WORDS: &[&str] = &[
    "type", "match", "fn", "let", "mut", "impl", "loop", "move", "ref", "use", "where", "in", "mod", "pub", "trait", "unsafe", "async",
    "await", "dyn", "as", "box", "final", "yield", "try", "abstract", "become", "macro", "override", "priv", "unsized", "virtual",
];
pub const INTS: &[&str] = &["0", "1", "42", "7u", "0x1F", "0b101", "017", "3L", "2ull", "255", "65536", "4294967296", "1uz", "0xFFul"];
pub const FLOATS: &[&str] = &["1.0", "2.5f", ".5", "1e3", "3.L", "1.25e-2"];
pub const CHARS: &[&str] = &["'a'", "'\\0'", "'\\n'", "u'b'", "U'c'", "L'd'", "u8'e'", "'\\x41'", "'\\''"];
pub const STRS: &[&str] = &["\"\"", "\"abc\"", "\"a b\"", "\"{}\"", "\"q\\\"x\"", "\"%d\\n\""];
pub const PSTRS: &[&str] = &["u8\"x\"", "u\"y\"", "U\"z\"", "L\"w\""];
pub const BINOPS: &[&str] =
    &["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "==", "!=", "<", ">", "<=", ">="];
pub const ASSIGN: &[&str] = &["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^="];

pub struct Gen<'a, 'b> {
    pub t: &'a mut Tape<'b>,
    pub o: Opt,
    pub out: Vec<String>,
    /// How many pointer-like operators may still nest (the generated code repeats their operands).
    pub deref: usize,
    pub budget: usize,
}
impl<'a, 'b> Gen<'a, 'b> {
    pub fn new(t: &'a mut Tape<'b>, o: Opt) -> Self {
        Gen { t, o, out: vec![], deref: 3, budget: 60 }
    }
    fn p(&mut self, s: &str) {
        self.out.push(s.into());
    }
    fn pick(&mut self, xs: &[&str]) {
        let s = self.t.pick_s(xs);
        self.out.push(s);
    }
    fn param(&mut self) -> bool {
        if self.o.params.is_empty() {
            return false;
        }
        let i = self.t.below(self.o.params.len());
        self.out.push(format!("@{i}"));
        true
    }
    pub fn name(&mut self) {
        match self.t.weighted(&[8, 4, if self.o.keywords { 2 } else { 0 }, 2]) {
            0 => {
                if !self.param() {
                    self.pick(NAMES)
                }
            }
            1 => self.pick(NAMES),
            2 => self.pick(RUST_WORDS),
            _ => self.pick(&["E_A", "E_B"]),
        }
    }
    fn plain(&mut self) {
        if self.o.keywords && self.t.chance(1, 6) {
            self.pick(RUST_WORDS)
        } else {
            self.pick(NAMES)
        }
    }
    fn paste(&mut self) {
        if !self.param() {
            self.plain();
        }
        for _ in 0..1 + self.t.count(2) {
            self.p("##");
            match self.t.weighted(&[4, 4, 1]) {
                0 => {
                    if !self.param() {
                        self.plain()
                    }
                }
                1 => self.plain(),
                _ => self.pick(&["@~12", "@~3ab", "@~0", "@~00a"]),
            }
        }
    }
    pub fn scalar(&mut self) {
        const S: &[&[&str]] = &[
            &["int"],
            &["unsigned"],
            &["unsigned", "char"],
            &["signed", "char"],
            &["char"],
            &["short"],
            &["long", "int"],
            &["unsigned", "long", "long"],
            &["int", "long", "unsigned"],
            &["float"],
            &["double"],
            &["long", "double"],
            &["_Bool"],
            &["bool"],
            &["void"],
        ];
        let s = *self.t.pick(S);
        for x in s {
            self.p(x);
        }
    }
    pub fn ty(&mut self) {
        let q = self.t.chance(1, 4);
        if q {
            self.pick(&["const", "volatile"]);
        }
        match self.t.weighted(&[6, 3, 2, 2, if self.o.paste { 1 } else { 0 }, if self.o.keywords { 1 } else { 0 }]) {
            0 => self.scalar(),
            1 => self.pick(&["my_int", "my_t", "size_t", "wchar_t"]),
            2 => {
                self.p("struct");
                self.pick(&["my_t", "s_t"])
            }
            3 => {
                if !self.param() {
                    self.p("my_int")
                }
            }
            4 => self.paste(),
            _ => self.plain(),
        }
        if self.t.chance(1, 6) {
            self.pick(&["const", "volatile"]);
        }
        for _ in 0..self.t.weighted(&[5, 3, 1]) {
            self.p("*");
            if self.t.chance(1, 5) {
                self.pick(&["const", "volatile"]);
            }
        }
    }
    fn atom(&mut self) {
        let o = &self.o;
        match self.t.weighted(&[
            10,
            if o.ints { 6 } else { 0 },
            2,
            2,
            if o.strings { 2 } else { 0 },
            2,
            if o.paste { 2 } else { 0 },
            if o.stringify { 2 } else { 0 },
            if o.line_file { 1 } else { 0 },
            1,
        ]) {
            0 => self.name(),
            1 => self.pick(INTS),
            2 => self.pick(FLOATS),
            3 => self.pick(CHARS),
            4 => {
                if self.t.chance(1, 4) {
                    let n = 1 + self.t.count(2);
                    for _ in 0..n {
                        self.pick(PSTRS)
                    }
                } else {
                    let n = 1 + self.t.count(3);
                    for _ in 0..n {
                        self.pick(STRS)
                    }
                }
            }
            5 => {
                self.p("sizeof");
                self.p("(");
                self.ty();
                self.p(")")
            }
            6 => self.paste(),
            7 => {
                let n = 1 + self.t.count(3);
                let mut any = false;
                for i in 0..n {
                    match self.t.weighted(&[3, 2, 1]) {
                        0 if !self.o.params.is_empty() => {
                            self.p("#");
                            self.param();
                            any = true;
                        }
                        2 if i > 0 || n > 1 => {
                            if !self.param() {
                                self.pick(STRS)
                            }
                        }
                        _ => self.pick(STRS),
                    }
                }
                let _ = any;
            }
            8 => self.pick(&["__LINE__", "__FILE__"]),
            _ => self.pick(&["__INT_MAX__", "__LONG_MAX__", "__SCHAR_MAX__", "__SHRT_MAX__", "__LONG_LONG_MAX__"]),
        }
    }
    fn postfix(&mut self, d: usize) {
        self.atom_or_paren(d);
        match self.t.weighted(&[3, 3, 3, 2]) {
            0 => {
                self.p(".");
                self.field()
            }
            1 => {
                self.p("->");
                self.field()
            }
            2 if self.deref > 0 => {
                self.deref -= 1;
                self.p("[");
                self.expr(d.saturating_sub(1));
                self.p("]");
                self.deref += 1;
            }
            _ if self.o.assign => self.pick(&["++", "--"]),
            _ => (),
        }
    }
    fn field(&mut self) {
        if self.t.chance(1, 6) && self.param() {
            return;
        }
        if self.o.keywords && self.t.chance(1, 4) {
            return self.pick(RUST_WORDS);
        }
        self.pick(FIELDS)
    }
    fn atom_or_paren(&mut self, d: usize) {
        if d > 0 && self.t.chance(1, 3) {
            self.p("(");
            self.expr(d - 1);
            self.p(")")
        } else {
            self.atom()
        }
    }
    fn call(&mut self, d: usize) {
        match self.t.weighted(&[4, 3, 2, 1, if self.o.paste { 1 } else { 0 }]) {
            0 => self.pick(&["known_fn", "known_void", "known_ptr"]),
            1 => self.pick(&["unknown_fn", "do_it"]),
            2 => {
                if !self.param() {
                    self.p("unknown_fn")
                }
            }
            3 => {
                for x in ["__builtin_offsetof", "(", "struct", "my_t", ",", "len", ")"] {
                    self.p(x);
                }
                return;
            }
            _ => self.paste(),
        }
        self.p("(");
        let n = self.t.count(4);
        for i in 0..n {
            if i > 0 {
                self.p(",");
            }
            self.expr(d.saturating_sub(1));
        }
        self.p(")")
    }
    pub fn expr(&mut self, d: usize) {
        if self.budget == 0 || d == 0 {
            return self.atom();
        }
        self.budget -= 1;
        match self.t.weighted(&[5, 3, 4, 2, 4, 8, if self.o.assign { 3 } else { 0 }, 3, 2]) {
            0 => self.atom(),
            1 => {
                self.p("(");
                self.expr(d - 1);
                self.p(")")
            }
            2 => {
                let op = self.t.pick_s(if self.o.assign {
                    &["-", "!", "~", "+", "*", "&", "++", "--"]
                } else {
                    &["-", "!", "~", "+", "*", "&"]
                });
                if op == "*" {
                    if self.deref == 0 {
                        return self.atom();
                    }
                    self.deref -= 1;
                    self.p("*");
                    self.atom_or_paren(d - 1);
                    self.deref += 1;
                    return;
                }
                self.p(&op);
                if self.t.chance(1, 3) {
                    self.expr(d - 1)
                } else {
                    self.atom_or_paren(d - 1)
                }
            }
            3 => self.postfix(d - 1),
            4 => self.call(d - 1),
            5 => {
                self.sub(d - 1);
                self.pick(BINOPS);
                self.sub(d - 1);
            }
            6 => {
                match self.t.below(4) {
                    0 if self.deref > 0 => {
                        self.deref -= 1;
                        self.p("*");
                        self.atom_or_paren(d - 1);
                        self.deref += 1;
                    }
                    1 => {
                        self.name();
                        self.pick(&[".", "->"]);
                        self.field()
                    }
                    _ => self.name(),
                }
                self.pick(ASSIGN);
                self.sub(d - 1);
            }
            7 => {
                self.p("(");
                self.ty();
                self.p(")");
                self.atom_or_paren(d - 1)
            }
            _ => {
                self.sub(d - 1);
                self.p("?");
                self.sub(d - 1);
                self.p(":");
                self.sub(d - 1);
            }
        }
    }
    fn sub(&mut self, d: usize) {
        if self.t.chance(1, 2) {
            self.expr(d)
        } else {
            self.atom_or_paren(d)
        }
    }
    pub fn asm(&mut self, d: usize) {
        self.pick(&["__asm__", "__asm", "asm"]);
        if self.t.chance(1, 3) {
            self.pick(&["volatile", "inline", "goto"]);
        }
        self.p("(");
        let n = 1 + self.t.count(2);
        for _ in 0..n {
            if self.t.chance(1, 4) {
                let mut x = String::from("\"");
                for _ in 0..self.t.count(8) {
                    x.push_str(&self.t.pick_s(&[
                        "%", "%%", "%0", "%1", "%9", "%18446744073709551616", "%99999999999999999999999", "%[a]", "%h0", "%eax", "$", "{", "}", "{|}", ";", "\\n", "\\t", "\\0", "\\377", "é", " ", ",", "(", ")", "mov",
                        ".globl", ".global f", ".section", "#", "//", "1", "-", "%-1", "%1a",
                    ]));
                }
                x.push('"');
                self.p(&x);
                continue;
            }
            self.pick(&["\"nop\"", "\"mov %1, %0\\n\"", "\"add $1, %0\"", "\"cli\"", "\"{x}\"", "\"\"", "\".globl f\\n\"", "\"leal (%0,%0,4),%0\"", "\"%%eax\"", "\"mov %eax, %2\""]);
        }
        let secs = self.t.below(4);
        for s in 0..secs {
            self.p(":");
            let n = self.t.count(4);
            for i in 0..n {
                if i > 0 {
                    self.p(",");
                }
                match s {
                    0 => self.pick(&["\"=r\"", "\"+r\"", "\"=q\"", "\"=Q\"", "\"=f\"", "\"=0\"", "\"=m\"", "\"=&r\"", "\"+&r\"", "\"\"", "\"=\"", "\"+\"", "\"=rm\"", "\"=99999999999999999999\"", "\"=é\""]),
                    1 => self.pick(&["\"r\"", "\"0\"", "\"1\"", "\"2\"", "\"9\"", "\"i\"", "\"q\"", "\"rm\"", "\"300\"", "\"\"", "\"99999999999999999999\"", "\"%0\"", "\"é\"", "\"-1\""]),
                    _ => {
                        self.pick(&["\"memory\"", "\"cc\"", "\"eax\"", "\"rbx\"", "\"\"", "\"%eax\"", "\"%\"", "\"é\""]);
                        continue;
                    }
                }
                self.p("(");
                if self.t.chance(2, 3) {
                    self.name()
                } else {
                    self.expr(d.saturating_sub(1))
                }
                self.p(")");
            }
        }
        self.p(")");
    }
    fn block(&mut self, d: usize) {
        self.p("{");
        let n = self.t.count(3);
        for _ in 0..n {
            self.stmt(d.saturating_sub(1));
        }
        self.p("}");
    }
    pub fn stmt(&mut self, d: usize) {
        if self.budget == 0 {
            return self.p(";");
        }
        self.budget -= 1;
        match self.t.weighted(&[6, 2, 2, 2, 2, 1, if self.o.asm { 2 } else { 0 }, 1]) {
            0 => {
                self.expr(d);
                self.p(";")
            }
            1 if d > 0 => self.block(d - 1),
            2 if d > 0 => {
                self.p("do");
                self.block(d - 1);
                self.p("while");
                self.p("(");
                self.expr(d - 1);
                self.p(")");
                self.p(";");
            }
            3 if d > 0 => {
                self.p("if");
                self.p("(");
                self.expr(d - 1);
                self.p(")");
                if self.t.chance(1, 2) {
                    self.block(d - 1)
                } else {
                    self.stmt(d - 1)
                }
                if self.t.chance(1, 2) {
                    self.p("else");
                    if self.t.chance(1, 2) {
                        self.block(d - 1)
                    } else {
                        self.stmt(d - 1)
                    }
                }
            }
            4 => {
                if self.t.chance(1, 4) {
                    self.p("static");
                }
                self.ty();
                if self.t.chance(1, 6) {
                    if !self.param() {
                        self.plain()
                    }
                } else if self.o.paste && self.t.chance(1, 8) {
                    self.paste()
                } else {
                    self.plain();
                }
                self.p("=");
                self.expr(d);
                self.p(";");
            }
            5 => {
                if self.t.chance(1, 3) {
                    self.p("static");
                }
                self.ty();
                self.plain();
                self.p("(");
                let n = self.t.count(3);
                for i in 0..n {
                    if i > 0 {
                        self.p(",");
                    }
                    self.ty();
                    self.plain();
                }
                self.p(")");
                self.p(";");
            }
            6 => {
                self.asm(d);
                self.p(";")
            }
            _ => self.p(";"),
        }
    }
    /// A whole macro body: an expression, or statements of which the last may lack its semicolon.
    pub fn body(&mut self, d: usize) {
        match self.t.weighted(&[10, 5, 1]) {
            0 => self.expr(d),
            1 => {
                let n = 1 + self.t.count(3);
                for _ in 0..n {
                    self.stmt(d);
                }
                if self.t.chance(1, 2) && self.out.last().map(|s| s == ";").unwrap_or(false) {
                    self.out.pop();
                }
            }
            _ => (),
        }
    }
}

/// The tokens as the library sees them.
pub fn lib(v: &[String]) -> Result<Vec<MacroToken<'_>>, String> {
    v.iter()
        .map(|s| {
            if let Some(r) = s.strip_prefix("@~") {
                cmacro::ast::IdentifierContinue::try_from(r).map(MacroToken::IdentifierContinue).map_err(|_| s.clone())
            } else if let Some(n) = s.strip_prefix('@').and_then(|n| n.parse::<usize>().ok()) {
                Ok(MacroToken::Arg(cmacro::ast::MacroArg::new(n)))
            } else {
                lib_tok(s).ok_or_else(|| s.clone())
            }
        })
        .collect()
}
/// The text of the body with parameter names put back.
pub fn show(v: &[String], params: &[String]) -> String {
    v.iter()
        .map(|s| match s.strip_prefix('@') {
            Some(r) if r.starts_with('~') => r[1..].to_string(),
            Some(n) => match n.parse::<usize>().ok().and_then(|n| params.get(n)) {
                Some(p) if p == "..." => "__VA_ARGS__".into(),
                Some(p) => p.clone(),
                None => s.clone(),
            },
            None => s.clone(),
        })
        .collect::<Vec<_>>()
        .join(" ")
}
#[derive(Debug, PartialEq, Clone)]
pub enum GenErr {
    Token(String),
    Parse(ParserError),
    Gen(CodegenError),
}
pub fn var(name: &str, body: &[String], cx: &Ctx) -> Result<(String, Option<String>), GenErr> {
    let t = lib(body).map_err(GenErr::Token)?;
    let mut m = VarMacro::parse(name, &t).map_err(GenErr::Parse)?;
    let (a, b) = m.generate(cx).map_err(GenErr::Gen)?;
    Ok((a.to_string(), b.map(|b| b.to_string())))
}
pub fn func(name: &str, params: &[String], body: &[String], cx: &Ctx) -> Result<String, GenErr> {
    let p = lib(params).map_err(GenErr::Token)?;
    let t = lib(body).map_err(GenErr::Token)?;
    let mut m = FnMacro::parse(name, &p, &t).map_err(GenErr::Parse)?;
    Ok(m.generate(cx).map_err(GenErr::Gen)?.to_string())
}

pub const PARAM_TYPES: &[&str] = &[
    "c_int",
    "c_uint",
    "c_long",
    "c_ulonglong",
    "c_char",
    "c_uchar",
    "f64",
    "f32",
    "bool",
    "*mut c_int",
    "*const c_int",
    "*const c_char",
    "*mut *const c_int",
    "*mut my_t",
    "*const my_t",
    "my_t",
    "*mut c_void",
    "enum_t",
    "my_mod::thing",
    "::abs::thing",
    "i32",
    "()",
];
/// A context which knows some types, fields, functions and enum variants, and the types of some parameters.
pub fn ctx(t: &mut Tape, params: &[String]) -> Ctx {
    let mut c = Ctx::default();
    match t.below(6) {
        0 => c.target = Some("1.58.0".into()),
        1 => c.target = Some("1.64".into()),
        2 => c.target = Some("nightly".into()),
        3 => c.target = Some("1.16.0".into()),
        _ => (),
    }
    let ffi = match t.below(4) {
        0 => "::core::ffi",
        1 => "libc",
        _ => "",
    };
    if !ffi.is_empty() {
        c.ffi = Some(ffi.into());
    }
    match t.below(4) {
        0 => c.tr = Some("::core".into()),
        1 => c.tr = Some("std".into()),
        _ => (),
    }
    let f = |s: &str| prefix_ffi(s, ffi);
    let none = t.chance(1, 8);
    if !none {
        if t.chance(7, 8) {
            c.tys.insert("wchar_t".into(), f("c_int"));
        }
        if t.chance(1, 2) {
            c.tys.insert("size_t".into(), "usize".into());
        }
        c.tys.insert("my_int".into(), f("c_int"));
        c.tys.insert("my_t".into(), "my_t".into());
        c.tys.insert("s_t".into(), "my_mod::s_t".into());
        c.enums.insert("E_A".into(), ("enum_t".into(), "enum_t::A".into()));
        c.enums.insert("E_B".into(), (f("c_uint"), "E_B".into()));
        c.fields.insert(("my_t".into(), "len".into()), f("c_int"));
        c.fields.insert(("my_t".into(), "next".into()), "*mut my_t".into());
        c.fns.insert("known_fn".into(), (vec![f("c_int"), f("*const c_char")], f("c_int")));
        c.fns.insert("known_void".into(), (vec![f("c_uint")], "()".into()));
        c.fns.insert("known_ptr".into(), (vec![], "*mut my_t".into()));
    }
    let mode = t.below(3);
    for p in params {
        if p == "..." {
            continue;
        }
        let typed = match mode {
            0 => true,
            1 => t.chance(1, 2),
            _ => false,
        };
        if typed {
            let ty = t.pick_s(PARAM_TYPES);
            c.args.insert(p.clone(), f(&ty));
        }
    }
    c
}
/// Puts the FFI prefix in front of the C types of a Rust type.
pub fn prefix_ffi(s: &str, ffi: &str) -> String {
    if ffi.is_empty() {
        return s.into();
    }
    match s.find("c_") {
        Some(i) if s[..i].ends_with(' ') || i == 0 => format!("{}{}::{}", &s[..i], ffi, &s[i..]),
        _ => s.into(),
    }
}
pub fn params(t: &mut Tape) -> Vec<String> {
    let n = t.count(4);
    let mut v: Vec<String> = vec![];
    for i in 0..n {
        let w = if t.chance(1, 8) { t.pick_s(RUST_WORDS) } else { ["a", "b", "p", "par4", "par5", "par6", "par7", "par8", "par9", "par10", "par11", "par12"][i].into() };
        if !v.contains(&w) {
            v.push(w);
        }
    }
    if t.chance(1, 6) {
        v.push("...".into());
    }
    v
}
/// Breaks a token list in a few random places.
pub fn mutate(t: &mut Tape, v: &mut Vec<String>) {
    const ANY: &[&str] = &[
        "(", ")", "{", "}", "[", "]", ";", ",", "+", "-", "*", "&", "=", "==", "?", ":", ".", "->", "#", "##", "++", "--", "!", "~", "...",
        "int", "const", "struct", "if", "else", "do", "while", "sizeof", "__asm__", "static", "volatile", "return", "x", "@0", "@1", "@7",
        "@~9", "1", "1.5", "'c'", "\"s\"", "u8\"t\"", "/* c */", "E_A", "known_fn", "my_int", "&&", "||", "%", "<<", "__LINE__", "__FILE__", "void", "case",
        "switch", "for", "goto", "break", "union", "enum", "<:", "%:%:", "_", "self", "crate", "type",
    ];
    let n = t.below(4);
    for _ in 0..n {
        let i = t.below(v.len() + 1);
        match t.below(5) {
            0 if i < v.len() => {
                v.remove(i);
            }
            1 => v.insert(i, t.pick_s(ANY)),
            2 if i < v.len() => v[i] = t.pick_s(ANY),
            3 if i < v.len() => {
                let x = v[i].clone();
                v.insert(i, x);
            }
            _ if v.len() > 1 => {
                let j = t.below(v.len());
                let i = i.min(v.len() - 1);
                v.swap(i, j);
            }
            _ => (),
        }
    }
}
/// Brackets are balanced and properly nested.
pub fn balanced(v: &[String]) -> bool {
    let mut st = vec![];
    for s in v {
        match s.as_str() {
            "(" | "[" | "{" | "<:" | "<%" => st.push(s.clone()),
            ")" | "]" | "}" | ":>" | "%>" => {
                let o = match s.as_str() {
                    ")" => "(",
                    "]" | ":>" => "[",
                    _ => "{",
                };
                match st.pop() {
                    Some(x) if x == o || (x == "<:" && o == "[") || (x == "<%" && o == "{") => (),
                    _ => return false,
                }
            }
            _ => (),
        }
    }
    st.is_empty()
}
