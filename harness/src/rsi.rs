//! Interpreter for the Rust the generator emits, over the abstract machine.
//! Lenient about integer types (all are one unbounded type), strict about everything else.
use crate::mach::{Err as MErr, *};
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::ToTokens;
use syn::{Expr, Stmt};

pub enum Body {
    Expr(Expr),
    Stmts(Vec<Stmt>),
}
/// Replaces `$name` by `name` and the variadic repetition by the given identifiers.
pub fn subst(ts: TokenStream, va: &[String]) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match v.get(i + 1) {
                Some(TokenTree::Ident(id)) => {
                    out.push(TokenTree::Ident(Ident::new(&id.to_string(), Span::call_site())));
                    i += 2;
                    continue;
                }
                Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                    // `$( $__VA_ARGS__ ),*`
                    let mut j = i + 2;
                    if matches!(v.get(j), Some(TokenTree::Punct(p)) if p.as_char() == ',') {
                        j += 1;
                    }
                    for (k, n) in va.iter().enumerate() {
                        if k > 0 {
                            out.push(TokenTree::Punct(proc_macro2::Punct::new(',', proc_macro2::Spacing::Alone)));
                        }
                        out.push(TokenTree::Ident(Ident::new(n, Span::call_site())));
                    }
                    i = j + 1;
                    continue;
                }
                _ => out.push(v[i].clone()),
            },
            TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), subst(g.stream(), va)))),
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}
/// A macro body is an expression if it parses as one; a function body is always statements.
pub fn parse_body(ts: TokenStream, is_macro: bool) -> Result<Body, String> {
    if is_macro && !ts.is_empty() {
        if let Ok(e) = syn::parse2::<Expr>(ts.clone()) {
            return Ok(Body::Expr(e));
        }
    }
    let b: syn::Block = syn::parse2(TokenTree::Group(Group::new(Delimiter::Brace, ts.clone())).into()).map_err(|e| format!("{e}"))?;
    Ok(Body::Stmts(b.stmts))
}

pub enum Ctl {
    E(MErr),
    Break,
    Continue,
}
impl From<MErr> for Ctl {
    fn from(e: MErr) -> Ctl {
        Ctl::E(e)
    }
}
type R<T> = Result<T, Ctl>;
fn rbad<T>(s: impl Into<String>) -> R<T> {
    Err(Ctl::E(MErr::Bad(s.into())))
}
pub struct RI<'a> {
    pub m: &'a mut Machine,
}
fn segs(p: &syn::Path) -> Vec<String> {
    p.segments.iter().map(|s| s.ident.to_string()).collect()
}
fn binop(op: &syn::BinOp) -> (&'static str, bool) {
    use syn::BinOp::*;
    match op {
        Add(_) => ("+", false),
        Sub(_) => ("-", false),
        Mul(_) => ("*", false),
        Div(_) => ("/", false),
        Rem(_) => ("%", false),
        BitXor(_) => ("^", false),
        BitAnd(_) => ("&", false),
        BitOr(_) => ("|", false),
        Shl(_) => ("<<", false),
        Shr(_) => (">>", false),
        Eq(_) => ("==", false),
        Lt(_) => ("<", false),
        Le(_) => ("<=", false),
        Ne(_) => ("!=", false),
        Ge(_) => (">=", false),
        Gt(_) => (">", false),
        And(_) => ("&&", false),
        Or(_) => ("||", false),
        AddAssign(_) => ("+", true),
        SubAssign(_) => ("-", true),
        MulAssign(_) => ("*", true),
        DivAssign(_) => ("/", true),
        RemAssign(_) => ("%", true),
        BitXorAssign(_) => ("^", true),
        BitAndAssign(_) => ("&", true),
        BitOrAssign(_) => ("|", true),
        ShlAssign(_) => ("<<", true),
        ShrAssign(_) => (">>", true),
        _ => ("?", false),
    }
}
impl RI<'_> {
    pub fn run(&mut self, b: &Body) -> Result<V, MErr> {
        let r = match b {
            Body::Expr(e) => self.eval(e),
            Body::Stmts(s) => self.stmts(s),
        };
        r.map_err(|c| match c {
            Ctl::E(e) => e,
            _ => MErr::Bad("break outside of a loop".into()),
        })
    }
    fn stmts(&mut self, s: &[Stmt]) -> R<V> {
        self.m.scopes.push(Default::default());
        let mut last = V::Unit;
        for (i, s) in s.iter().enumerate() {
            last = match self.stmt(s, i) {
                Ok(v) => v,
                e => {
                    self.m.scopes.pop();
                    return e;
                }
            };
        }
        self.m.scopes.pop();
        Ok(last)
    }
    fn stmt(&mut self, s: &Stmt, _i: usize) -> R<V> {
        self.m.tick()?;
        match s {
            Stmt::Local(l) => {
                let pat = match &l.pat {
                    syn::Pat::Type(t) => &*t.pat,
                    p => p,
                };
                let Some(init) = &l.init else { return rbad("let without a value") };
                let v = self.eval(&init.expr)?;
                match pat {
                    syn::Pat::Ident(i) => {
                        let flag = matches!(&*init.expr, Expr::Lit(l) if matches!(l.lit, syn::Lit::Bool(_)));
                        self.m.declare(&i.ident.to_string(), if flag { v } else { v.norm() })
                    }
                    syn::Pat::Wild(_) => {}
                    p => return rbad(format!("pattern {}", p.to_token_stream())),
                }
                Ok(V::Unit)
            }
            Stmt::Expr(e, semi) => {
                let v = self.eval(e)?;
                Ok(if semi.is_some() { V::Unit } else { v })
            }
            Stmt::Macro(m) => {
                let v = self.mac(&m.mac)?;
                Ok(if m.semi_token.is_some() { V::Unit } else { v })
            }
            Stmt::Item(syn::Item::Static(s)) => {
                let v = self.eval(&s.expr)?;
                self.m.declare(&s.ident.to_string(), v.norm());
                Ok(V::Unit)
            }
            Stmt::Item(syn::Item::ForeignMod(_)) => Ok(V::Unit),
            s => rbad(format!("statement {}", s.to_token_stream())),
        }
    }
    fn mac(&mut self, m: &syn::Macro) -> R<V> {
        let n = segs(&m.path);
        if n.last().unwrap() == "addr_of_mut" || n.last().unwrap() == "addr_of" {
            let e: Expr = match syn::parse2(m.tokens.clone()) {
                Ok(e) => e,
                Err(e) => return rbad(format!("{}: {e}", m.to_token_stream())),
            };
            return Ok(V::Ptr(self.place(&e)?));
        }
        rbad(format!("macro {}", m.to_token_stream()))
    }
    fn place(&mut self, e: &Expr) -> R<Place> {
        self.m.tick()?;
        match e {
            Expr::Paren(p) => self.place(&p.expr),
            Expr::Group(p) => self.place(&p.expr),
            Expr::Path(p) => {
                let s = segs(&p.path);
                if s.len() != 1 {
                    return rbad(format!("path {}", p.to_token_stream()));
                }
                Ok(self.m.place(&s[0])?)
            }
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => match self.eval(&u.expr)? {
                V::Ptr(p) => Ok(p),
                v => Err(Ctl::E(if matches!(v, V::Int(_) | V::Bool(_)) { MErr::Bad(format!("dereference of {v:?}")) } else { MErr::Undef(format!("dereference of {v:?}")) })),
            },
            Expr::Field(f) => {
                let mut p = self.place(&f.base)?;
                let syn::Member::Named(n) = &f.member else { return rbad("tuple field") };
                p.path.push(Step::Field(n.to_string()));
                Ok(p)
            }
            e => rbad(format!("not a place: {}", e.to_token_stream())),
        }
    }
    fn bin(&mut self, op: &str, a: &V, b: &V) -> R<V> {
        if let (V::Bool(x), V::Bool(y)) = (a, b) {
            match op {
                "&" | "&&" => return Ok(V::Bool(x & y)),
                "|" | "||" => return Ok(V::Bool(x | y)),
                "^" => return Ok(V::Bool(x ^ y)),
                _ => {}
            }
        }
        let (a, b) = (a.norm(), b.norm());
        if matches!(op, "<" | "<=" | ">" | ">=" | "==" | "!=") {
            return Ok(V::Bool(compare(op, &a, &b)?));
        }
        if matches!((&a, &b), (V::Ptr(_), _) | (_, V::Ptr(_))) && !matches!(op, "+" | "-") {
            return rbad(format!("`{op}` on a pointer"));
        }
        Ok(arith(op, &a, &b)?)
    }
    pub fn eval(&mut self, e: &Expr) -> R<V> {
        self.m.tick()?;
        match e {
            Expr::Lit(l) => match &l.lit {
                syn::Lit::Int(i) => match i.base10_parse::<i128>() {
                    Ok(v) => Ok(V::Int(v)),
                    Err(e) => rbad(format!("{e}")),
                },
                syn::Lit::Bool(b) => Ok(V::Bool(b.value)),
                syn::Lit::Char(c) => Ok(V::Int(c.value() as i128)),
                syn::Lit::Byte(c) => Ok(V::Int(c.value() as i128)),
                syn::Lit::Float(f) => Ok(V::F(f.base10_parse().unwrap_or(f64::NAN))),
                l => rbad(format!("literal {}", l.to_token_stream())),
            },
            Expr::Paren(p) => self.eval(&p.expr),
            Expr::Group(p) => self.eval(&p.expr),
            Expr::Path(_) | Expr::Field(_) => {
                let p = self.place(e)?;
                Ok(self.m.read(&p)?)
            }
            Expr::Unary(u) => match u.op {
                syn::UnOp::Deref(_) => {
                    let p = self.place(e)?;
                    Ok(self.m.read(&p)?)
                }
                syn::UnOp::Not(_) => match self.eval(&u.expr)? {
                    V::Bool(b) => Ok(V::Bool(!b)),
                    V::Int(i) => Ok(int_in(!i)?),
                    v => rbad(format!("`!` on {v:?}")),
                },
                syn::UnOp::Neg(_) => match self.eval(&u.expr)?.norm() {
                    V::Int(i) => Ok(int_in(-i)?),
                    V::F(f) => Ok(V::F(-f)),
                    v => rbad(format!("`-` on {v:?}")),
                },
                _ => rbad("unary operator"),
            },
            Expr::Binary(b) => {
                let (op, asg) = binop(&b.op);
                if asg {
                    let v = self.eval(&b.right)?;
                    let p = self.place(&b.left)?;
                    let old = self.m.read(&p)?;
                    let new = if let (V::Ptr(_), V::Int(_)) = (&old, v.norm()) { return rbad("arithmetic assignment to a pointer") } else { self.bin(op, &old, &v)? };
                    self.m.write(&p, new)?;
                    return Ok(V::Unit);
                }
                let x = self.eval(&b.left)?;
                if op == "&&" || op == "||" {
                    return match x {
                        V::Bool(x) if x == (op == "||") => Ok(V::Bool(x)),
                        V::Bool(_) => self.eval(&b.right),
                        v => rbad(format!("`{op}` on {v:?}")),
                    };
                }
                let y = self.eval(&b.right)?;
                if matches!((op, &x, &y), ("+" | "-", V::Ptr(_), _) | ("+" | "-", _, V::Ptr(_))) {
                    return rbad("arithmetic operator on a pointer");
                }
                self.bin(op, &x, &y)
            }
            Expr::Assign(a) => {
                let v = self.eval(&a.right)?;
                let p = self.place(&a.left)?;
                self.m.write(&p, v)?;
                Ok(V::Unit)
            }
            Expr::Cast(c) => {
                let v = self.eval(&c.expr)?;
                let t = crate::rconst::tytext(&c.ty);
                if t.starts_with('*') {
                    return match v.norm() {
                        V::Int(0) | V::Null => Ok(V::Null),
                        V::Ptr(p) => Ok(V::Ptr(p)),
                        v => undef(format!("{v:?} as a pointer")).map_err(Ctl::E),
                    };
                }
                match (v.norm(), crate::rconst::rty(&t)) {
                    (V::Int(i), Some(crate::rconst::RTy::Int { bits, signed })) => Ok(int_in(c_wrap(i, bits, signed))?),
                    (v, _) => rbad(format!("cast of {v:?} to {t}")),
                }
            }
            Expr::If(i) => {
                let c = match self.eval(&i.cond)? {
                    V::Bool(c) => c,
                    v => return rbad(format!("condition {} is {v:?}, not a bool", i.cond.to_token_stream())),
                };
                if c {
                    self.stmts(&i.then_branch.stmts)
                } else if let Some((_, e)) = &i.else_branch {
                    self.eval(e)
                } else {
                    Ok(V::Unit)
                }
            }
            Expr::Block(b) => self.stmts(&b.block.stmts),
            Expr::Unsafe(b) => self.stmts(&b.block.stmts),
            Expr::Loop(l) => loop {
                match self.stmts(&l.body.stmts) {
                    Ok(_) | Err(Ctl::Continue) => {}
                    Err(Ctl::Break) => return Ok(V::Unit),
                    e => return e,
                }
            },
            Expr::While(l) => loop {
                match self.eval(&l.cond)? {
                    V::Bool(true) => {}
                    V::Bool(false) => return Ok(V::Unit),
                    v => return rbad(format!("condition is {v:?}")),
                }
                match self.stmts(&l.body.stmts) {
                    Ok(_) | Err(Ctl::Continue) => {}
                    Err(Ctl::Break) => return Ok(V::Unit),
                    e => return e,
                }
            },
            Expr::Break(_) => Err(Ctl::Break),
            Expr::Continue(_) => Err(Ctl::Continue),
            Expr::Macro(m) => self.mac(&m.mac),
            Expr::Reference(r) => Ok(V::Ptr(self.place(&r.expr)?)),
            Expr::MethodCall(c) => {
                let n = c.method.to_string();
                let r = self.eval(&c.receiver)?;
                if n == "into" && c.args.is_empty() {
                    return Ok(r);
                }
                let V::Ptr(p) = &r else { return rbad(format!("method {n} on {r:?}")) };
                match (n.as_str(), c.args.len()) {
                    ("add" | "sub" | "offset" | "wrapping_add" | "wrapping_sub" | "wrapping_offset", 1) => {
                        let V::Int(k) = self.eval(&c.args[0])?.norm() else { return rbad("pointer offset") };
                        let k = if n.ends_with("sub") { -k } else { k };
                        Ok(V::Ptr(Machine::ptr_add(p, k)?))
                    }
                    ("read_volatile", 0) => Ok(self.m.vread(p)?),
                    ("write_volatile", 1) => {
                        let v = self.eval(&c.args[0])?;
                        self.m.vwrite(p, v)?;
                        Ok(V::Unit)
                    }
                    ("read", 0) => Ok(self.m.read(p)?),
                    ("write", 1) => {
                        let v = self.eval(&c.args[0])?;
                        self.m.write(p, v)?;
                        Ok(V::Unit)
                    }
                    ("is_null", 0) => Ok(V::Bool(false)),
                    ("cast" | "cast_mut" | "cast_const", 0) => Ok(r),
                    _ => rbad(format!("method {n}")),
                }
            }
            Expr::Call(c) => {
                let Expr::Path(f) = &*c.func else { return rbad("call of an expression") };
                let s = segs(&f.path);
                let l = s.last().unwrap().as_str();
                let mut args = vec![];
                for a in &c.args {
                    args.push(self.eval(a)?);
                }
                if s.len() > 1 {
                    return match (l, &args[..]) {
                        ("read_volatile", [V::Ptr(p)]) => Ok(self.m.vread(p)?),
                        ("write_volatile", [V::Ptr(p), v]) => {
                            self.m.vwrite(p, v.clone())?;
                            Ok(V::Unit)
                        }
                        ("read", [V::Ptr(p)]) => Ok(self.m.read(p)?),
                        ("write", [V::Ptr(p), v]) => {
                            self.m.write(p, v.clone())?;
                            Ok(V::Unit)
                        }
                        ("null" | "null_mut", []) => Ok(V::Null),
                        _ => rbad(format!("call {}", c.to_token_stream())),
                    };
                }
                Ok(self.m.call(l, args)?)
            }
            Expr::Verbatim(t) if t.is_empty() => Ok(V::Unit),
            e => rbad(format!("expression {}", e.to_token_stream())),
        }
    }
}
