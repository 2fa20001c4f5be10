//! C04 and C14: typed bodies over names known to the context.
use crate::cg::{self, split_fn, tn, Ctx, FnOut, GErr};
use crate::engine::*;
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
enum X {
    Lit(String, String),
    Param(usize),
    Enum(String),
    Free(String),
    Call(String, Vec<X>),
    PCall(usize, Vec<X>),
    Field(Box<X>, String, bool),
    Bin(&'static str, Box<X>, Box<X>),
    Un(&'static str, Box<X>),
    Not(Box<X>),
    Deref(Box<X>),
    Addr(Box<X>),
    /// C type, Rust type, operand
    Cast(Vec<String>, String, Box<X>),
    Null(Vec<String>, bool),
    Void(Box<X>),
    /// Type of the condition.
    Cond(Box<X>, Option<T>, Box<X>, Box<X>),
    Str(usize),
    Paste(usize),
    /// Post-increment, pre-decrement and assignments.
    Step(&'static str, bool, Box<X>),
    Set(&'static str, Box<X>, Box<X>),
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum T {
    Int,
    Long,
    Double,
    Bool,
    My,
    /// `*mut c_int`
    P,
    /// `*const my_t`
    Cp,
    Color,
    Void,
}
use T::*;
const NUM: &[T] = &[Int, Long, Double];
struct Env {
    /// Either form is right.
    loose_form: bool,
    cx: Ctx,
    params: Vec<String>,
    /// Declared type, or the type inferred from calls.
    known: Vec<Option<T>>,
    /// For parameters without a declared type: the type to infer.
    infer: Vec<Option<T>>,
    inferred: Vec<bool>,
    color: String,
    variadic: bool,
    var: bool,
    macro_reason: Option<&'static str>,
    opaque: bool,
    /// C type name -> type
    typedefs: BTreeMap<String, T>,
    fns: BTreeMap<String, (Vec<T>, T)>,
    enums: BTreeMap<String, T>,
    fields: BTreeMap<String, T>,
}
impl Env {
    fn ffi(&self) -> String {
        self.cx.ffi.as_ref().map(|s| format!("{s}::")).unwrap_or_default()
    }
    fn tr(&self) -> String {
        self.cx.tr.as_ref().map(|s| format!("{s}::")).unwrap_or_default()
    }
    fn rust(&self, t: &T) -> String {
        let f = self.ffi();
        match t {
            Int => format!("{f}c_int"),
            Long => format!("{f}c_long"),
            Double => "f64".into(),
            Bool => "bool".into(),
            My => "my_t".into(),
            P => format!("*mut {f}c_int"),
            Cp => "*const my_t".into(),
            Color => self.color.clone(),
            Void => "()".into(),
        }
    }
    fn ctype(&self, t: &T, tp: &mut Tape) -> Vec<String> {
        let names: Vec<&String> = self.typedefs.iter().filter(|(k, v)| *v == t && !self.params.contains(k)).map(|x| x.0).collect();
        if !names.is_empty() && tp.chance(2, 3) {
            return vec![names[tp.below(names.len())].clone()];
        }
        let s: &[&str] = match t {
            Int => &["int"],
            Long => &["long"],
            Double => &["double"],
            Bool => &["_Bool"],
            My => &["struct", "my_t"],
            P => &["int", "*"],
            Cp => &["const", "struct", "my_t", "*"],
            Color => &["Color"],
            Void => &["void"],
        };
        s.iter().map(|s| s.to_string()).collect()
    }
    fn need_macro(&mut self, why: &'static str) {
        self.macro_reason.get_or_insert(why);
    }
    /// Whether the name means what the context says.
    fn visible(&self, n: &str) -> bool {
        !self.params.iter().any(|p| p == n)
    }
}
fn b(x: X) -> Box<X> {
    Box::new(x)
}
struct G<'a, 'b> {
    t: &'a mut Tape<'b>,
    e: &'a mut Env,
}
impl G<'_, '_> {
    fn int_lit(&mut self) -> X {
        let s = self.t.pick_s(&["1", "2", "3", "7", "100", "0x10"]);
        let r = if s == "0x10" { "16".into() } else { s.clone() };
        X::Lit(s, r)
    }
    /// A literal as an operand next to a value of this type.
    fn lit(&mut self, t: &T) -> X {
        if *t == Double {
            if self.t.chance(1, 2) {
                let (c, r) = *self.t.pick(&[("1.5", "1.5"), ("2.25", "2.25"), ("1e2", "100.0")]);
                return X::Lit(c.into(), r.into());
            }
            let X::Lit(c, r) = self.int_lit() else { unreachable!() };
            return X::Lit(c, format!("{r}.0"));
        }
        self.int_lit()
    }
    fn params_of(&self, t: &T) -> Vec<usize> {
        (0..self.e.params.len()).filter(|i| self.e.known[*i].as_ref() == Some(t)).collect()
    }
    fn atom(&mut self, t: &T) -> X {
        let mut c: Vec<X> = self.params_of(t).into_iter().map(X::Param).collect();
        if !c.is_empty() && self.t.chance(1, 2) {
            let i = self.t.below(c.len());
            return c.swap_remove(i);
        }
        for (n, ty) in &self.e.enums {
            if ty == t && self.e.visible(n) {
                c.push(X::Enum(n.clone()));
            }
        }
        if *t == P || *t == Cp {
            let ty = match t {
                P => self.e.ctype(&P, self.t),
                _ => self.e.ctype(&Cp, self.t),
            };
            if !self.e.var {
                c.push(X::Null(ty, *t == Cp));
            }
        }
        if c.is_empty() || !self.e.var && self.t.chance(1, 5) {
            if self.e.var {
                // there is nothing but the literal
                return match t {
                    Int | Long | Double => {
                        let l = self.int_lit();
                        let c = self.e.ctype(t, self.t);
                        let X::Lit(cl, r) = l else { unreachable!() };
                        // casts of literals are folded: use the enumerator
                        let _ = (c, cl, r);
                        X::Enum(match t {
                            Int => "E_INT",
                            Long => "E_LONG",
                            _ => "E_DBL",
                        }
                        .into())
                    }
                    _ => X::Enum("E_COLOR".into()),
                };
            }
            return self.call(t, 0);
        }
        let i = self.t.below(c.len());
        c.swap_remove(i)
    }
    /// A call returning the type.
    fn call(&mut self, t: &T, d: usize) -> X {
        let c: Vec<(String, Vec<T>)> = self.e.fns.iter().filter(|(n, f)| f.1 == *t && self.e.visible(n)).map(|(n, f)| (n.clone(), f.0.clone())).collect();
        let c = if d == 0 { c.into_iter().filter(|c| c.1.is_empty()).collect() } else { c };
        if c.is_empty() {
            self.e.need_macro("unknown call");
            return X::Call("unknown_fn".into(), vec![]);
        }
        let (n, a) = c[self.t.below(c.len())].clone();
        let args = a.iter().map(|t| self.arg(t, d.saturating_sub(1))).collect();
        X::Call(n, args)
    }
    fn arg(&mut self, t: &T, d: usize) -> X {
        let inf: Vec<usize> = (0..self.e.params.len()).filter(|i| self.e.infer[*i].as_ref() == Some(t)).collect();
        if !inf.is_empty() && self.t.chance(2, 3) {
            let i = inf[self.t.below(inf.len())];
            self.e.inferred[i] = true;
            return X::Param(i);
        }
        if NUM.contains(t) && *t != Double && self.t.chance(1, 4) {
            return self.int_lit();
        }
        self.typed(t, d)
    }
    fn typed(&mut self, t: &T, d: usize) -> X {
        if d == 0 {
            return self.atom(t);
        }
        let d = d - 1;
        let num = NUM.contains(t);
        let var = self.e.var;
        let w = [
            4,
            if var { 0 } else { 4 },
            if num { 6 } else { 0 },
            if num { 3 } else { 0 },
            if num { 3 } else { 0 },
            2,
            if var || !matches!(t, Int | My) { 0 } else { 2 },
            if var || !self.e.fields.iter().any(|f| f.1 == t && self.e.visible(f.0)) { 0 } else { 2 },
            if var || *t != P { 0 } else { 2 },
            if var || !matches!(t, Int | P) { 0 } else { 2 },
        ];
        match self.t.weighted(&w) {
            0 => self.atom(t),
            1 => self.call(t, d),
            2 => {
                let op = if *t == Double { *self.t.pick(&["+", "-", "*", "/"]) } else { *self.t.pick(&["+", "-", "*", "/", "%", "&", "|", "^"]) };
                let x = self.typed(t, d);
                let mixed = self.t.chance(1, 2);
                let y = if mixed { self.lit(t) } else { self.typed(t, d) };
                if self.t.chance(1, 2) {
                    X::Bin(op, b(x), b(y))
                } else {
                    X::Bin(op, b(y), b(x))
                }
            }
            3 => {
                let x = self.typed(t, d);
                X::Un(if *t == Double || self.t.chance(1, 2) { "-" } else { "~" }, b(x))
            }
            4 => {
                let from = self.t.pick(&[Int, Long, Double, Color]).clone();
                let x = if from == Color && *t == Double { self.typed(&Int, d) } else { self.typed(&from, d) };
                let c = self.e.ctype(t, self.t);
                let r = self.e.rust(t);
                X::Cast(c, r, b(x))
            }
            5 => {
                let (c, ct) = self.cond(d);
                let x = self.typed(t, d);
                // an integer literal is not converted by a branch
                let y = if !num || !self.t.chance(1, 4) {
                    self.typed(t, d)
                } else if *t == Double {
                    X::Lit("1.5".into(), "1.5".into())
                } else {
                    self.int_lit()
                };
                X::Cond(b(c), ct, b(x), b(y))
            }
            6 => {
                let p = if *t == Int { P } else { Cp };
                let x = self.typed(&p, d);
                X::Deref(b(x))
            }
            7 => {
                self.e.need_macro("member access");
                let f: Vec<String> = self.e.fields.iter().filter(|f| f.1 == t && self.e.visible(f.0)).map(|f| f.0.clone()).collect();
                let f = f[self.t.below(f.len())].clone();
                if self.t.chance(1, 2) {
                    let x = self.typed(&My, 0);
                    X::Field(b(x), f, false)
                } else {
                    let x = self.typed(&Cp, 0);
                    X::Field(b(x), f, true)
                }
            }
            8 => {
                let x = self.place(d);
                X::Addr(b(x))
            }
            _ => {
                let x = if *t == Int {
                    self.place(d)
                } else {
                    match self.params_of(&P)[..] {
                        [] => return self.atom(t),
                        [i, ..] => {
                            self.e.need_macro("assigned parameter");
                            X::Param(i)
                        }
                    }
                };
                // the operand is evaluated repeatedly: calls are fine, nothing is executed
                match self.t.below(3) {
                    0 => X::Step("++", self.t.chance(1, 2), b(x)),
                    1 => X::Step("--", self.t.chance(1, 2), b(x)),
                    _ if *t == Int => {
                        let op = *self.t.pick(&["=", "+=", "-=", "*=", "&=", "|="]);
                        let y = self.typed(&Int, d);
                        X::Set(op, b(x), b(y))
                    }
                    _ => {
                        let y = self.typed(&P, d);
                        X::Set("=", b(x), b(y))
                    }
                }
            }
        }
    }
    fn stmt(&mut self, d: usize, depth: usize, in_loop: bool) -> S {
        let many = |g: &mut Self, l: bool| {
            let n = g.t.below(3);
            (0..n).map(|_| g.stmt(d, depth - 1, l)).collect::<Vec<_>>()
        };
        match self.t.weighted(&[3, 1, 2, 4, if depth > 0 { 3 } else { 0 }, if depth > 0 { 2 } else { 0 }, if in_loop { 2 } else { 1 }, 2, 2, 3]) {
            0 => S::E(self.call(&Void, d)),
            1 => S::E(self.unknown(d)),
            2 => {
                let y = self.call(&Int, d);
                S::E(X::Void(b(y)))
            }
            3 => S::E(self.call(&Int, d)),
            4 => {
                let (c, t) = self.cond(d);
                let a = many(self, in_loop);
                let e = if self.t.chance(1, 2) { Some(many(self, in_loop)).filter(|v| !v.is_empty()) } else { None };
                S::If(c, t, a, e)
            }
            5 => {
                let v = many(self, true);
                let (c, _) = self.cond(d);
                S::Do(v, c)
            }
            6 => {
                if in_loop {
                    self.e.loose_form = true;
                } else {
                    self.e.need_macro("jump out of the macro");
                }
                S::Jump(*self.t.pick(&["break", "continue"]))
            }
            7 => {
                let out = if self.t.chance(2, 3) { Some(self.place(d)) } else { None };
                let inp = if self.t.chance(1, 2) { Some(self.typed(&Int, d)) } else { None };
                S::Asm(out, inp)
            }
            8 => {
                let t = self.t.pick(&[Int, Long, Double, P, Color]).clone();
                let c = self.e.ctype(&t, self.t);
                let x = self.typed(&t, d);
                S::Decl(t, c, x)
            }
            _ => {
                let x = self.place(d);
                let op = *self.t.pick(&["=", "+=", "-=", "|="]);
                let y = self.typed(&Int, d);
                S::E(X::Set(op, b(x), b(y)))
            }
        }
    }
    /// A variable of type int.
    fn place(&mut self, d: usize) -> X {
        let ps = self.params_of(&Int);
        if !ps.is_empty() && self.t.chance(1, 3) {
            self.e.need_macro("assigned parameter");
            return X::Param(ps[self.t.below(ps.len())]);
        }
        let x = self.typed(&P, d.min(1));
        X::Deref(b(x))
    }
    /// A condition with its type.
    fn cond(&mut self, d: usize) -> (X, Option<T>) {
        match self.t.below(3) {
            0 => {
                let t = self.t.pick(NUM).clone();
                let x = self.typed(&t, d);
                let y = if self.t.chance(1, 2) { self.lit(&t) } else { self.typed(&t, d) };
                (X::Bin(*self.t.pick(&["<", ">", "<=", ">=", "==", "!="]), b(x), b(y)), Some(Bool))
            }
            1 => {
                let t = self.t.pick(&[Int, Long, Double, P, Cp]).clone();
                let t = if self.e.var && !NUM.contains(&t) { Int } else { t };
                let x = self.typed(&t, d);
                (x, Some(t))
            }
            _ => {
                if self.e.var {
                    let x = self.typed(&Int, d);
                    return (x, Some(Int));
                }
                (self.unknown(d), None)
            }
        }
    }
    /// A value whose type is not known.
    fn unknown(&mut self, d: usize) -> X {
        let free: Vec<usize> = (0..self.e.params.len()).filter(|i| self.e.known[*i].is_none() && self.e.infer[*i].is_none()).collect();
        let any = !self.e.params.is_empty();
        match self.t.weighted(&[3, if free.is_empty() { 0 } else { 4 }, if d > 0 { 3 } else { 0 }, if d > 0 { 2 } else { 0 }, if any { 1 } else { 0 }, if any { 1 } else { 0 }, if d > 0 && !free.is_empty() { 2 } else { 0 }, if d > 0 { 2 } else { 0 }]) {
            0 => {
                self.e.need_macro("undefined name");
                X::Free(self.t.pick_s(&["undef", "errno", "GLOBAL_x"]))
            }
            1 => X::Param(free[self.t.below(free.len())]),
            2 => {
                self.e.need_macro("unknown call");
                let n = self.t.count(3);
                let args = (0..n).map(|_| if self.t.chance(1, 2) { self.unknown(d - 1) } else { let t = self.t.pick(&[Int, P, Double, Color]).clone(); self.typed(&t, d - 1) }).collect();
                X::Call(self.t.pick_s(&["unknown_fn", "printk"]), args)
            }
            3 => {
                self.e.need_macro("member access");
                let x = self.unknown(0);
                let f = self.t.pick_s(&["len", "next", "RED", "E_INT", "kv0"]);
                // an argument would be the name of the field
                let f = if self.e.visible(&f) { f } else { "next".into() };
                X::Field(b(x), f, self.t.chance(1, 2))
            }
            4 => {
                self.e.need_macro("stringification");
                self.e.opaque = true;
                X::Str(self.t.below(self.e.params.len()))
            }
            5 => {
                let p = self.t.below(self.e.params.len());
                self.e.need_macro("paste");
                self.e.opaque = true;
                X::Paste(p)
            }
            6 => {
                let p = free[self.t.below(free.len())];
                let t = self.t.pick(&[Int, P]).clone();
                let x = self.typed(&t, d - 1);
                X::PCall(p, vec![x])
            }
            _ => {
                let x = self.unknown(d - 1);
                let y = if self.t.chance(1, 2) { self.unknown(d - 1) } else { self.typed(&Int, d - 1) };
                X::Bin(*self.t.pick(&["*", "|", "^", "/"]), b(x), b(y))
            }
        }
    }
}
/// Statements.
#[derive(Clone, Debug)]
enum S {
    E(X),
    If(X, Option<T>, Vec<S>, Option<Vec<S>>),
    Do(Vec<S>, X),
    Jump(&'static str),
    /// Output and input.
    Asm(Option<X>, Option<X>),
    Decl(T, Vec<String>, X),
}
fn c_stmt(s: &S, e: &Env, o: &mut Vec<String>) {
    let block = |v: &[S], o: &mut Vec<String>| {
        o.push("{".into());
        for s in v {
            c_stmt(s, e, o)
        }
        o.push("}".into());
    };
    let p = |v: &[&str], o: &mut Vec<String>| o.extend(v.iter().map(|s| s.to_string()));
    match s {
        S::E(x) => {
            // `a * b ()` is a declaration
            let paren = matches!(x, X::Bin(..));
            if paren {
                p(&["("], o)
            }
            c_out(x, e, o);
            if paren {
                p(&[")"], o)
            }
            p(&[";"], o)
        }
        S::If(c, _, a, b) => {
            p(&["if", "("], o);
            c_out(c, e, o);
            p(&[")"], o);
            block(a, o);
            if let Some(b) = b {
                p(&["else"], o);
                block(b, o)
            }
        }
        S::Do(v, c) => {
            p(&["do"], o);
            block(v, o);
            p(&["while", "("], o);
            c_out(c, e, o);
            p(&[")", ";"], o)
        }
        S::Jump(j) => p(&[j, ";"], o),
        S::Asm(out, inp) => {
            p(&["__asm__", "volatile", "(", "\"nop\"", ":"], o);
            if let Some(x) = out {
                p(&["\"=r\"", "("], o);
                c_out(x, e, o);
                p(&[")"], o)
            }
            p(&[":"], o);
            if let Some(x) = inp {
                p(&["\"r\"", "("], o);
                c_out(x, e, o);
                p(&[")"], o)
            }
            p(&[")", ";"], o)
        }
        S::Decl(_, t, x) => {
            o.extend(t.clone());
            p(&["local", "="], o);
            c_out(x, e, o);
            p(&[";"], o)
        }
    }
}
/// None if the text is not predicted.
fn r_stmt(s: &S, e: &Env, m: bool) -> Option<String> {
    let block = |v: &[S]| -> Option<String> { Some(format!("{{ {} }}", v.iter().map(|s| r_stmt(s, e, m)).collect::<Option<Vec<_>>>()?.join(" "))) };
    Some(match s {
        S::E(x) => format!("{};", r_out(x, e, m)),
        S::If(c, t, a, b) => {
            let c = match r_out(&X::Cond(Box::new(c.clone()), t.clone(), Box::new(X::Free("x".into())), Box::new(X::Free("x".into()))), e, m).strip_suffix(" { x } else { x })") {
                Some(c) => c[1..].to_string(),
                None => unreachable!(),
            };
            match b {
                Some(b) => format!("{c} {} else {}", block(a)?, block(b)?),
                None => format!("{c} {}", block(a)?),
            }
        }
        S::Decl(t, _, x) => format!("let mut local: {} = {};", e.rust(t), r_out(x, e, m)),
        S::Do(..) | S::Jump(_) | S::Asm(..) => return None,
    })
}
/// C tokens.
fn c_out(x: &X, e: &Env, o: &mut Vec<String>) {
    let mut p = |s: &str| o.push(s.into());
    let sub = |x: &X, o: &mut Vec<String>| {
        let atom = matches!(x, X::Lit(..) | X::Param(_) | X::Enum(_) | X::Free(_) | X::Call(..) | X::PCall(..));
        if !atom {
            o.push("(".into())
        }
        c_out(x, e, o);
        if !atom {
            o.push(")".into())
        }
    };
    let list = |v: &[X], o: &mut Vec<String>| {
        o.push("(".into());
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                o.push(",".into())
            }
            c_out(x, e, o)
        }
        o.push(")".into());
    };
    match x {
        X::Lit(c, _) => p(c),
        X::Param(i) => p(&e.params[*i]),
        X::Enum(n) | X::Free(n) => p(n),
        X::Call(f, a) => {
            p(f);
            list(a, o)
        }
        X::PCall(f, a) => {
            p(&e.params[*f]);
            list(a, o)
        }
        X::Field(x, f, arrow) => {
            sub(x, o);
            o.push(if *arrow { "->" } else { "." }.into());
            o.push(f.clone());
        }
        X::Bin(op, x, y) | X::Set(op, x, y) => {
            sub(x, o);
            o.push(op.to_string());
            sub(y, o)
        }
        X::Un(op, x) => {
            p(op);
            sub(x, o)
        }
        X::Not(x) => {
            p("!");
            sub(x, o)
        }
        X::Deref(x) => {
            p("*");
            sub(x, o)
        }
        X::Addr(x) => {
            p("&");
            sub(x, o)
        }
        X::Cast(c, _, x) => {
            p("(");
            o.extend(c.clone());
            o.push(")".into());
            sub(x, o)
        }
        X::Null(c, _) => {
            p("(");
            o.extend(c.clone());
            o.push(")".into());
            o.push("0".into())
        }
        X::Void(x) => {
            for s in ["(", "void", ")"] {
                p(s)
            }
            sub(x, o)
        }
        X::Cond(c, _, x, y) => {
            sub(c, o);
            o.push("?".into());
            sub(x, o);
            o.push(":".into());
            sub(y, o)
        }
        X::Str(i) => {
            p("#");
            p(&e.params[*i])
        }
        X::Paste(i) => {
            p(&e.params[*i]);
            p("##");
            p("_t")
        }
        X::Step(op, post, x) => {
            if *post {
                sub(x, o);
                o.push(op.to_string())
            } else {
                p(op);
                sub(x, o)
            }
        }
    }
}
/// Rust text, fully parenthesised.
fn r_out(x: &X, e: &Env, is_macro: bool) -> String {
    let r = |x: &X| r_out(x, e, is_macro);
    let args = |a: &[X]| {
        a.iter()
            .map(|a| match a {
                X::Lit(..) | X::Null(..) => r(a),
                X::Param(_) if !is_macro => r(a),
                _ => format!("({}).into()", r(a)),
            })
            .collect::<Vec<_>>()
            .join(",")
    };
    let tr = e.tr();
    match x {
        X::Lit(_, r) => r.clone(),
        X::Param(i) => e.params[*i].clone(),
        X::Enum(n) => format!("({})", e.cx.enums[n].1),
        X::Free(n) => n.clone(),
        X::Call(f, a) => format!("{f}({})", args(a)),
        X::PCall(f, a) => format!("{}({})", e.params[*f], args(a)),
        X::Field(x, f, true) => format!("(*({})).{f}", r(x)),
        X::Field(x, f, false) => format!("({}).{f}", r(x)),
        X::Bin(op, x, y) => format!("(({}) {op} ({}))", r(x), r(y)),
        X::Un(op, x) => format!("({} ({}))", if *op == "~" { "!" } else { op }, r(x)),
        X::Not(x) => format!("(({}) == 0)", r(x)),
        X::Deref(x) => format!("(*({}))", r(x)),
        X::Addr(x) => format!("{tr}ptr::addr_of_mut!({})", r(x)),
        X::Cast(_, t, x) => format!("(({}) as {t})", r(x)),
        X::Null(_, c) => format!("{tr}ptr::{}()", if *c { "null" } else { "null_mut" }),
        X::Void(x) => format!("{{ let _ = {}; }}", r(x)),
        X::Cond(c, t, x, y) => {
            let c = match t {
                Some(Bool) => r(c),
                Some(Double) => format!("({}) != 0.0", r(c)),
                Some(P) => format!("({}) != {tr}ptr::null_mut()", r(c)),
                Some(Cp) => format!("({}) != {tr}ptr::null()", r(c)),
                _ => format!("({}) != 0", r(c)),
            };
            format!("(if ({c}) {{ {} }} else {{ {} }})", r(x), r(y))
        }
        X::Str(_) | X::Paste(_) => "opaque".into(),
        X::Step(..) | X::Set(..) => "opaque".into(),
    }
}
/// A dump of the syntax tree without parentheses.
pub fn canon(src: &str) -> Result<String, String> {
    // a macro and a constant are expressions
    if let Ok(e) = syn::parse_str::<syn::Expr>(src) {
        return Ok(format!("{{{}}}", ex(&e)));
    }
    let b: syn::Block = syn::parse_str(&format!("{{ {src} }}")).map_err(|e| format!("{e}"))?;
    Ok(block(&b))
}
fn block(b: &syn::Block) -> String {
    if let [syn::Stmt::Expr(e, None)] = &b.stmts[..] {
        return format!("{{{}}}", ex(e));
    }
    let v: Vec<String> = b
        .stmts
        .iter()
        .enumerate()
        .filter_map(|(i, s)| match s {
            syn::Stmt::Expr(e, semi) => {
                let mut t = ex(e);
                let mut e = e;
                while let syn::Expr::Paren(p) = e {
                    e = &p.expr
                }
                // `{ x = y; x };` only assigns
                if let (syn::Expr::Block(x), Some(_)) = (e, semi) {
                    if let [syn::Stmt::Expr(a @ syn::Expr::Assign(l), Some(_)), syn::Stmt::Expr(v, None)] = &x.block.stmts[..] {
                        if ex(v) == ex(&l.left) {
                            t = ex(a)
                        }
                    }
                }
                // an empty statement after a statement without value
                let unit = match e {
                    syn::Expr::If(x) => x.else_branch.is_none() || i + 1 < b.stmts.len(),
                    syn::Expr::Loop(_) | syn::Expr::While(_) => true,
                    _ => false,
                };
                Some(if semi.is_some() && !unit { format!("{t};") } else { t })
            }
            syn::Stmt::Local(l) => Some(format!("let {} = {};", l.pat.to_token_stream(), l.init.as_ref().map(|i| ex(&i.expr)).unwrap_or_default())),
            syn::Stmt::Macro(m) => Some(format!("{}{}", mac(&m.mac), if m.semi_token.is_some() { ";" } else { "" })),
            s => Some(s.to_token_stream().to_string()),
        })
        .filter(|s| s != ";" && !s.is_empty())
        .collect();
    format!("{{{}}}", v.join(" "))
}
fn mac(m: &syn::Macro) -> String {
    let inner = m.tokens.to_string();
    let inner = syn::parse_str::<syn::Expr>(&inner).map(|e| ex(&e)).unwrap_or_else(|_| tn(&inner));
    format!("{}!({})", tn(&m.path.to_token_stream().to_string()), inner)
}
fn ex(e: &syn::Expr) -> String {
    use syn::Expr::*;
    match e {
        Paren(p) => ex(&p.expr),
        Group(p) => ex(&p.expr),
        Binary(x) => format!("({} {} {})", ex(&x.left), x.op.to_token_stream(), ex(&x.right)),
        Unary(x) => format!("({} {})", x.op.to_token_stream(), ex(&x.expr)),
        Assign(x) => format!("({} = {})", ex(&x.left), ex(&x.right)),
        Cast(x) => format!("({} as {})", ex(&x.expr), tn(&x.ty.to_token_stream().to_string())),
        Call(x) => format!("{}({})", ex(&x.func), x.args.iter().map(ex).collect::<Vec<_>>().join(",")),
        MethodCall(x) => format!("{}.{}({})", ex(&x.receiver), x.method, x.args.iter().map(ex).collect::<Vec<_>>().join(",")),
        Field(x) => format!("{}.{}", ex(&x.base), x.member.to_token_stream()),
        If(x) if x.else_branch.is_none() => format!("if {} {}", ex(&x.cond), block(&x.then_branch)),
        If(x) => format!("if {} {} else {}", ex(&x.cond), block(&x.then_branch), x.else_branch.as_ref().map(|e| ex(&e.1)).unwrap_or_default()),
        Block(x) if x.label.is_none() => block(&x.block),
        Macro(m) => mac(&m.mac),
        // `{ *p }` and the like
        e => tn(&e.to_token_stream().to_string()),
    }
}
/// Removes the `$` of macro parameters.
fn plain(ts: TokenStream) -> TokenStream {
    ts.into_iter()
        .filter(|t| !matches!(t, TokenTree::Punct(p) if p.as_char() == '$'))
        .map(|t| match t {
            TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), plain(g.stream()))),
            t => t,
        })
        .collect()
}
fn env(t: &mut Tape, var: bool) -> Env {
    let mut cx = Ctx::default();
    if t.chance(1, 2) {
        cx.ffi = Some(t.pick_s(&["::core::ffi", "libc"]))
    }
    if t.chance(1, 2) {
        cx.tr = Some(t.pick_s(&["::core", "std"]))
    }
    let color = t.pick_s(&["Color", "e::Color", "u8", "::e::Color", "::a::b::Color", "a::b::c::Color", "::a_b::c::d::e2::Color"]);
    let mut e = Env {
        cx,
        params: vec![],
        known: vec![],
        infer: vec![],
        inferred: vec![],
        color: color.clone(),
        variadic: false,
        var,
        macro_reason: None,
        loose_form: false,
        opaque: false,
        typedefs: BTreeMap::new(),
        fns: BTreeMap::new(),
        enums: BTreeMap::new(),
        fields: BTreeMap::new(),
    };
    // types
    e.cx.tys.insert("my_t".into(), "my_t".into());
    e.cx.tys.insert("Color".into(), color.clone());
    for (n, ty) in [("my_int", Int), ("my_long", Long), ("real", Double), ("IP", P)] {
        if t.chance(1, 2) {
            let r = e.rust(&ty);
            e.cx.tys.insert(n.into(), r);
            e.typedefs.insert(n.into(), ty);
        }
    }
    e.typedefs.insert("Color".into(), Color);
    // enumerators
    let vals = ["E::A", "e::Color::Red", "RED", "mod_x::RED_1", "Self_::B", "K"];
    for (n, ty) in [("E_INT", Int), ("E_LONG", Long), ("E_DBL", Double), ("E_COLOR", Color), ("RED", Color), ("GREEN", Int), ("kv0", Long)] {
        if var || t.chance(1, 2) {
            let v = match t.below(8) {
                0 => "E::A as i32".to_string(),
                1 => "X | Y".to_string(),
                2 => "- 5".to_string(),
                3 => "E::new(1)".to_string(),
                4 => "E::A.0".to_string(),
                _ => t.pick_s(&vals),
            };
            e.cx.enums.insert(n.into(), (e.rust(&ty), v));
            e.enums.insert(n.into(), ty);
        }
    }
    // functions
    for (i, r) in [Int, Long, Double, P, Cp, My, Color, Void].iter().enumerate() {
        for k in 0..2 {
            if k == 0 || t.chance(2, 3) {
                let n = if k == 0 { 0 } else { 1 + t.below(3) };
                let a: Vec<T> = (0..n).map(|_| t.pick(&[Int, Long, Double, P, Cp, Color]).clone()).collect();
                let name = format!("k{}{i}", ["z", "f"][k]);
                e.cx.fns.insert(name.clone(), (a.iter().map(|t| e.rust(t)).collect(), e.rust(r)));
                e.fns.insert(name, (a, r.clone()));
            }
        }
    }
    for (n, ty) in [("len", Int), ("d", Double), ("ptr", P), ("RED", Long), ("inner", My), ("E_DBL", Int)] {
        if t.chance(1, 2) {
            let r = e.rust(&ty);
            e.cx.fields.insert(("my_t".into(), n.into()), r);
            e.fields.insert(n.into(), ty);
        }
    }
    if !var {
        let n = t.count(5);
        for _ in 0..n {
            let p = t.pick_s(&["a", "b", "p", "q", "x", "RED", "E_INT", "kf0", "my_int", "len_", "type"]);
            if e.params.contains(&p) {
                continue;
            }
            let ty = t.pick(&[Int, Int, Long, Double, P, P, Cp, My, Color]).clone();
            let k = t.weighted(&[7, 2, 1]);
            e.params.push(p.clone());
            e.inferred.push(false);
            if k == 0 {
                let r = e.rust(&ty);
                e.cx.args.insert(p, r);
                e.known.push(Some(ty));
                e.infer.push(None);
            } else {
                e.known.push(None);
                e.infer.push(if k == 1 { Some(ty) } else { None });
            }
        }
        if t.chance(1, 25) {
            e.variadic = true
        }
        if t.chance(1, 25) {
            e.cx.fns.insert("M".into(), (vec![], "()".into()));
        }
    }
    e
}
struct Case {
    e: Env,
    body: Vec<String>,
    /// Expected text for macro and function; None if it is not predicted.
    rust: Option<[String; 2]>,
    ret: Option<T>,
}
fn gen(t: &mut Tape, var: bool) -> Case {
    let mut e = env(t, var);
    let d = 1 + t.below(4);
    let mut g = G { t, e: &mut e };
    let mut body = vec![];
    let kind = if var { g.t.weighted(&[8, 2]) } else { g.t.weighted(&[8, 2, 1, 1, 4]) };
    let mut stmts: Option<Vec<S>> = None;
    let mut x = X::Lit("1".into(), "1".into());
    let mut ret = None;
    match kind {
        0 => {
            let t = if var { g.t.pick(&[Int, Long, Double, Color]).clone() } else { g.t.pick(&[Int, Int, Long, Double, P, Cp, My, Color]).clone() };
            x = g.typed(&t, d);
            ret = Some(t);
        }
        1 => {
            if g.t.chance(1, 2) {
                let y = g.typed(&Int, d);
                x = X::Not(b(y));
            } else {
                let t = g.t.pick(NUM).clone();
                let l = g.typed(&t, d);
                let r = if g.t.chance(1, 2) { g.lit(&t) } else { g.typed(&t, d) };
                x = X::Bin(*g.t.pick(&["<", ">", "<=", ">=", "==", "!="]), b(l), b(r));
            }
            ret = Some(Bool);
        }
        2 => {
            let t = g.t.pick(&[Int, P, Double]).clone();
            let y = if g.t.chance(1, 2) { g.call(&t, d) } else { g.typed(&t, d) };
            x = X::Void(b(y));
            ret = Some(Void);
        }
        3 => {
            x = g.unknown(d);
            g.e.need_macro("unknown result type");
        }
        _ => {
            let n = 1 + g.t.below(3);
            let v = (0..n).map(|_| g.stmt(d, 2, false)).collect();
            stmts = Some(v);
            ret = Some(Void);
        }
    }
    let _ = g;
    // a parameter is known if it is declared, or passed to a known function
    for i in 0..e.params.len() {
        if e.known[i].is_none() {
            if e.inferred[i] {
                e.known[i] = e.infer[i].clone();
            } else {
                e.need_macro("parameter of unknown type");
            }
        }
    }
    if e.variadic {
        e.need_macro("variadic");
    }
    if e.cx.fns.contains_key("M") {
        e.need_macro("existing function");
    }
    let opaque = |x: &X| {
        let s = format!("{x:?}");
        s.contains("Step(") || s.contains("Set(")
    };
    let mut rust;
    match stmts {
        None => {
            rust = if e.opaque || opaque(&x) { None } else { Some([r_out(&x, &e, true), r_out(&x, &e, false)]) };
            c_out(&x, &e, &mut body);
        }
        Some(v) => {
            let text = |m| Some(format!("{{ {} }}", v.iter().map(|x| r_stmt(x, &e, m)).collect::<Option<Vec<_>>>()?.join(" ")));
            rust = if e.opaque || v.iter().any(|s| {
                let s = format!("{s:?}");
                s.contains("Step(") || s.contains("Set(")
            }) {
                None
            } else {
                text(true).and_then(|a| Some([a, text(false)?]))
            };
            body.push("{".into());
            for x in &v {
                c_stmt(x, &e, &mut body);
            }
            body.push("}".into());
        }
    }
    // The file and line are those of the use, which only a macro knows.
    if !var && t.chance(1, 25) {
        let site = t.pick_s(&["__FILE__", "__LINE__"]);
        let (k, ty) = if site == "__FILE__" { ("kf_file", "* const c_char") } else { ("kf_line", "c_uint") };
        e.cx.fns.insert(k.into(), (vec![ty.into()], "c_int".into()));
        let call: Vec<String> = [k, "(", &site, ")"].iter().map(|s| s.to_string()).collect();
        let done = if body[0] == "{" {
            body.splice(1..1, call.into_iter().chain([";".to_string()]));
            true
        } else if ret == Some(Int) {
            body.push(")".into());
            body.splice(0..0, call.into_iter().chain(["+".to_string(), "(".to_string()]));
            true
        } else {
            false
        };
        if done {
            rust = None;
            e.need_macro("expansion site");
        }
    }
    Case { e, body, rust, ret }
}
fn c04(t: &mut Tape, cx: &mut Cx) -> Res {
    if t.chance(1, 30) {
        return spellings(t, cx);
    }
    run_fn(t, cx, false)
}
fn run_fn(t: &mut Tape, cx: &mut Cx, bodies: bool) -> Res {
    let c = gen(t, false);
    let e = &c.e;
    let mut params: Vec<&str> = e.params.iter().map(|s| s.as_str()).collect();
    if e.variadic {
        params.push("...");
    }
    let show = format!("#define M({}) {}   [{}]", params.join(", "), c.body.join(" "), e.cx.show());
    cx.set_desc(show.clone());
    cx.class(e.macro_reason.unwrap_or("function"));
    cx.nontrivial = if bodies { c.rust.is_some() && (c.body.len() > 3) } else { c.body.len() > 3 };
    let out = match guard(|| cg::fn_gen("M", &params, &c.body, &e.cx)) {
        Err(p) => return fail("panic", format!("{show} panicked: {p}")),
        Ok(Err(GErr::BadToken(t))) => panic!("harness: token {t}"),
        Ok(Err(err)) => return fail("refused", format!("{show}\nis refused: {err:?}")),
        Ok(Ok(o)) => o,
    };
    let o = match split_fn("M", &out) {
        Ok(o) => o,
        Err(err) => return fail("malformed", format!("{show}\n{err}\n{out}")),
    };
    let mut raw = |n: &str| if n == "type" { "r#type".to_string() } else { n.to_string() };
    let (body, is_macro) = match o {
        FnOut::Macro { params: p, variadic, body } => {
            if e.macro_reason.is_none() && !e.loose_form {
                return fail("form", format!("{show}\neverything is known, so this should be a function returning {:?}, but is\n{out}", c.ret));
            }
            let names: Vec<&str> = p.iter().map(|p| p.0.as_str()).collect();
            if names != e.params.iter().map(|s| s.as_str()).collect::<Vec<_>>() || variadic != e.variadic {
                return fail("params", format!("{show}\nparameters are {names:?}, variadic {variadic}\n{out}"));
            }
            (plain(body).to_string(), true)
        }
        FnOut::Func { params: p, ret, body } => {
            if let Some(why) = e.macro_reason {
                return fail(&format!("form:{why}"), format!("{show}\nneeds a macro ({why}), but is\n{out}"));
            }
            let want: Vec<(String, String)> = e.params.iter().zip(&e.known).map(|(n, t)| (raw(n), tn(&e.rust(t.as_ref().unwrap())))).collect();
            if p != want {
                return fail("params", format!("{show}\nparameters should be {want:?} but are {p:?}\n{out}"));
            }
            let want = match c.ret.as_ref().unwrap() {
                Void => None,
                t => Some(tn(&e.rust(t))),
            };
            if ret != want {
                return fail("return", format!("{show}\nreturn type should be {want:?} but is {ret:?}\n{out}"));
            }
            (body.to_string(), false)
        }
    };
    if !bodies {
        return Ok(());
    }
    let Some(r) = &c.rust else { return Ok(()) };
    let want = &r[if is_macro { 0 } else { 1 }];
    let mut want = want.clone();
    if !is_macro {
        // raw parameter name
        want = rename(&want);
    }
    compare(&show, &want, &rename_plain(&body), &out)
}
/// `type` as parameter.
fn rename(s: &str) -> String {
    rename_plain(s)
}
fn rename_plain(s: &str) -> String {
    let s = s.replace("r#type", "type_");
    let mut o = String::new();
    let mut w = String::new();
    for c in s.chars().chain(" ".chars()) {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
            continue;
        }
        o += if w == "type" { "type_" } else { &w };
        w.clear();
        o.push(c);
    }
    o
}
fn compare(show: &str, want: &str, got: &str, out: &str) -> Res {
    let w = canon(&rename_plain(want)).unwrap_or_else(|e| panic!("harness: {e}: {want}"));
    let g = match canon(got) {
        Ok(g) => g,
        Err(e) => return fail("malformed", format!("{show}\n{e}\n{out}")),
    };
    // a block is the value of the body, or the body itself
    let strip = |s: &str| {
        let mut s = s.to_string();
        loop {
            match s.strip_prefix('{').and_then(|r| r.strip_suffix('}')) {
                Some(r) if balanced(r) => s = r.trim().trim_end_matches(';').trim().to_string(),
                _ => return s,
            }
        }
    };
    if strip(&w) != strip(&g) {
        return fail("body", format!("{show}\nbody should be {}\nbut is         {}\n{out}", strip(&w), strip(&g)));
    }
    Ok(())
}
fn balanced(s: &str) -> bool {
    let mut d = 0i32;
    for c in s.chars() {
        match c {
            '{' => d += 1,
            '}' => d -= 1,
            _ => (),
        }
        if d < 0 {
            return false;
        }
    }
    d == 0
}
/// Types of parameters and functions are those the context gives, however they are spelled.
fn spellings(t: &mut Tape, cx: &mut Cx) -> Res {
    let mut c = Ctx::default();
    let ffi = *t.pick(&["", "", "ffi", "::core::ffi", "std::os::raw"]);
    c.ffi = (!ffi.is_empty()).then(|| ffi.to_string());
    let f = if ffi.is_empty() { String::new() } else { format!("{ffi}::") };
    const C: &[&str] = &["char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "longlong", "ulonglong", "ssize_t"];
    let mut ty = |t: &mut Tape| {
        let mut s = match t.below(3) {
            0 | 1 => format!("{f}c_{}", t.pick(C)),
            _ => t.pick_s(&["f32", "f64", "bool", "u8", "u16", "u32", "i8", "i16", "i32", "i64", "u64", "usize", "isize", "my_t", "::a::T", "a::b::c::D", "::x::y::z::w::T"]),
        };
        let n = t.weighted(&[6, 2, 1, 1]);
        if n > 0 && t.chance(1, 6) {
            s = format!("{f}c_void");
        }
        for _ in 0..n {
            s = format!("*{} {s}", t.pick_s(&["mut", "const"]));
        }
        s
    };
    let n = if t.chance(1, 8) { 4 + t.below(12) } else { 1 + t.below(3) };
    let types: Vec<String> = (0..n).map(|_| ty(t)).collect();
    let ret = ty(t);
    let names: Vec<String> = (0..n).map(|i| format!("a{i}")).collect();
    let (body, ret) = if t.chance(1, 3) {
        for (a, ty) in names.iter().zip(&types) {
            c.args.insert(a.clone(), ty.clone());
        }
        let i = t.below(n);
        (vec![names[i].clone()], types[i].clone())
    } else {
        c.fns.insert("kf".into(), (types.clone(), ret.clone()));
        let mut b: Vec<String> = vec!["kf".into(), "(".into()];
        for (i, a) in names.iter().enumerate() {
            if i > 0 {
                b.push(",".into());
            }
            b.push(a.clone());
        }
        b.push(")".into());
        (b, ret)
    };
    let show = format!("#define M({}) {}   [{}]", names.join(", "), body.join(" "), c.show());
    cx.set_desc(show.clone());
    cx.class("spellings of types");
    cx.nontrivial = true;
    let out = match guard(|| cg::fn_gen("M", &names, &body, &c))? {
        Ok(o) => o,
        Err(e) => return fail("refused", format!("{show} is refused: {e:?}")),
    };
    match split_fn("M", &out) {
        Ok(FnOut::Func { params, ret: r, .. }) => {
            let got: Vec<String> = params.iter().map(|p| tn(&p.1)).collect();
            let want: Vec<String> = types.iter().map(|s| tn(s)).collect();
            if got != want || r.as_deref().map(tn) != Some(tn(&ret)) {
                return fail("type", format!("{show}\nparameters should be {want:?} and the result {ret}: {out}"));
            }
            Ok(())
        }
        Ok(_) => fail("form", format!("{show}\nshould be a function: {out}")),
        Err(e) => fail("form", format!("{show}\n{e}: {out}")),
    }
}
fn c14(t: &mut Tape, cx: &mut Cx) -> Res {
    if t.chance(1, 12) {
        return spellings(t, cx);
    }
    if !t.chance(1, 3) {
        return run_fn(t, cx, true);
    }
    let c = gen(t, true);
    let e = &c.e;
    let show = format!("#define M {}   [{}]", c.body.join(" "), e.cx.show());
    cx.set_desc(show.clone());
    cx.class("constant");
    cx.nontrivial = c.body.len() > 3;
    let (out, ty) = match guard(|| cg::var_gen("M", &c.body, &e.cx)) {
        Err(p) => return fail("panic", format!("{show} panicked: {p}")),
        Ok(Err(GErr::BadToken(t))) => panic!("harness: token {t}"),
        Ok(Err(err)) => return fail("refused", format!("{show}\nis refused: {err:?}")),
        Ok(Ok(o)) => o,
    };
    let want = c.ret.as_ref().map(|t| tn(&e.rust(t)));
    if ty.as_deref().map(tn) != want {
        return fail("type", format!("{show}\ntype should be {want:?} but is {ty:?}\n{out}"));
    }
    let Some(r) = &c.rust else { return Ok(()) };
    compare(&show, &r[0], &rename_plain(&out), &out)
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            rule: "the body has at least two operations or names",
            tape_len: 400,
            quick: 300_000,
            thorough: 10_000_000,
            case: c04,
            enumerate: None,
            batch: None,
            assumptions: &["operands of an operator have one type or one of them is a literal; names declared inside the body count as undefined names", "an untyped parameter passed directly to known functions is passed to parameters of one type only"],
        },
        Prop {
            id: "C14",
            rule: "the body is predicted and has at least two operations or names",
            tape_len: 400,
            quick: 300_000,
            thorough: 10_000_000,
            case: c14,
            enumerate: None,
            batch: None,
            assumptions: &["bodies are compared as syntax trees without parentheses; assignments, increments, stringification and pasting are left to C10 and C19"],
        },
    ]
}
