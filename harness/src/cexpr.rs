//! C expressions and statements: syntax trees, printing and reference semantics.
use crate::engine::Tape;
use crate::mach::*;

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Lit(String, i128),
    Var(String),
    /// `+ - ! ~`
    Un(&'static str, Box<E>),
    Deref(Box<E>),
    Addr(Box<E>),
    /// prefix or postfix `++`/`--`
    Inc { pre: bool, by: i128, e: Box<E> },
    Bin(&'static str, Box<E>, Box<E>),
    /// "" is plain assignment
    Asg(&'static str, Box<E>, Box<E>),
    Cond(Box<E>, Box<E>, Box<E>),
    Call(String, Vec<E>),
    Index(Box<E>, Box<E>),
    Mem(Box<E>, String),
    Arrow(Box<E>, String),
    /// cast to an integer type: spelling, bits, signedness
    Cast(Vec<&'static str>, u32, bool, Box<E>),
    /// a pointer cast `(volatile T *)p` or `(T *)p`
    PtrCast(Vec<&'static str>, bool, Box<E>),
    /// a constant which is not an integer, e.g. a null pointer
    Const(Vec<&'static str>, V),
}
pub fn bx(e: E) -> Box<E> {
    Box::new(e)
}
#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Expr(E),
    Decl(Vec<&'static str>, String, E),
    If(E, Box<S>, Option<Box<S>>),
    DoWhile(Box<S>, E),
    Block(Vec<S>),
    Break,
    Continue,
}
/// How a statement ends.
#[derive(Clone, Copy, PartialEq)]
pub enum Flow {
    Next,
    Break,
    Continue,
}

pub fn bin_prec(op: &str) -> u8 {
    match op {
        "*" | "/" | "%" => 12,
        "+" | "-" => 11,
        "<<" | ">>" => 10,
        "<" | "<=" | ">" | ">=" => 9,
        "==" | "!=" => 8,
        "&" => 7,
        "^" => 6,
        "|" => 5,
        _ => panic!("operator {op}"),
    }
}
fn prec(e: &E) -> u8 {
    match e {
        E::Lit(..) | E::Var(_) => 16,
        E::Const(..) => 14,
        E::Call(..) | E::Index(..) | E::Mem(..) | E::Arrow(..) => 15,
        E::Inc { pre, .. } => {
            if *pre {
                14
            } else {
                15
            }
        }
        E::Un(..) | E::Deref(_) | E::Addr(_) => 14,
        E::Cast(..) | E::PtrCast(..) => 14,
        E::Bin(op, ..) => bin_prec(op),
        E::Cond(..) => 4,
        E::Asg(..) => 3,
    }
}
/// How redundant parentheses are written.
pub struct Pr<'a, 'b> {
    pub t: Option<&'a mut Tape<'b>>,
    /// probability (in 16ths) of redundant parentheses
    pub redundant: u32,
    pub out: Vec<String>,
}
impl Pr<'_, '_> {
    fn p(&mut self, s: &str) {
        self.out.push(s.into());
    }
    fn coin(&mut self) -> bool {
        let r = self.redundant;
        match &mut self.t {
            Some(t) if r > 0 => t.chance(r, 16),
            _ => false,
        }
    }
    pub fn expr(&mut self, e: &E, min: u8) {
        if prec(e) < min || self.coin() {
            self.p("(");
            self.expr0(e);
            self.p(")");
        } else {
            self.expr0(e);
        }
    }
    fn expr0(&mut self, e: &E) {
        match e {
            E::Lit(s, _) => self.p(s),
            E::Const(v, _) => v.iter().for_each(|s| self.p(s)),
            E::Var(s) => self.p(s),
            E::Un(op, e) => {
                self.p(op);
                self.expr(e, 14);
            }
            E::Deref(e) => {
                self.p("*");
                self.expr(e, 14);
            }
            E::Addr(e) => {
                self.p("&");
                self.expr(e, 14);
            }
            E::Inc { pre, by, e } => {
                let op = if *by > 0 { "++" } else { "--" };
                if *pre {
                    self.p(op);
                    self.expr(e, 14);
                } else {
                    self.expr(e, 15);
                    self.p(op);
                }
            }
            E::Bin(op, a, b) => {
                let p = bin_prec(op);
                self.expr(a, p);
                self.p(op);
                self.expr(b, p + 1);
            }
            E::Asg(op, a, b) => {
                self.expr(a, 14);
                self.p(&format!("{op}="));
                self.expr(b, 3);
            }
            E::Cond(c, a, b) => {
                self.expr(c, 5);
                self.p("?");
                self.expr(a, 3);
                self.p(":");
                self.expr(b, 4);
            }
            E::Call(f, a) => {
                self.p(f);
                self.p("(");
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        self.p(",");
                    }
                    self.expr(x, 3);
                }
                self.p(")");
            }
            E::Index(a, b) => {
                self.expr(a, 15);
                self.p("[");
                self.expr(b, 3);
                self.p("]");
            }
            E::Mem(a, f) => {
                self.expr(a, 15);
                self.p(".");
                self.p(f);
            }
            E::Arrow(a, f) => {
                self.expr(a, 15);
                self.p("->");
                self.p(f);
            }
            E::Cast(ty, _, _, e) | E::PtrCast(ty, _, e) => {
                self.p("(");
                for w in ty {
                    self.p(w);
                }
                self.p(")");
                self.expr(e, 14);
            }
        }
    }
    pub fn stmt(&mut self, s: &S) {
        match s {
            S::Expr(e) => {
                self.expr(e, 0);
                self.p(";");
            }
            S::Decl(ty, n, e) => {
                for w in ty {
                    self.p(w);
                }
                self.p(n);
                self.p("=");
                self.expr(e, 3);
                self.p(";");
            }
            S::If(c, a, b) => {
                self.p("if");
                self.p("(");
                self.expr(c, 0);
                self.p(")");
                self.stmt(a);
                if let Some(b) = b {
                    self.p("else");
                    self.stmt(b);
                }
            }
            S::DoWhile(b, c) => {
                self.p("do");
                self.stmt(b);
                self.p("while");
                self.p("(");
                self.expr(c, 0);
                self.p(")");
                self.p(";");
            }
            S::Break => {
                self.p("break");
                self.p(";");
            }
            S::Continue => {
                self.p("continue");
                self.p(";");
            }
            S::Block(v) => {
                self.p("{");
                for s in v {
                    self.stmt(s);
                }
                self.p("}");
            }
        }
    }
}
pub fn print(e: &E) -> Vec<String> {
    let mut p = Pr { t: None, redundant: 0, out: vec![] };
    p.expr(e, 0);
    p.out
}
pub fn print_with(e: &E, t: &mut Tape, redundant: u32) -> Vec<String> {
    let mut p = Pr { t: Some(t), redundant, out: vec![] };
    p.expr(e, 0);
    p.out
}

pub fn truth(v: &V) -> Result<bool, Err> {
    match v {
        V::Int(i) => Ok(*i != 0),
        V::Bool(b) => Ok(*b),
        V::Ptr(_) => Ok(true),
        V::Null => Ok(false),
        v => undef(format!("truth of {v:?}")),
    }
}
/// Whether a pointer expression points to a volatile object.
fn volatile(e: &E) -> bool {
    match e {
        E::PtrCast(_, v, _) => *v,
        E::Bin("+" | "-", a, b) => volatile(a) || volatile(b),
        E::Addr(l) => volatile_lval(l),
        _ => false,
    }
}
fn volatile_lval(e: &E) -> bool {
    match e {
        E::Deref(p) | E::Arrow(p, _) => volatile(p),
        E::Index(a, _) => volatile(a),
        E::Mem(a, _) => volatile_lval(a),
        _ => false,
    }
}
pub struct CEval<'a> {
    pub m: &'a mut Machine,
}
/// An lvalue and whether accesses to it are volatile.
type L = (Place, bool);
impl CEval<'_> {
    fn load(&mut self, l: &L) -> Result<V, Err> {
        if l.1 {
            self.m.vread(&l.0)
        } else {
            self.m.read(&l.0)
        }
    }
    fn store(&mut self, l: &L, v: V) -> Result<(), Err> {
        if l.1 {
            self.m.vwrite(&l.0, v)
        } else {
            self.m.write(&l.0, v)
        }
    }
    /// Array designators decay to a pointer to their first element.
    fn decay(&mut self, l: &L) -> Result<V, Err> {
        if let V::Arr(_) = self.m.read(&l.0)? {
            let mut p = l.0.clone();
            p.path.push(Step::Idx(0));
            return Ok(V::Ptr(p));
        }
        self.load(l)
    }
    fn ptr(&mut self, e: &E) -> Result<L, Err> {
        let vol = volatile(e);
        match self.eval(e)? {
            V::Ptr(p) => Ok((p, vol)),
            v => undef(format!("dereference of {v:?}")),
        }
    }
    pub fn lval(&mut self, e: &E) -> Result<L, Err> {
        match e {
            E::Var(n) => Ok((self.m.place(n)?, false)),
            E::Deref(p) => self.ptr(p),
            E::Index(a, i) => {
                let vol = volatile(a);
                let (a, i) = self.two(a, i)?;
                match arith("+", &a, &i)? {
                    V::Ptr(p) => Ok((p, vol)),
                    v => undef(format!("index of {v:?}")),
                }
            }
            E::Mem(a, f) => {
                let (mut p, v) = self.lval(a)?;
                p.path.push(Step::Field(f.clone()));
                Ok((p, v))
            }
            E::Arrow(a, f) => {
                let (mut p, v) = self.ptr(a)?;
                p.path.push(Step::Field(f.clone()));
                Ok((p, v))
            }
            e => undef(format!("not an lvalue: {e:?}")),
        }
    }
    fn two(&mut self, a: &E, b: &E) -> Result<(V, V), Err> {
        if self.m.rtl {
            let y = self.eval(b)?;
            Ok((self.eval(a)?, y))
        } else {
            let x = self.eval(a)?;
            let y = self.eval(b)?;
            Ok((x, y))
        }
    }
    pub fn eval(&mut self, e: &E) -> Result<V, Err> {
        self.m.tick()?;
        match e {
            E::Lit(_, v) => Ok(V::Int(*v)),
            E::Const(_, v) => Ok(v.clone()),
            E::Var(_) | E::Deref(_) | E::Index(..) | E::Mem(..) | E::Arrow(..) => {
                let l = self.lval(e)?;
                self.decay(&l)
            }
            E::Un(op, e) => {
                let v = self.eval(e)?;
                if *op == "!" {
                    return Ok(V::Int(!truth(&v)? as i128));
                }
                let V::Int(i) = v else { return undef("unary operator on a pointer") };
                int_in(match *op {
                    "+" => i,
                    "-" => -i,
                    _ => !i,
                })
            }
            E::Addr(e) => Ok(V::Ptr(self.lval(e)?.0)),
            E::Inc { pre, by, e } => {
                let l = self.lval(e)?;
                let old = self.load(&l)?;
                let new = arith("+", &old, &V::Int(*by))?;
                self.store(&l, new.clone())?;
                Ok(if *pre { new } else { old })
            }
            E::Bin(op, a, b) => {
                let (x, y) = self.two(a, b)?;
                if matches!(*op, "<" | "<=" | ">" | ">=" | "==" | "!=") {
                    Ok(V::Int(compare(op, &x, &y)? as i128))
                } else {
                    arith(op, &x, &y)
                }
            }
            E::Asg(op, a, b) => {
                let (l, old, v) = if self.m.rhs_first {
                    let v = self.eval(b)?;
                    (self.lval(a)?, None, v)
                } else {
                    let l = self.lval(a)?;
                    let old = if self.m.load_first && !op.is_empty() { Some(self.load(&l)?) } else { None };
                    let v = self.eval(b)?;
                    (l, old, v)
                };
                let v = if op.is_empty() {
                    v
                } else {
                    let old = match old {
                        Some(o) => o,
                        None => self.load(&l)?,
                    };
                    arith(op, &old, &v)?
                };
                self.store(&l, v.clone())?;
                Ok(v)
            }
            E::Cond(c, a, b) => {
                let c = self.eval(c)?;
                if truth(&c)? {
                    self.eval(a)
                } else {
                    self.eval(b)
                }
            }
            E::Call(f, args) => {
                let mut v = vec![V::Unit; args.len()];
                for k in 0..args.len() {
                    let i = if self.m.rtl { args.len() - 1 - k } else { k };
                    v[i] = self.eval(&args[i])?;
                }
                self.m.call(f, v)
            }
            E::Cast(_, bits, signed, e) => match self.eval(e)? {
                V::Int(i) => {
                    let w = c_wrap(i, *bits, *signed);
                    int_in(w)
                }
                v => undef(format!("cast of {v:?}")),
            },
            E::PtrCast(_, _, e) => match self.eval(e)? {
                V::Ptr(p) => Ok(V::Ptr(p)),
                v => undef(format!("pointer cast of {v:?}")),
            },
        }
    }
    pub fn exec(&mut self, s: &S) -> Result<Flow, Err> {
        self.m.tick()?;
        match s {
            S::Expr(e) => {
                self.eval(e)?;
            }
            S::Decl(_, n, e) => {
                let v = self.eval(e)?;
                self.m.declare(n, v);
            }
            S::If(c, a, b) => {
                let c = self.eval(c)?;
                if truth(&c)? {
                    return self.scoped(a);
                } else if let Some(b) = b {
                    return self.scoped(b);
                }
            }
            S::DoWhile(b, c) => loop {
                if self.scoped(b)? == Flow::Break {
                    break;
                }
                let c = self.eval(c)?;
                if !truth(&c)? {
                    break;
                }
            },
            S::Break => return Ok(Flow::Break),
            S::Continue => return Ok(Flow::Continue),
            S::Block(v) => {
                self.m.scopes.push(Default::default());
                let mut flow = Flow::Next;
                for s in v {
                    flow = self.exec(s)?;
                    if flow != Flow::Next {
                        break;
                    }
                }
                self.m.scopes.pop();
                return Ok(flow);
            }
        }
        Ok(Flow::Next)
    }
    fn scoped(&mut self, s: &S) -> Result<Flow, Err> {
        self.m.scopes.push(Default::default());
        let flow = self.exec(s)?;
        self.m.scopes.pop();
        Ok(flow)
    }
}
