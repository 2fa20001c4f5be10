//! C03, C10, C15, C18: generated code against the C abstract machine.
use crate::cexpr::*;
use crate::cg::{self, Ctx, FnOut, GErr};
use crate::engine::*;
use crate::mach::*;
use crate::rsi::{self, RI};
use cmacro::CodegenError;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Ty {
    I,
    P,
    St,
    Sp,
}
/// What the generated trees are made of, in weights.
#[derive(Clone, Copy)]
pub struct Mix {
    pub arith: u32,
    pub cmp: u32,
    pub cond: u32,
    pub call: u32,
    pub inc: u32,
    pub asg: u32,
    pub cast: u32,
    pub mem: u32,
    pub vol: u32,
}
struct G<'a, 'b> {
    t: &'a mut Tape<'b>,
    vars: Vec<(String, Ty)>,
    fns: Vec<(String, usize)>,
    m: Mix,
    locals: usize,
    /// Loops around the statement.
    loops: usize,
    /// Rust has to accept the types.
    real: bool,
}
const NAMES: &[&str] = &["a", "b", "c", "d", "e1", "x", "y", "n", "value", "prev", "place", "pointer", "value_", "p", "q", "r", "s", "t", "ptr", "st", "X", "abc"];
const FIELDS_I: &[&str] = &["fx", "fy"];

impl G<'_, '_> {
    fn var(&mut self, ty: Ty) -> Option<E> {
        let c: Vec<usize> = (0..self.vars.len()).filter(|i| self.vars[*i].1 == ty).collect();
        if c.is_empty() {
            return None;
        }
        let i = c[self.t.below(c.len())];
        Some(E::Var(self.vars[i].0.clone()))
    }
    fn lit(&mut self) -> E {
        let v = match self.t.weighted(&[10, 3, 1]) {
            0 => self.t.range(0, 9),
            1 => self.t.range(0, 40),
            _ => self.t.range(0, 70000),
        };
        match self.t.weighted(&[10, 2, 2, 1]) {
            0 => E::Lit(format!("{v}"), v as i128),
            1 => E::Lit(format!("0x{v:x}"), v as i128),
            2 if v > 0 => E::Lit(format!("0{v:o}"), v as i128),
            _ if self.real => E::Lit(format!("{v}"), v as i128),
            _ => {
                let c = (b'A' + (v % 26) as u8) as char;
                E::Lit(format!("'{c}'"), c as i128)
            }
        }
    }
    fn int_leaf(&mut self) -> E {
        if self.t.chance(2, 5) {
            return self.lit();
        }
        self.var(Ty::I).unwrap_or(E::Lit("1".into(), 1))
    }
    fn int(&mut self, d: usize) -> E {
        if d == 0 || self.t.chance(1, 8) {
            return self.int_leaf();
        }
        let m = self.m;
        match self.t.weighted(&[m.arith * 5, m.arith * 2, m.cond, m.call, m.inc, m.asg, m.cast, m.mem + m.vol]) {
            0 => {
                let op = *self.t.pick(&["+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|", "+", "-"]);
                // The value of a condition is an integer.
                let cmp = m.cmp > 0 && !matches!(op, "&" | "^" | "|");
                let [a, b] = [(); 2].map(|()| if cmp && self.t.chance(1, 12) { self.boolean(d - 1) } else { self.int(d - 1) });
                E::Bin(op, bx(a), bx(b))
            }
            1 => {
                let e = if m.cmp > 0 && self.t.chance(1, 12) { self.boolean(d - 1) } else { self.int(d - 1) };
                E::Un(*self.t.pick(&["-", "~", "+", "-"]), bx(e))
            }
            2 => E::Cond(bx(self.cond(d - 1)), bx(self.int(d - 1)), bx(self.int(d - 1))),
            3 => self.call(d),
            4 => {
                let e = self.lval(d - 1);
                E::Inc { pre: self.t.chance(1, 2), by: if self.t.chance(1, 2) { 1 } else { -1 }, e: bx(e) }
            }
            5 => self.assign(d),
            6 => {
                let (w, b, s) = *self.t.pick(&[
                    (&["short"][..], 16, true),
                    (&["signed", "char"][..], 8, true),
                    (&["unsigned", "char"][..], 8, false),
                    (&["unsigned", "short"][..], 16, false),
                    (&["int"][..], 32, true),
                    (&["long"][..], 64, true),
                ]);
                E::Cast(w.to_vec(), b, s, bx(self.int(d - 1)))
            }
            _ => self.object(d, true),
        }
    }
    fn null(&mut self, xs: &[&[&'static str]]) -> E {
        E::Const(self.t.pick(xs).to_vec(), V::Null)
    }
    fn call(&mut self, d: usize) -> E {
        if self.fns.is_empty() {
            return self.int_leaf();
        }
        let (f, n) = self.t.pick(&self.fns).clone();
        if f.len() == 2 {
            let i = if f == "ft" { 0 } else { self.t.below(3) };
            let a = match (&f[..], i) {
                ("ft", _) => {
                    let (c, s) = self.t.pick(&[
                        (&["\"ab\""][..], "ab"),
                        (&["\"a\"", "\"\\n\""], "a\n"),
                        (&["\"\""], ""),
                        (&["(", "char", "const", "*", ")", "\"x\""], "x"),
                        (&["(", "const", "char", "*", ")", "\"\u{e9}\""], "\u{e9}"),
                    ]).clone();
                    E::Const(c.to_vec(), V::Bytes(s.into()))
                }
                ("fs", 0) => self.sptr(1, false),
                ("fc", 0) if self.t.chance(1, 3) => {
                    let ro = self.t.chance(1, 4) && self.m.vol > 0;
                    let l = if ro { self.vol_lval(1, 2) } else { self.const_lval(1) };
                    return E::Call(f, vec![E::Addr(bx(l)), self.int(d - 1)]);
                }
                (_, 0) => self.ptr(1, false),
                ("fp", 1) => self.null(&[&["(", "int", "*", ")", "0"], &["(", "int", "*", "const", ")", "0"], &["(", "void", "*", ")", "0"], &["(", "volatile", "int", "*", ")", "0x0"], &["(", "int", "*", "volatile", "const", ")", "0"]]),
                ("fc", 1) => self.null(&[&["(", "const", "int", "*", ")", "0"], &["(", "int", "const", "*", "const", ")", "0"], &["(", "const", "void", "*", ")", "0"], &["(", "const", "volatile", "int", "*", ")", "0x0"]]),
                ("fs", 1) => self.null(&[&["(", "S", "*", ")", "0"], &["(", "struct", "S", "*", "const", ")", "0"], &["(", "void", "*", "const", ")", "0"]]),
                ("fp", _) => E::PtrCast(vec!["int", "*"], false, bx(self.ptr(1, false))),
                ("fs", _) => E::PtrCast(vec!["S", "*"], false, bx(self.sptr(1, false))),
                _ => E::PtrCast(vec!["const", "int", "*"], false, bx(self.ptr(1, false))),
            };
            let a = if f == "fc" && i == 0 { E::PtrCast(vec!["int", "const", "*"], false, bx(a)) } else { a };
            let b = self.int(d - 1);
            return E::Call(f, if n == 1 { vec![a] } else { vec![a, b] });
        }
        if n > 2 {
            return E::Call(f, (0..n).map(|_| self.int_leaf()).collect());
        }
        E::Call(f, (0..n).map(|_| self.int(d - 1)).collect())
    }
    fn assign(&mut self, d: usize) -> E {
        if self.m.mem > 0 && self.t.chance(1, 8) {
            return E::Arrow(bx(self.sptr(d.min(1), false)), "fx".into());
        }
        let l = self.lval(d - 1);
        let op = *self.t.pick(&["", "", "", "+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|"]);
        E::Asg(op, bx(l), bx(self.int(d - 1)))
    }
    /// A truth value; in Rust a `bool`.
    fn boolean(&mut self, d: usize) -> E {
        if d == 0 {
            return E::Bin(*self.t.pick(&["<", "==", ">="]), bx(self.int_leaf()), bx(self.int_leaf()));
        }
        match self.t.weighted(&[6, 2, 2, if self.m.mem > 0 { 2 } else { 0 }]) {
            0 => {
                let op = *self.t.pick(&["<", "<=", ">", ">=", "==", "!="]);
                E::Bin(op, bx(self.int(d - 1)), bx(self.int(d - 1)))
            }
            1 => {
                let c = self.cond(d - 1);
                // the negation of a constant is an integer constant, not a `bool`
                if constant(&c) {
                    return c.into_bool();
                }
                E::Un("!", bx(c))
            }
            2 => E::Bin(*self.t.pick(&["&", "|", "^", "==", "!="]), bx(self.boolean(d - 1)), bx(self.boolean(d - 1))),
            _ => E::Bin(*self.t.pick(&["==", "!=", "<", ">="]), bx(self.ptr(d - 1, false)), bx(self.ptr(d - 1, false))),
        }
    }
    fn cond(&mut self, d: usize) -> E {
        if self.t.chance(1, 3) {
            self.int(d)
        } else {
            self.boolean(d)
        }
    }
    /// An integer object.
    fn lval(&mut self, d: usize) -> E {
        self.object(d, false)
    }
    /// An integer object, which is only read if `ro`.
    fn object(&mut self, d: usize, ro: bool) -> E {
        let m = self.m;
        if d == 0 || m.mem + m.vol == 0 {
            return self.var(Ty::I).unwrap_or_else(|| E::Deref(bx(E::Var("p".into()))));
        }
        if m.vol > 0 && self.t.weighted(&[m.mem, m.vol]) == 1 {
            return self.vol_lval(d, ro as u8);
        }
        if ro && self.t.chance(1, 6) {
            return self.const_lval(d);
        }
        if !self.fns.is_empty() && self.t.chance(1, 16) {
            let e = self.one_sided();
            return if self.t.chance(1, 2) { E::Deref(bx(e)) } else { E::Index(bx(e), bx(E::Lit("0".into(), 0))) };
        }
        match self.t.weighted(&[2, 3, 3, 3, 3]) {
            0 => self.lval(0),
            1 => E::Deref(bx(self.ptr(d - 1, true))),
            2 => E::Index(bx(self.ptr(d - 1, false)), bx(self.small(d - 1))),
            3 => {
                let s = self.sval(d - 1);
                let s = if self.t.chance(1, 3) { E::Mem(bx(s), "fn_".into()) } else { s };
                E::Mem(bx(s), self.t.pick_s(FIELDS_I))
            }
            _ => {
                let e = E::Arrow(bx(self.sptr(d - 1, true)), "fn_".into());
                if self.t.chance(1, 3) {
                    return E::Mem(bx(e), self.t.pick_s(FIELDS_I));
                }
                let E::Arrow(s, _) = e else { unreachable!() };
                E::Arrow(s, self.t.pick_s(FIELDS_I))
            }
        }
    }
    /// A pointer of which only one of the branches has side effects.
    fn one_sided(&mut self) -> E {
        let (a, b) = (self.ptr(0, false), E::Call("rip".into(), vec![self.int(0)]));
        let (a, b) = if self.t.chance(1, 2) { (a, b) } else { (b, a) };
        E::Cond(bx(self.cond(0)), bx(a), bx(b))
    }
    /// A read-only integer object.
    fn const_lval(&mut self, d: usize) -> E {
        let ty: &[&'static str] = *self.t.pick(&[&["const", "int", "*"][..], &["int", "const", "*"][..], &["const", "signed", "*", "const"][..], &["int", "const", "*", "volatile"][..]]);
        let sty: &[&'static str] = *self.t.pick(&[&["const", "S", "*"][..], &["S", "const", "*"][..], &["const", "struct", "S", "*"][..], &["struct", "S", "const", "*", "const"][..]]);
        let d = d.max(1);
        match self.t.below(6) {
            0 => E::Deref(bx(E::PtrCast(ty.to_vec(), false, bx(self.ptr(d - 1, false))))),
            1 => E::Index(bx(E::PtrCast(ty.to_vec(), false, bx(self.ptr(d - 1, false)))), bx(self.small(d - 1))),
            2 => E::Arrow(bx(E::PtrCast(sty.to_vec(), false, bx(self.sptr(d - 1, false)))), self.t.pick_s(FIELDS_I)),
            3 => {
                let s = E::Deref(bx(E::PtrCast(sty.to_vec(), false, bx(self.sptr(d - 1, false)))));
                let s = if self.t.chance(1, 2) { E::Mem(bx(s), "fn_".into()) } else { s };
                E::Mem(bx(s), self.t.pick_s(FIELDS_I))
            }
            4 => {
                let e = E::Arrow(bx(E::PtrCast(sty.to_vec(), false, bx(self.sptr(d - 1, false)))), "fn_".into());
                E::Mem(bx(e), self.t.pick_s(FIELDS_I))
            }
            _ => {
                let p = E::PtrCast(ty.to_vec(), false, bx(self.ptr(d - 1, false)));
                let i = self.small(d - 1);
                E::Deref(bx(E::Bin(*self.t.pick(&["+", "-"]), bx(p), bx(i))))
            }
        }
    }
    fn vol_lval(&mut self, d: usize, ro: u8) -> E {
        let ty: &[&'static str] = *self.t.pick(&[&["volatile", "int", "*"][..], &["int", "volatile", "*"][..], &["volatile", "int", "*", "const"][..]]);
        let ty: &[&'static str] = if ro == 2 || ro == 1 && self.t.chance(1, 2) {
            *self.t.pick(&[
                &["const", "volatile", "int", "*"][..],
                &["volatile", "const", "int", "*"][..],
                &["const", "int", "volatile", "*"][..],
                &["volatile", "int", "const", "*"][..],
                &["int", "const", "volatile", "*"][..],
                &["int", "volatile", "const", "*", "const"][..],
                &["const", "signed", "volatile", "*"][..],
                &["volatile", "signed", "int", "const", "*", "volatile"][..],
            ])
        } else {
            ty
        };
        let sty: &[&'static str] = *self.t.pick(&[&["volatile", "S", "*"][..], &["S", "volatile", "*"][..], &["volatile", "struct", "S", "*"][..]]);
        let sty: &[&'static str] = if ro == 2 || ro == 1 && self.t.chance(1, 2) {
            *self.t.pick(&[
                &["const", "volatile", "S", "*"][..],
                &["const", "S", "volatile", "*"][..],
                &["volatile", "S", "const", "*"][..],
                &["struct", "S", "const", "volatile", "*", "const"][..],
                &["const", "struct", "S", "volatile", "*"][..],
                &["volatile", "struct", "S", "const", "*"][..],
            ])
        } else {
            sty
        };
        match self.t.weighted(&[4, 2, 2, 2, 2]) {
            0 if !self.fns.is_empty() && self.t.chance(1, 5) => E::Deref(bx(E::PtrCast(ty.to_vec(), true, bx(self.one_sided())))),
            0 => E::Deref(bx(E::PtrCast(ty.to_vec(), true, bx(self.ptr(d - 1, false))))),
            1 => E::Index(bx(E::PtrCast(ty.to_vec(), true, bx(self.ptr(d - 1, false)))), bx(self.small(d - 1))),
            2 => E::Arrow(bx(E::PtrCast(sty.to_vec(), true, bx(self.sptr(d - 1, false)))), self.t.pick_s(FIELDS_I)),
            3 => {
                let s = E::Deref(bx(E::PtrCast(sty.to_vec(), true, bx(self.sptr(d - 1, false)))));
                let s = if self.t.chance(1, 2) { E::Mem(bx(s), "fn_".into()) } else { s };
                E::Mem(bx(s), self.t.pick_s(FIELDS_I))
            }
            _ => {
                let p = E::PtrCast(ty.to_vec(), true, bx(self.ptr(d - 1, false)));
                let i = self.small(d - 1);
                E::Deref(bx(E::Bin(*self.t.pick(&["+", "-"]), bx(p), bx(i))))
            }
        }
    }
    /// An index, likely to be in bounds.
    fn small(&mut self, d: usize) -> E {
        if d == 0 || self.t.chance(1, 2) {
            if self.t.chance(1, 2) {
                let v = self.t.range(0, 3);
                return E::Lit(format!("{v}"), v as i128);
            }
            return self.var(Ty::I).unwrap_or(E::Lit("0".into(), 0));
        }
        self.int(d)
    }
    /// A pointer to integers; arithmetic only where it is dereferenced.
    fn ptr(&mut self, d: usize, deref: bool) -> E {
        let v = match self.var(Ty::P) {
            Some(v) => v,
            None => E::Var("p".into()),
        };
        if d == 0 {
            return v;
        }
        if !self.fns.is_empty() && self.t.chance(1, 12) {
            return E::Call("rip".into(), vec![self.int(d - 1)]);
        }
        if self.t.chance(1, 20) {
            // A pointer which is accessed through a pointer to it.
            let l = match self.t.below(3) {
                0 => v,
                1 => E::Mem(bx(self.sval(0)), "fr".into()),
                _ => E::Arrow(bx(self.sptr(0, true)), "fr".into()),
            };
            let a = E::Addr(bx(l));
            return if self.t.chance(2, 3) { E::Deref(bx(a)) } else { E::Index(bx(a), bx(E::Lit("0".into(), 0))) };
        }
        match self.t.weighted(&[4, 1, 1, 2, 1, 1, if deref { 4 } else { 0 }, if deref { 2 } else { 0 }]) {
            0 => v,
            1 => E::Mem(bx(self.sval(d - 1)), "fr".into()),
            2 => E::Arrow(bx(self.sptr(d - 1, true)), "fr".into()),
            3 => {
                let c = self.cond(d - 1);
                let (a, mut b) = (self.ptr(d - 1, false), self.ptr(d - 1, false));
                // Only one of the branches has side effects.
                if !self.fns.is_empty() && self.t.chance(1, 2) {
                    b = E::Call("rip".into(), vec![self.int(0)]);
                }
                let (a, b) = if self.t.chance(1, 2) { (a, b) } else { (b, a) };
                E::Cond(bx(c), bx(a), bx(b))
            }
            4 => E::Addr(bx(self.lval(d - 1))),
            5 => match self.t.below(2) {
                0 => E::PtrCast(vec!["int", "*"], false, bx(self.ptr(d - 1, false))),
                _ if self.m.asg > 0 => {
                    let l = match self.t.below(3) {
                        0 => v,
                        1 => E::Arrow(bx(self.sptr(d - 1, true)), "fr".into()),
                        _ => E::Mem(bx(self.sval(d - 1)), "fr".into()),
                    };
                    E::Asg("", bx(l), bx(self.ptr(d - 1, false)))
                }
                _ => v,
            },
            6 => match self.t.below(4) {
                0 => {
                    let k = self.t.range(0, 2);
                    E::Bin("+", bx(E::Lit(format!("{k}"), k as i128)), bx(self.ptr(d - 1, false)))
                }
                1 => E::Bin("-", bx(self.ptr(d - 1, true)), bx(self.small(d - 1))),
                _ => E::Bin("+", bx(self.ptr(d - 1, true)), bx(self.small(d - 1))),
            }
            .fix_ptr(),
            _ if self.m.inc > 0 => {
                let l = match self.t.below(3) {
                    0 | 1 => v,
                    _ => E::Arrow(bx(self.sptr(d - 1, true)), "fr".into()),
                };
                E::Inc { pre: self.t.chance(1, 2), by: if self.t.chance(1, 2) { 1 } else { -1 }, e: bx(l) }
            }
            _ => v,
        }
    }
    /// A structure object.
    fn sval(&mut self, d: usize) -> E {
        let v = self.var(Ty::St);
        if let (Some(v), true) = (v, d == 0 || self.t.chance(1, 2)) {
            return v;
        }
        if d > 0 && self.t.chance(1, 2) {
            return E::Index(bx(self.sptr(d - 1, false)), bx(self.small(d - 1)));
        }
        E::Deref(bx(self.sptr(d.saturating_sub(1), true)))
    }
    fn sptr(&mut self, d: usize, deref: bool) -> E {
        let v = match self.var(Ty::Sp) {
            Some(v) => v,
            None => E::Var("t".into()),
        };
        if d == 0 {
            return v;
        }
        if !self.fns.is_empty() && self.t.chance(1, 12) {
            return E::Call("rsp".into(), vec![self.int(d - 1)]);
        }
        match self.t.weighted(&[4, 2, 1, 1, if deref { 2 } else { 0 }, if deref { 1 } else { 0 }]) {
            0 => v,
            1 => E::Arrow(bx(self.sptr(d - 1, true)), "next".into()),
            2 => E::Addr(bx(self.sval(d - 1))),
            3 => E::Mem(bx(self.sval(d - 1)), "next".into()),
            4 => E::Bin(*self.t.pick(&["+", "-"]), bx(self.sptr(d - 1, false)), bx(self.small(d - 1))).fix_ptr(),
            _ if self.m.inc > 0 => E::Inc { pre: self.t.chance(1, 2), by: if self.t.chance(1, 2) { 1 } else { -1 }, e: bx(v) },
            _ => v,
        }
    }
    fn fresh(&mut self) -> String {
        loop {
            let n = self.t.pick_s(NAMES);
            self.locals += 1;
            if self.locals > 60 {
                return format!("l{}", self.locals);
            }
            // a local may hide another local or a variable which is not a parameter: see `stmts`
            if !self.fns.iter().any(|f| f.0 == n) {
                return n;
            }
        }
    }
    /// An expression worth a statement.
    fn effect(&mut self, d: usize) -> E {
        match self.t.weighted(&[6, 3, 3, 1, if self.m.mem > 0 { 2 } else { 0 }]) {
            0 => self.assign(d.max(1)),
            1 => E::Inc { pre: self.t.chance(1, 2), by: if self.t.chance(1, 2) { 1 } else { -1 }, e: bx(self.lval(d.saturating_sub(1))) },
            2 => self.call(d.max(1)),
            3 => self.int(d),
            _ => {
                let l = match self.t.below(3) {
                    0 => self.var(Ty::P).unwrap_or(E::Var("p".into())),
                    1 => E::Arrow(bx(self.sptr(d.min(2), true)), "fr".into()),
                    _ => {
                        let l = E::Arrow(bx(self.sptr(d.min(2), true)), "next".into());
                        return E::Asg("", bx(l), bx(self.sptr(d, false)));
                    }
                };
                E::Asg("", bx(l), bx(self.ptr(d, false)))
            }
        }
    }
    fn stmt(&mut self, d: usize, params: &BTreeSet<String>) -> S {
        if self.loops > 0 && self.t.chance(1, 4) {
            return if self.t.chance(1, 2) { S::Break } else { S::Continue };
        }
        match self.t.weighted(&[6, if d > 0 { 3 } else { 0 }, if d > 0 { 2 } else { 0 }, if d > 0 { 2 } else { 0 }]) {
            0 => S::Expr(self.effect(2)),
            1 => {
                let c = self.cond(2);
                let a = self.stmt(d - 1, params);
                let b = if self.t.chance(1, 2) { Some(Box::new(self.stmt(d - 1, params))) } else { None };
                // no dangling else
                let a = if b.is_some() || self.t.chance(1, 2) { S::Block(vec![a]) } else { a };
                S::If(c, Box::new(a), b)
            }
            2 => {
                self.loops += 1;
                let b = self.stmt(d - 1, params);
                self.loops -= 1;
                // usually a loop which ends
                let c = match self.t.below(4) {
                    0 => E::Lit("0".into(), 0),
                    1 => {
                        let k = self.t.range(0, 5);
                        E::Bin("<", bx(E::Inc { pre: true, by: 1, e: bx(self.lval(0)) }), bx(E::Lit(format!("{k}"), k as i128)))
                    }
                    2 => E::Inc { pre: self.t.chance(1, 2), by: -1, e: bx(self.lval(0)) },
                    _ => self.cond(2),
                };
                S::DoWhile(Box::new(b), c)
            }
            _ => self.block(d - 1, params),
        }
    }
    fn block(&mut self, d: usize, params: &BTreeSet<String>) -> S {
        let keep = self.vars.clone();
        let mut v = vec![];
        for _ in 0..1 + self.t.count(3) {
            if self.t.chance(1, 3) {
                let n = self.fresh();
                if params.contains(&n) || v.iter().any(|s| matches!(s, S::Decl(_, m, _) if *m == n)) {
                    continue;
                }
                let hidden = self.vars.clone();
                self.vars.retain(|x| x.0 != n);
                let (ty, e, t) = if self.m.mem > 0 && self.t.chance(1, 4) {
                    (vec!["int", "*"], self.ptr(1, false), Ty::P)
                } else {
                    (self.t.pick(&[&["int"][..], if self.real { &["int"][..] } else { &["long"][..] }, &["const", "int"][..]]).to_vec(), self.int(2), Ty::I)
                };
                // a name without anything in scope to stand for is not declared
                if self.vars.iter().all(|x| x.1 != Ty::I) && hidden.iter().any(|x| x.1 == Ty::I) {
                    self.vars = hidden;
                    continue;
                }
                let cst = ty[0] == "const";
                v.push(S::Decl(ty, n.clone(), e));
                if !cst {
                    self.vars.push((n, t));
                }
            } else {
                v.push(self.stmt(d, params));
            }
        }
        self.vars = keep;
        S::Block(v)
    }
}
impl E {
    fn into_bool(self) -> E {
        match self {
            E::Bin("<" | "<=" | ">" | ">=" | "==" | "!=", ..) => self,
            e => E::Bin("!=", bx(e), bx(E::Lit("3".into(), 3))),
        }
    }
    /// Increments of pointers are only pointer arithmetic directly below a dereference.
    fn fix_ptr(self) -> E {
        match self {
            E::Bin(op, a, b) => {
                fn strip(e: E) -> E {
                    match e {
                        E::Inc { e, .. } => *e,
                        E::Bin(op, a, b) => E::Bin(op, bx(strip(*a)), b),
                        e => e,
                    }
                }
                E::Bin(op, bx(strip(*a)), b)
            }
            e => e,
        }
    }
}
fn constant(e: &E) -> bool {
    match e {
        E::Lit(..) => true,
        E::Un(_, e) | E::Cast(_, _, _, e) => constant(e),
        E::Bin(_, a, b) => constant(a) && constant(b),
        E::Cond(c, a, b) => constant(c) && constant(a) && constant(b),
        _ => false,
    }
}

pub enum Prog {
    E(E),
    S(S),
}
pub struct Case {
    pub prog: Prog,
    pub text: Vec<String>,
    pub vars: Vec<(String, Ty)>,
    pub params: Vec<String>,
    pub cx: Ctx,
}
fn int_value(t: &mut Tape) -> i128 {
    match t.weighted(&[12, 4, 2, 1]) {
        0 => t.range(-2, 5) as i128,
        1 => t.range(-10, 40) as i128,
        2 => t.range(-40000, 70000) as i128,
        _ => *t.pick(&[i32::MAX as i128, i32::MIN as i128, 255, 256, 65535, -1]),
    }
}
fn st(t: &mut Tape) -> V {
    let n: BTreeMap<String, V> = FIELDS_I.iter().map(|f| (f.to_string(), V::Int(int_value(t)))).collect();
    let mut m: BTreeMap<String, V> = FIELDS_I.iter().map(|f| (f.to_string(), V::Int(int_value(t)))).collect();
    m.insert("fn_".into(), V::St(n));
    m.insert("fr".into(), V::Ptr(elem("buf@", t.range(1, 4))));
    m.insert("next".into(), V::Ptr(elem("sbuf@", t.range(0, 3))));
    V::St(m)
}
fn elem(root: &str, i: i64) -> Place {
    Place { root: root.into(), path: vec![Step::Idx(i)] }
}
pub fn valuation(t: &mut Tape, vars: &[(String, Ty)]) -> Machine {
    let mut m = Machine::default();
    m.objs.insert("buf@".into(), V::Arr((0..6).map(|_| V::Int(int_value(t))).collect()));
    m.objs.insert("sbuf@".into(), V::Arr((0..4).map(|_| st(t)).collect()));
    for (n, ty) in vars {
        let v = match ty {
            Ty::I => V::Int(int_value(t)),
            Ty::P => V::Ptr(elem("buf@", t.range(1, 4))),
            Ty::Sp => V::Ptr(elem("sbuf@", t.range(0, 3))),
            Ty::St => st(t),
        };
        m.objs.insert(n.clone(), v);
    }
    m
}
pub type Outcome = (V, BTreeMap<String, V>, Vec<Ev>);
pub fn run_c(p: &Prog, m: &Machine, mode: usize) -> Result<Outcome, Err> {
    let mut m = m.clone();
    m.rtl = mode & 1 != 0;
    m.rhs_first = mode & 2 != 0;
    m.load_first = mode & 4 != 0;
    let v = match p {
        Prog::E(e) => CEval { m: &mut m }.eval(e)?,
        Prog::S(s) => {
            CEval { m: &mut m }.exec(s)?;
            V::Unit
        }
    };
    Ok(outcome(v, &m))
}
/// The observable outcome; local variables are identified by name.
fn outcome(v: V, m: &Machine) -> Outcome {
    fn place(p: &Place) -> Place {
        let root = match p.root.split_once('#') {
            Some((n, _)) => format!("local {n}"),
            None => p.root.clone(),
        };
        Place { root, path: p.path.clone() }
    }
    fn val(v: &V) -> V {
        match v {
            V::Ptr(p) => V::Ptr(place(p)),
            V::Arr(a) => V::Arr(a.iter().map(val).collect()),
            V::St(m) => V::St(m.iter().map(|(k, v)| (k.clone(), val(v))).collect()),
            v => v.norm(),
        }
    }
    let trace = m
        .trace
        .iter()
        .map(|e| match e {
            Ev::Call(f, a) => Ev::Call(f.clone(), a.iter().map(val).collect()),
            Ev::VRead(p) => Ev::VRead(place(p)),
            Ev::VWrite(p, v) => Ev::VWrite(place(p), val(v)),
        })
        .collect();
    (val(&v), m.state().iter().map(|(k, v)| (k.clone(), val(v))).collect(), trace)
}
pub fn sorted(t: &[Ev]) -> Vec<String> {
    let mut v: Vec<String> = t.iter().map(|e| format!("{e:?}")).collect();
    v.sort();
    v
}
pub fn show_place(p: &Place) -> String {
    let mut s = p.root.clone();
    for x in &p.path {
        match x {
            Step::Idx(i) => s += &format!("[{i}]"),
            Step::Field(f) => s += &format!(".{f}"),
        }
    }
    s
}
fn show_v(v: &V) -> String {
    match v {
        V::Int(i) => format!("{i}"),
        V::Ptr(p) => format!("&{}", show_place(p)),
        V::Arr(a) => format!("[{}]", a.iter().map(show_v).collect::<Vec<_>>().join(", ")),
        V::St(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{k}: {}", show_v(v))).collect::<Vec<_>>().join(", ")),
        v => format!("{v:?}"),
    }
}
fn show_trace(t: &[Ev]) -> String {
    t.iter()
        .map(|e| match e {
            Ev::Call(f, a) => format!("{f}({})", a.iter().map(show_v).collect::<Vec<_>>().join(",")),
            Ev::VRead(p) => format!("read {}", show_place(p)),
            Ev::VWrite(p, v) => format!("write {}={}", show_place(p), show_v(v)),
        })
        .collect::<Vec<_>>()
        .join("; ")
}
fn diff_state(a: &BTreeMap<String, V>, b: &BTreeMap<String, V>) -> String {
    a.iter().filter(|(k, v)| b.get(*k) != Some(v)).map(|(k, v)| format!("{k} = {} instead of {}", b.get(k).map_or("?".into(), show_v), show_v(v))).collect::<Vec<_>>().join(", ")
}

/// Whether the text has a parenthesized name which is not a parameter: it may be read as a type.
pub fn ambiguous(text: &[String], params: &[String]) -> bool {
    text.windows(3).any(|w| w[0] == "(" && w[2] == ")" && crate::cpp::is_id(&w[1]) && !params.contains(&w[1]))
}

/// Whether a statement reads like the declaration of a function returning a pointer, as `x * f ( ) ;` does.
pub fn like_declaration(text: &[String]) -> bool {
    (0..text.len()).any(|i| {
        let start = i == 0 || matches!(text[i - 1].as_str(), ";" | "{" | "}" | ")" | "do" | "else");
        let stars = text[i + 1..].iter().take_while(|w| *w == "*").count();
        let rest = &text[i + 1 + stars..];
        start && stars > 0 && crate::cpp::is_id(&text[i]) && rest.len() > 1 && crate::cpp::is_id(&rest[0]) && rest[1] == "("
    })
}

fn gen_case(t: &mut Tape, mix: Mix, stmts: bool, depth: usize) -> Case {
    gen_case_for(t, mix, stmts, depth, false)
}
/// With `real` the case can be compiled: variables are parameters or have names which are never declared.
pub fn gen_case_for(t: &mut Tape, mix: Mix, stmts: bool, depth: usize, real: bool) -> Case {
    // names
    let mut globals = vec!["G1", "G2", "G3"];
    let mut pool: Vec<&str> = NAMES.to_vec();
    let mut name = |t: &mut Tape| -> String {
        if real && !globals.is_empty() && t.chance(1, 8) {
            return globals.pop().unwrap().to_string();
        }
        let i = t.below(pool.len());
        pool.remove(i).to_string()
    };
    let mut vars = vec![];
    for _ in 0..(2 + t.count(3)).min(6) {
        vars.push((name(t), Ty::I));
    }
    if mix.mem + mix.vol > 0 {
        for _ in 0..1 + t.count(2) {
            vars.push((name(t), Ty::P));
        }
        vars.push((name(t), Ty::St));
        for _ in 0..1 + t.count(2) {
            vars.push((name(t), Ty::Sp));
        }
    }
    let mut fns: Vec<(String, usize)> = vec![("f".into(), 1), ("g".into(), 2), ("h".into(), 0)];
    if !real && t.chance(1, 12) {
        fns.push(("many".into(), 3 + t.below(18)));
    }
    if real && mix.mem > 0 {
        fns.extend([("fp".into(), 1), ("fc".into(), 2), ("fs".into(), 2), ("ft".into(), 1)]);
    }
    // how much is known
    let typed = t.chance(1, 3);
    let mut params: Vec<String> = vec![];
    for (n, _) in &vars {
        if if real { !n.starts_with('G') } else { typed || t.chance(3, 4) } {
            params.push(n.clone());
        }
    }
    for i in (1..params.len()).rev() {
        let j = t.below(i + 1);
        params.swap(i, j);
    }
    let mut cx = Ctx::default();
    cx.tys.insert("S".into(), "S".into());
    if typed {
        for (n, ty) in &vars {
            let s = match ty {
                Ty::I => "c_int",
                Ty::P => "*mut c_int",
                Ty::St => "S",
                Ty::Sp => "*mut S",
            };
            cx.args.insert(n.clone(), s.into());
        }
        for f in FIELDS_I {
            cx.fields.insert(("S".into(), f.to_string()), "c_int".into());
            cx.fields.insert(("N".into(), f.to_string()), "c_int".into());
        }
        cx.fields.insert(("S".into(), "fn_".into()), "N".into());
        cx.fields.insert(("S".into(), "fr".into()), "*mut c_int".into());
        cx.fields.insert(("S".into(), "next".into()), "*mut S".into());
    }
    if typed || t.chance(1, 4) {
        for (f, n) in &fns {
            let mut a: Vec<String> = vec!["c_int".into(); *n];
            if f.len() == 2 {
                a[0] = match &f[..] {
                    "fp" => "*mut c_int",
                    "fc" => "*const c_int",
                    "fs" => "*mut S",
                    _ => "*const c_char",
                }
                .into();
            }
            cx.fns.insert(f.clone(), (a, "c_int".into()));
        }
        if mix.mem + mix.vol > 0 {
            cx.fns.insert("rip".into(), (vec!["c_int".into()], "*mut c_int".into()));
            cx.fns.insert("rsp".into(), (vec!["c_int".into()], "*mut S".into()));
        }
    }
    let pset: BTreeSet<String> = params.iter().cloned().collect();
    let prog = {
        let mut g = G { t, vars: vars.clone(), fns, m: mix, locals: 0, loops: 0, real };
        if stmts {
            let s = if g.t.chance(1, 2) { g.block(depth, &pset) } else { g.stmt(depth, &pset) };
            Prog::S(s)
        } else {
            let d = 1 + g.t.below(depth);
            let k = if mix.mem > 0 { 3 } else { 0 };
            let e = match g.t.weighted(&[12, 3, k, k, if mix.asg > 0 { 4 } else { 0 }]) {
                0 => g.int(d),
                1 => g.boolean(d),
                2 => g.ptr(d, false),
                3 => g.lval(d),
                _ => g.effect(d),
            };
            Prog::E(e)
        }
    };
    let redundant = *t.pick(&[0, 0, 1, 3, 8]);
    let mut p = Pr { t: Some(t), redundant, out: vec![] };
    match &prog {
        Prog::E(e) => p.expr(e, 0),
        Prog::S(s) => p.stmt(s),
    }
    let text = p.out;
    Case { prog, text, vars, params, cx }
}

fn judge(t: &mut Tape, cx: &mut Cx, c: Case) -> Res {
    cx.set_desc(format!("#define M({}) {}{}", c.params.join(", "), c.text.join(" "), {
        let s = c.cx.show();
        if s.is_empty() { s } else { format!("   [{s}]") }
    }));
    if like_declaration(&c.text) && c.text.iter().any(|w| w == ";") {
        return cx.discard("a statement may be a declaration");
    }
    // the C meaning first: undefined programs are not judged
    let mut runs = vec![];
    for _ in 0..4 {
        let m = valuation(t, &c.vars);
        let r: Result<Vec<Outcome>, Err> = [0, 1, 2, 3, 4, 5].iter().map(|k| run_c(&c.prog, &m, *k)).collect();
        let Ok(r) = r else { continue };
        if r.iter().any(|o| o.0 != r[0].0 || o.1 != r[0].1 || sorted(&o.2) != sorted(&r[0].2)) {
            continue;
        }
        let ordered = r.iter().all(|o| o.2 == r[0].2);
        runs.push((m, r.into_iter().next().unwrap(), ordered));
    }
    if runs.is_empty() {
        return cx.discard("C does not define the value for any of the valuations");
    }
    let out = match guard(|| cg::fn_gen("M", &c.params, &c.text, &c.cx))? {
        Ok(o) => o,
        Err(GErr::Gen(CodegenError::UnsupportedType(_))) | Err(GErr::Parse(_)) if ambiguous(&c.text, &c.params) => {
            return cx.discard("a parenthesized name may be a type");
        }
        Err(e) => return fail("refused", format!("refused with {e:?}")),
    };
    let parts = match cg::split_fn("M", &out) {
        Ok(p) => p,
        Err(e) => return fail("form", format!("{e}: {out}")),
    };
    let (body, is_macro, void) = match parts {
        FnOut::Macro { body, .. } => (rsi::subst(body, &[]), true, false),
        FnOut::Func { body, ret, .. } => (body, false, ret.is_none()),
    };
    cx.class(if is_macro { "macro" } else { "function" });
    let shown = body.to_string();
    let body = match rsi::parse_body(body, is_macro) {
        Ok(b) => b,
        Err(e) => return fail("syntax", format!("generated `{shown}` is not Rust: {e}")),
    };
    cx.nontrivial = c.text.len() >= 5;
    for (m0, (cv, cs, ct), ordered) in &runs {
        let inputs = || {
            let v: Vec<String> = c.vars.iter().map(|(n, _)| n.clone()).chain(["buf@".to_string(), "sbuf@".into()]).filter(|n| c.text.contains(n) || c.vars.iter().any(|v| c.text.contains(&v.0) && n == match v.1 { Ty::P => "buf@", Ty::Sp => "sbuf@", _ => "" })).map(|n| format!("{n} = {}", show_v(&m0.objs[&n]))).collect();
            v.join(", ")
        };
        let mut m = m0.clone();
        m.extra_steps = 100_000;
        let r = RI { m: &mut m }.run(&body);
        let v = match r {
            Ok(v) => v,
            Err(Err::Undef(e)) => return fail("value", format!("generated `{shown}` with {}: {e}, but C gives {}", inputs(), show_v(cv))),
            Err(Err::Bad(e)) => return fail("code", format!("generated `{shown}`: {e}; C gives {} with {}", show_v(cv), inputs())),
        };
        let (v, s, trace) = outcome(v, &m);
        if matches!(c.prog, Prog::E(_)) && !void && &v != cv {
            return fail("value", format!("generated `{shown}` is {} with {}, C gives {}", show_v(&v), inputs(), show_v(cv)));
        }
        if &s != cs {
            return fail("state", format!("generated `{shown}` with {} leaves {}", inputs(), diff_state(cs, &s)));
        }
        let same = if *ordered { &trace == ct } else { sorted(&trace) == sorted(ct) };
        if !same {
            return fail("trace", format!("generated `{shown}` with {} does `{}`, C does `{}`", inputs(), show_trace(&trace), show_trace(ct)));
        }
    }
    Ok(())
}

pub const PURE: Mix = Mix { arith: 3, cmp: 2, cond: 3, call: 2, inc: 0, asg: 0, cast: 2, mem: 1, vol: 0 };
pub const EFF: Mix = Mix { arith: 3, cmp: 2, cond: 2, call: 2, inc: 2, asg: 2, cast: 1, mem: 2, vol: 0 };
fn c03(t: &mut Tape, cx: &mut Cx) -> Res {
    let mut m = match t.below(3) {
        0 => PURE,
        1 => Mix { mem: 0, ..PURE },
        _ => EFF,
    };
    if t.chance(1, 4) {
        m.cast = 0;
    }
    let c = gen_case(t, m, false, 4);
    judge(t, cx, c)
}
fn c10(t: &mut Tape, cx: &mut Cx) -> Res {
    let m = if t.chance(1, 3) { Mix { mem: 0, ..EFF } } else { EFF };
    let c = gen_case(t, m, true, 3);
    cx.class(match &c.prog {
        Prog::S(S::Block(_)) => "block",
        Prog::S(S::If(..)) => "if",
        Prog::S(S::DoWhile(..)) => "do-while",
        Prog::S(S::Decl(..)) => "declaration",
        _ => "expression",
    });
    judge(t, cx, c)
}
fn c15(t: &mut Tape, cx: &mut Cx) -> Res {
    let m = Mix { arith: 1, cmp: 1, cond: 1, call: 1, inc: 2, asg: 3, cast: 0, mem: 1, vol: 4 };
    let stmts = t.chance(1, 3);
    let mut c = gen_case(t, m, stmts, if stmts { 2 } else { 3 });
    for _ in 0..3 {
        if c.text.iter().any(|w| w == "volatile") {
            break;
        }
        c = gen_case(t, m, stmts, if stmts { 2 } else { 3 });
    }
    if !c.text.iter().any(|w| w == "volatile") {
        return cx.discard("no volatile access");
    }
    judge(t, cx, c)
}
fn c18(t: &mut Tape, cx: &mut Cx) -> Res {
    let m = Mix { arith: 1, cmp: 1, cond: 1, call: 0, inc: 2, asg: 2, cast: 0, mem: 10, vol: 0 };
    let c = gen_case(t, m, false, 4);
    judge(t, cx, c)
}

pub fn props() -> Vec<Prop> {
    let p = |id, rule, case: CaseFn| Prop { id, rule, tape_len: 500, quick: 300_000, thorough: 10_000_000, case, enumerate: None, batch: None, assumptions: &[] };
    vec![
        p("C03", "the body has at least five tokens and C defines its value for one of the valuations", c03),
        p("C10", "the body has at least five tokens and C defines its run for one of the valuations", c10),
        p("C15", "the body has a volatile access and C defines its run for one of the valuations", c15),
        p("C18", "the body has at least five tokens and C defines its value for one of the valuations", c18),
    ]
}
