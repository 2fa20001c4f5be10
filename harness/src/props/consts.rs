//! C01, C02, C05, C07, C09: generated constants against C-typed evaluation.
use super::lits;
use crate::cg::{self, Ctx, GErr};
use crate::engine::*;
use crate::rconst::{eval_const, rty, wrap, RTy, CV};
use crate::reflit::{self, Class, RefLit};

/// C arithmetic types on LP64.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CT {
    /// rank, bits, signed
    I(u8, u32, bool),
    Bool,
    F32,
    F64,
}
pub const INT: CT = CT::I(3, 32, true);
const UINT: CT = CT::I(3, 32, false);
const LONG: CT = CT::I(4, 64, true);
const ULONG: CT = CT::I(4, 64, false);
const LL: CT = CT::I(5, 64, true);
const ULL: CT = CT::I(5, 64, false);
/// Spelling, type, Rust name.
pub const TYPES: &[(&[&str], CT, &str)] = &[
    (&["char"], CT::I(1, 8, true), "c_char"),
    (&["signed", "char"], CT::I(1, 8, true), "c_schar"),
    (&["unsigned", "char"], CT::I(1, 8, false), "c_uchar"),
    (&["short"], CT::I(2, 16, true), "c_short"),
    (&["unsigned", "short"], CT::I(2, 16, false), "c_ushort"),
    (&["int"], INT, "c_int"),
    (&["unsigned"], UINT, "c_uint"),
    (&["unsigned", "int"], UINT, "c_uint"),
    (&["long"], LONG, "c_long"),
    (&["unsigned", "long"], ULONG, "c_ulong"),
    (&["long", "long"], LL, "c_longlong"),
    (&["unsigned", "long", "long"], ULL, "c_ulonglong"),
    (&["_Bool"], CT::Bool, "bool"),
    (&["float"], CT::F32, "f32"),
    (&["double"], CT::F64, "f64"),
];
#[derive(Debug, Clone)]
pub enum K {
    Int(String, i128, CT),
    Flt(String, f64, CT),
    Chr(String, i128),
    Cast(usize, Box<K>),
    Un(&'static str, Box<K>),
    Bin(&'static str, Box<K>, Box<K>),
    Par(Box<K>),
    Tern(Box<K>, Box<K>, Box<K>),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum V {
    I(i128),
    F(f64),
}
#[derive(Debug, Clone, PartialEq)]
pub enum Why {
    Ub,
    /// C wraps around or converts to a different value.
    Wrap,
    Bad,
}
fn to_rty(t: CT) -> RTy {
    match t {
        CT::I(_, bits, signed) => RTy::Int { bits, signed },
        CT::Bool => RTy::Bool,
        CT::F32 => RTy::F32,
        CT::F64 => RTy::F64,
    }
}
fn fits(v: i128, t: CT) -> bool {
    let (lo, hi) = crate::rconst::range(to_rty(t));
    lo <= v && v <= hi
}
fn promote(t: CT) -> CT {
    match t {
        CT::I(r, ..) if r < 3 => INT,
        CT::Bool => INT,
        t => t,
    }
}
pub fn usual(a: CT, b: CT) -> CT {
    let (a, b) = (promote(a), promote(b));
    match (a, b) {
        (CT::F64, _) | (_, CT::F64) => CT::F64,
        (CT::F32, _) | (_, CT::F32) => CT::F32,
        (CT::I(ra, ba, sa), CT::I(rb, bb, sb)) => {
            if sa == sb {
                if ra >= rb {
                    a
                } else {
                    b
                }
            } else {
                let ((ru, bu, u), (rs, bs, s)) = if sa { ((rb, bb, b), (ra, ba, a)) } else { ((ra, ba, a), (rb, bb, b)) };
                if ru >= rs {
                    u
                } else if bs > bu {
                    s
                } else {
                    CT::I(rs, bs, false)
                }
            }
        }
        _ => INT,
    }
}
/// Conversion as by a cast.
pub fn convert(v: V, t: CT) -> Result<V, Why> {
    Ok(match (v, t) {
        (V::I(v), CT::Bool) => V::I((v != 0) as i128),
        (V::F(v), CT::Bool) => V::I((v != 0.0) as i128),
        (V::I(v), CT::I(..)) => V::I(wrap(v, to_rty(t))),
        (V::F(v), CT::I(..)) => {
            let i = v.trunc() as i128;
            if !fits(i, t) {
                return Err(Why::Ub);
            }
            V::I(i)
        }
        (V::I(v), CT::F32) => V::F(v as f32 as f64),
        (V::I(v), CT::F64) => V::F(v as f64),
        (V::F(v), CT::F32) => {
            let f = v as f32 as f64;
            if !f.is_finite() {
                return Err(Why::Ub);
            }
            V::F(f)
        }
        (V::F(v), CT::F64) => V::F(v),
    })
}
fn keep(v: V, t: CT) -> Result<V, Why> {
    let w = convert(v, t)?;
    match (v, w) {
        (V::I(a), V::I(b)) if a != b => Err(Why::Wrap),
        _ => Ok(w),
    }
}
impl K {
    pub fn eval(&self, uniform: bool) -> Result<(V, CT), Why> {
        match self {
            K::Int(_, v, t) => Ok((V::I(*v), *t)),
            K::Flt(_, v, t) => Ok((V::F(*v), *t)),
            K::Chr(_, v) => Ok((V::I(*v), INT)),
            K::Par(k) => k.eval(uniform),
            K::Cast(i, k) => {
                let (v, _) = k.eval(uniform)?;
                let t = TYPES[*i].1;
                Ok((convert(v, t)?, t))
            }
            K::Un(op, k) => {
                let (v, t0) = k.eval(uniform)?;
                let t = promote(t0);
                match (*op, v) {
                    ("!", V::I(v)) => Ok((V::I((v == 0) as i128), INT)),
                    ("!", V::F(v)) => Ok((V::I((v == 0.0) as i128), INT)),
                    ("+", v) => Ok((v, t)),
                    ("-", V::F(v)) => Ok((V::F(-v), t)),
                    ("-", V::I(v)) => {
                        let signed = matches!(t, CT::I(_, _, true));
                        if !fits(-v, t) {
                            return Err(if signed { Why::Ub } else { Why::Wrap });
                        }
                        Ok((V::I(-v), t))
                    }
                    ("~", V::I(v)) => {
                        if matches!(t, CT::I(_, _, true)) {
                            Ok((V::I(!v), t))
                        } else if uniform {
                            Ok((V::I(wrap(!v, to_rty(t))), t))
                        } else {
                            Err(Why::Wrap)
                        }
                    }
                    _ => Err(Why::Bad),
                }
            }
            K::Tern(c, a, b) => {
                let (c, _) = c.eval(uniform)?;
                let (x, tx) = a.eval(uniform)?;
                let (y, ty) = b.eval(uniform)?;
                let t = usual(tx, ty);
                let (x, y) = (keep(x, t)?, keep(y, t)?);
                let c = match c {
                    V::I(v) => v != 0,
                    V::F(v) => v != 0.0,
                };
                Ok((if c { x } else { y }, t))
            }
            K::Bin(op, a, b) => {
                let (x, tx) = a.eval(uniform)?;
                let (y, ty) = b.eval(uniform)?;
                if matches!(*op, "<<" | ">>") {
                    let (V::I(x), V::I(y), t) = (x, y, promote(tx)) else { return Err(Why::Bad) };
                    let CT::I(_, bits, signed) = t else { return Err(Why::Bad) };
                    if y < 0 || y >= bits as i128 {
                        return Err(Why::Ub);
                    }
                    if *op == ">>" {
                        return Ok((V::I(x >> y), t));
                    }
                    if x < 0 {
                        return Err(Why::Ub);
                    }
                    if y > 64 || !fits(x << y, t) {
                        return Err(if signed { Why::Ub } else { Why::Wrap });
                    }
                    return Ok((V::I(x << y), t));
                }
                let t = usual(tx, ty);
                let rel = matches!(*op, "<" | "<=" | ">" | ">=" | "==" | "!=");
                match (keep(x, t)?, keep(y, t)?) {
                    (V::I(x), V::I(y)) => {
                        if rel {
                            let r = match *op {
                                "<" => x < y,
                                "<=" => x <= y,
                                ">" => x > y,
                                ">=" => x >= y,
                                "==" => x == y,
                                _ => x != y,
                            };
                            return Ok((V::I(r as i128), INT));
                        }
                        let r = match *op {
                            "+" => x.checked_add(y),
                            "-" => x.checked_sub(y),
                            "*" => x.checked_mul(y),
                            "/" | "%" if y == 0 => return Err(Why::Ub),
                            "/" => x.checked_div(y),
                            "%" => {
                                if !fits(x / y, t) {
                                    return Err(Why::Ub);
                                }
                                x.checked_rem(y)
                            }
                            "&" => Some(x & y),
                            "|" => Some(x | y),
                            "^" => Some(x ^ y),
                            _ => return Err(Why::Bad),
                        };
                        match r {
                            Some(r) if fits(r, t) => Ok((V::I(r), t)),
                            _ => Err(if matches!(t, CT::I(_, _, true)) { Why::Ub } else { Why::Wrap }),
                        }
                    }
                    (V::F(x), V::F(y)) => {
                        if rel {
                            let r = match *op {
                                "<" => x < y,
                                "<=" => x <= y,
                                ">" => x > y,
                                ">=" => x >= y,
                                "==" => x == y,
                                _ => x != y,
                            };
                            return Ok((V::I(r as i128), INT));
                        }
                        // double rounding of one operation on floats through double is exact
                        let r = match *op {
                            "+" => x + y,
                            "-" => x - y,
                            "*" => x * y,
                            "/" => x / y,
                            _ => return Err(Why::Bad),
                        };
                        let r = if t == CT::F32 { r as f32 as f64 } else { r };
                        if !r.is_finite() {
                            return Err(Why::Ub);
                        }
                        Ok((V::F(r), t))
                    }
                    _ => Err(Why::Bad),
                }
            }
        }
    }
    pub fn prec(&self) -> u8 {
        match self {
            K::Int(..) | K::Flt(..) | K::Chr(..) | K::Par(_) => 20,
            K::Cast(..) | K::Un(..) => 15,
            K::Bin(op, ..) => bin_prec(op),
            K::Tern(..) => 1,
        }
    }
    pub fn toks(&self, out: &mut Vec<String>) {
        let sub = |k: &K, p: u8, out: &mut Vec<String>| {
            if k.prec() < p {
                out.push("(".into());
                k.toks(out);
                out.push(")".into());
            } else {
                k.toks(out);
            }
        };
        match self {
            K::Int(s, ..) | K::Flt(s, ..) | K::Chr(s, _) => out.push(s.clone()),
            K::Par(k) => {
                out.push("(".into());
                k.toks(out);
                out.push(")".into());
            }
            K::Cast(i, k) => {
                out.push("(".into());
                out.extend(TYPES[*i].0.iter().map(|s| s.to_string()));
                out.push(")".into());
                sub(k, 15, out);
            }
            K::Un(op, k) => {
                out.push(op.to_string());
                sub(k, 15, out);
            }
            K::Tern(c, a, b) => {
                sub(c, 2, out);
                out.push("?".into());
                sub(a, 1, out);
                out.push(":".into());
                sub(b, 1, out);
            }
            K::Bin(op, a, b) => {
                sub(a, bin_prec(op), out);
                out.push(op.to_string());
                sub(b, bin_prec(op) + 1, out);
            }
        }
    }
    pub fn ops(&self) -> usize {
        match self {
            K::Int(..) | K::Flt(..) | K::Chr(..) => 0,
            K::Par(k) => k.ops(),
            K::Cast(_, k) | K::Un(_, k) => 1 + k.ops(),
            K::Bin(_, a, b) => 1 + a.ops() + b.ops(),
            K::Tern(c, a, b) => 1 + c.ops() + a.ops() + b.ops(),
        }
    }
    pub fn each(&self, f: &mut dyn FnMut(&K)) {
        f(self);
        match self {
            K::Par(k) | K::Cast(_, k) | K::Un(_, k) => k.each(f),
            K::Bin(_, a, b) => {
                a.each(f);
                b.each(f);
            }
            K::Tern(c, a, b) => {
                c.each(f);
                a.each(f);
                b.each(f);
            }
            _ => (),
        }
    }
}
pub fn bin_prec(op: &str) -> u8 {
    match op {
        "*" | "/" | "%" => 13,
        "+" | "-" => 12,
        "<<" | ">>" => 11,
        "<" | "<=" | ">" | ">=" => 10,
        "==" | "!=" => 9,
        "&" => 8,
        "^" => 7,
        _ => 6,
    }
}
/// The C type of an integer literal.
pub fn lit_ct(tok: &str, v: i128, suffix: &str) -> Option<CT> {
    let dec = !tok.starts_with('0') || tok == "0";
    let s = suffix.to_lowercase();
    let uns = s.contains('u');
    let l = s.matches('l').count();
    let all: &[CT] = &[INT, UINT, LONG, ULONG, LL, ULL];
    all.iter()
        .copied()
        .filter(|t| match t {
            CT::I(r, _, signed) => {
                *r as usize >= 3 + l && if uns { !signed } else { *signed || !dec }
            }
            _ => false,
        })
        .find(|t| fits(v, *t))
}
pub fn int_lit(tok: String) -> Option<K> {
    match reflit::number(&tok) {
        Class::Lit(RefLit::Int(v, s)) => {
            let t = lit_ct(&tok, v, &s)?;
            Some(K::Int(tok, v, t))
        }
        _ => None,
    }
}
fn int_tok(t: &mut Tape) -> String {
    const EDGE: &[&str] = &["0", "1", "2", "3", "7", "8", "10", "31", "32", "63", "64", "127", "128", "255", "256", "0xff", "0x7fffffff", "2147483647", "2147483648", "0x80000000", "0xffffffff", "4294967295", "0x7fffffffffffffff", "9223372036854775807", "0xffffffffffffffff", "017", "0b101", "1000000", "65535", "65536"];
    match t.weighted(&[5, 4, 3, 2]) {
        0 => format!("{}", t.below(20)),
        1 => {
            let s = t.pick_s(EDGE);
            s + t.pick(&["", "", "", "u", "U", "L", "UL", "ll", "ULL"])
        }
        2 => format!("{}{}", t.below(5000), t.pick(&["", "", "u", "L", "UL", "LL", "ULL"])),
        _ => lits::gen_int(t),
    }
}
fn int_leaf(t: &mut Tape) -> K {
    int_lit(int_tok(t)).unwrap_or(K::Int("1".into(), 1, INT))
}
fn float_leaf(t: &mut Tape) -> K {
    let tok = match t.weighted(&[3, 3, 1]) {
        0 => t.pick_s(&["0.0", "1.0", "2.5", "0.1", "0.5", "3.0", "1e3", "1e10", "0.1f", "1.5f", "3.0f", "16777216.0f", "16777217.0", "1e-3f", "255.9", "1e20", "2147483648.0f", "1.0000000596046448", "2.0L", "1e300", "1e38f", "4.0f"]),
        1 => format!("{}.{}{}", t.below(1000), t.below(1000), t.pick(&["", "f", "F", "L"])),
        _ => lits::gen_float(t),
    };
    match reflit::number(&tok) {
        Class::Lit(RefLit::Float(d, f, s)) => {
            let (v, ct) = if s.eq_ignore_ascii_case("f") { (f as f64, CT::F32) } else { (d, CT::F64) };
            if !v.is_finite() {
                return K::Flt("1.5".into(), 1.5, CT::F64);
            }
            K::Flt(tok, v, ct)
        }
        _ => K::Flt("0.25".into(), 0.25, CT::F64),
    }
}
fn paren(t: &mut Tape, k: K) -> K {
    if t.chance(1, 8) {
        K::Par(Box::new(paren(t, k)))
    } else {
        k
    }
}
const INT_OPS: &[&str] = &["*", "/", "%", "+", "-", "<<", ">>", "&", "^", "|"];
fn un(op: &'static str, k: K) -> K {
    K::Un(op, Box::new(k))
}
fn bin(op: &'static str, a: K, b: K) -> K {
    K::Bin(op, Box::new(a), Box::new(b))
}
/// Picks the first candidate that C defines, else the last.
fn defined(t: &mut Tape, n: usize, mut f: impl FnMut(&mut Tape) -> K) -> K {
    let wild = t.chance(1, 40);
    let mut k = f(t);
    for _ in 0..n {
        if wild || k.eval(true).is_ok() {
            break;
        }
        k = f(t);
    }
    k
}
pub fn int_tree(t: &mut Tape, d: usize) -> K {
    let k = if d == 0 || t.chance(1, 5) {
        int_leaf(t)
    } else if t.chance(1, 4) {
        let a = int_tree(t, d - 1);
        defined(t, 3, |t| un(*t.pick(&["+", "-", "!", "~", "-", "~"]), a.clone()))
    } else {
        let a = int_tree(t, d - 1);
        let b = int_tree(t, d - 1);
        defined(t, 6, |t| {
            let op = *t.pick(INT_OPS);
            let b = if t.chance(1, 4) || (matches!(op, "<<" | ">>") && t.chance(2, 3)) { int_lit(format!("{}", t.below(34))).unwrap() } else { b.clone() };
            bin(op, a.clone(), b)
        })
    };
    paren(t, k)
}
/// A tree with at least one floating literal among its operands wherever `float` is set.
fn float_tree(t: &mut Tape, d: usize) -> K {
    let k = if d == 0 || t.chance(1, 5) {
        float_leaf(t)
    } else {
        match t.weighted(&[2, 6, 1]) {
            0 => un(*t.pick(&["+", "-"]), float_tree(t, d - 1)),
            1 => {
                let a = float_tree(t, d - 1);
                let b = match t.weighted(&[4, 3, 1]) {
                    0 => float_tree(t, d - 1),
                    1 => int_tree(t, (d - 1).min(1)),
                    _ => un("!", float_tree(t, d - 1)),
                };
                let (a, b) = if t.chance(1, 2) { (a, b) } else { (b, a) };
                defined(t, 5, |t| {
                    let op = *t.pick(&["+", "-", "*", "/"]);
                    bin(op, a.clone(), if t.chance(1, 6) { float_leaf(t) } else { b.clone() })
                })
            }
            _ => {
                let a = un("!", float_tree(t, d - 1));
                bin(*t.pick(&["+", "-", "*"]), a, float_leaf(t))
            }
        }
    };
    paren(t, k)
}
/// Expressions of C01, C02 and C07 with a value, without those on which C and Rust may differ.
pub fn valued(t: &mut Tape) -> Result<(K, CT), String> {
    let d = 1 + t.weighted(&[2, 3, 3, 1]);
    let (k, uniform) = match t.weighted(&[3, 2, 5]) {
        0 => (int_tree(t, d), false),
        1 => (float_tree(t, d.min(3)), false),
        _ => {
            let i = t.below(TYPES.len());
            (typed(t, i, d), true)
        }
    };
    let (_, ct) = k.eval(uniform).map_err(|w| format!("{w:?}"))?;
    if untyped_not(&k) {
        return Err("complement of an unsigned literal".into());
    }
    Ok((k, ct))
}
pub fn ctx() -> Ctx {
    let mut c = lits::ctx();
    c.tys.insert("my_int".into(), "c_int".into());
    c.enums.insert("E_A".into(), ("my_enum".into(), "my_enum::E_A".into()));
    c.fns.insert("known_fn".into(), (vec!["c_int".into()], "c_int".into()));
    c
}
pub fn rname(t: CT) -> &'static str {
    match t {
        CT::I(_, 8, true) => "i8",
        CT::I(_, 8, false) => "u8",
        CT::I(_, 16, true) => "i16",
        CT::I(_, 16, false) => "u16",
        CT::I(_, 32, true) => "i32",
        CT::I(_, 32, false) => "u32",
        CT::I(_, _, true) => "i64",
        CT::I(_, _, false) => "u64",
        CT::Bool => "bool",
        CT::F32 => "f32",
        CT::F64 => "f64",
    }
}
pub fn ty_of(t: &Option<String>) -> Option<RTy> {
    t.as_deref().and_then(|t| rty(&cg::tn(t)))
}
fn as_v(c: &CV) -> Option<V> {
    match c {
        CV::Int(v, _) => Some(V::I(*v)),
        CV::Bool(b) => Some(V::I(*b as i128)),
        CV::F(f, _) => Some(V::F(*f)),
        _ => None,
    }
}
fn same(a: V, b: V) -> bool {
    match (a, b) {
        (V::I(a), V::I(b)) => a == b,
        (V::F(a), V::F(b)) => a.to_bits() == b.to_bits(),
        _ => false,
    }
}
/// Generation must succeed or fail with an error, never panic.
fn gen(body: &[String], c: &Ctx) -> Result<Result<(String, Option<String>), GErr>, Fail> {
    match guard(|| cg::var_gen("X", body, c)) {
        Ok(r) => Ok(r),
        Err(p) => fail("panic", format!("`{}` panics: {p}", body.join(" "))),
    }
}
fn c01(t: &mut Tape, cx: &mut Cx) -> Res {
    let d = 1 + t.weighted(&[2, 3, 3, 2, 1]);
    let k = int_tree(t, d);
    let mut body = vec![];
    k.toks(&mut body);
    let mut lits = std::collections::BTreeSet::new();
    let (mut notu, mut neg_uns) = (false, false);
    k.each(&mut |k| {
        if let K::Int(s, v, t) = k {
            // an unsigned literal without a suffix is not known to be unsigned
            let u = s.contains(['u', 'U']);
            let l = s.matches(['l', 'L']).count();
            lits.insert((format!("{t:?}{u}{l}"), !u && (matches!(t, CT::I(_, _, false)) || *v > i32::MAX as i128)));
        }
        if let K::Un("~", a) = k {
            notu |= unfolded(a);
        }
        if let K::Un("!", a) | K::Bin("<<" | ">>", _, a) = k {
            // the type of the operand is lost in the comparison with zero or as a shift amount
            a.each(&mut |k| {
                if let K::Un("~", a) = k {
                    neg_uns |= unfolded(a);
                }
            });
        }
        if let K::Un("-", a) = k {
            neg_uns |= !matches!(a.eval(true), Ok((_, CT::I(_, _, true))));
        }
    });
    if notu && neg_uns || notu && !(lits.len() <= 1 && lits.iter().all(|l| !l.1)) {
        let c = ctx();
        gen(&body_of(&k), &c)?;
        return cx.discard("complement of unsigned in a mixed expression");
    }
    let uniform = lits.len() <= 1 && lits.iter().all(|l| !l.1);
    let text = body.join(" ");
    cx.set_desc(format!("#define X {text}"));
    let c = ctx();
    let r = gen(&body, &c)?;
    let want = match k.eval(uniform) {
        Ok(v) => v,
        Err(w) => {
            cx.class(format!("no panic: {w:?}"));
            // C gives no value here: what is checked is that nothing panics.
            cx.nontrivial = k.ops() > 0 && matches!(k.eval(true), Err(Why::Ub));
            return Ok(());
        }
    };
    let (V::I(v), ct) = want else { return cx.discard("float") };
    cx.class(format!("ops {}", k.ops().min(8)));
    cx.class(format!("type {}", rname(ct)));
    if notu {
        cx.class("complement of unsigned");
    }
    cx.nontrivial = k.ops() > 0;
    let (g, ty) = match r {
        Ok(x) => x,
        Err(e) => return fail("refused", format!("`{text}` is {v} but is refused: {e:?}")),
    };
    // without a reported type, the constant has the type of the C expression
    let tname = match ty_of(&ty) {
        Some(RTy::F32 | RTy::F64 | RTy::Char) => return fail("type", format!("`{text}` has type {ty:?}")),
        Some(_) => ty.clone().unwrap(),
        None => match &ty {
            Some(x) => return fail("type", format!("`{text}` has type {x}")),
            None => rname(ct).to_string(),
        },
    };
    match eval_const(&g, Some(&tname)) {
        Ok(c) if as_v(&c) == Some(V::I(v)) => Ok(()),
        Ok(c) => fail("value", format!("`{text}` is {v} but generates `{g}` ({tname}), which is {c:?}")),
        Err(e) => fail("value", format!("`{text}` is {v} but generates `{g}` ({tname}): {e}")),
    }
}
fn body_of(k: &K) -> Vec<String> {
    let mut v = vec![];
    k.toks(&mut v);
    v
}
fn c02(t: &mut Tape, cx: &mut Cx) -> Res {
    let d = 1 + t.weighted(&[2, 3, 3, 2]);
    let k = match t.weighted(&[12, 1]) {
        0 => float_tree(t, d),
        _ => un("!", float_tree(t, d - 1)),
    };
    let mut body = vec![];
    k.toks(&mut body);
    let text = body.join(" ");
    cx.set_desc(format!("#define X {text}"));
    let c = ctx();
    let r = gen(&body, &c)?;
    let (v, ct) = match k.eval(false) {
        Ok(v) => v,
        Err(w) => return cx.discard(format!("{w:?}")),
    };
    if untyped_not(&k) {
        return cx.discard("complement of an unsigned literal");
    }
    cx.class(format!("ops {}", k.ops().min(8)));
    cx.class(format!("type {}", rname(ct)));
    let mut mixed = (false, false);
    k.each(&mut |k| match k {
        K::Int(..) => mixed.0 = true,
        K::Flt(..) => mixed.1 = true,
        _ => (),
    });
    if mixed == (true, true) {
        cx.class("mixed");
    }
    cx.nontrivial = k.ops() > 0;
    let (g, ty) = match r {
        Ok(x) => x,
        Err(e) => return fail("refused", format!("`{text}` is {v:?} but is refused: {e:?}")),
    };
    let tname = match (ty_of(&ty), ct) {
        (Some(RTy::F32), CT::F32) => "f32",
        (Some(RTy::F64), CT::F64) => "f64",
        (None, CT::I(..)) if ty.is_none() => "i32",
        (Some(RTy::Bool), CT::I(..)) => "bool",
        _ => return fail("type", format!("`{text}` has C type {} but is reported as {ty:?}", rname(ct))),
    };
    match eval_const(&g, Some(tname)) {
        Ok(c) if as_v(&c).is_some_and(|x| same(x, v)) => Ok(()),
        Ok(c) => fail("value", format!("`{text}` is {v:?} but generates `{g}` ({tname}), which is {c:?}")),
        Err(e) => fail("value", format!("`{text}` is {v:?} but generates `{g}` ({tname}): {e}")),
    }
}
pub fn chr_leaf(t: &mut Tape) -> K {
    let p = t.pick_s(&["", "", "", "u8", "u", "U", "L"]);
    for _ in 0..4 {
        let u = lits::gen_unit(t, &p, false);
        let tok = format!("{p}'{u}'");
        if let Class::Lit(RefLit::Char(q, v)) = reflit::character(&tok) {
            let v = v as i128;
            let v = match q.as_str() {
                "" => {
                    if v > 255 {
                        continue;
                    }
                    v as u8 as i8 as i128
                }
                "L" => v as u32 as i32 as i128,
                _ => v,
            };
            return K::Chr(tok, v);
        }
    }
    K::Chr("'a'".into(), 97)
}
fn cast(i: usize, k: K) -> K {
    K::Cast(i, Box::new(k))
}
/// An expression whose Rust type is that of `TYPES[i]`.
pub fn typed(t: &mut Tape, i: usize, d: usize) -> K {
    let ct = TYPES[i].1;
    let wide = match ct {
        CT::I(r, ..) => r >= 3,
        CT::Bool => false,
        _ => true,
    };
    let float = matches!(ct, CT::F32 | CT::F64);
    if d > 0 && wide && t.chance(1, 2) {
        let k = match t.weighted(&[2, 5, 1]) {
            2 => {
                let c = any(t, d - 1);
                let a = typed(t, i, d - 1);
                let b = typed(t, i, d - 1);
                K::Tern(Box::new(c), Box::new(a), Box::new(b))
            }
            0 => {
                let a = typed(t, i, d - 1);
                let ops: &[&str] = match ct {
                    CT::I(_, _, true) => &["-", "+", "~"],
                    CT::I(..) => &["+", "~"],
                    _ => &["-", "+"],
                };
                let op = *t.pick(ops);
                // the complement of a typed unsigned operand is exact
                un(op, a)
            }
            _ => {
                let a = typed(t, i, d - 1);
                let b = if t.chance(1, 3) { None } else { Some(typed(t, i, d - 1)) };
                defined(t, 6, |t| {
                    let op = if float { *t.pick(&["+", "-", "*", "/"]) } else { *t.pick(INT_OPS) };
                    let shift = matches!(op, "<<" | ">>");
                    let b = match &b {
                        Some(b) if !shift => b.clone(),
                        _ => {
                            let k = int_lit(format!("{}", if t.chance(1, 3) { t.below(3000) } else { t.below(32) })).unwrap();
                            if !float && !shift && t.chance(1, 3) {
                                return bin(op, k, a.clone());
                            }
                            k
                        }
                    };
                    bin(op, a.clone(), b)
                })
            }
        };
        return paren(t, k);
    }
    let inner = any(t, d.saturating_sub(1));
    let k = defined(t, 4, |t| {
        let x = if t.chance(1, 4) { any(t, 0) } else { inner.clone() };
        cast(i, x)
    });
    if k.eval(true).is_err() {
        return cast(i, K::Int("1".into(), 1, INT));
    }
    paren(t, k)
}
pub fn any(t: &mut Tape, d: usize) -> K {
    let k = match t.weighted(&[4, 3, 3, 6, 2, 1]) {
        0 => int_tree(t, d.min(1)),
        1 => float_tree(t, d.min(1)),
        2 => chr_leaf(t),
        3 if d > 0 => {
            let i = t.below(TYPES.len());
            typed(t, i, d)
        }
        4 if d > 0 => {
            let i = t.below(TYPES.len());
            let i = if TYPES[i].1 == CT::Bool { 5 } else { i };
            let a = typed(t, i, d - 1);
            let b = typed(t, i, d - 1);
            bin(*t.pick(&["<", "<=", ">", ">=", "==", "!="]), a, b)
        }
        5 if d > 0 => {
            let i = t.below(TYPES.len());
            un("!", typed(t, i, d - 1))
        }
        _ => int_leaf(t),
    };
    paren(t, k)
}
/// True if the complement of this literal expression depends on its width: it is unsigned, or
/// may be (a value above `INT_MAX` and up to `UINT_MAX` is, depending on the base it is written in).
fn unfolded(a: &K) -> bool {
    let mut large = (false, false);
    a.each(&mut |k| {
        if let K::Int(s, v, _) = k {
            large.0 |= s.contains(['u', 'U']);
            large.1 |= *v > i32::MAX as i128;
        }
    });
    match a.eval(true) {
        _ if large == (true, true) => true,
        Ok((V::I(v), CT::I(_, _, true))) => (i32::MAX as i128 + 1..=u32::MAX as i128).contains(&v),
        _ => true,
    }
}
/// True if the complement of an unsigned *literal* expression is used (its width is then unknown to Rust).
fn untyped_not(k: &K) -> bool {
    fn has_type(k: &K) -> bool {
        match k {
            K::Cast(..) => true,
            K::Par(k) | K::Un(_, k) => has_type(k),
            K::Bin("<<" | ">>", a, _) => has_type(a),
            K::Bin(_, a, b) | K::Tern(_, a, b) => has_type(a) || has_type(b),
            K::Chr(..) => true,
            _ => false,
        }
    }
    let mut r = false;
    k.each(&mut |k| {
        if let K::Un("~", a) = k {
            r |= !has_type(a) && unfolded(a);
        }
    });
    r
}
fn c07(t: &mut Tape, cx: &mut Cx) -> Res {
    if t.chance(1, 20) {
        return c07_ptr(t, cx);
    }
    let d = 1 + t.weighted(&[3, 3, 2, 1]);
    let i = t.below(TYPES.len());
    let k = typed(t, i, d);
    let mut body = vec![];
    k.toks(&mut body);
    let text = body.join(" ");
    cx.set_desc(format!("#define X {text}"));
    let c = ctx();
    let r = gen(&body, &c)?;
    let (v, _) = match k.eval(true) {
        Ok(v) => v,
        Err(w) => return cx.discard(format!("{w:?}")),
    };
    if untyped_not(&k) {
        return cx.discard("complement of an unsigned literal");
    }
    let mut casts = 0;
    k.each(&mut |k| {
        if let K::Cast(i, _) = k {
            casts += 1;
            cx.class(format!("to {}", TYPES[*i].2));
        }
        if let K::Chr(..) = k {
            cx.class("character");
        }
    });
    cx.class(format!("casts {}", casts.min(6)));
    cx.nontrivial = casts > 1 || k.ops() > 1;
    let (g, ty) = match r {
        Ok(x) => x,
        Err(e) => return fail("refused", format!("`{text}` is {v:?} but is refused: {e:?}")),
    };
    let tn = ty.as_deref().map(cg::tn);
    if tn.as_deref() != Some(TYPES[i].2) {
        return fail("type", format!("`{text}` should have type {} but is reported as {ty:?}", TYPES[i].2));
    }
    match eval_const(&g, ty.as_deref()) {
        Ok(c) if as_v(&c).is_some_and(|x| same(x, v)) => Ok(()),
        Ok(c) => fail("value", format!("`{text}` is {v:?} but generates `{g}`, which is {c:?}")),
        Err(e) => fail("value", format!("`{text}` is {v:?} but generates `{g}`: {e}")),
    }
}
fn c07_ptr(t: &mut Tape, cx: &mut Cx) -> Res {
    let (i, c_const) = (t.below(TYPES.len()), t.below(3));
    let void = t.chance(1, 4);
    let levels = 1 + t.weighted(&[4, 1]);
    let mut body: Vec<String> = vec!["(".into()];
    if c_const == 1 {
        body.push("const".into());
    }
    let base = if void { "c_void" } else { TYPES[i].2 };
    if void {
        body.push("void".into());
    } else {
        body.extend(TYPES[i].0.iter().map(|s| s.to_string()));
    }
    if c_const == 2 {
        body.push("const".into());
    }
    for _ in 0..levels {
        body.push("*".into());
    }
    body.push(")".into());
    let zero = t.pick(&["0", "0x0", "0L", "0u", "00", "(0)"]).to_string();
    if zero == "(0)" {
        body.extend(["(".into(), "0".into(), ")".into()]);
    } else {
        body.push(zero);
    }
    if t.chance(1, 4) {
        body = vec!["(".into(), "void".into(), ")".into()];
        let k = any(t, 2);
        if k.eval(true).is_err() {
            return cx.discard("operand");
        }
        let mut o = vec![];
        K::Par(Box::new(k)).toks(&mut o);
        body.extend(o);
        let text = body.join(" ");
        cx.set_desc(format!("#define X {text}"));
        cx.class("void");
        cx.nontrivial = true;
        let Ok((g, ty)) = gen(&body, &ctx())? else { return fail("refused", format!("`{text}` is refused")) };
        let sq = cg::tn(&g);
        if ty.as_deref().map(cg::tn).as_deref() != Some("c_void") || !sq.starts_with("{let_=") && !sq.starts_with("{let _=") {
            return fail("void", format!("`{text}` generates `{g}` with type {ty:?}"));
        }
        return Ok(());
    }
    let text = body.join(" ");
    cx.set_desc(format!("#define X {text}"));
    cx.class("null pointer");
    cx.nontrivial = true;
    let (g, ty) = match gen(&body, &ctx())? {
        Ok(x) => x,
        Err(e) => return fail("refused", format!("`{text}` is refused: {e:?}")),
    };
    let inner = if c_const > 0 { format!("*const {base}") } else { format!("*mut {base}") };
    let want_ty = format!("{}{inner}", "*mut ".repeat(levels - 1));
    let fun = if levels == 1 && c_const > 0 { "null" } else { "null_mut" };
    if ty.as_deref().map(|s| s.replace(' ', "")) != Some(want_ty.replace(' ', "")) {
        return fail("pointer type", format!("`{text}` should have type `{want_ty}` but has {ty:?}"));
    }
    match eval_const(&g, ty.as_deref()) {
        Ok(CV::Ptr(None, f)) if f == fun || f.replace(' ', "") == want_ty.replace(' ', "") => Ok(()),
        r => fail("null", format!("`{text}` generates `{g}`: {r:?}")),
    }
}

fn target(t: &mut Tape) -> (Option<String>, bool, bool) {
    // target, `'static` may be elided, `CStr::from_bytes_with_nul_unchecked` is const
    match t.below(4) {
        0 => (None, true, true),
        1 => (Some("nightly".into()), true, true),
        _ => {
            let m = *t.pick(&[0, 1, 9, 15, 16, 17, 18, 33, 40, 58, 59, 60, 64, 70, 77, 80, 100, 116, 117, 159]);
            let major = if t.chance(1, 12) { 2 } else { 1 };
            let s = match t.below(3) {
                0 => format!("{major}.{m}"),
                _ => format!("{major}.{m}.{}", t.below(3)),
            };
            (Some(s), major > 1 || m >= 17, major > 1 || m >= 59)
        }
    }
}
fn c05(t: &mut Tape, cx: &mut Cx) -> Res {
    let p = t.pick_s(&["", "", "", "u8", "u", "U", "L"]);
    let (parts, p, u) = match lits::gen_run(t, &p) {
        Ok(x) => x,
        Err(w) => return cx.discard(w),
    };
    let mut c = Ctx::default();
    let (target, elide, cstr) = target(t);
    c.target = target;
    let ffi = *t.pick(&["", "", "::std::os::raw", "ffi", "::core::ffi", "libc"]);
    let tr = *t.pick(&["", "", "::core", "std", "::a::b"]);
    c.ffi = (!ffi.is_empty()).then(|| ffi.to_string());
    c.tr = (!tr.is_empty()).then(|| tr.to_string());
    let fp = if ffi.is_empty() { String::new() } else { format!("{ffi}::") };
    let wchar = *t.pick(&["i32", "u32", "c_int", "::libc::wchar_t"]);
    c.tys.insert("wchar_t".into(), wchar.into());
    let wty = wchar.to_string();
    let text = parts.join(" ");
    let mut body = parts.clone();
    let parens = t.weighted(&[4, 1, 1]);
    for _ in 0..parens {
        body.insert(0, "(".into());
        body.push(")".into());
    }
    let form = t.weighted(&[6, 2, 2]);
    let nul = u.contains(&0);
    let want: Vec<i128> = u.iter().chain(&[0]).map(|x| *x as i128).collect();
    let el = match p.as_str() {
        "" | "u8" => "u8".to_string(),
        "u" => "u16".into(),
        "U" => "u32".into(),
        _ => wty.clone(),
    };
    cx.class(format!("prefix {p:?}"));
    cx.class(format!("form {form}"));
    cx.class(if nul { "interior NUL" } else { "no interior NUL" });
    cx.nontrivial = !u.is_empty();
    let lt = if elide { "" } else { "'static" };
    let sq = |s: &str| s.replace(' ', "");
    let norm = |x: i128| if p == "L" { x & 0xffff_ffff } else { x };
    let same_units = |v: &[i128]| v.iter().map(|x| norm(*x)).collect::<Vec<_>>() == want;
    if form == 0 {
        cx.set_desc(format!("#define X {} ({})", body.join(" "), c.show()));
        let (g, ty) = match gen(&body, &c)? {
            Ok(x) => x,
            Err(e) => return fail("refused", format!("`{text}` is refused: {e:?}")),
        };
        let gty = sq(ty.as_deref().unwrap_or("none"));
        let as_cstr = p.is_empty() && cstr && !nul;
        cx.class(if as_cstr { "CStr" } else { "array" });
        let want_ty = if as_cstr {
            let f = if tr.is_empty() { "CStr".to_string() } else { format!("{tr}::ffi::CStr") };
            format!("&{f}")
        } else {
            format!("&{lt}[{el};{}]", want.len())
        };
        if gty != want_ty {
            return fail("type", format!("`{text}` has type `{gty}`, not `{want_ty}` ({})", c.show()));
        }
        return match eval_const(&g, ty.as_deref()) {
            Ok(CV::CStr(b)) if as_cstr && same_units(&b.iter().map(|b| *b as i128).collect::<Vec<_>>()) => {
                if !sq(&g).contains(&format!("{}::from_bytes_with_nul_unchecked(", &want_ty[1..])) {
                    return fail("path", format!("`{text}` generates `{g}` for the type {want_ty}"));
                }
                Ok(())
            }
            Ok(CV::Arr(v, e)) if !as_cstr && same_units(&v) && sq(&e) == sq(&el) => Ok(()),
            r => fail("contents", format!("`{text}` has units {want:x?} but generates `{g}`, {r:?}")),
        };
    }
    // as a pointer: under a cast, or as the value of a function
    let (char_ty, ptr_ty) = match p.as_str() {
        "" => ("char", format!("*const {fp}c_char")),
        "u8" => ("unsigned char", "*const u8".into()),
        "u" => ("unsigned short", "*const u16".into()),
        "U" => ("unsigned int", "*const u32".into()),
        _ => ("wchar_t", format!("*const {wty}")),
    };
    let (g, ty) = if form == 1 {
        let void = t.chance(1, 2);
        let mut b: Vec<String> = vec!["(".into(), "const".into()];
        if void {
            b.push("void".into());
        } else {
            b.extend(char_ty.split(' ').map(|s| s.to_string()));
        }
        b.extend(["*".into(), ")".into()]);
        b.extend(body);
        cx.set_desc(format!("#define X {} ({})", b.join(" "), c.show()));
        let (g, ty) = match gen(&b, &c)? {
            Ok(x) => x,
            Err(e) => return fail("refused", format!("`{}` is refused: {e:?}", b.join(" "))),
        };
        let want_ty = match p.as_str() {
            _ if void => format!("*const {fp}c_void"),
            "u8" => format!("*const {fp}c_uchar"),
            "u" => format!("*const {fp}c_ushort"),
            "U" => format!("*const {fp}c_uint"),
            _ => ptr_ty.clone(),
        };
        if ty.as_deref().map(sq) != Some(sq(&want_ty)) {
            return fail("type", format!("`{}` has type {ty:?}, not {want_ty}", b.join(" ")));
        }
        (g, want_ty)
    } else {
        cx.set_desc(format!("#define X() {} ({})", body.join(" "), c.show()));
        let out = match guard(|| cg::fn_gen::<String, String>("X", &[], &body, &c)) {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => return fail("refused", format!("`{text}` is refused: {e:?}")),
            Err(p) => return fail("panic", p),
        };
        match cg::split_fn("X", &out) {
            Ok(cg::FnOut::Func { ret, body, params }) if params.is_empty() => {
                if ret.as_deref().map(sq) != Some(sq(&ptr_ty)) {
                    return fail("type", format!("`{text}` returns {ret:?}, not {ptr_ty}"));
                }
                (body.to_string(), ptr_ty)
            }
            r => return fail("function", format!("`{text}` generates `{out}`: {r:?}")),
        }
    };
    // the array inside the block
    let decl = format!(":&{lt}[{el};{}]=", want.len());
    if !sq(&g).contains(&sq(&decl)) {
        return fail("lifetime", format!("`{text}` generates `{g}`, which has no constant of type {decl} ({})", c.show()));
    }
    match eval_const(&g, None) {
        Ok(CV::Ptr(Some(v), pt)) if same_units(&v) && (sq(&pt) == sq(&ty) || p != "") => Ok(()),
        r => fail("contents", format!("`{text}` has units {want:x?} but generates `{g}` ({ty}), {r:?}")),
    }
}
/// An integer-like or floating constant expression as tokens; every leaf is recorded as a span.
struct Gc {
    out: Vec<String>,
    leaves: Vec<(usize, usize)>,
}
impl Gc {
    fn ty(t: &mut Tape) -> Vec<String> {
        let i = t.below(TYPES.len() + 3);
        match TYPES.get(i) {
            Some(x) => x.0.iter().map(|s| s.to_string()).collect(),
            None => vec![t.pick_s(&["my_int", "wchar_t", "my_int"])],
        }
    }
    fn leaf(&mut self, t: &mut Tape, int: bool) {
        let a = self.out.len();
        match t.weighted(&[5, 2, 2, 2, if int { 0 } else { 2 }]) {
            0 => self.out.push(int_tok(t)),
            1 => self.out.push(if t.chance(1, 2) { "E_A".into() } else { "E_B".into() }),
            2 => {
                self.out.extend(["sizeof".into(), "(".into()]);
                self.out.extend(Self::ty(t));
                if t.chance(1, 4) {
                    self.out.push("*".into());
                }
                self.out.push(")".into());
            }
            3 => self.out.push(if let K::Chr(s, _) = chr_leaf(t) { s } else { "'a'".into() }),
            _ => match float_leaf(t) {
                K::Flt(s, ..) => self.out.push(s),
                _ => self.out.push("1.5".into()),
            },
        }
        self.leaves.push((a, self.out.len()));
    }
    /// `prec` is the least precedence the context allows without parentheses.
    fn expr(&mut self, t: &mut Tape, d: usize, prec: u8, int: bool) {
        if d == 0 || t.chance(1, 5) {
            return self.leaf(t, int);
        }
        let kind = t.weighted(&[6, 3, 4, 2, 1]);
        let (p, op) = match kind {
            0 => {
                let op = if int { *t.pick(&["*", "/", "%", "+", "-", "<<", ">>", "&", "^", "|"]) } else { *t.pick(&["*", "/", "+", "-"]) };
                (bin_prec(op), op)
            }
            3 => (3, "?"),
            _ => (15, ""),
        };
        let par = p < prec || t.chance(1, 8);
        if par {
            self.out.push("(".into());
        }
        match kind {
            0 => {
                self.expr(t, d - 1, p, int);
                self.out.push(op.into());
                self.expr(t, d - 1, p + 1, int);
            }
            1 => {
                let op = if int { t.pick_s(&["-", "+", "~", "!"]) } else { t.pick_s(&["-", "+"]) };
                self.out.push(op);
                self.expr(t, d - 1, 15, int);
            }
            2 => {
                self.out.push("(".into());
                if int {
                    let i = t.below(12);
                    self.out.extend(TYPES[i].0.iter().map(|s| s.to_string()));
                } else {
                    let ty = Self::ty(t);
                    self.out.extend(ty);
                }
                self.out.push(")".into());
                self.expr(t, d - 1, 15, false);
            }
            3 => {
                self.expr(t, d - 1, 9, false);
                self.out.push("?".into());
                self.expr(t, d - 1, 3, int);
                self.out.push(":".into());
                self.expr(t, d - 1, 4, int);
            }
            _ => {
                let op = t.pick_s(&["<", "<=", ">", ">=", "==", "!="]);
                self.out.push("(".into());
                self.expr(t, d - 1, 11, true);
                self.out.push(op);
                self.expr(t, d - 1, 11, true);
                self.out.push(")".into());
            }
        }
        if par {
            self.out.push(")".into());
        }
    }
}
/// What makes an expression not constant, by kind.
const INGREDIENTS: &[(&str, &[&str])] = &[
    ("undefined name", &["undef"]),
    ("undefined name", &["(", "undef", ")"]),
    ("call of known function", &["known_fn", "(", "1", ")"]),
    ("call of known function", &["known0", "(", ")"]),
    ("call of known function", &["(", "known0", ")", "(", ")"]),
    ("call of known function", &["known_fn", "(", "1", ",", "2", ")"]),
    ("call of known function", &["known2", "(", "1", ",", "E_A", ")"]),
    ("call of known function", &["known2", "(", "known0", "(", ")", ",", "2", ")"]),
    ("call of known function", &["(", "int", ")", "known_p", "(", "\"s\"", ")"]),
    ("dereference", &["*", "known_p", "(", "0", ")"]),
    ("call of unknown function", &["some_fn", "(", ")"]),
    ("call of unknown function", &["some_fn", "(", "1", ",", "2", ")"]),
    ("call of a variant", &["E_A", "(", "1", ")"]),
    ("dereference", &["(", "*", "(", "int", "*", ")", "0", ")"]),
    ("dereference", &["(", "*", "(", "int", "*", ")", "16", ")"]),
    ("dereference", &["(", "(", "int", "*", ")", "16", ")", "[", "2", "]"]),
    ("dereference", &["(", "*", "\"abc\"", ")"]),
    ("dereference", &["\"abc\"", "[", "1", "]"]),
    ("dereference", &["(", "(", "struct", "my_int", "*", ")", "16", ")", "->", "x"]),
    ("member of an undefined name", &["undef", ".", "x"]),
    ("member of an undefined name", &["undef", "->", "x"]),
    ("assignment", &["(", "undef", "=", "1", ")"]),
    ("assignment", &["(", "E_A", "=", "1", ")"]),
    ("assignment", &["(", "E_A", "+=", "1", ")"]),
    ("assignment", &["(", "5", "=", "1", ")"]),
    ("increment", &["undef", "++"]),
    ("increment", &["(", "++", "undef", ")"]),
    ("increment", &["E_A", "--"]),
    ("increment", &["(", "--", "E_A", ")"]),
    ("address of an undefined name", &["(", "&", "undef", ")"]),
    ("unknown type", &["sizeof", "(", "unknown_t", ")"]),
    ("unknown type", &["sizeof", "(", "undef", "*", ")"]),
    ("unknown type", &["(", "unknown_t", ")", "1"]),
    ("unknown type", &["(", "struct", "unknown_t", "*", ")", "0"]),
    ("sizeof of an expression", &["sizeof", "(", "undef", "+", "1", ")"]),
    ("expansion site", &["__LINE__"]),
    ("expansion site", &["__func__"]),
];
fn c09(t: &mut Tape, cx: &mut Cx) -> Res {
    let mut c = ctx();
    c.enums.insert("E_B".into(), ("c_uint".into(), "E_B".into()));
    c.fns.insert("known0".into(), (vec![], "c_int".into()));
    c.fns.insert("known2".into(), (vec!["c_int".into(), "c_long".into()], "c_int".into()));
    c.fns.insert("known_p".into(), (vec!["*const c_char".into()], "*const c_int".into()));
    let mut g = Gc { out: vec![], leaves: vec![] };
    let d = t.weighted(&[1, 2, 3, 2, 1]);
    let int = t.chance(1, 2);
    g.expr(t, d, 0, int);
    if t.chance(1, 2) {
        let text = g.out.join(" ");
        cx.set_desc(format!("#define X {text}"));
        cx.class("constant");
        cx.class(format!("depth {d}"));
        cx.nontrivial = g.leaves.len() > 1 || g.out.len() > 2;
        return match gen(&g.out, &c)? {
            Ok((v, ty)) => {
                if let Err(e) = syn::parse_str::<syn::Expr>(&v) {
                    return fail("malformed", format!("`{text}` generates `{v}`: {e}"));
                }
                if let Some(ty) = ty {
                    if let Err(e) = syn::parse_str::<syn::Type>(&ty) {
                        return fail("malformed", format!("`{text}` has type `{ty}`: {e}"));
                    }
                }
                Ok(())
            }
            Err(e) => fail("refused", format!("`{text}` is constant but is refused: {e:?}")),
        };
    }
    let mut body = g.out;
    let kind = if t.chance(1, 8) {
        // not an expression at all
        let (k, pre, post): (&str, &[&str], &[&str]) = *t.pick(&[
            ("empty", &[][..], &[][..]),
            ("statement", &[], &[";"]),
            ("statement", &["{"], &["}"]),
            ("statement", &["{"], &[";", "}"]),
            ("statement", &["int", "x", "="], &[";"]),
            ("statement", &["do", "{"], &[";", "}", "while", "(", "0", ")"]),
            ("statement", &["if", "("], &[")", "{", "}"]),
            ("statement", &["while", "("], &[")", ";"]),
            ("statement", &["return"], &[]),
            ("statement", &["return"], &[";"]),
            ("unbalanced", &["("], &[]),
            ("unbalanced", &[], &[")"]),
            ("incomplete", &[], &["+"]),
            ("type name", &["int"], &[]),
            ("comma", &["1", ","], &[]),
        ]);
        match k {
            "empty" => body = vec![],
            "type name" => body = t.pick(&[&["int"][..], &["unsigned", "long"], &["my_int"], &["const", "char", "*"], &["struct", "foo"]]).iter().map(|s| s.to_string()).collect(),
            _ => {
                let mut b: Vec<String> = pre.iter().map(|s| s.to_string()).collect();
                b.extend(body);
                b.extend(post.iter().map(|s| s.to_string()));
                body = b;
            }
        }
        k
    } else {
        let (a, b) = *t.pick(&g.leaves);
        let (k, ing) = *t.pick(INGREDIENTS);
        body.splice(a..b, ing.iter().map(|s| s.to_string()));
        k
    };
    let text = body.join(" ");
    cx.set_desc(format!("#define X {text}"));
    cx.class(kind);
    cx.nontrivial = true;
    match gen(&body, &c)? {
        Err(_) => Ok(()),
        Ok((v, _)) => fail("generated", format!("`{text}` is not constant ({kind}) but generates `{v}`")),
    }
}

pub fn props() -> Vec<Prop> {
    let p = |id, rule, case: CaseFn| Prop {
        id,
        rule,
        tape_len: 400,
        quick: 1_500_000,
        thorough: 20_000_000,
        case,
        enumerate: None,
        batch: None,
        assumptions: &[],
    };
    vec![
        p("C01", "the expression has at least one operator; where C gives it no value, an undefined operation is reached", c01),
        p("C02", "the expression has a value and at least one operator", c02),
        p("C05", "the string is not empty", c05),
        p("C07", "there are two casts or more, or a cast and another operator; or the cast is to a pointer or to void", c07),
        p("C09", "the expression has more than one operand or operator, or contains a non-constant ingredient", c09),
    ]
}
