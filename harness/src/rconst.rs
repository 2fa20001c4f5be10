//! Typed evaluation of generated Rust constants (the subset of Rust the generator may emit).
//! Mirrors rustc on x86-64 Linux: literal inference, overflow checks, `as` casts.
use quote::ToTokens;
use syn::Expr;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RTy {
    Int { bits: u32, signed: bool },
    F32,
    F64,
    Bool,
    Char,
}
#[derive(Debug, Clone, PartialEq)]
pub enum CV {
    /// An integer whose type is not yet inferred has no type.
    Int(i128, Option<RTy>),
    F(f64, Option<RTy>),
    Bool(bool),
    Char(char),
    /// Contents of a byte or integer array, with the element type as written.
    Arr(Vec<i128>, String),
    CStr(Vec<u8>),
    /// Null or non-null pointer with its type text.
    Ptr(Option<Vec<i128>>, String),
    SizeOf(String),
    Unit,
}
pub const I32: RTy = RTy::Int { bits: 32, signed: true };

/// The Rust type a (possibly prefixed) type name stands for.
pub fn rty(t: &str) -> Option<RTy> {
    let n = t.rsplit("::").next().unwrap().trim();
    let i = |bits, signed| Some(RTy::Int { bits, signed });
    match n {
        "c_char" | "c_schar" | "i8" => i(8, true),
        "c_uchar" | "u8" | "char8_t" => i(8, false),
        "c_short" | "i16" => i(16, true),
        "c_ushort" | "u16" | "char16_t" => i(16, false),
        "c_int" | "i32" | "wchar_t" => i(32, true),
        "c_uint" | "u32" | "char32_t" => i(32, false),
        "c_long" | "c_longlong" | "i64" | "isize" | "c_ssize_t" | "ssize_t" => i(64, true),
        "c_ulong" | "c_ulonglong" | "u64" | "usize" | "c_size_t" | "size_t" => i(64, false),
        "i128" => i(128, true),
        "u128" => i(128, false),
        "c_float" | "f32" => Some(RTy::F32),
        "c_double" | "f64" => Some(RTy::F64),
        "bool" => Some(RTy::Bool),
        "char" => Some(RTy::Char),
        _ => None,
    }
}
pub fn range(t: RTy) -> (i128, i128) {
    match t {
        RTy::Int { bits: 128, .. } => (i128::MIN, i128::MAX),
        RTy::Int { bits, signed: true } => (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1),
        RTy::Int { bits, signed: false } => (0, (1i128 << bits) - 1),
        _ => (0, 1),
    }
}
pub fn wrap(v: i128, t: RTy) -> i128 {
    match t {
        RTy::Int { bits: 128, .. } => v,
        RTy::Int { bits, signed } => {
            let m = v & ((1i128 << bits) - 1);
            if signed && m >> (bits - 1) & 1 == 1 {
                m - (1i128 << bits)
            } else {
                m
            }
        }
        _ => v,
    }
}
fn fits(v: i128, t: RTy) -> Result<(), String> {
    let (lo, hi) = range(t);
    if v < lo || v > hi {
        return Err(format!("overflow: {v} does not fit {t:?}"));
    }
    Ok(())
}
/// Fixes the type of an uninferred value.
pub fn coerce(v: CV, t: RTy) -> Result<CV, String> {
    match (v, t) {
        (CV::Int(v, None), RTy::Int { .. }) => {
            fits(v, t)?;
            Ok(CV::Int(v, Some(t)))
        }
        (CV::Int(v, Some(u)), RTy::Int { .. }) if u == t => Ok(CV::Int(v, Some(u))),
        (CV::F(f, None), RTy::F32) => Ok(CV::F(f as f32 as f64, Some(t))),
        (CV::F(f, None), RTy::F64) => Ok(CV::F(f, Some(t))),
        (CV::F(f, Some(u)), _) if u == t => Ok(CV::F(f, Some(t))),
        (CV::Bool(b), RTy::Bool) => Ok(CV::Bool(b)),
        (CV::Char(c), RTy::Char) => Ok(CV::Char(c)),
        (v, t) => Err(format!("mismatched types: {v:?} where {t:?} is expected")),
    }
}
pub fn tytext(t: &syn::Type) -> String {
    crate::cg::tn(&t.to_token_stream().to_string())
}
/// Parses a float literal token stream to the nearest f64 and the nearest f32.
fn lit(l: &syn::Lit, want: Option<RTy>) -> Result<CV, String> {
    Ok(match l {
        syn::Lit::Int(i) => {
            let v: i128 = i.base10_digits().parse().map_err(|_| format!("integer literal {i} out of range"))?;
            match i.suffix() {
                "" => match want {
                    Some(t @ RTy::Int { .. }) => coerce(CV::Int(v, None), t)?,
                    _ => CV::Int(v, None),
                },
                s => {
                    let t = rty(s).ok_or(format!("bad suffix {s}"))?;
                    match t {
                        RTy::Int { .. } => {
                            fits(v, t)?;
                            CV::Int(v, Some(t))
                        }
                        RTy::F32 => CV::F(v as f32 as f64, Some(t)),
                        RTy::F64 => CV::F(v as f64, Some(t)),
                        _ => return Err(format!("bad suffix {s}")),
                    }
                }
            }
        }
        syn::Lit::Float(f) => {
            let t = if f.suffix().is_empty() { want } else { rty(f.suffix()) };
            match t {
                Some(RTy::F32) => CV::F(f.base10_digits().parse::<f32>().map_err(|e| e.to_string())? as f64, Some(RTy::F32)),
                _ => CV::F(f.base10_digits().parse::<f64>().map_err(|e| e.to_string())?, if f.suffix().is_empty() { None } else { t }),
            }
        }
        syn::Lit::Char(c) => CV::Char(c.value()),
        syn::Lit::Byte(b) => CV::Int(b.value() as i128, rty("u8")),
        syn::Lit::Bool(b) => CV::Bool(b.value),
        syn::Lit::ByteStr(b) => CV::Arr(b.value().iter().map(|b| *b as i128).collect(), "u8".into()),
        syn::Lit::CStr(c) => CV::CStr(c.value().to_bytes_with_nul().to_vec()),
        l => return Err(format!("unexpected literal {}", l.to_token_stream())),
    })
}
pub fn cast(v: CV, to: &syn::Type) -> Result<CV, String> {
    let n = tytext(to);
    if n.starts_with('*') {
        return match v {
            CV::Int(0, _) => Ok(CV::Ptr(None, n)),
            CV::Ptr(p, _) => Ok(CV::Ptr(p, n)),
            v => Err(format!("cast of {v:?} to {n}")),
        };
    }
    let t = rty(&n).ok_or(format!("unknown type {n}"))?;
    Ok(match (v, t) {
        // the target of a cast is used as the hint for an uninferred integer literal
        (CV::Int(v, None), RTy::Int { .. }) => {
            fits(v, t)?;
            CV::Int(v, Some(t))
        }
        (CV::Int(v, None), RTy::F32) => {
            fits(v, I32)?;
            CV::F(v as f32 as f64, Some(t))
        }
        (CV::Int(v, None), RTy::F64) => {
            fits(v, I32)?;
            CV::F(v as f64, Some(t))
        }
        (CV::Int(v, Some(_)), RTy::Int { .. }) => CV::Int(wrap(v, t), Some(t)),
        (CV::Int(v, Some(_)), RTy::F32) => CV::F(v as f32 as f64, Some(t)),
        (CV::Int(v, Some(_)), RTy::F64) => CV::F(v as f64, Some(t)),
        (CV::Int(v, Some(u)), RTy::Char) if Some(u) == rty("u8") => CV::Char(v as u8 as char),
        (CV::F(f, _), RTy::Int { .. }) => {
            let (lo, hi) = range(t);
            CV::Int(if f.is_nan() { 0 } else { (f.trunc() as i128).clamp(lo, hi) }, Some(t))
        }
        (CV::F(f, None), RTy::F32) => CV::F(f as f32 as f64, Some(t)),
        (CV::F(f, _), RTy::F32) => CV::F(f as f32 as f64, Some(t)),
        (CV::F(f, _), RTy::F64) => CV::F(f, Some(t)),
        (CV::Bool(b), RTy::Int { .. }) => CV::Int(b as i128, Some(t)),
        (CV::Bool(b), RTy::Bool) => CV::Bool(b),
        (CV::Char(c), RTy::Int { .. }) => CV::Int(wrap(c as i128, t), Some(t)),
        (CV::Char(c), RTy::Char) => CV::Char(c),
        (CV::SizeOf(s), RTy::Int { .. }) => CV::SizeOf(s),
        (v, t) => return Err(format!("invalid cast of {v:?} as {t:?}")),
    })
}
fn unify(a: CV, b: CV) -> Result<(CV, CV, Option<RTy>), String> {
    let ty = |v: &CV| match v {
        CV::Int(_, t) | CV::F(_, t) => *t,
        CV::Bool(_) => Some(RTy::Bool),
        _ => None,
    };
    match (ty(&a), ty(&b)) {
        (Some(t), _) => Ok((a, coerce(b, t)?, Some(t))),
        (None, Some(t)) => Ok((coerce(a, t)?, b, Some(t))),
        (None, None) => match (&a, &b) {
            (CV::Int(..), CV::Int(..)) | (CV::F(..), CV::F(..)) => Ok((a, b, None)),
            _ => Err(format!("mismatched types {a:?} and {b:?}")),
        },
    }
}
fn int(v: Option<i128>, t: Option<RTy>) -> Result<CV, String> {
    let v = v.ok_or("overflow")?;
    fits(v, t.unwrap_or(RTy::Int { bits: 128, signed: true }))?;
    Ok(CV::Int(v, t))
}
fn binary(op: &syn::BinOp, a: CV, b: CV) -> Result<CV, String> {
    use syn::BinOp::*;
    if matches!(op, Shl(_) | Shr(_)) {
        let (CV::Int(x, t), CV::Int(n, _)) = (&a, &b) else { return Err("shift of non-integers".into()) };
        let bits = match t {
            Some(RTy::Int { bits, .. }) => *bits,
            _ => 32,
        };
        if *n < 0 || *n >= bits as i128 {
            return Err("overflowing shift".into());
        }
        let tt = t.unwrap_or(I32);
        return Ok(CV::Int(if matches!(op, Shl(_)) { wrap(x << n, tt) } else { x >> n }, *t));
    }
    let (a, b, t) = unify(a, b)?;
    if let (None, CV::Int(x, _), CV::Int(y, _), Lt(_) | Le(_) | Gt(_) | Ge(_) | Eq(_) | Ne(_)) = (t, &a, &b, op) {
        fits(*x, I32)?;
        fits(*y, I32)?;
    }
    Ok(match (a, b) {
        (CV::Int(x, _), CV::Int(y, _)) => match op {
            Add(_) => int(x.checked_add(y), t)?,
            Sub(_) => int(x.checked_sub(y), t)?,
            Mul(_) => int(x.checked_mul(y), t)?,
            Div(_) => int(x.checked_div(y), t)?,
            Rem(_) => int(x.checked_rem(y), t)?,
            BitAnd(_) => CV::Int(x & y, t),
            BitOr(_) => CV::Int(x | y, t),
            BitXor(_) => CV::Int(x ^ y, t),
            Lt(_) => CV::Bool(x < y),
            Le(_) => CV::Bool(x <= y),
            Gt(_) => CV::Bool(x > y),
            Ge(_) => CV::Bool(x >= y),
            Eq(_) => CV::Bool(x == y),
            Ne(_) => CV::Bool(x != y),
            _ => return Err("operator".into()),
        },
        (CV::F(x, _), CV::F(y, _)) => {
            let r = |v: f64| CV::F(if t == Some(RTy::F32) { v as f32 as f64 } else { v }, t);
            match op {
                Add(_) => r(x + y),
                Sub(_) => r(x - y),
                Mul(_) => r(x * y),
                Div(_) => r(x / y),
                Rem(_) => r(x % y),
                Lt(_) => CV::Bool(x < y),
                Le(_) => CV::Bool(x <= y),
                Gt(_) => CV::Bool(x > y),
                Ge(_) => CV::Bool(x >= y),
                Eq(_) => CV::Bool(x == y),
                Ne(_) => CV::Bool(x != y),
                _ => return Err("float operator".into()),
            }
        }
        (CV::Bool(x), CV::Bool(y)) => match op {
            BitAnd(_) | And(_) => CV::Bool(x & y),
            BitOr(_) | Or(_) => CV::Bool(x | y),
            BitXor(_) | Ne(_) => CV::Bool(x ^ y),
            Eq(_) => CV::Bool(x == y),
            _ => return Err("bool operator".into()),
        },
        (a, b) => return Err(format!("operands {a:?}, {b:?}")),
    })
}
fn last(p: &syn::Path) -> String {
    p.segments.last().unwrap().ident.to_string()
}
pub fn eval(e: &Expr, want: Option<RTy>) -> Result<CV, String> {
    match e {
        Expr::Lit(l) => lit(&l.lit, want),
        Expr::Paren(p) => eval(&p.expr, want),
        Expr::Group(p) => eval(&p.expr, want),
        Expr::Unary(u) => {
            match u.op {
                syn::UnOp::Neg(_) => match neg_operand(&u.expr, want)? {
                    CV::Int(_, Some(RTy::Int { signed: false, .. })) => Err("negation of an unsigned integer".into()),
                    CV::Int(v, t) => int(Some(-v), t),
                    CV::F(f, t) => Ok(CV::F(-f, t)),
                    v => Err(format!("negation of {v:?}")),
                },
                syn::UnOp::Not(_) => match eval(&u.expr, want)? {
                    CV::Bool(b) => Ok(CV::Bool(!b)),
                    CV::Int(v, t) => Ok(CV::Int(t.map_or(!v, |t| wrap(!v, t)), t)),
                    v => Err(format!("not of {v:?}")),
                },
                _ => Err("dereference".into()),
            }
        }
        Expr::Binary(b) => {
            use syn::BinOp::*;
            let w = if matches!(b.op, Lt(_) | Le(_) | Gt(_) | Ge(_) | Eq(_) | Ne(_)) { None } else { want };
            // operand types are inferred from one another
            let l0 = eval(&b.left, w)?;
            let ty = |v: &CV| match v {
                CV::Int(_, t) | CV::F(_, t) => *t,
                _ => None,
            };
            let shift = matches!(b.op, Shl(_) | Shr(_));
            let r = eval(&b.right, if shift { None } else { ty(&l0).or(w) })?;
            let l = if ty(&l0).is_none() && !shift { eval(&b.left, ty(&r).or(w))? } else { l0 };
            binary(&b.op, l, r)
        }
        Expr::Cast(c) => {
            let n = tytext(&c.ty);
            // an untyped float literal in a cast takes the target type if that is a float
            let w = match rty(&n) {
                t @ Some(RTy::F32 | RTy::F64) => t,
                _ => None,
            };
            let inner = match eval(&c.expr, w)? {
                // so does an untyped integer literal
                CV::Int(_, None) if matches!(rty(&n), Some(RTy::Int { .. })) => eval(&c.expr, rty(&n))?,
                v => v,
            };
            cast(inner, &c.ty)
        }
        Expr::If(i) => {
            let CV::Bool(c) = eval(&i.cond, Some(RTy::Bool))? else { return Err("condition is not bool".into()) };
            let els = i.else_branch.as_ref().ok_or("if without else")?;
            if c {
                block(&i.then_branch, want)
            } else {
                eval(&els.1, want)
            }
        }
        Expr::Block(b) => block(&b.block, want),
        Expr::Unsafe(u) => block(&u.block, want),
        Expr::Path(p) => {
            let n = crate::cg::tn(&p.to_token_stream().to_string());
            for (k, t) in [("f32", RTy::F32), ("f64", RTy::F64)] {
                for (c, v) in [("INFINITY", f64::INFINITY), ("NEG_INFINITY", f64::NEG_INFINITY), ("NAN", f64::NAN)] {
                    if n == format!("{k}::{c}") || n.ends_with(&format!("::{k}::{c}")) {
                        return Ok(CV::F(v, Some(t)));
                    }
                }
            }
            Err(format!("unknown name {n}"))
        }
        Expr::Call(c) => {
            let n = crate::cg::tn(&c.func.to_token_stream().to_string());
            if n.ends_with("from_bytes_with_nul_unchecked") || n.ends_with("from_bytes_with_nul_unchecked_") {
                if let Some(CV::Arr(v, _)) = c.args.first().map(|a| eval(a, None)).transpose()? {
                    let b: Vec<u8> = v.iter().map(|b| *b as u8).collect();
                    return std::ffi::CStr::from_bytes_with_nul(&b).map(|c| CV::CStr(c.to_bytes_with_nul().to_vec())).map_err(|e| e.to_string());
                }
            }
            if let Expr::Path(p) = &*c.func {
                let l = last(&p.path);
                if c.args.is_empty() && (l == "null" || l == "null_mut") {
                    return Ok(CV::Ptr(None, l));
                }
                if c.args.is_empty() && l == "size_of" {
                    if let syn::PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                        return Ok(CV::SizeOf(crate::cg::tn(&a.args.to_token_stream().to_string())));
                    }
                }
            }
            Err(format!("call of {n}"))
        }
        Expr::Reference(r) => eval(&r.expr, want),
        Expr::Array(a) => {
            let mut v = vec![];
            let mut ty = String::new();
            for (i, x) in a.elems.iter().enumerate() {
                let t = match strip(x) {
                    Expr::Cast(c) => tytext(&c.ty),
                    Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(l), .. }) => l.suffix().to_string(),
                    _ => String::new(),
                };
                if i == 0 {
                    ty = t;
                } else if ty != t {
                    return Err(format!("array elements of types {ty} and {t}"));
                }
                match eval(x, None)? {
                    CV::Int(n, _) => v.push(n),
                    x => return Err(format!("array element {x:?}")),
                }
            }
            Ok(CV::Arr(v, ty))
        }
        e => Err(format!("unexpected expression {}", e.to_token_stream())),
    }
}
/// The operand of a minus sign; a literal may be one above the maximum of its type.
fn neg_operand(e: &Expr, want: Option<RTy>) -> Result<CV, String> {
    if let Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) = strip(e) {
        let t = if i.suffix().is_empty() { want } else { rty(i.suffix()) };
        if let (Some(t @ RTy::Int { signed: true, .. }), Ok(v)) = (t, i.base10_digits().parse::<i128>()) {
            if v == range(t).1.wrapping_add(1) {
                return Ok(CV::Int(v, Some(t)));
            }
        }
    }
    eval(e, want)
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e,
    }
}
fn block(b: &syn::Block, want: Option<RTy>) -> Result<CV, String> {
    match &b.stmts[..] {
        [syn::Stmt::Expr(e, None)] => eval(e, want),
        // { const NAME: &[T; N] = LIT; NAME.as_ptr() [as TY] }
        [syn::Stmt::Item(syn::Item::Const(c)), syn::Stmt::Expr(e, None)] => {
            let t = tytext(&c.ty);
            let v = eval(&c.expr, None)?;
            let CV::Arr(a, el) = v else { return Err("constant is not an array".into()) };
            check_array_ty(&t, &a, &el)?;
            let (call, ty) = match e {
                Expr::Cast(c) => (&*c.expr, Some(tytext(&c.ty))),
                e => (e, None),
            };
            if crate::cg::tn(&call.to_token_stream().to_string()) != format!("{}.as_ptr()", c.ident) {
                return Err(format!("unexpected block tail {}", e.to_token_stream()));
            }
            Ok(CV::Ptr(Some(a), ty.unwrap_or(format!("*const {el}"))))
        }
        _ => Err(format!("unexpected block {}", b.to_token_stream())),
    }
}
/// `&[T; N]` or `&'static [T; N]` must describe the array.
pub fn check_array_ty(t: &str, a: &[i128], el: &str) -> Result<(), String> {
    let r = t.strip_prefix("&").ok_or(format!("not a reference type {t}"))?;
    let r = r.strip_prefix("'static").unwrap_or(r).trim();
    let r = r.strip_prefix('[').and_then(|r| r.strip_suffix(']')).ok_or(format!("not an array type {t}"))?;
    let (e, n) = r.rsplit_once(';').ok_or(format!("not an array type {t}"))?;
    if e.trim() != el {
        return Err(format!("array of {el} has type {t}"));
    }
    if n.trim() != a.len().to_string() {
        return Err(format!("array of {} elements has type {t}", a.len()));
    }
    Ok(())
}
/// Evaluates the output for a variable-like macro at its reported type, as `const X: TY = VALUE`.
pub fn eval_const(value: &str, ty: Option<&str>) -> Result<CV, String> {
    let e: Expr = syn::parse_str(value).map_err(|e| format!("value does not parse: {e}"))?;
    let Some(t) = ty else { return eval(&e, None) };
    let ty: syn::Type = syn::parse_str(t).map_err(|e| format!("type does not parse: {e}"))?;
    let n = tytext(&ty);
    let r = rty(&n);
    let v = eval(&e, r)?;
    match r {
        Some(r) if !matches!(v, CV::SizeOf(_)) => coerce(v, r),
        _ => Ok(v),
    }
}
