//! What was generated, compiled by rustc, against the macro compiled by gcc.
use super::consts::{self, bin_prec, CT, K, TYPES};
use super::lits;
use crate::cg::{self, Ctx, GErr};
use crate::engine::*;
use crate::lib_if::{build, show_defs, Def};
use crate::cexpr::{CEval, E, S};
use crate::mach::{Machine, Step, V};
use std::collections::BTreeSet;
use crate::native::{self, Item, IDX};
use super::exprs::{self, Ty};
use cmacro::{CodegenError, VarMacro};

/// Moves parenthesised parts of an expression to macros of their own.
struct Ex<'a, 'b> {
    t: &'a mut Tape<'b>,
    defs: Vec<Def>,
}
impl Ex<'_, '_> {
    fn sub(&mut self, k: &K, p: u8, out: &mut Vec<String>) {
        if k.prec() < p {
            self.put(&K::Par(Box::new(k.clone())), out);
        } else {
            self.put(k, out);
        }
    }
    fn put(&mut self, k: &K, out: &mut Vec<String>) {
        match k {
            K::Int(s, ..) | K::Flt(s, ..) | K::Chr(s, _) => {
                if self.t.chance(1, 8) {
                    let n = self.name();
                    self.defs.push(Def::obj(&n, &[s.clone()]));
                    out.push(n);
                } else {
                    out.push(s.clone())
                }
            }
            K::Par(k) => {
                let mut v = vec!["(".to_string()];
                match self.t.weighted(&[3, 1, 2]) {
                    0 => {
                        self.put(k, &mut v);
                        v.push(")".into());
                        out.extend(v);
                    }
                    1 => {
                        self.put(k, &mut v);
                        v.push(")".into());
                        let n = self.name();
                        self.defs.push(Def::obj(&n, &v));
                        out.push(n);
                    }
                    _ => {
                        // operands become arguments
                        let (mut args, mut params) = (vec![], vec![]);
                        let body = self.arg(k, &mut params, &mut args, 0);
                        v.extend(body);
                        v.push(")".into());
                        let n = self.name();
                        self.defs.push(Def::func(&n, &params, &v));
                        out.push(n);
                        out.push("(".into());
                        for (i, a) in args.into_iter().enumerate() {
                            if i > 0 {
                                out.push(",".into());
                            }
                            out.extend(a);
                        }
                        out.push(")".into());
                    }
                }
            }
            K::Cast(i, k) => {
                out.push("(".into());
                out.extend(TYPES[*i].0.iter().map(|s| s.to_string()));
                out.push(")".into());
                self.sub(k, 15, out);
            }
            K::Un(op, k) => {
                out.push(op.to_string());
                self.sub(k, 15, out);
            }
            K::Bin(op, a, b) => {
                self.sub(a, bin_prec(op), out);
                out.push(op.to_string());
                self.sub(b, bin_prec(op) + 1, out);
            }
            K::Tern(c, a, b) => {
                self.sub(c, 2, out);
                out.push("?".into());
                self.sub(a, 1, out);
                out.push(":".into());
                self.sub(b, 1, out);
            }
        }
    }
    /// The body of a function-like macro: some operands are replaced by parameters.
    fn arg(&mut self, k: &K, params: &mut Vec<String>, args: &mut Vec<Vec<String>>, min: u8) -> Vec<String> {
        if params.len() < 3 && self.t.chance(1, 3) {
            let mut v = vec![];
            self.put(k, &mut v);
            let p = ["x", "y", "type"][params.len()].to_string();
            params.push(p.clone());
            args.push(v);
            // the parameter is used in place of the operand
            return if k.prec() == 20 && self.t.chance(1, 2) { vec![p] } else { vec!["(".into(), p, ")".into()] };
        }
        let wrap = k.prec() < min;
        let mut v = vec![];
        if wrap {
            v.push("(".to_string());
        }
        match k {
            K::Bin(op, a, b) => {
                v.extend(self.arg(a, params, args, bin_prec(op)));
                v.push(op.to_string());
                v.extend(self.arg(b, params, args, bin_prec(op) + 1));
            }
            K::Un(op, a) => {
                v.push(op.to_string());
                v.extend(self.arg(a, params, args, 15));
            }
            K::Tern(c, a, b) => {
                v.extend(self.arg(c, params, args, 2));
                v.push("?".into());
                v.extend(self.arg(a, params, args, 1));
                v.push(":".into());
                v.extend(self.arg(b, params, args, 1));
            }
            k => self.put(k, &mut v),
        }
        if wrap {
            v.push(")".to_string());
        }
        v
    }
    fn name(&mut self) -> String {
        let n = self.defs.len();
        format!("{}{n}", ["A", "NAME_", "m"][n % 3])
    }
}
fn undef(defs: &[Def]) -> String {
    defs.iter().map(|d| format!("#undef {}\n", d.name)).collect()
}
fn define(defs: &[Def]) -> String {
    defs.iter().map(|d| d.show() + "\n").collect()
}
fn constant(defs: &[Def], c: &Ctx) -> Result<Result<(String, Option<String>), GErr>, Fail> {
    let r = guard(|| {
        let m = build(defs);
        let t = m.expand_var_macro("X").map_err(GErr::Expand)?;
        let mut v = VarMacro::parse("X", &t).map_err(GErr::Parse)?;
        let (a, b) = v.generate(c).map_err(GErr::Gen)?;
        Ok((a.to_string(), b.map(|b| b.to_string())))
    });
    match r {
        Ok(r) => Ok(r),
        Err(p) => fail("panic", format!("{} panics: {p}", show_defs(defs))),
    }
}
fn shuffle(t: &mut Tape, defs: &mut [Def]) {
    for i in (1..defs.len()).rev() {
        let j = t.below(i + 1);
        defs.swap(i, j);
    }
}
fn prep17(t: &mut Tape, cx: &mut Cx) -> Result<Option<Item>, Fail> {
    if t.chance(1, 6) {
        return string(t, cx);
    }
    if t.chance(1, 16) {
        return limits(t, cx);
    }
    if t.chance(1, 8) {
        return mixed_constant(t, cx);
    }
    let (k, ct) = match consts::valued(t) {
        Ok(k) => k,
        Err(w) => {
            cx.discard(w)?;
            return Ok(None);
        }
    };
    let mut long = false;
    k.each(&mut |k| long |= matches!(k, K::Flt(s, ..) if s.ends_with(['l', 'L'])));
    if long {
        cx.discard("long double")?;
        return Ok(None);
    }
    let mut ex = Ex { t, defs: vec![] };
    let mut body = vec![];
    ex.put(&k, &mut body);
    let Ex { t, mut defs } = ex;
    defs.push(Def::obj("X", &body));
    shuffle(t, &mut defs);
    let show = show_defs(&defs);
    cx.set_desc(show.clone());
    cx.class(format!("macros {}", defs.len().min(6)));
    cx.class(format!("type {}", consts::rname(ct)));
    cx.nontrivial = k.ops() > 0 || defs.len() > 1;
    let (g, ty) = match constant(&defs, &consts::ctx())? {
        Ok(x) => x,
        Err(e) => return fail("refused", format!("{show} is refused: {e:?}")),
    };
    let tn = match (&ty, ct) {
        (Some(t), _) => t.clone(),
        (None, CT::I(..)) => consts::rname(ct).to_string(),
        _ => return fail("type", format!("{show} has no type, C has {}", consts::rname(ct))),
    };
    Ok(Some(Item {
        c_top: define(&defs),
        c_run: "SHOW(X);".into(),
        c_end: undef(&defs),
        rs_top: format!("pub const X: {tn} = {g};"),
        rs_run: "X.s();".into(),
        generated: format!("const X: {tn} = {g}"),
        show,
    }))
}
/// Expressions of the predefined maxima.
fn limits(t: &mut Tape, cx: &mut Cx) -> Result<Option<Item>, Fail> {
    let (name, bits, suffix) = *t.pick(&[
        ("__SCHAR_MAX__", 8u32, ""),
        ("__SHRT_MAX__", 16, ""),
        ("__INT_MAX__", 32, "u"),
        ("__LONG_MAX__", 64, "ul"),
        ("__LONG_LONG_MAX__", 64, "ull"),
    ]);
    let max = (1i128 << (bits - 1)) - 1;
    let umax = 2 * max + 1;
    // Products and sums with a literal are unsigned; others are not.
    let k = t.below(max.min(1000) as usize) as i128;
    let u = if suffix.is_empty() || t.chance(1, 2) { suffix.to_string() } else { suffix.to_uppercase() };
    let x = name.to_string();
    let parts: Vec<String> = match t.below(13) {
        0 => vec![x],
        1 => vec![x, "*".into(), format!("2{u}"), "+".into(), format!("1{u}")],
        2 => vec![format!("2{u}"), "*".into(), x, "+".into(), "1".into()],
        3 => vec!["1".into(), "+".into(), x, "*".into(), format!("2{u}")],
        4 => vec!["-".into(), x, "-".into(), "1".into()],
        5 => vec![x, t.pick_s(&["-", "/", "%", "&", "|", "^"]), format!("{}", k + 1)],
        6 => vec![x, ">>".into(), format!("{}", t.below(bits as usize - 1))],
        7 => vec!["~".into(), x],
        8 => vec![x, "+".into(), format!("{}{u}", k.min(umax - max))],
        9 => vec![format!("{}{u}", k.min(umax - max)), "+".into(), x],
        10 => vec![x.clone(), t.pick_s(&["-", "/", "%", "&", "|", "^"]), x],
        11 => vec!["-".into(), x, t.pick_s(&["+", "/", "%"]), format!("{}", k + 1)],
        _ => vec!["(".into(), x, t.pick_s(&["-", "/", "&"]), format!("{}", k + 1), ")".into(), t.pick_s(&["-", "/", "|", "&"]), format!("{}", k + 1)],
    };
    let mut defs = vec![];
    let mut body = vec![];
    for p in &parts {
        if t.chance(1, 5) && p.len() > 1 {
            let n = format!("S{}", defs.len());
            if t.chance(1, 2) {
                defs.push(Def::obj(&n, &[p.clone()]));
                body.push(n);
            } else {
                defs.push(Def::func(&n, &["x".into()], &["x".into()]));
                body.extend([n, "(".into(), p.clone(), ")".into()]);
            }
        } else {
            body.push(p.clone());
        }
    }
    if t.chance(1, 3) {
        body.insert(0, "(".into());
        body.push(")".into());
    }
    defs.push(Def::obj("X", &body));
    shuffle(t, &mut defs);
    let show = show_defs(&defs);
    cx.set_desc(show.clone());
    cx.class("maximum".to_string());
    cx.nontrivial = parts.len() > 1;
    let (g, ty) = match constant(&defs, &consts::ctx())? {
        Ok(x) => x,
        Err(e) => return fail("refused", format!("{show} is refused: {e:?}")),
    };
    let Some(tn) = ty else { return fail("type", format!("{show} has no type")) };
    Ok(Some(Item {
        c_top: define(&defs),
        c_run: "SHOW(X);".into(),
        c_end: undef(&defs),
        rs_top: format!("pub const X: {tn} = {g};"),
        rs_run: "X.s();".into(),
        generated: format!("const X: {tn} = {g}"),
        show,
    }))
}
/// Expressions of mixed arithmetic types, all of which are converted to the floating-point ones.
struct Fl {
    /// Parameter, argument, C type, value.
    params: Vec<(String, &'static str, String)>,
    /// Variables are allowed.
    vars: bool,
    /// Types are known.
    known: bool,
    fns: bool,
}
impl Fl {
    fn s(x: &str) -> Vec<String> {
        x.split(' ').map(String::from).collect()
    }
    fn var(&mut self, t: &mut Tape, ty: &'static str) -> String {
        let same: Vec<String> = self.params.iter().filter(|p| p.1 == ty).map(|p| p.0.clone()).collect();
        if !same.is_empty() && t.chance(1, 2) {
            return t.pick(&same).clone();
        }
        let v = match ty {
            "float" | "double" => format!("{}.{}", t.below(30) as i64 - 9, t.below(100)),
            "unsigned" => t.below(30).to_string(),
            _ => (t.below(30) as i64 - 9).to_string(),
        };
        let n = format!("{}{}", t.pick_s(&["x", "y", "lo", "t", "val"]), self.params.len());
        self.params.push((n.clone(), ty, v));
        n
    }
    fn par(v: Vec<String>) -> Vec<String> {
        [vec!["(".into()], v, vec![")".into()]].concat()
    }
    fn dbl_lit(t: &mut Tape) -> String {
        format!("{}.{}", t.below(12), t.below(100))
    }
    fn cond(&mut self, t: &mut Tape, d: usize, value: bool) -> Vec<String> {
        let op = t.pick_s(&["<", ">", "<=", ">=", "==", "!="]);
        if !self.known && self.vars {
            let a = self.float(t, d, true).0;
            let b = self.float(t, 0, true).0;
            return [Self::par(a), vec![op], b].concat();
        }
        match t.weighted(&[3, 3, 1, if value { 0 } else { 1 }]) {
            0 => {
                let (a, b) = (self.float(t, d, false).0, self.num(t, d));
                if t.chance(1, 2) {
                    [a, vec![op], b].concat()
                } else {
                    [b, vec![op], a].concat()
                }
            }
            1 => vec![t.below(4).to_string(), op, t.below(4).to_string()],
            2 => [vec!["!".to_string()], Self::par(self.float(t, d, false).0)].concat(),
            _ => Self::par(self.float(t, d, false).0),
        }
    }
    /// An expression of an integer type, between -100 and 100.
    fn int(&mut self, t: &mut Tape, d: usize) -> Vec<String> {
        let k = t.below(12);
        match t.weighted(&[4, 2, 2, if d > 0 { 2 } else { 0 }, if self.vars { 4 } else { 0 }, 1]) {
            0 => vec![k.to_string()],
            1 => {
                let ty = t.pick_s(&["int", "long", "short", "unsigned", "signed char", "unsigned long", "long long"]);
                Self::s(&format!("( {ty} ) {k}"))
            }
            2 => Self::par(self.cond(t, d.saturating_sub(1), true)),
            3 => {
                let c = self.cond(t, d - 1, false);
                // The branches are literals of the same kind.
                let (a, b) = if t.chance(1, 2) { (k.to_string(), t.below(9).to_string()) } else { (format!("( int ) {k}"), format!("( int ) {}", t.below(9))) };
                [Self::s("("), Self::par(c), Self::s(&format!("? {a} : {b} )"))].concat()
            }
            4 => {
                let ty = *t.pick(&["int", "int", "long", "unsigned"]);
                vec![self.var(t, ty)]
            }
            _ => Self::s(&format!("( {k} {} {} )", t.pick_s(&["+", "-", "*"]), t.below(9))),
        }
    }
    fn num(&mut self, t: &mut Tape, d: usize) -> Vec<String> {
        if t.chance(1, 2) {
            self.int(t, d)
        } else {
            let x = self.float(t, d.saturating_sub(1), false).0;
            Self::par(x)
        }
    }
    /// An expression, and whether it is a double. With `dbl`, only doubles occur.
    fn float(&mut self, t: &mut Tape, d: usize, dbl: bool) -> (Vec<String>, bool) {
        let dbl = dbl || !self.known && self.vars;
        if d == 0 || t.chance(1, 6) {
            let v = self.vars && t.chance(1, 2);
            return match t.weighted(&[4, if dbl { 0 } else { 2 }, if dbl || v { 0 } else { 2 }]) {
                0 if v => (vec![self.var(t, "double")], true),
                0 => (vec![Self::dbl_lit(t)], true),
                1 if v => (vec![self.var(t, "float")], false),
                1 => (vec![format!("{}f", Self::dbl_lit(t))], false),
                _ => {
                    let k = t.chance(1, 2);
                    let x = self.int(t, 0);
                    ([Self::s(if k { "( double )" } else { "( float )" }), x].concat(), k)
                }
            };
        }
        let op = t.pick_s(&["+", "-", "*", "*", "+"]);
        match t.weighted(&[5, if dbl { 0 } else { 5 }, 2, 3, if dbl { 0 } else { 2 }, 1, if dbl { 0 } else { 1 }, if self.fns { 2 } else { 0 }]) {
            0 => {
                let ((a, x), (b, y)) = (self.float(t, d - 1, dbl), self.float(t, d - 1, dbl));
                let (a, b) = (Self::par(a), if b.len() > 1 { Self::par(b) } else { b });
                ([a, vec![op], b].concat(), x || y)
            }
            1 => {
                let (f, k) = self.float(t, d - 1, dbl);
                let (f, i) = (if f.len() > 1 { Self::par(f) } else { f }, self.int(t, d - 1));
                if t.chance(1, 2) {
                    ([f, vec![op], i].concat(), k)
                } else {
                    ([i, vec![op], f].concat(), k)
                }
            }
            2 => {
                let (f, k) = self.float(t, d - 1, dbl);
                let v = if dbl { format!("{}.5", t.below(9)) } else { t.pick_s(&["2", "4", "3.5", "7", "0.1"]) };
                let double = k || v.contains('.');
                ([Self::par(f), vec!["/".into(), v]].concat(), double)
            }
            3 => {
                let c = self.cond(t, d - 1, false);
                let (a, x) = self.float(t, d - 1, dbl);
                let (b, y) = if !dbl && t.chance(1, 2) { (self.int(t, d - 1), false) } else { self.float(t, d - 1, dbl) };
                let (a, b, c) = (Self::par(a), Self::par(b), Self::par(c));
                let (a, b) = if t.chance(1, 2) { (a, b) } else { (b, a) };
                (Self::par([c, Self::s("?"), a, Self::s(":"), b].concat()), x || y)
            }
            4 => {
                let k = t.chance(1, 2);
                let x = self.num(t, d - 1);
                ([Self::s(if k { "( double )" } else { "( float )" }), Self::par(x)].concat(), k)
            }
            5 => {
                let (f, k) = self.float(t, d - 1, dbl);
                ([Self::s("-"), Self::par(f)].concat(), k)
            }
            6 => (Self::s("1.1f"), false),
            _ => {
                let x = if dbl { self.float(t, d - 1, true).0 } else { self.num(t, d - 1) };
                ([Self::s("fd ("), x, Self::s(")")].concat(), true)
            }
        }
    }
}
fn mixed_constant(t: &mut Tape, cx: &mut Cx) -> Result<Option<Item>, Fail> {
    let mut g = Fl { params: vec![], vars: false, known: true, fns: false };
    let d = 1 + t.below(3);
    let body = g.float(t, d, false).0;
    let mut defs = vec![Def::obj("X", &body)];
    if t.chance(1, 3) {
        defs = vec![Def::func("Y", &["x".into()], &["x".into()]), Def::obj("Z", &body), Def::obj("X", &Fl::s("Y ( Z )"))];
    }
    shuffle(t, &mut defs);
    let show = show_defs(&defs);
    cx.set_desc(show.clone());
    cx.class("mixed floating-point");
    cx.nontrivial = body.len() > 2;
    let (g, ty) = match constant(&defs, &consts::ctx())? {
        Ok(x) => x,
        Err(e) => return fail("refused", format!("{show} is refused: {e:?}")),
    };
    let Some(tn) = ty else { return fail("type", format!("{show} has no type")) };
    Ok(Some(Item {
        c_top: define(&defs),
        c_run: "SHOW(X);".into(),
        c_end: undef(&defs),
        rs_top: format!("pub const X: {tn} = {g};"),
        rs_run: "X.s();".into(),
        generated: format!("const X: {tn} = {g}"),
        show,
    }))
}
fn mixed_function(t: &mut Tape, cx: &mut Cx) -> Result<Option<Item>, Fail> {
    let known = t.chance(3, 4);
    let mut g = Fl { params: vec![], vars: true, known, fns: t.chance(1, 2) };
    let d = 1 + t.below(3);
    let form = t.below(5);
    let (e, double) = g.float(t, d, false);
    let ty = if double { "double" } else { "float" };
    let k = t.below(9);
    let (body, out): (Vec<String>, bool) = match form {
        0 => {
            let r = g.var(t, ty);
            let op = t.pick_s(&["=", "+=", "-=", "*="]);
            ([Fl::s(&format!("{{ {r} {op}")), e, Fl::s("; }")].concat(), true)
        }
        1 => {
            let r = g.var(t, ty);
            let init = if known && t.chance(1, 2) { g.int(t, 1) } else { g.float(t, 1, !double).0 };
            // A double is not converted to a float.
            let init = if double { init } else { Fl::s(&format!("{k}")) };
            ([Fl::s(&format!("{{ {ty} l =")), init, Fl::s(&format!("; {r} = l *")), Fl::par(e), Fl::s("; }")].concat(), true)
        }
        2 if known => {
            let r = g.var(t, ty);
            let op = t.pick_s(&["++", "--"]);
            ([Fl::s(&format!("{{ {r} {op} ; {r} += {k} ; {r} *=")), e, Fl::s("; }")].concat(), true)
        }
        3 => (g.cond(t, d, true), false),
        _ => (e, false),
    };
    if g.params.is_empty() {
        g.var(t, "double");
    }
    for i in (1..g.params.len()).rev() {
        let j = t.below(i + 1);
        g.params.swap(i, j);
    }
    let rs = |ty: &str| match ty {
        "float" => "f32",
        "double" => "f64",
        "unsigned" => "c_uint",
        "long" => "c_long",
        _ => "c_int",
    };
    let params: Vec<String> = g.params.iter().map(|p| p.0.clone()).collect();
    let mut ctx = Ctx::default();
    if known {
        for (n, ty, _) in &g.params {
            ctx.args.insert(n.clone(), rs(ty).into());
        }
        ctx.fns.insert("fd".into(), (vec!["f64".into()], "f64".into()));
    }
    let show = format!("#define M({}) {}   with {}", params.join(", "), body.join(" "), g.params.iter().map(|p| format!("{} {} = {}", p.1, p.0, p.2)).collect::<Vec<_>>().join(", "));
    cx.set_desc(show.clone());
    cx.class(if known { "mixed floating-point" } else { "floating-point" });
    cx.nontrivial = body.len() >= 5;
    let gen = match guard(|| cg::fn_gen("M", &params, &body, &ctx))? {
        Ok(o) => o,
        Err(e) => return fail("refused", format!("{show} is refused with {e:?}")),
    };
    let is_macro = gen.contains("macro_rules");
    let (mut c_run, mut rs_run) = (String::new(), String::new());
    for (n, ty, v) in &g.params {
        c_run += &format!("{ty} {n} = {v}; ");
        rs_run += &format!("let mut {n}: {} = {v}; ", rs(ty));
    }
    let (c_call, r_call) = (format!("M({})", params.join(", ")), format!("M{}({})", if is_macro { "!" } else { "" }, params.join(", ")));
    if out {
        c_run += &format!("{c_call} ");
        rs_run += &format!("{r_call}; ");
    } else {
        c_run += &format!("SHOW({c_call}); ");
        rs_run += &format!("({r_call}).s(); ");
    }
    for p in &params {
        c_run += &format!("SHOW({p}); ");
        rs_run += &format!("{p}.s(); ");
    }
    if out && !is_macro {
        return fail("function", format!("{show} assigns to its parameters, but is a function: {gen}"));
    }
    Ok(Some(Item {
        c_top: format!("#define M({}) {}\n", params.join(", "), body.join(" ")),
        c_run,
        c_end: "#undef M\n".into(),
        rs_top: gen.replace("__cmacro__M", &format!("__cmacro__M{IDX}")),
        rs_run: format!("unsafe {{ {rs_run} }}"),
        generated: gen,
        show,
    }))
}
fn string(t: &mut Tape, cx: &mut Cx) -> Result<Option<Item>, Fail> {
    let p = t.pick_s(&["", "", "", "u8", "u", "U", "L"]);
    let (parts, _, u) = match lits::gen_run(t, &p) {
        Ok(x) => x,
        Err(w) => {
            cx.discard(w)?;
            return Ok(None);
        }
    };
    let mut defs = vec![];
    let mut body = vec![];
    let mut i = 0;
    while i < parts.len() {
        let n = 1 + t.below(parts.len() - i);
        let run = parts[i..i + n].to_vec();
        i += n;
        match t.weighted(&[2, 1, 1]) {
            0 => body.extend(run),
            1 => {
                let n = format!("S{}", defs.len());
                defs.push(Def::obj(&n, &run));
                body.push(n);
            }
            _ => {
                let n = format!("S{}", defs.len());
                defs.push(Def::func(&n, &["x".into()], &["x".into()]));
                body.extend([n, "(".into()]);
                body.extend(run);
                body.push(")".into());
            }
        }
    }
    defs.push(Def::obj("X", &body));
    shuffle(t, &mut defs);
    let show = show_defs(&defs);
    cx.set_desc(show.clone());
    cx.class(format!("string {p:?}"));
    cx.nontrivial = !u.is_empty();
    let mut c = consts::ctx();
    c.target = t.pick(&[None, Some("1.70"), Some("1.40")]).map(|s| s.to_string());
    c.tys.insert("wchar_t".into(), "c_int".into());
    let (g, ty) = match constant(&defs, &c)? {
        Ok(x) => x,
        Err(e) => return fail("refused", format!("{show} is refused: {e:?}")),
    };
    let Some(tn) = ty else { return fail("type", format!("{show} has no type")) };
    Ok(Some(Item {
        c_top: define(&defs),
        c_run: "UNITS(X);".into(),
        c_end: undef(&defs),
        rs_top: format!("pub const X: {tn} = {g};"),
        rs_run: "X.s();".into(),
        generated: format!("const X: {tn} = {g}"),
        show,
    }))
}
fn c17(t: &mut Tape, cx: &mut Cx) -> Res {
    native::single(prep17, t, cx)
}
/// What an expression reads and writes; memory is one place.
#[derive(Default, Clone)]
struct Eff {
    r: BTreeSet<String>,
    w: BTreeSet<String>,
}
impl Eff {
    fn join(mut self, o: Eff) -> Eff {
        self.r.extend(o.r);
        self.w.extend(o.w);
        self
    }
    fn conflicts(&self, o: &Eff) -> bool {
        self.w.iter().any(|x| o.r.contains(x) || o.w.contains(x)) || o.w.iter().any(|x| self.r.contains(x))
    }
}
/// None if operands without an order conflict, or a constant part has no value.
fn eff(e: &E) -> Option<Eff> {
    let mem = || Eff { r: ["*".to_string()].into(), w: Default::default() };
    let both = |a: &E, b: &E| {
        let (a, b) = (eff(a)?, eff(b)?);
        (!a.conflicts(&b)).then(|| a.join(b))
    };
    fn place(e: &E) -> String {
        match e {
            E::Var(n) => n.clone(),
            E::Mem(e, _) => place(e),
            _ => "*".into(),
        }
    }
    fn constant(e: &E) -> bool {
        match e {
            E::Lit(..) | E::Const(..) => true,
            E::Un(_, e) | E::Cast(_, _, _, e) => constant(e),
            E::Bin(_, a, b) => constant(a) && constant(b),
            E::Cond(a, b, c) => constant(a) && constant(b) && constant(c),
            _ => false,
        }
    }
    if constant(e) && (CEval { m: &mut Machine::default() }).eval(e).is_err() {
        return None;
    }
    match e {
        E::Lit(..) | E::Const(..) => Some(Eff::default()),
        E::Var(n) => Some(Eff { r: [n.clone()].into(), w: Default::default() }),
        E::Un(_, e) | E::Cast(_, _, _, e) | E::PtrCast(_, _, e) | E::Mem(e, _) => eff(e),
        // the variable may be changed through the pointer
        E::Addr(e) => eff(e).map(|x| if matches!(**e, E::Var(_)) { x.join(Eff { r: Default::default(), w: ["*".to_string()].into() }) } else { x }),
        E::Deref(e) | E::Arrow(e, _) => Some(eff(e)?.join(mem())),
        E::Index(a, b) => Some(both(a, b)?.join(mem())),
        E::Inc { e, .. } => {
            let mut x = eff(e)?;
            x.w.insert(place(e));
            Some(x)
        }
        E::Bin(_, a, b) => both(a, b),
        E::Asg(_, a, b) => {
            // the target is written after both operands
            let mut x = both(a, b).or_else(|| {
                let (x, y) = (eff(a)?, eff(b)?);
                (x.w.is_empty() && y.w.is_empty()).then(|| x.join(y))
            })?;
            if x.w.contains(&place(a)) {
                return None;
            }
            x.w.insert(place(a));
            Some(x)
        }
        E::Cond(a, b, c) => Some(eff(a)?.join(eff(b)?).join(eff(c)?)),
        E::Call(_, v) => {
            let mut x = Eff::default();
            for a in v {
                let a = eff(a)?;
                if x.conflicts(&a) {
                    return None;
                }
                x = x.join(a);
            }
            Some(x)
        }
    }
}
fn sequenced(s: &S) -> bool {
    match s {
        S::Expr(e) | S::Decl(_, _, e) => eff(e).is_some(),
        S::If(c, a, b) => eff(c).is_some() && sequenced(a) && b.as_ref().is_none_or(|b| sequenced(b)),
        S::DoWhile(b, c) => sequenced(b) && eff(c).is_some(),
        S::Block(v) => v.iter().all(sequenced),
        S::Break | S::Continue => true,
    }
}
fn value(v: &V, c: bool) -> String {
    match v {
        V::Int(i) if c && *i == i32::MIN as i128 => "(-2147483647 - 1)".into(),
        V::Int(i) => i.to_string(),
        V::Ptr(p) => {
            let [Step::Idx(i)] = &p.path[..] else { panic!("pointer {p:?}") };
            let n = p.root.trim_end_matches('@');
            if c {
                format!("&{n}[{i}]")
            } else {
                format!("ptr::addr_of_mut!({}).cast::<{}>().offset({i})", if n == "buf" { "MEM.b" } else { "MEM.d" }, if n == "buf" { "c_int" } else { "S" })
            }
        }
        V::St(m) => {
            let n = m.contains_key("fr");
            let f: Vec<String> = m.iter().map(|(k, v)| format!("{}{k}{} {}", if c { "." } else { "" }, if c { " =" } else { ":" }, value(v, c))).collect();
            match (c, n) {
                (true, true) => format!("(S) {{ {} }}", f.join(", ")),
                (true, false) => format!("{{ {} }}", f.join(", ")),
                (_, true) => format!("S {{ {} }}", f.join(", ")),
                _ => format!("N {{ {} }}", f.join(", ")),
            }
        }
        v => panic!("value {v:?}"),
    }
}
fn rty(t: Ty) -> &'static str {
    match t {
        Ty::I => "c_int",
        Ty::P => "*mut c_int",
        Ty::St => "S",
        Ty::Sp => "*mut S",
    }
}
fn cty(t: Ty) -> &'static str {
    match t {
        Ty::I => "int",
        Ty::P => "int *",
        Ty::St => "S",
        Ty::Sp => "S *",
    }
}
fn program(t: &mut Tape, cx: &mut Cx, c: exprs::Case) -> Result<Option<Item>, Fail> {
    let show = format!("#define M({}) {}{}", c.params.join(", "), c.text.join(" "), {
        let s = c.cx.show();
        if s.is_empty() { s } else { format!("   [{s}]") }
    });
    cx.set_desc(show.clone());
    if !match &c.prog {
        exprs::Prog::E(e) => eff(e).is_some(),
        exprs::Prog::S(s) => sequenced(s),
    } {
        cx.discard("operands without an order conflict")?;
        return Ok(None);
    }
    let mut start = None;
    for _ in 0..4 {
        let m = exprs::valuation(t, &c.vars);
        let r: Result<Vec<exprs::Outcome>, _> = [0, 1, 2, 3, 4, 5].iter().map(|k| exprs::run_c(&c.prog, &m, *k)).collect();
        let Ok(r) = r else { continue };
        if r.iter().all(|o| o.0 == r[0].0 && o.1 == r[0].1 && exprs::sorted(&o.2) == exprs::sorted(&r[0].2)) {
            let ordered = r.iter().all(|o| o.2 == r[0].2);
            start = Some((m, r.into_iter().next().unwrap().0, ordered));
            break;
        }
    }
    if exprs::like_declaration(&c.text) && c.text.iter().any(|w| w == ";") {
        cx.discard("a statement may be a declaration")?;
        return Ok(None);
    }
    let Some((m, v, ordered)) = start else {
        cx.discard("C does not define the value for any of the valuations")?;
        return Ok(None);
    };
    let out = match guard(|| cg::fn_gen("M", &c.params, &c.text, &c.cx))? {
        Ok(o) => o,
        Err(GErr::Gen(CodegenError::UnsupportedType(_))) | Err(GErr::Parse(_)) if exprs::ambiguous(&c.text, &c.params) => {
            cx.discard("a parenthesized name may be a type")?;
            return Ok(None);
        }
        Err(e) => return fail("refused", format!("{show} is refused with {e:?}")),
    };
    let is_macro = out.contains("macro_rules");
    cx.class(if is_macro { "macro" } else { "function" });
    cx.nontrivial = c.text.len() >= 5;
    let set = |is_c: bool| {
        let mut o = String::new();
        for n in ["buf", "sbuf"] {
            if let V::Arr(a) = &m.objs[&format!("{n}@")] {
                for (i, v) in a.iter().enumerate() {
                    o += &format!("{}[{i}] = {}; ", if is_c { n } else if n == "buf" { "MEM.b" } else { "MEM.d" }, value(v, is_c));
                }
            }
        }
        o
    };
    let (mut c_top, mut rs_top) = (String::new(), String::new());
    let (mut c_run, mut rs_run) = (set(true), set(false));
    // the order of calls is not defined
    c_run += &format!("quiet = {}; ", !ordered as u8);
    rs_run += &format!("quiet = {}; ", !ordered);
    let (mut c_show, mut rs_show) = (String::new(), String::new());
    let mut c_end = "#undef M\n".to_string();
    for (n, ty) in &c.vars {
        let x = &m.objs[n];
        let (cv, rv) = (value(x, true), value(x, false));
        if c.params.contains(n) {
            c_run += &format!("{} {n} = {cv}; ", cty(*ty));
            rs_run += &format!("let mut {n}: {} = {rv}; ", rty(*ty));
        } else {
            c_top += &format!("static {} {n}{IDX};\n#define {n} {n}{IDX}\n", cty(*ty));
            c_end += &format!("#undef {n}\n");
            let zero = match ty {
                Ty::I => "0",
                Ty::P | Ty::Sp => "ptr::null_mut()",
                Ty::St => "S { fx: 0, fy: 0, fn_: N { fx: 0, fy: 0 }, fr: ptr::null_mut(), next: ptr::null_mut() }",
            };
            rs_top += &format!("pub static mut {n}: {} = {zero}; ", rty(*ty));
            c_run += &format!("{n} = {cv}; ");
            rs_run += &format!("{n} = {rv}; ");
        }
        c_show += &format!("SHOW({n}); ");
        rs_show += &format!("{{ {n} }}.s(); ");
    }
    c_top += &format!("#define M({}) {}\n", c.params.join(", "), c.text.join(" "));
    rs_top += &out.replace("__cmacro__M", &format!("__cmacro__M{IDX}"));
    let args = c.params.join(", ");
    let call = if is_macro { format!("M!({args})") } else { format!("M({args})") };
    match c.prog {
        exprs::Prog::E(_) if v != V::Unit => {
            c_run += &format!("SHOW(M({args})); ");
            rs_run += &format!("({call}).s(); ");
        }
        exprs::Prog::E(_) => {
            c_run += &format!("M({args}); ");
            rs_run += &format!("{call}; ");
        }
        exprs::Prog::S(_) => {
            c_run += &format!("M({args}) ");
            rs_run += &format!("{call}; ");
        }
    }
    Ok(Some(Item {
        c_top,
        c_run: format!("{c_run} {c_show} state();"),
        c_end,
        rs_top,
        rs_run: format!("unsafe {{ {rs_run} {rs_show} state(); }}"),
        generated: out,
        show,
    }))
}
/// Macros whose parameters are types and names of fields.
struct Tp {
    params: Vec<(String, String, String)>,
    vars: Vec<(String, &'static str, &'static str, String, String)>,
    /// The types of parameters for variables are known.
    known: bool,
}
const STRUCTS: &[(&[&str], &str, &[&str])] = &[(&["S"], "S", &["fx", "fy"]), (&["struct", "S"], "S", &["fx", "fy"]), (&["struct", "N"], "N", &["fx", "fy"])];
impl Tp {
    /// A parameter (or none) for the given argument in C and Rust.
    fn par(&mut self, t: &mut Tape, c: &str, r: &str) -> String {
        if let Some(p) = self.params.iter().find(|p| p.1 == c) {
            if t.chance(3, 4) {
                return p.0.clone();
            }
        }
        let mut n = t.pick_s(&["t", "u", "type", "member", "m", "x", "p", "T", "a", "v", "b", "w"]);
        if self.params.iter().any(|p| p.0 == n) {
            n += &self.params.len().to_string();
        }
        self.params.push((n.clone(), c.into(), r.into()));
        n
    }
    fn scalar(&mut self, t: &mut Tape) -> String {
        let (c, r) = *t.pick(&[("int", "c_int"), ("unsigned char", "c_uchar"), ("short", "c_short"), ("long", "c_long"), ("unsigned", "c_uint"), ("signed char", "c_schar"), ("long long", "c_longlong"), ("unsigned short", "c_ushort")]);
        self.par(t, c, r)
    }
    fn var(&mut self, t: &mut Tape, k: u8) -> String {
        let (tc, tr, c, r) = match k {
            0 => {
                let i = t.below(300) as i64 - 100;
                ("int", "c_int", i.to_string(), i.to_string())
            }
            1 => {
                let i = t.below(4);
                ("S *", "*mut S", format!("sbuf + {i}"), format!("ptr::addr_of_mut!(MEM.d[{i}])"))
            }
            _ => {
                let i = t.below(3);
                ("int *", "*mut c_int", format!("buf + {i}"), format!("ptr::addr_of_mut!(MEM.b[{i}])"))
            }
        };
        let n = match self.vars.iter().find(|v| v.1 == tc) {
            Some(v) if t.chance(1, 2) => v.0.clone(),
            _ => {
                let n = format!("v{}", self.vars.len());
                self.vars.push((n.clone(), tc, tr, c, r));
                n
            }
        };
        self.par(t, &n, &n)
    }
    /// A structure, as tokens, its fields, and whether it is the name of a parameter.
    fn strct(&mut self, t: &mut Tape, pars: bool) -> (Vec<String>, &'static [&'static str], bool) {
        let (c, r, f) = *t.pick(STRUCTS);
        if pars && t.chance(2, 3) {
            // `struct` may be left to the argument or not.
            return (vec![self.par(t, &c.join(" "), r)], f, true);
        }
        (c.iter().map(|s| s.to_string()).collect(), f, false)
    }
    fn field(&mut self, t: &mut Tape, f: &[&str]) -> String {
        let f = t.pick_s(f);
        if t.chance(2, 3) { self.par(t, &f, &f) } else { f }
    }
    fn int(&mut self, t: &mut Tape, d: usize) -> Vec<String> {
        let s = |x: &str| x.split(' ').filter(|x| !x.is_empty()).map(String::from).collect::<Vec<_>>();
        let j = |xs: &[&[String]]| xs.iter().flat_map(|x| x.iter().cloned()).collect::<Vec<_>>();
        if d > 0 {
            match t.below(6) {
                0 => return j(&[&s("("), &self.int(t, d - 1), &s(")"), &[t.pick_s(&["+", "-", "*", "|", "^", "&"])], &s("("), &self.int(t, d - 1), &s(")")]),
                1 => return j(&[&s("f ("), &self.int(t, d - 1), &s(")")]),
                2 => return j(&[&s("g ("), &self.int(t, d - 1), &s(","), &self.int(t, d - 1), &s(")")]),
                3 => {
                    let c = self.var(t, 0);
                    return j(&[&s("("), &[c], &s("? ("), &self.int(t, d - 1), &s(") : ("), &self.int(t, d - 1), &s(") )")]);
                }
                _ => (),
            }
        }
        match t.below(10) {
            0 => {
                let x = if self.known && t.chance(1, 2) { let k = t.below(3) as u8; self.var(t, k) } else if t.chance(1, 2) { self.scalar(t) } else { self.strct(t, true).0.join(" ") };
                s(&format!("( int ) sizeof ( {x} )"))
            }
            1 => {
                let (x, fs, is_par) = self.strct(t, true);
                // only names are types in the arguments of a call
                let (x, fs) = if !is_par && x.len() > 1 { ("S".into(), STRUCTS[0].2) } else { (x.join(" "), fs) };
                let all: &[&str] = if x == "S" { &["fx", "fy", "fn_", "fr", "next"] } else { fs };
                let f = self.field(t, all);
                s(&format!("( int ) __builtin_offsetof ( {x} , {f} )"))
            }
            2 | 3 => {
                let (x, v) = (self.scalar(t), self.var(t, 0));
                match t.below(3) {
                    0 => s(&format!("( int ) ( {x} ) {v}")),
                    1 => s(&format!("( int ) ( ( {x} ) {v} )")),
                    _ => s(&format!("( int ) ( {x} ) ( {v} + 1 )")),
                }
            }
            4 | 5 => {
                let (x, fs, _) = self.strct(t, true);
                let (p, f) = (self.var(t, 1), self.field(t, fs));
                let x = x.join(" ");
                let q = t.pick_s(&["", "", "const", "volatile"]);
                match t.below(3) {
                    0 => s(&format!("( ( {q} {x} * ) {p} ) -> {f}")),
                    1 => s(&format!("( * ( {q} {x} * ) {p} ) . {f}")),
                    _ => s(&format!("( ( {x} {q} * ) {p} ) [ 0 ] . {f}")),
                }
            }
            6 => {
                let (p, f) = (self.var(t, 1), self.field(t, &["fx", "fy"]));
                if t.chance(1, 2) { s(&format!("{p} -> {f}")) } else { s(&format!("( * {p} ) . {f}")) }
            }
            7 | 8 => {
                let (x, p, i) = (self.par(t, "int", "c_int"), self.var(t, 2), t.below(3));
                let q = t.pick_s(&["", "", "const", "volatile"]);
                match t.below(4) {
                    0 => s(&format!("* ( {q} {x} * ) {p}")),
                    1 => s(&format!("( ( {x} {q} * ) {p} ) [ {i} ]")),
                    2 => s(&format!("* ( ( {q} {x} * ) {p} + {i} )")),
                    _ => s(&format!("* & * ( {q} {x} * ) {p}")),
                }
            }
            _ => vec![self.var(t, 0)],
        }
    }
}
fn typed_params(t: &mut Tape, cx: &mut Cx) -> Result<Option<Item>, Fail> {
    let mut g = Tp { params: vec![], vars: vec![], known: t.chance(1, 3) };
    let s = |x: &str| x.split(' ').map(String::from).collect::<Vec<_>>();
    let stmt = t.chance(1, 3);
    let d = t.below(3);
    let body = if stmt {
        let e = g.int(t, d);
        match t.below(3) {
            0 => {
                let x = g.par(t, "int", "c_int");
                [s(&format!("{{ {x} l = ")), e, s("; f ( l ) ; }")].concat()
            }
            1 => {
                let (x, p) = (g.par(t, "int", "c_int"), g.var(t, 2));
                let q = t.pick_s(&["", "volatile"]);
                [s(&format!("{{ * ( {q} {x} * ) {p} =")), e, s("; }")].concat()
            }
            _ => {
                let (x, fs, _) = g.strct(t, true);
                let (p, f) = (g.var(t, 1), g.field(t, fs));
                [s(&format!("{{ ( ( {} * ) {p} ) -> {f} =", x.join(" "))), e, s("; }")].concat()
            }
        }
    } else {
        g.int(t, d)
    };
    let body: Vec<String> = body.into_iter().filter(|x| !x.is_empty()).collect();
    if g.params.is_empty() {
        g.params.push(("z".into(), "1".into(), "1".into()));
    }
    for i in (1..g.params.len()).rev() {
        let j = t.below(i + 1);
        g.params.swap(i, j);
    }
    let params: Vec<String> = g.params.iter().map(|p| p.0.clone()).collect();
    let mut ctx = Ctx::default();
    for x in ["S", "struct S"] {
        ctx.tys.insert(x.into(), "S".into());
    }
    for x in ["N", "struct N"] {
        ctx.tys.insert(x.into(), "N".into());
    }
    if g.known {
        for (n, c, _) in &g.params {
            if let Some(v) = g.vars.iter().find(|v| v.0 == *c) {
                ctx.args.insert(n.clone(), v.2.into());
            }
        }
    }
    if t.chance(1, 2) {
        ctx.fns.insert("f".into(), (vec!["c_int".into()], "c_int".into()));
        ctx.fns.insert("g".into(), (vec!["c_int".into(), "c_int".into()], "c_int".into()));
    }
    let show = format!("#define M({}) {}   used as M({})", params.join(", "), body.join(" "), g.params.iter().map(|p| p.1.clone()).collect::<Vec<_>>().join(", "));
    cx.set_desc(show.clone());
    cx.class("type parameters");
    cx.nontrivial = body.len() >= 5;
    let out = match guard(|| cg::fn_gen("M", &params, &body, &ctx))? {
        Ok(o) => o,
        Err(e) => return fail("refused", format!("{show} is refused with {e:?}")),
    };
    let is_macro = out.contains("macro_rules");
    let call = |k: bool| g.params.iter().map(|p| if k { p.1.clone() } else { p.2.clone() }).collect::<Vec<_>>().join(", ");
    let (mut c_run, mut rs_run) = (String::new(), String::new());
    for i in 0..6 {
        c_run += &format!("buf[{i}] = {}; ", 7 * i as i64 - 9);
        rs_run += &format!("MEM.b[{i}] = {}; ", 7 * i as i64 - 9);
    }
    for i in 0..4 {
        c_run += &format!("sbuf[{i}] = (S) {{ {i}, 1{i}, {{ 2{i}, 3{i} }}, buf, sbuf }}; ");
        rs_run += &format!("MEM.d[{i}] = S {{ fx: {i}, fy: 1{i}, fn_: N {{ fx: 2{i}, fy: 3{i} }}, fr: ptr::addr_of_mut!(MEM.b[0]), next: ptr::addr_of_mut!(MEM.d[0]) }}; ");
    }
    // the order of calls is not defined
    c_run += "quiet = 1; ";
    rs_run += "quiet = true; ";
    for (n, tc, tr, c, r) in &g.vars {
        c_run += &format!("{tc} {n} = {c}; ");
        rs_run += &format!("let mut {n}: {tr} = {r}; ");
    }
    let (c_call, r_call) = (format!("M({})", call(true)), if is_macro { format!("M!({})", call(false)) } else { format!("M({})", call(false)) });
    if stmt {
        c_run += &format!("{c_call} ");
        rs_run += &format!("{r_call}; ");
    } else {
        c_run += &format!("SHOW({c_call}); ");
        rs_run += &format!("({r_call}).s(); ");
    }
    Ok(Some(Item {
        c_top: format!("#define M({}) {}\n", params.join(", "), body.join(" ")),
        c_run: format!("{c_run} state();"),
        c_end: "#undef M\n".into(),
        rs_top: out.replace("__cmacro__M", &format!("__cmacro__M{IDX}")),
        rs_run: format!("unsafe {{ {rs_run} state(); }}"),
        generated: out,
        show,
    }))
}
/// A variadic macro which passes its arguments on to functions.
fn variadic_macro(t: &mut Tape, cx: &mut Cx) -> Result<Option<Item>, Fail> {
    let s = |x: &str| x.split(' ').map(String::from).collect::<Vec<_>>();
    let r = t.below(3);
    let nn = if r == 0 { 0 } else { t.below(4) };
    let mut params: Vec<String> = (0..nn).map(|i| ["x", "b", "e1"][i].to_string()).collect();
    fn int(t: &mut Tape, d: usize, r: usize, ps: &[String]) -> Vec<String> {
        let s = |x: &str| x.split(' ').map(String::from).collect::<Vec<_>>();
        let kind = t.weighted(&[if ps.is_empty() { 0 } else { 2 }, 1, 4, if d > 0 { 3 } else { 0 }, if d > 0 { 3 } else { 0 }]);
        match kind {
            0 => s(&format!("( {} )", t.pick(ps))),
            1 => s(&t.below(9).to_string()),
            2 => match (r, t.below(2)) {
                (0, _) => s("h ( __VA_ARGS__ )"),
                (1, 0) => s("f ( __VA_ARGS__ )"),
                (1, _) => {
                    let a = int(t, d.saturating_sub(1), r, ps);
                    if t.chance(1, 2) { [s("g ("), a, s(", __VA_ARGS__ )")].concat() } else { [s("g ( __VA_ARGS__ ,"), a, s(")")].concat() }
                }
                _ => s("g ( __VA_ARGS__ )"),
            },
            3 => [s("("), int(t, d - 1, r, ps), s(&format!("{} (", t.pick_s(&["+", "-", "&", "^"]))), int(t, d - 1, r, ps), s(") )")].concat(),
            _ => [s("f ("), int(t, d - 1, r, ps), s(")")].concat(),
        }
    }
    let d = t.below(3);
    let stmt = t.chance(1, 3);
    let body = match (stmt, t.below(2)) {
        (false, _) => int(t, d, r, &params),
        (_, 0) => [s("{ f ("), int(t, d, r, &params), s(") ; g ("), int(t, 1, r, &params), s(","), int(t, 0, r, &params), s(") ; }")].concat(),
        _ => [s("do { f ("), int(t, d, r, &params), s(") ; } while ( 0 )")].concat(),
    };
    let body: Vec<String> = body.into_iter().filter(|x| !x.is_empty()).collect();
    if !body.iter().any(|w| w == "__VA_ARGS__") {
        cx.discard("the arguments are not used")?;
        return Ok(None);
    }
    let mut args: Vec<String> = (0..nn).map(|i| format!("v{i}")).collect();
    for i in 0..r {
        args.push(match t.below(4) {
            0 => format!("{}", 3 + i),
            1 => "v3 + 2".to_string(),
            2 => "(v4)".into(),
            _ => format!("v{}", 3 + i),
        });
    }
    params.push("...".into());
    let mut ctx = Ctx::default();
    if t.chance(1, 2) {
        ctx.fns.insert("f".into(), (vec!["c_int".into()], "c_int".into()));
        ctx.fns.insert("g".into(), (vec!["c_int".into(), "c_int".into()], "c_int".into()));
        ctx.fns.insert("h".into(), (vec![], "c_int".into()));
    }
    if t.chance(1, 3) {
        for p in &params[..nn] {
            ctx.args.insert(p.clone(), "c_int".into());
        }
    }
    let show = format!("#define M({}) {}   used as M({})", params.join(", "), body.join(" "), args.join(", "));
    cx.set_desc(show.clone());
    cx.class("variadic");
    cx.nontrivial = body.len() >= 5;
    let out = match guard(|| cg::fn_gen("M", &params, &body, &ctx))? {
        Ok(o) => o,
        Err(e) => return fail("refused", format!("{show} is refused with {e:?}")),
    };
    if !out.contains("macro_rules") {
        return fail("form", format!("{show} is not generated as a macro: {out}"));
    }
    let (mut c_run, mut rs_run) = ("quiet = 1; ".to_string(), "quiet = true; ".to_string());
    for i in 0..5 {
        let v = t.below(40) as i64 - 15;
        c_run += &format!("int v{i} = {v}; ");
        rs_run += &format!("let v{i}: c_int = {v}; ");
    }
    let a = args.join(", ");
    if stmt {
        c_run += &format!("M({a}); ");
        rs_run += &format!("M!({a}); ");
    } else {
        c_run += &format!("SHOW((int) (M({a}))); ");
        rs_run += &format!("let v: c_int = M!({a}); v.s(); ");
    }
    Ok(Some(Item {
        c_top: format!("#define M({}) {}\n", params.join(", "), body.join(" ")),
        c_run: format!("{c_run} state();"),
        c_end: "#undef M\n".into(),
        rs_top: out.replace("__cmacro__M", &format!("__cmacro__M{IDX}")),
        rs_run: format!("unsafe {{ {rs_run} state(); }}"),
        generated: out,
        show,
    }))
}
fn prep20(t: &mut Tape, cx: &mut Cx) -> Result<Option<Item>, Fail> {
    if t.chance(1, 10) {
        return typed_params(t, cx);
    }
    if t.chance(1, 10) {
        return mixed_function(t, cx);
    }
    if t.chance(1, 16) {
        return variadic_macro(t, cx);
    }
    let stmts = t.chance(1, 3);
    let base = exprs::Mix { arith: 3, cmp: 2, cond: 2, call: 2, inc: 2, asg: 2, cast: 0, mem: 2, vol: 0 };
    let m = match t.below(4) {
        0 => exprs::Mix { inc: 0, asg: 0, ..base },
        1 => exprs::Mix { mem: 0, ..base },
        2 => exprs::Mix { vol: 3, ..base },
        _ => base,
    };
    let c = exprs::gen_case_for(t, m, stmts, 3, true);
    program(t, cx, c)
}
fn c20(t: &mut Tape, cx: &mut Cx) -> Res {
    native::single(prep20, t, cx)
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        rule: "the body has at least five tokens",
        tape_len: 300,
        quick: 40_000,
        thorough: 1_500_000,
        case: c20,
        enumerate: None,
        batch: Some(prep20),
        assumptions: &["gcc on x86-64 Linux"],
    }, Prop {
        id: "C17",
        rule: "an operator, a cast, several macros or a non-empty string",
        tape_len: 160,
        quick: 60_000,
        thorough: 2_000_000,
        case: c17,
        enumerate: None,
        batch: Some(prep17),
        assumptions: &["gcc on x86-64 Linux; constants without a reported type are given the type of the C expression; unsigned wrap-around and the complement of unsigned literals are excluded as in C01 and C07"],
    }]
}
