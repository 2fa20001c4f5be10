//! E01..E10: macro expansion against the reference preprocessor.
use crate::cpp::{self, Cpp, CppError, Macro, Table};
use crate::engine::*;
use crate::lib_if::*;
use cmacro::{ExpansionError, MacroSet, MacroToken};

pub const OBJ: &[&str] = &["A", "B", "C", "D", "E", "F"];
pub const FNS: &[&str] = &["f", "g", "h", "k", "m", "n"];
const PLAIN: &[&str] = &["1", "p", "+", "q", "2", "*", "r", "-", "3u", ";", "x", "y", "0x1f", "<<", "\"s\"", "'c'", "z", "1.5", "->", "?", ":", "__w"];
const PARAMS: &[&str] = &["x", "y", "z", "w", "par5", "par6", "par7", "par8", "par9", "par10", "par11", "par12"];

#[derive(Clone)]
pub struct FnSig {
    pub name: String,
    pub params: Vec<String>,
    pub variadic: bool,
}

/// What a generator may produce.
#[derive(Clone)]
pub struct Cfg {
    pub max_obj: usize,
    pub max_fn: usize,
    pub ops: u32,         // weight of # and ##
    pub variadic: u32,    // percent of variadic functions
    pub wrong_arity: u32, // per mille
    pub partial: u32,     // weight of unterminated calls
    pub names: u32,       // weight of macro names
    pub len: usize,
}
pub const BASE: Cfg = Cfg { max_obj: 4, max_fn: 4, ops: 2, variadic: 15, wrong_arity: 8, partial: 2, names: 10, len: 6 };

pub struct Env {
    pub objs: Vec<String>,
    pub fns: Vec<FnSig>,
}

pub fn gen_env(t: &mut Tape, c: &Cfg) -> Env {
    let no = t.below(c.max_obj + 1);
    let nf = t.below(c.max_fn + 1);
    let objs = OBJ[..no].iter().map(|s| s.to_string()).collect();
    let fns = (0..nf)
        .map(|i| {
            let n = t.weighted(&[2, 6, 4, 1]);
            FnSig { name: FNS[i].into(), params: PARAMS[..n].iter().map(|s| s.to_string()).collect(), variadic: t.chance(c.variadic, 100) }
        })
        .collect();
    Env { objs, fns }
}

struct Ctx<'a> {
    env: &'a Env,
    c: &'a Cfg,
    params: &'a [String],
    variadic: bool,
    is_fn: bool,
}

fn gen_call(t: &mut Tape, x: &Ctx, depth: usize, out: &mut Vec<String>, sig: &FnSig, close: bool) {
    out.push(sig.name.clone());
    out.push("(".into());
    let mut n = sig.params.len();
    if sig.variadic {
        n += t.below(4);
    }
    if t.chance(x.c.wrong_arity, 1000) {
        n = t.below(5);
    }
    for i in 0..n {
        if i > 0 {
            out.push(",".into());
        }
        let k = t.weighted(&[2, 6, 2, 1]);
        for _ in 0..k {
            gen_item(t, x, depth + 1, out);
        }
    }
    if close {
        out.push(")".into());
    } else if n > 0 && t.chance(1, 2) {
        out.push(",".into());
    }
}

fn gen_item(t: &mut Tape, x: &Ctx, depth: usize, out: &mut Vec<String>) {
    let deep = depth >= 3;
    let has_p = !x.params.is_empty() || x.variadic;
    let w = [
        8,
        if has_p { 8 } else { 0 },
        if x.env.objs.is_empty() { 0 } else { x.c.names },
        if x.env.fns.is_empty() || deep { 0 } else { x.c.names },
        if x.env.fns.is_empty() { 0 } else { x.c.names / 3 },
        if deep { 0 } else { 2 },
        if x.is_fn && has_p { x.c.ops } else { 0 },
        if has_p { x.c.ops } else { x.c.ops / 2 },
        if x.env.fns.is_empty() || deep { 0 } else { x.c.names / 4 },
    ];
    let param = |t: &mut Tape| -> String {
        let n = x.params.len() + x.variadic as usize;
        let i = t.below(n);
        x.params.get(i).cloned().unwrap_or("__VA_ARGS__".into())
    };
    match t.weighted(&w) {
        0 => out.push(t.pick_s(PLAIN)),
        1 => {
            let p = param(t);
            out.push(p)
        }
        2 => {
            let n = t.pick(&x.env.objs).clone();
            out.push(n)
        }
        3 => {
            let s = t.pick(&x.env.fns).clone();
            gen_call(t, x, depth, out, &s, true)
        }
        4 => {
            let s = t.pick(&x.env.fns).clone();
            out.push(s.name)
        }
        5 => {
            let (a, b) = *t.pick(&[("(", ")"), ("[", "]"), ("{", "}")]);
            out.push(a.into());
            for _ in 0..t.count(4) {
                gen_item(t, x, depth + 1, out);
                if t.chance(1, 5) {
                    out.push(",".into());
                }
            }
            out.push(b.into());
        }
        6 => {
            let p = param(t);
            out.push("#".into());
            out.push(p);
        }
        7 => {
            // a paste whose left side is an identifier
            let n = 1 + t.count(2);
            let first = if has_p && t.chance(1, 3) { param(t) } else { t.pick_s(&["p", "A", "f", "q_", "B"]) };
            out.push(first);
            for _ in 0..n {
                out.push("##".into());
                let r = if has_p && t.chance(2, 3) { param(t) } else { t.pick_s(&["q", "1", "B", "g", "_2"]) };
                out.push(r);
            }
        }
        _ => {
            // a macro name separated from its argument list by an object-like macro or group
            let s = t.pick(&x.env.fns).clone();
            out.push(s.name.clone());
            if !x.env.objs.is_empty() {
                let n = t.pick(&x.env.objs).clone();
                out.push(n);
            }
            let mut tmp = vec![];
            gen_call(t, x, depth, &mut tmp, &s, true);
            out.extend(tmp.into_iter().skip(1));
        }
    }
}

fn gen_seq(t: &mut Tape, x: &Ctx, max: usize) -> Vec<String> {
    let mut out = vec![];
    let n = t.below(max + 1);
    for _ in 0..n {
        gen_item(t, x, 0, &mut out);
    }
    out
}

pub fn gen_table(t: &mut Tape, c: &Cfg) -> (Env, Vec<Def>) {
    let env = gen_env(t, c);
    let mut defs = vec![];
    for n in &env.objs {
        let x = Ctx { env: &env, c, params: &[], variadic: false, is_fn: false };
        let mut b = gen_seq(t, &x, c.len);
        if !env.fns.is_empty() && t.chance(c.partial, 20) {
            let s = t.pick(&env.fns).clone();
            gen_call(t, &x, 1, &mut b, &s, false);
        }
        defs.push(Def::obj(n, &b));
    }
    for f in &env.fns {
        let x = Ctx { env: &env, c, params: &f.params, variadic: f.variadic, is_fn: true };
        let b = gen_seq(t, &x, c.len);
        let mut a = f.params.clone();
        if f.variadic {
            a.push("...".into());
        }
        defs.push(Def::func(&f.name, &a, &b));
    }
    (env, defs)
}

pub fn gen_text(t: &mut Tape, env: &Env, c: &Cfg) -> Vec<String> {
    let c2 = Cfg { names: c.names * 2, ops: 0, ..c.clone() };
    let x = Ctx { env, c: &c2, params: &[], variadic: false, is_fn: false };
    let mut out = vec![];
    for _ in 0..1 + t.count(5) {
        gen_item(t, &x, 0, &mut out);
    }
    out
}

pub fn shuffle<T>(t: &mut Tape, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        // the simplest choice keeps the order
        let j = i - t.below(i + 1);
        v.swap(i, j);
    }
}

pub enum Verdict {
    Same,
    ModelErr(CppError),
    Skip(&'static str),
}

pub type Out = Result<Vec<String>, CppError>;
/// Runs both variants of the reference preprocessor; they differ only where the standard leaves the result unspecified.
pub fn models<'a>(tab: &'a Table, run: impl Fn(&mut Cpp<'a>) -> Out) -> (Cpp<'a>, [Out; 2]) {
    let mut m = Cpp::new(tab);
    let a = run(&mut m);
    let b = run(&mut Cpp::with_contexts(tab));
    (m, [a, b])
}

/// Compares one expansion with the model's.
pub fn compare(
    set: &MacroSet,
    model: [Out; 2],
    run: impl FnOnce(&MacroSet) -> Result<Vec<String>, ExpansionError>,
    what: &str,
) -> Result<Verdict, Fail> {
    for m in &model {
        match m {
            Err(CppError::TooBig) => return Ok(Verdict::Skip("too big")),
            Err(CppError::Unspecified(w)) => return Ok(Verdict::Skip(w)),
            _ => (),
        }
    }
    let [want, mut alt] = model;
    if want.is_err() != alt.is_err() {
        return Ok(Verdict::Skip("unspecified nesting, one reading is an error"));
    }
    if want == alt {
        alt = Err(CppError::TooBig);
    }
    let got = match guard(|| run(set)) {
        Ok(g) => g,
        Err(p) => return fail("panic", format!("{what}: {p}")),
    };
    match want {
        Err(e) => match got {
            Ok(g) => fail("missing-error", format!("{what}: C rejects this ({e:?}), the library yields {}", g.join(" "))),
            Err(_) => Ok(Verdict::ModelErr(e)),
        },
        Ok(w) => {
            let wc = canon_strs(&w);
            if wc.iter().any(|s| s.starts_with("invalid:")) {
                return match got {
                    Err(ExpansionError::InvalidToken(_) | ExpansionError::InvalidConcat) => Ok(Verdict::Same),
                    g => fail("invalid-token", format!("{what}: C yields `{}` with an unrepresentable token, the library {g:?}", w.join(" "))),
                };
            }
            match got {
                Ok(g) if g == wc => Ok(Verdict::Same),
                Ok(g) if alt.as_ref().map_or(false, |a| canon_strs(a) == g) => Ok(Verdict::Same),
                Ok(g) => fail("tokens", format!("{what}: expected `{}`, got `{}`", wc.join(" "), g.join(" "))),
                Err(e) => fail("error", format!("{what}: expected `{}`, got error {e:?}", wc.join(" "))),
            }
        }
    }
}

fn lib_expand(s: &MacroSet, text: &[String]) -> Result<Vec<String>, ExpansionError> {
    s.expand(text).map(|v| canon_all(&v))
}

fn check_text(cx: &mut Cx, defs: &[Def], text: &[String], order: &[Def]) -> Result<Option<Stat>, Fail> {
    let tab = table(defs);
    let set = build(order);
    let (m, want) = models(&tab, |m| m.expand_text(text));
    cx.set_desc(format!("{} | expand: {}", show_defs(order), text.join(" ")));
    let st = Stat { expansions: m.expansions, blocked: m.blocked, spanned: m.spanned, nested: m.nested_args, strs: m.stringified, pasted: m.pasted };
    match compare(&set, want, |s| lib_expand(s, text), "expand")? {
        Verdict::Same => Ok(Some(st)),
        Verdict::ModelErr(e) => {
            cx.class(format!("error:{}", format!("{e:?}").split(['(', ' ', '{']).next().unwrap()));
            Ok(None)
        }
        Verdict::Skip(w) => {
            cx.discarded = Some(w.into());
            Ok(None)
        }
    }
}
pub struct Stat {
    pub expansions: usize,
    pub blocked: usize,
    pub spanned: usize,
    pub nested: usize,
    pub strs: usize,
    pub pasted: usize,
}
fn stat_classes(cx: &mut Cx, s: &Stat) {
    for (n, v) in [("nested-argument", s.nested), ("blocked-name", s.blocked), ("call-spans-replacement-end", s.spanned), ("stringified", s.strs), ("pasted", s.pasted)] {
        if v > 0 {
            cx.class(n);
        }
    }
    cx.class(format!("expansions:{}", match s.expansions { 0 => "0", 1 => "1", 2..=3 => "2-3", 4..=9 => "4-9", _ => "10+" }));
}

// ---------------------------------------------------------------- sizes
/// A macro table and a text that are large in one respect: many parameters, a long chain of
/// definitions, deeply nested calls, long bodies or arguments.
fn large(t: &mut Tape, hash: bool, paste: bool, variadic: bool, cyclic: bool) -> (Vec<Def>, Vec<String>, &'static str) {
    let mut seed = t.below(1 << 16) as u64;
    let mut rnd = move |n: usize| -> usize {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((seed >> 33) as usize) % n
    };
    let mut defs = vec![Def::obj("A", &strs(&["1", "+", "q"])), Def::func("f", &strs(&["x"]), &strs(&["[", "x", "]"])), Def::func("k", &strs(&["x", "y"]), &strs(&["y"]))];
    let join = |args: Vec<Vec<String>>| -> Vec<String> { args.join(&",".to_string()) };
    match t.weighted(&[4, 2, 2, 2, 2, 2]) {
        0 => {
            let n = 5 + t.below(40);
            let params: Vec<String> = (0..n).map(|i| format!("a{i}")).collect();
            let mut body = vec![];
            for _ in 0..1 + t.below(2 * n) {
                let p = if variadic && rnd(5) == 0 { "__VA_ARGS__".to_string() } else { params[rnd(n)].clone() };
                match rnd(8) {
                    0 | 1 if hash => body.extend(strs(&["#", &p])),
                    2 | 3 if paste && p.starts_with('a') => body.extend(strs(&["w", "##", &p])),
                    4 if paste && p.starts_with('a') => body.extend(strs(&[&p, "##", &params[rnd(n)].clone()])),
                    5 => body.extend(strs(&["f", "(", &p, ")"])),
                    _ => body.push(p),
                }
                body.push(";".into());
            }
            let mut ps = params.clone();
            if variadic {
                ps.push("...".into());
            }
            defs.push(Def::func("F", &ps, &body));
            let given = if variadic { n + rnd(20) } else { n };
            let args = (0..given)
                .map(|i| match rnd(8) {
                    0 => strs(&["A"]),
                    1 => strs(&["f", "(", &format!("v{i}"), ")"]),
                    2 => strs(&["(", &format!("v{i}"), ",", "2", ")"]),
                    3 if !paste => vec![],
                    _ => vec![format!("v{i}")],
                })
                .collect();
            let text = [strs(&["F", "("]), join(args), strs(&[")"])].concat();
            (defs, text, "large:parameters")
        }
        1 => {
            // a chain of object-like macros, which may end at one of its own members
            let n = 5 + t.below(60);
            for i in 0..n {
                let mut b = vec![format!("c{}", i + 1)];
                match rnd(6) {
                    0 => b.insert(0, "A".into()),
                    1 => b.extend(strs(&["+", "A"])),
                    2 => b = strs(&["f", "(", &b[0], ")"]),
                    3 => b = strs(&["(", &b[0], ")"]),
                    _ => (),
                }
                defs.push(Def::obj(&format!("c{i}"), &b));
            }
            let end = if cyclic { strs(&[&format!("c{}", rnd(n + 1)), "f"]) } else { strs(&["1", "f"]) };
            defs.push(Def::obj(&format!("c{n}"), &end));
            (defs, strs(&["c0", "c1", "(", "2", ")"]), "large:chain")
        }
        2 => {
            // nested calls
            let n = 5 + t.below(45);
            defs.push(Def::func("g", &strs(&["x", "y"]), &strs(&if cyclic { ["x", "+", "y", "g"] } else { ["x", "+", "y", "h"] })));
            let mut text = strs(&["A"]);
            for i in 0..n {
                text = match rnd(4) {
                    0 => [strs(&["f", "("]), text, strs(&[")"])].concat(),
                    1 => [strs(&["g", "("]), text, strs(&[",", &format!("{i}"), ")"])].concat(),
                    2 => [strs(&["g", "(", &format!("{i}"), ","]), text, strs(&[")"])].concat(),
                    _ => [strs(&["("]), text, strs(&[",", "2", ")"])].concat(),
                };
            }
            if rnd(2) == 0 {
                defs.push(Def::obj("T", &text));
                text = strs(&["T"]);
            }
            (defs, text, "large:nested-calls")
        }
        3 => {
            // a chain of function-like macros passing their parameters on
            let n = 5 + t.below(40);
            let np = 1 + rnd(5);
            let ps: Vec<String> = (0..np).map(|i| format!("a{i}")).collect();
            for i in 0..=n {
                let mut b: Vec<Vec<String>> = (0..np).map(|_| vec![ps[rnd(np)].clone()]).collect();
                let last = i == n;
                if variadic && !last && rnd(2) == 0 {
                    b.push(strs(&["__VA_ARGS__"]));
                } else if variadic {
                    b.push(strs(&["1", ",", "2"]));
                }
                let mut body = if last { [strs(&["<"]), join(b), strs(&[">", "__VA_ARGS__"])].concat() } else { [strs(&[&format!("F{}", i + 1), "("]), join(b), strs(&[")"])].concat() };
                if last && !variadic {
                    body.pop();
                }
                if last && hash {
                    body.extend(strs(&["#", "a0"]));
                }
                if last && cyclic {
                    body.extend(strs(&[&format!("F{}", rnd(n)), "(", "1", ")"]));
                }
                let mut a = ps.clone();
                if variadic {
                    a.push("...".into());
                }
                defs.push(Def::func(&format!("F{i}"), &a, &body));
            }
            let mut args: Vec<Vec<String>> = (0..np).map(|i| if rnd(4) == 0 { strs(&["A"]) } else { vec![format!("v{i}")] }).collect();
            if variadic {
                args.push(strs(&["r1", ",", "r2"]));
            }
            (defs, [strs(&["F0", "("]), join(args), strs(&[")"])].concat(), "large:function-chain")
        }
        4 => {
            // a long body
            let n = 50 + t.below(400);
            let mut body = vec![];
            while body.len() < n {
                match rnd(9) {
                    0 => body.extend(strs(&["f", "(", "x", ")"])),
                    1 => body.push("A".into()),
                    2 => body.extend(strs(&["k", "(", "x", ",", "y", ")"])),
                    3 if hash => body.extend(strs(&["#", "x"])),
                    4 if paste => body.extend(strs(&["x", "##", "y"])),
                    5 if cyclic => body.push("F".into()),
                    6 => body.push("y".into()),
                    7 => body.push("x".into()),
                    _ => body.extend(strs(&["+", "p", "1"])),
                }
            }
            defs.push(Def::func("F", &strs(&["x", "y"]), &body));
            (defs, strs(&["F", "(", "u", ",", "v", ")"]), "large:body")
        }
        _ => {
            // long arguments, deep parentheses
            let n = 20 + t.below(100);
            let mut a = strs(&["A"]);
            for i in 0..n {
                match rnd(4) {
                    0 => a = [strs(&["("]), a, strs(&[")"])].concat(),
                    1 => a.extend(strs(&["+", &format!("v{i}")])),
                    2 => a = [strs(&["(", "a", ","]), a, strs(&[")"])].concat(),
                    _ => a.push(format!("w{i}")),
                }
            }
            let mut b = strs(&["x", "f", "(", "x", ")"]);
            if hash {
                b.extend(strs(&["#", "x"]));
            }
            if cyclic {
                b.extend(strs(&["F", "(", "x", ")"]));
            }
            defs.push(Def::func("F", &strs(&["x"]), &b));
            (defs, [strs(&["F", "("]), a, strs(&[")"])].concat(), "large:argument")
        }
    }
}
fn large_case(t: &mut Tape, cx: &mut Cx, hash: bool, paste: bool, variadic: bool, cyclic: bool) -> Res {
    let (defs, text, class) = large(t, hash, paste, variadic, cyclic);
    let mut order = defs.clone();
    if t.chance(1, 2) {
        order.reverse();
    }
    if let Some(s) = check_text(cx, &defs, &text, &order)? {
        cx.nontrivial = s.expansions >= 2 && (!hash || variadic || s.strs > 0) && (!paste || s.pasted > 0) && (!cyclic || s.blocked > 0);
        cx.class(class);
        stat_classes(cx, &s);
    }
    Ok(())
}

// ---------------------------------------------------------------- E01
fn e01(t: &mut Tape, cx: &mut Cx) -> Res {
    if t.chance(1, 60) {
        return large_case(t, cx, false, false, false, false);
    }
    let c = BASE;
    let (env, defs) = gen_table(t, &c);
    let mut order = defs.clone();
    shuffle(t, &mut order);
    let text = gen_text(t, &env, &c);
    if let Some(s) = check_text(cx, &defs, &text, &order)? {
        cx.nontrivial = s.expansions >= 2;
        stat_classes(cx, &s);
    }
    // object-like macros on their own
    let tab = table(&defs);
    let set = build(&order);
    for n in &env.objs {
        let (m, want) = models(&tab, |m| m.expand_name(n));
        compare(&set, want, |s| s.expand_var_macro(n).map(|v| canon_all(&v)), &format!("expand_var_macro({n})"))?;
    }
    Ok(())
}

// Exhaustive family: a call of f with every short argument text.
const ENUM_ARGS: &[&str] = &["", "1", "A", "( 1 , 2 )", "f ( 1 )", "g", "f", "A , 1", ", ", "[ , ]", "( A )", "g ( A )", "f ( f ( A ) )", "E", "{ 1 } , { 2 }"];
const ENUM_BODIES1: &[&str] = &["x", "x + x", "( x )", "g ( x )", "f ( x )", "x ( 1 )", "A", "g x", "g", "f", "x E ( 2 )", "g ( f ) ( x )", ""];
const ENUM_BODIES2: &[&str] = &["x", "f ( x )", "x + y", "y ( x )", "h ( y , x )", "f", "x y"];
const ENUM_TAILS: &[&str] = &["", "( 3 )", "E ( 3 )", "+ f ( 2 )", "( 3 ) ( 4 )"];
fn e01_count() -> usize {
    ENUM_ARGS.len() * ENUM_BODIES1.len() * ENUM_BODIES2.len() * ENUM_TAILS.len()
}
fn words(s: &str) -> Vec<String> {
    s.split_whitespace().map(|s| s.to_string()).collect()
}
fn e01_enum(i: usize, cx: &mut Cx) -> Res {
    let a = ENUM_ARGS[i % ENUM_ARGS.len()];
    let i = i / ENUM_ARGS.len();
    let b = ENUM_BODIES1[i % ENUM_BODIES1.len()];
    let i = i / ENUM_BODIES1.len();
    let b2 = ENUM_BODIES2[i % ENUM_BODIES2.len()];
    let i = i / ENUM_BODIES2.len();
    let tail = ENUM_TAILS[i];
    let two = a.split(' ').filter(|s| *s == ",").count() > 0 && (a == "A , 1" || a == ", " || a == "{ 1 } , { 2 }");
    let defs = vec![
        Def::obj("A", &words("g ( 7 )")),
        Def::obj("E", &[]),
        Def::func("f", &strs(&["x"]), &words(b)),
        Def::func("g", &strs(&["x"]), &words(&b2.replace('y', "x"))),
        Def::func("h", &strs(&["x", "y"]), &words(b2)),
    ];
    let text = words(&format!("{} ( {} ) {}", if two { "h" } else { "f" }, a, tail));
    if let Some(s) = check_text(cx, &defs, &text, &defs)? {
        cx.nontrivial = s.expansions >= 2;
        stat_classes(cx, &s);
    }
    Ok(())
}

// ---------------------------------------------------------------- E02
/// Bodies with unbalanced parentheses, so that argument lists reach across the ends of several replacements.
fn e02_unbalanced(t: &mut Tape, cx: &mut Cx) -> Res {
    let mut defs = vec![];
    let objs = ["A", "B", "C"];
    let fns: [(&str, &[&str]); 3] = [("h", &["x"]), ("k", &["x", "y"]), ("v", &["x", "..."])];
    let body = |t: &mut Tape, params: &[&str]| {
        let mut used = false;
        let mut b: Vec<String> = vec![];
        for _ in 0..t.range(1, 6) {
            match t.weighted(&[5, 5, 4, 5, 2, 2, 3]) {
                0 => b.push("(".into()),
                1 => b.push(")".into()),
                2 => b.push(t.pick_s(&objs)),
                3 => {
                    b.push(t.pick_s(&["h", "k", "v"]));
                    if t.chance(2, 3) {
                        b.push("(".into());
                    }
                }
                4 => b.push("1".into()),
                5 => b.push(",".into()),
                _ if !params.is_empty() && !used => {
                    used = true;
                    let p = t.pick_s(params);
                    b.push(if p == "..." { "__VA_ARGS__".into() } else { p });
                }
                _ => b.push("1".into()),
            }
        }
        b
    };
    for o in objs {
        let b = body(t, &[]);
        defs.push(Def::obj(o, &b));
    }
    for (n, p) in fns {
        let b = body(t, p);
        defs.push(Def::func(n, &strs(p), &b));
    }
    let text: Vec<String> = (0..t.range(1, 8)).map(|_| t.pick_s(&["A", "B", "C", "h", "k", "v", "(", ")", "(", ")", ",", "1"])).collect();
    cx.set_desc(format!("{} | terminates on: {}", show_defs(&defs), text.join(" ")));
    let set = build(&defs);
    cx.class("unbalanced");
    let mut n = 0;
    let r = guard(|| {
        n = set.expand(&text).map_or(0, |v| v.len());
        for o in objs {
            let _ = set.expand_var_macro(o);
        }
        for (f, _) in fns {
            let _ = set.expand_fn_macro(f);
        }
    });
    cx.nontrivial = n > text.len();
    r.or_else(|p| fail("panic", p))
}
fn e02(t: &mut Tape, cx: &mut Cx) -> Res {
    if t.chance(1, 60) {
        return large_case(t, cx, false, false, false, true);
    }
    if t.chance(1, 4) {
        return e02_unbalanced(t, cx);
    }
    let c = Cfg { names: 30, ops: 0, variadic: 5, partial: 1, len: 4, wrong_arity: 0, ..BASE };
    let (env, mut defs) = gen_table(t, &c);
    // force at least one cycle
    if let Some(d) = defs.first_mut() {
        let at = t.below(d.body.len() + 1).min(d.body.len());
        let n = d.name.clone();
        if d.args.is_none() {
            d.body.insert(at, n);
        }
    }
    let text = gen_text(t, &env, &c);
    if let Some(s) = check_text(cx, &defs, &text, &defs)? {
        cx.nontrivial = s.blocked >= 1;
        stat_classes(cx, &s);
    }
    let set = build(&defs);
    let tab = table(&defs);
    for n in &env.objs {
        let (m, want) = models(&tab, |m| m.expand_name(n));
        cx.nontrivial |= m.blocked >= 1;
        compare(&set, want, |s| s.expand_var_macro(n).map(|v| canon_all(&v)), &format!("expand_var_macro({n})"))?;
    }
    for f in &env.fns {
        // the template of a recursive macro: termination only (the values are E06's)
        if let Err(p) = guard(|| set.expand_fn_macro(&f.name).is_ok()) {
            return fail("panic", p);
        }
    }
    Ok(())
}
// Every object-like definition graph over three names with bodies of up to two tokens,
// and every small function-like graph.
const OB: &[&str] = &["A", "B", "C", "q"];
fn obj_body(i: usize) -> Vec<String> {
    if i == 0 {
        vec![]
    } else if i <= 4 {
        strs(&[OB[i - 1]])
    } else {
        strs(&[OB[(i - 5) / 4], OB[(i - 5) % 4]])
    }
}
const FB: &[&str] = &["x", "f ( x )", "g ( x )", "f", "g", "g ( f ( x ) )", "f ( g ( x ) )", "x ( 1 )", "f x", "g ( f ) ( x )", "x + f ( x ) + g", "A"];
const FO: &[&str] = &["f", "g", "f ( A )", "f ( 2 )", "A", "g ( f ) ( A )"];
const FT: &[&str] = &["f ( 1 )", "g ( f ( 1 ) )", "f ( f ) ( 1 )", "f ( g ) ( 2 ) ( 3 )", "A ( 1 )", "f ( 1 ) ( 2 )", "g ( A ) ( A )", "A", "f ( f ( f ( 1 ) ) )", "f ( A ( g ) )"];
fn e02_count() -> usize {
    21 * 21 * 21 + FB.len() * FB.len() * FO.len() * FT.len()
}
fn e02_enum(i: usize, cx: &mut Cx) -> Res {
    if i < 9261 {
        let defs = vec![Def::obj("A", &obj_body(i % 21)), Def::obj("B", &obj_body(i / 21 % 21)), Def::obj("C", &obj_body(i / 441))];
        let set = build(&defs);
        let tab = table(&defs);
        cx.set_desc(show_defs(&defs));
        for n in ["A", "B", "C"] {
            let (m, want) = models(&tab, |m| m.expand_name(n));
            cx.nontrivial |= m.blocked > 0;
            compare(&set, want, |s| s.expand_var_macro(n).map(|v| canon_all(&v)), &format!("expand_var_macro({n})"))?;
        }
        let text = strs(&["A", "B", "C", "A"]);
        let (m, want) = models(&tab, |m| m.expand_text(&text));
        compare(&set, want, |s| lib_expand(s, &text), "expand A B C A")?;
        cx.class("graph:objects");
        return Ok(());
    }
    let i = i - 9261;
    let n = FB.len();
    let (a, b) = (FB[i % n], FB[i / n % n]);
    let i = i / n / n;
    let (o, x) = (FO[i % FO.len()], FT[i / FO.len()]);
    let defs = vec![Def::func("f", &strs(&["x"]), &words(a)), Def::func("g", &strs(&["x"]), &words(b)), Def::obj("A", &words(o))];
    cx.class("graph:functions");
    if let Some(s) = check_text(cx, &defs, &words(x), &defs)? {
        cx.nontrivial = s.blocked > 0;
    }
    Ok(())
}

// ---------------------------------------------------------------- E03
const STR_TOKS: &[&str] = &[
    "a", "A", "1", "+", "(", ",", "\"s\"", "'c'", "\"a\\n\"", "\"\\\"q\\\"\"", "'\\''", "'\"'", "\"\\\\\"", "B", "f", "->", "0x1f", "1.5e3", "L\"w\"", "u8\"v\"", "==", "[", "{", "h1", "\"\"", "u'\\\\'",
    "\"it's\"", "\"tab\\t\"", "\"\\x41\"", "\"\\0\"", "?", ";", "#", "##", "'\\0'", "\"é\"", "é", "e\u{301}", "x", "<<=", "&&", "sizeof", "\"??\"", "\"/* no */\"", "...", "%", "1u",
];
fn gen_str_arg(t: &mut Tape, commas: bool) -> Vec<String> {
    fn rec(t: &mut Tape, out: &mut Vec<String>, depth: usize, commas: bool) {
        let s = if t.chance(1, 4) { t.pick_s(cpp::PUNCTS) } else { t.pick_s(STR_TOKS) };
        match s.as_str() {
            "(" | "[" | "{" => {
                let c = match s.as_str() {
                    "(" => ")",
                    "[" => "]",
                    _ => "}",
                };
                out.push(s);
                if depth < 2 {
                    for _ in 0..t.count(4) {
                        rec(t, out, depth + 1, true);
                    }
                }
                out.push(c.into());
            }
            "," if !commas => out.push("a".into()),
            ")" | "]" | "}" | "%:" | "%:%:" => out.push("-".into()),
            _ => out.push(s),
        }
    }
    let mut out = vec![];
    for _ in 0..t.count(6) {
        rec(t, &mut out, 0, commas);
    }
    // `.` sequences would make re-lexing the produced spelling ambiguous
    out.dedup_by(|a, b| a == "..." && b == "...");
    for i in 0..out.len() {
        let number = |s: Option<&String>| s.map_or(false, |s| s.starts_with(|c: char| c == '.' || c.is_ascii_digit()));
        if out[i] == "." && (number(out.get(i + 1)) || number(i.checked_sub(1).and_then(|i| out.get(i)))) {
            out[i] = "-".into();
        }
    }
    out
}
fn e03(t: &mut Tape, cx: &mut Cx) -> Res {
    if t.chance(1, 60) {
        let v = t.chance(1, 2);
        return large_case(t, cx, true, false, v, false);
    }
    let bodies: &[&str] = &[
        "# x", "# x # y", "x # x x", "p ( # x , y )", "L ## # x", "u8 ## # x", "# x \"t\"", "T ( # x )", "T ( x )", "[ # y ] # x", "# x , # x", "u ## # y x", "p # x ## _Q", "V ( x , # y )", "U ## # x # y",
    ];
    let va_bodies: &[&str] = &["# __VA_ARGS__", "p # __VA_ARGS__ # x", "L ## # __VA_ARGS__", "T ( __VA_ARGS__ )", "V ( __VA_ARGS__ )", "V ( # x , __VA_ARGS__ )", "# __VA_ARGS__ __VA_ARGS__"];
    let variadic = t.chance(1, 3);
    let b = if variadic { t.pick_s(va_bodies) } else { t.pick_s(bodies) };
    let defs = vec![
        if variadic { Def::func("S", &strs(&["x", "..."]), &words(&b)) } else { Def::func("S", &strs(&["x", "y"]), &words(&b)) },
        Def::func("T", &strs(&["x"]), &strs(&["#", "x"])),
        Def::func("V", &strs(&["..."]), &strs(&["#", "__VA_ARGS__"])),
        Def::obj("A", &strs(&["1", "+", "B"])),
        Def::obj("B", &strs(&["\"b\\n\""])),
        Def::func("f", &strs(&["x"]), &strs(&["x", "x"])),
        Def::func("I", &strs(&["x"]), &strs(&["x"])),
    ];
    let mut text = strs(&["S", "("]);
    let n = if variadic { 1 + t.below(4) } else { 2 };
    let mut empties = 0;
    for i in 0..n {
        if i > 0 {
            text.push(",".into());
        }
        let a = gen_str_arg(t, false);
        empties += a.is_empty() as usize;
        text.extend(a);
    }
    text.push(")".into());
    if t.chance(1, 4) {
        text.insert(0, "(".into());
        text.insert(0, "I".into());
        text.push(")".into());
    }
    if let Some(s) = check_text(cx, &defs, &text, &defs)? {
        cx.nontrivial = s.strs > 0 && text.len() > 6;
        if empties > 0 {
            cx.class("empty-argument");
        }
        if variadic {
            cx.class("variadic");
        }
        if text.iter().any(|s| s.contains('"') || s.contains('\'')) {
            cx.class("literal-in-argument");
        }
        if s.strs > 1 {
            cx.class("several-stringifications");
        }
        if s.pasted > 0 {
            cx.class("pasted-with-prefix");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- E04
const PASTE_TOKS: &[&str] = &[
    "a", "B", "1", "2u", "u8", "L", "u", "U", "\"s\"", "'c'", "0x1f", "x9", "_", "e5", "1e", "1.5", ".5", "123e4", "07", "u8\"v\"", "L'w'", "\"\\xff\"", "\"\\u00e9\"", "'\\xff'", "é", "\"a\\n\"", "9_x", "1.",
    "LL", "f", "e", "1.5e", "0b1", "'\\377'", "u8'c'", "\"é\"", "'猫'", "\"\\x80\"",
];
fn paste_tok(i: usize) -> &'static str {
    if i < cpp::PUNCTS.len() {
        cpp::PUNCTS[i]
    } else {
        PASTE_TOKS[i - cpp::PUNCTS.len()]
    }
}
fn e04_count() -> usize {
    let n = cpp::PUNCTS.len() + PASTE_TOKS.len();
    n * n * 3
}
/// Empty and over-long character constants are preprocessing tokens of C but not literals.
fn e04_enum(i: usize, cx: &mut Cx) -> Res {
    let n = cpp::PUNCTS.len() + PASTE_TOKS.len();
    let (form, a, b) = (i / (n * n), paste_tok(i / n % n), paste_tok(i % n));
    let defs = vec![
        Def::func("CAT", &strs(&["x", "y"]), &strs(&["x", "##", "y"])),
        Def::obj("M", &strs(&[a, "##", b])),
        Def::obj("aB", &strs(&["7"])),
        Def::obj("a", &strs(&["bad"])),
        Def::obj("B", &strs(&["bad"])),
        Def::func("LEFT", &strs(&["x"]), &strs(&["x", "##", b])),
    ];
    let text = match form {
        0 => strs(&["M"]),
        1 => strs(&["CAT", "(", a, ",", b, ")"]),
        _ => strs(&["LEFT", "(", a, ")"]),
    };
    if form > 0 && [a, b].iter().any(|s| ["(", ")", "[", "]", "{", "}", ","].contains(s)) {
        return cx.discard("a bracket or comma cannot be an argument");
    }
    if b == "##" || (form == 0 && a == "##") || (form == 2 && b == "#") || (form == 0 && a == "#" && false) {
        return cx.discard("an operator, not an operand");
    }
    if let Some(s) = check_text(cx, &defs, &text, &defs)? {
        cx.nontrivial = s.pasted > 0;
        cx.class("forms a token");
    } else {
        cx.nontrivial = true;
    }
    Ok(())
}
fn e04(t: &mut Tape, cx: &mut Cx) -> Res {
    if t.chance(1, 60) {
        return large_case(t, cx, false, true, false, false);
    }
    // chains of pastes between parameters, macro names and plain tokens
    let frag: &[&str] = &["a", "b", "1", "2", "_", "A", "B", "f", "x1", "L", "e3", "9", "é"];
    let np = 1 + t.count(3);
    let params: Vec<String> = PARAMS[..np].iter().map(|s| s.to_string()).collect();
    let variadic = t.chance(1, 6);
    let mut body = vec![];
    let mut chains = 0;
    for _ in 0..1 + t.count(3) {
        let n = 1 + t.count(4);
        chains = chains.max(n - 1);
        for j in 0..n {
            if j > 0 {
                body.push("##".to_string());
            }
            if t.chance(3, 5) {
                let mut p = t.pick(&params).clone();
                if variadic && t.chance(1, 4) {
                    p = "__VA_ARGS__".into();
                }
                if t.chance(1, 12) {
                    body.push("#".into());
                }
                body.push(p);
            } else {
                body.push(t.pick_s(frag));
            }
        }
        if t.chance(1, 3) {
            body.push(t.pick_s(&["+", "(", ")", "-", "p"]));
        }
    }
    let mut a = params.clone();
    if variadic {
        a.push("...".into());
    }
    let defs = vec![
        Def::func("P", &a, &body),
        Def::func("I", &strs(&["x"]), &strs(&["x"])),
        Def::obj("A", &strs(&["1"])),
        Def::obj("B", &strs(&["b"])),
        Def::obj("AB", &strs(&["ok", "AB"])),
        Def::obj("ab", &strs(&["A", "##", "B", "+", "A"])),
        Def::func("f1", &strs(&["x"]), &strs(&["<", "x", ">"])),
        Def::func("ff", &strs(&["x"]), &strs(&["{", "x", "}"])),
        Def::obj("a1", &strs(&["f", "##", "f"])),
        Def::obj("LL", &strs(&["L", "##", "\"w\""])),
        Def::obj("P1", &strs(&["P"])),
    ];
    let mut text = strs(&["P", "("]);
    let n = np + if variadic { t.below(3) } else { 0 };
    let mut empty = false;
    for i in 0..n {
        if i > 0 {
            text.push(",".into());
        }
        let k = t.weighted(&[3, 8, 2]);
        empty |= k == 0;
        for _ in 0..k {
            if t.chance(1, 8) {
                text.extend(strs(&["(", "A", ",", "1", ")"]));
            } else {
                text.push(t.pick_s(frag));
            }
        }
    }
    text.push(")".into());
    if t.chance(1, 3) {
        text.extend(strs(&["(", "2", ")"]));
    }
    if t.chance(1, 4) {
        text.insert(0, "(".into());
        text.insert(0, "I".into());
        text.push(")".into());
    }
    if let Some(s) = check_text(cx, &defs, &text, &defs)? {
        cx.nontrivial = s.pasted > 0;
        if empty {
            cx.class("empty-operand");
        }
        if chains > 1 {
            cx.class("chain");
        }
        if s.expansions > 1 {
            cx.class("rescanned-result-expands");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- E05
fn e05(t: &mut Tape, cx: &mut Cx) -> Res {
    if t.chance(1, 60) {
        let h = t.chance(1, 2);
        return large_case(t, cx, h, false, true, false);
    }
    let np = t.count(4);
    let params: Vec<String> = PARAMS[..np].iter().map(|s| s.to_string()).collect();
    let body_tok: &[&str] = &["__VA_ARGS__", "x", "y", "z", "( __VA_ARGS__ )", "G ( __VA_ARGS__ )", "H ( __VA_ARGS__ )", "p", ",", "A", "[ __VA_ARGS__ ]", "# __VA_ARGS__", "G ( x , __VA_ARGS__ )", "R ( __VA_ARGS__ , __VA_ARGS__ )", "+", "I ( __VA_ARGS__ )", "G ( __VA_ARGS__ , x )", "q ## __VA_ARGS__", "__VA_ARGS__ ## w"];
    let mut body = vec![];
    for _ in 0..1 + t.count(5) {
        body.extend(words(body_tok[t.below(body_tok.len())]));
    }
    let mut args = params.clone();
    args.push("...".into());
    let nested_np = t.count(3);
    let mut ga: Vec<String> = ["a", "b", "c1", "d1", "e1", "f1", "g1", "h1", "i1"][..nested_np].iter().map(|s| s.to_string()).collect();
    ga.push("...".into());
    let gb: &[&str] = &["< __VA_ARGS__ >", "a b __VA_ARGS__", "# __VA_ARGS__", "__VA_ARGS__ ; a", "b ( __VA_ARGS__ ) a", "R ( __VA_ARGS__ )"];
    let defs = vec![
        Def::func("V", &args, &body),
        Def::func("G", &ga, &words(gb[t.below(gb.len())])),
        Def::func("H", &strs(&["a", "b"]), &strs(&["b", "-", "a"])),
        Def::func("R", &strs(&["..."]), &strs(&["{", "__VA_ARGS__", "}"])),
        Def::func("I", &strs(&["..."]), &strs(&["__VA_ARGS__"])),
        Def::obj("A", &strs(&["1", ",", "2"])),
    ];
    let n = if np > 0 && t.chance(1, 30) { t.below(np) } else { np + t.below(6) };
    let mut text = strs(&["V", "("]);
    for i in 0..n {
        if i > 0 {
            text.push(",".into());
        }
        match t.weighted(&[2, 6, 2, 2, 1]) {
            0 => (),
            1 => text.push(format!("v{i}")),
            2 => text.extend(words("( a , b )")),
            3 => text.push("A".into()),
            _ => text.extend(words("H ( 1 , 2 )")),
        }
    }
    text.push(")".into());
    if let Some(s) = check_text(cx, &defs, &text, &defs)? {
        cx.nontrivial = n >= 1 && body.iter().any(|s| s == "__VA_ARGS__");
        cx.class(format!("extra-arguments:{}", (n.max(np) - np).min(4)));
        cx.class(format!("named:{np}"));
        if s.expansions > 1 {
            cx.class("forwarded");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- E06
/// The index of a parameter reference in a template (its accessor is not public).
fn arg_index(t: &MacroToken) -> Option<usize> {
    match t {
        MacroToken::Arg(a) => {
            let s = format!("{a:?}");
            s.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().ok()
        }
        _ => None,
    }
}
fn e06(t: &mut Tape, cx: &mut Cx) -> Res {
    // nested helper macros
    let np = if t.chance(1, 40) { 10 + t.below(40) } else { t.count(4) };
    let params: Vec<String> = if np > PARAMS.len() { (0..np).map(|i| format!("p{i}")).collect() } else { PARAMS[..np].iter().map(|s| s.to_string()).collect() };
    let variadic = t.chance(1, 4);
    let deferred = std::cell::Cell::new(false);
    let item = |t: &mut Tape, depth: usize, ps: &[String], va: bool| -> Vec<String> {
        fn rec(t: &mut Tape, depth: usize, ps: &[String], va: bool, in_call: bool, deferred: &std::cell::Cell<bool>, out: &mut Vec<String>) {
            let p = |t: &mut Tape| if ps.is_empty() { t.pick_s(&["p", "7"]) } else { t.pick(ps).clone() };
            let k = t.weighted(&[4, 8, 2, if depth < 3 { 3 } else { 0 }, if depth < 3 { 3 } else { 0 }, 1, 1, if va { 3 } else { 0 }, if depth < 3 { 2 } else { 0 }, if va { 1 } else { 0 }, 2, if depth < 3 { 2 } else { 0 }]);
            if in_call && !matches!(k, 0 | 1 | 2 | 7 | 8) {
                deferred.set(true);
            }
            match k {
                0 => out.push(t.pick_s(&["+", "p", "1", "-", "\"s\"", "q"])),
                1 => {
                    let x = p(t);
                    out.push(x)
                }
                2 => out.push(t.pick_s(&["O1", "O2"])),
                3 => {
                    out.extend(strs(&["ONE", "("]));
                    rec(t, depth + 1, ps, va, true, deferred, out);
                    out.push(")".into());
                }
                4 => {
                    out.extend(strs(&["TWO", "("]));
                    rec(t, depth + 1, ps, va, true, deferred, out);
                    out.push(",".into());
                    rec(t, depth + 1, ps, va, true, deferred, out);
                    out.push(")".into());
                }
                5 => {
                    if ps.is_empty() {
                        out.push("p".into());
                    } else {
                        out.push("#".into());
                        let x = p(t);
                        out.push(x);
                    }
                }
                6 => {
                    out.push("id_".into());
                    out.push("##".into());
                    let x = p(t);
                    out.push(x);
                }
                7 => out.push("__VA_ARGS__".into()),
                8 => {
                    out.push("(".into());
                    rec(t, depth + 1, ps, va, in_call, deferred, out);
                    rec(t, depth + 1, ps, va, in_call, deferred, out);
                    out.push(")".into());
                }
                9 => {
                    let f = t.pick_s(&["ALL", "STRV"]);
                    out.extend(strs(&[&f, "(", "__VA_ARGS__", ")"]))
                }
                10 => {
                    let x = p(t);
                    out.extend(strs(&["STR", "(", &x, ")"]));
                }
                _ => {
                    let x = p(t);
                    let y = p(t);
                    out.extend(strs(&["GLUE", "(", "w", ",", &x, ")", "STR", "(", &y, "+", &x, ")"]));
                }
            }
        }
        let mut out = vec![];
        for _ in 0..1 + t.count(4) {
            rec(t, depth, ps, va, false, &deferred, &mut out);
        }
        out
    };
    let body = item(t, 0, &params, variadic);
    let one = item(t, 2, &strs(&["a"]), false);
    let two = item(t, 2, &strs(&["b", "a"]), false);
    let mut args: Vec<String> = vec![];
    let mut comments = false;
    for p in &params {
        if t.chance(1, 6) {
            args.push("/* c */".into());
            comments = true;
        }
        args.push(p.clone());
    }
    if variadic {
        args.push("...".into());
    }
    if t.chance(1, 6) {
        args.push("/* end */".into());
        comments = true;
    }
    let defs = vec![
        Def::func("F", &args, &body),
        Def::func("ONE", &strs(&["a"]), &one),
        Def::func("TWO", &strs(&["b", "a"]), &two),
        Def::func("STR", &strs(&["s"]), &strs(&["#", "s"])),
        Def::func("GLUE", &strs(&["l", "r"]), &strs(&["l", "##", "r"])),
        Def::func("ALL", &strs(&["..."]), &strs(&["<", "__VA_ARGS__", ">"])),
        Def::func("STRV", &strs(&["..."]), &strs(&["#", "__VA_ARGS__"])),
        Def::obj("O1", &strs(&["ONE", "(", "5", ")"])),
        Def::obj("O2", &strs(&["q", "O2", "r"])),
    ];
    // arguments that are not macros and whose pastes are not either
    let n = np + if variadic { 1 + t.below(3) } else { 0 };
    let argv: Vec<Vec<String>> = (0..n)
        .map(|i| {
            let lead = format!("v{i}");
            match t.weighted(&[6, 1, 1]) {
                0 => vec![lead],
                1 => vec![lead, "+".into(), "2".into()],
                _ => strs(&[&lead, "(", "c", ",", "d", ")"]),
            }
        })
        .collect();
    let mut call = strs(&["F", "("]);
    for (i, a) in argv.iter().enumerate() {
        if i > 0 {
            call.push(",".into());
        }
        call.extend(a.clone());
    }
    call.push(")".into());
    let set = build(&defs);
    cx.set_desc(format!("{} | template of F against: {}", show_defs(&defs), call.join(" ")));
    let tab = table(&defs);
    let (m, [want, alt]) = models(&tab, |m| m.expand_text(&call));
    let want = match want {
        Ok(w) if alt.as_ref() == Ok(&w) => w,
        Ok(_) => return cx.discard("unspecified nesting"),
        Err(_) => return cx.discard("the call is not valid"),
    };
    let r = match guard(|| set.expand_fn_macro("F")) {
        Ok(r) => r,
        Err(p) => return fail("panic", p),
    };
    let (targs, tbody) = match r {
        Ok(x) => x,
        // the text of a # or ## whose operand is not known yet cannot be part of a template
        Err(ExpansionError::StringifyNonArgument) if deferred.get() => return cx.discard("stringifies an operator of the enclosing macro"),
        Err(e) => return fail("template-error", format!("the call expands to `{}` but the template is refused: {e:?}", want.join(" "))),
    };
    // The template as a macro of its own, in an otherwise empty table.
    let names = canon_all(&targs);
    let mut expect = params.clone();
    if variadic {
        expect.push("...".into());
    }
    if names != expect {
        return fail("params", format!("returned parameters {names:?}, defined {expect:?}"));
    }
    let mut tb: Vec<String> = vec![];
    for tk in &tbody {
        if let Some(i) = arg_index(tk) {
            match names.get(i).map(|s| s.as_str()) {
                None => return fail("index", format!("parameter index {i} in the template body is out of range ({names:?})")),
                Some("...") => tb.push("__VA_ARGS__".into()),
                Some(s) => tb.push(format!("PARAM_{s}")),
            }
        } else {
            match tk {
                MacroToken::Comment(_) => (),
                MacroToken::Lit(l) => tb.push(spell_lit(l)),
                k => tb.push(canon(k).unwrap()),
            }
        }
    }
    let mut tt = Table::new();
    tt.insert("F".into(), Macro::Fn { params: params.iter().map(|p| format!("PARAM_{p}")).collect(), variadic, body: tb.clone() });
    let mut m2 = Cpp::new(&tt);
    let got = match m2.expand_text(&call) {
        Ok(g) => g,
        Err(e) => return fail("template-invalid", format!("template `{}` cannot be instantiated: {e:?}", tb.join(" "))),
    };
    let (w, g) = (merge_strs(canon_strs(&want)), merge_strs(canon_strs(&got)));
    if w != g {
        return fail("template", format!("template `{}`: call gives `{}`, instantiated template gives `{}`", tb.join(" "), w.join(" "), g.join(" ")));
    }
    cx.nontrivial = n > 0 && m.expansions > 1;
    if comments {
        cx.class("comments-in-parameters");
    }
    if variadic {
        cx.class("variadic");
    }
    if m.expansions > 1 {
        cx.class("nested");
    }
    if m.stringified > 0 {
        cx.class("stringified");
    }
    if m.pasted > 0 {
        cx.class("pasted");
    }
    Ok(())
}
/// A spelling that reads back as the same literal (only literals the generator uses).
fn spell_lit(l: &cmacro::Lit) -> String {
    match l {
        cmacro::Lit::Int(i) => format!("{}", i.value),
        cmacro::Lit::String(cmacro::LitString::Ordinary(b)) => {
            format!("\"{}\"", String::from_utf8_lossy(b).replace('\\', "\\\\").replace('"', "\\\""))
        }
        l => format!("{l:?}"),
    }
}

// ---------------------------------------------------------------- E07
fn norm_body(b: &[String]) -> Vec<String> {
    b.iter().filter(|s| !s.trim().is_empty() && cpp::kind(s.trim()) != cpp::K::Comment && !s.trim().starts_with("//")).cloned().collect()
}
fn same(a: &Def, b: &Def) -> bool {
    match (&a.args, &b.args) {
        (None, None) => norm_body(&a.body) == norm_body(&b.body),
        (Some(x), Some(y)) => norm_body(x) == norm_body(y) && norm_body(&a.body) == norm_body(&b.body),
        _ => false,
    }
}
fn e07(t: &mut Tape, cx: &mut Cx) -> Res {
    let mut set = MacroSet::new();
    let mut cur: std::collections::BTreeMap<String, Def> = Default::default();
    let names = ["A", "B", "f"];
    let bodies: &[&[&str]] = &[&["1"], &["1", "+"], &["1", "+", "2"], &[], &["A"], &["B", "x"], &["f", "(", "1", ")"], &["x"], &["x", "y"], &["x", "+", "x"], &["1", "+", "3"], &["B"]];
    let plists: &[&[&str]] = &[&["x"], &[], &["x", "y"], &["y"], &["x", "..."], &["..."], &["y", "x"]];
    let n = 2 + t.below(14);
    let mut hist = vec![];
    let (mut redefs, mut undefs) = (0, 0);
    let mut snapshots: Vec<(MacroSet, std::collections::BTreeMap<String, Def>)> = vec![];
    for _ in 0..n {
        let name = t.pick_s(&names);
        match t.weighted(&[6, 6, 2, 2, 2, 1]) {
            k @ (0 | 1) => {
                let mut body = strs(bodies[t.below(bodies.len())]);
                let mut args = if k == 1 { Some(strs(plists[t.below(plists.len())])) } else { None };
                if t.chance(1, 3) {
                    // repeat the current definition, possibly respaced
                    if let Some(d) = cur.get(&name) {
                        body = norm_body(&d.body);
                        args = d.args.as_ref().map(|a| norm_body(a));
                    }
                }
                if t.chance(1, 4) {
                    let ws = t.pick_s(&["/* c */", " ", "// d", "\t", "", "/**/", "/* \n */"]);
                    let at = t.below(body.len() + 1);
                    body.insert(at, ws);
                }
                if args.is_some() && t.chance(1, 8) {
                    let a = args.as_mut().unwrap();
                    let at = t.below(a.len() + 1);
                    a.insert(at, t.pick_s(&["/* p */", "/**/"]));
                }
                let d = Def { name: name.clone(), args, body };
                let want = cur.get(&name).map_or(false, |o| !same(o, &d));
                redefs += cur.contains_key(&name) as usize;
                hist.push(d.show());
                let got = d.apply(&mut set);
                if got != want {
                    cx.set_desc(hist.join(" ; "));
                    return fail("redefined", format!("`{}` reported redefined={got}, current definition was {:?}", d.show(), cur.get(&name).map(|d| d.show())));
                }
                cur.insert(name, d);
            }
            2 | 3 => {
                let var = t.chance(1, 2);
                hist.push(format!("#undef[{}] {name}", if var { "var" } else { "fn" }));
                let want = cur.get(&name).map_or(false, |d| d.args.is_none() == var);
                let got = if var { set.undefine_var_macro(&name) } else { set.undefine_fn_macro(&name) };
                if got != want {
                    cx.set_desc(hist.join(" ; "));
                    return fail("undefined", format!("undefine reported {got}, expected {want}"));
                }
                if want {
                    cur.remove(&name);
                    undefs += 1;
                }
            }
            4 => {
                snapshots.push((set.clone(), cur.clone()));
                hist.push("clone".into());
            }
            _ => {
                hist.push("expand".into());
                let _ = guard(|| set.expand_var_macro("A").is_ok());
            }
        }
    }
    snapshots.push((set, cur));
    cx.set_desc(hist.join(" ; "));
    for (set, cur) in &snapshots {
        let clean: Vec<Def> = cur.values().map(|d| Def { name: d.name.clone(), args: d.args.as_ref().map(|a| norm_body(a)), body: norm_body(&d.body) }).collect();
        // `//` comments and blank tokens are not representable in an expansion; skip those sets
        let dirty = cur.values().any(|d| d.body.iter().chain(d.args.iter().flatten()).any(|s| s.trim().is_empty() || s.starts_with("//")));
        let tab = table(&clean);
        for name in names {
            let v = match guard(|| set.expand_var_macro(name).map(|_| ())) {
                Ok(v) => v,
                Err(p) => return fail("panic", p),
            };
            let f = match guard(|| set.expand_fn_macro(name).map(|_| ())) {
                Ok(v) => v,
                Err(p) => return fail("panic", p),
            };
            let is_v = cur.get(name).map_or(false, |d| d.args.is_none());
            let is_f = cur.get(name).map_or(false, |d| d.args.is_some());
            if (v != Err(ExpansionError::MacroNotFound)) != is_v || (f != Err(ExpansionError::MacroNotFound)) != is_f {
                return fail("kinds", format!("{name}: current definition {:?}, expand_var_macro {v:?}, expand_fn_macro {f:?}", cur.get(name).map(|d| d.show())));
            }
        }
        if dirty {
            continue;
        }
        for text in [&["A", "B", "f"][..], &["f", "(", "A", ")", "B"], &["A", "(", "1", ",", "B", ")", "f", "(", "2", ",", "3", ")"], &["B", "(", ")"]] {
            let text = strs(text);
            let (m, want) = models(&tab, |m| m.expand_text(&text));
            compare(set, want, |s| lib_expand(s, &text), &format!("expand `{}`", text.join(" ")))?;
        }
    }
    cx.nontrivial = redefs > 0;
    if undefs > 0 {
        cx.class("undefined");
    }
    if snapshots.len() > 1 {
        cx.class("cloned");
    }
    cx.class(format!("redefinitions:{}", redefs.min(5)));
    Ok(())
}

// ---------------------------------------------------------------- E08
fn e08(t: &mut Tape, cx: &mut Cx) -> Res {
    use ExpansionError as X;
    let mut defs: Vec<Def> = vec![Def::obj("A", &strs(&["1"])), Def::func("f", &strs(&["x"]), &strs(&["(", "x", ")"])), Def::func("f2", &strs(&["x", "y"]), &strs(&["x", "-", "y"])), Def::func("f0", &[], &strs(&["0"]))];
    let toks: &[&str] = &["1", "p", "+", "A", "f ( 1 )", "\"s\"", "( 2 )", "/* c */", "q", "f2 ( 1 , A )", "f0 ( )"];
    let filler = |t: &mut Tape, max: usize| -> Vec<String> {
        let mut v = vec![];
        for _ in 0..t.below(max + 1) {
            v.extend(words_c(toks[t.below(toks.len())]));
        }
        v
    };
    let pre = filler(t, 3);
    let post = filler(t, 3);
    let join = |a: &[String], m: &[&str], b: &[String]| -> Vec<String> { [a.to_vec(), strs(m), b.to_vec()].concat() };
    let nocomment = |v: &[String]| v.iter().all(|s| !s.starts_with("/*"));
    let kind = t.below(12);
    // (definition, expected error, how it is reached)
    let mut by_call: Option<Vec<String>> = None;
    let expected: X;
    let target;
    match kind {
        0 => {
            // leading ##, only comments before it
            let lead: Vec<String> = if t.chance(1, 3) { strs(&["/* a */"]) } else { vec![] };
            let is_fn = t.chance(1, 3);
            let b = join(&lead, &["##", "b"], &post);
            target = if is_fn { Def::func("T", &strs(&["x"]), &b) } else { Def::obj("T", &b) };
            expected = X::ConcatBegin;
        }
        1 => {
            let tail: Vec<String> = if t.chance(1, 3) { strs(&["/* a */"]) } else { vec![] };
            let b = join(&pre, &["b", "##"], &tail);
            target = if t.chance(1, 3) { Def::func("T", &strs(&["x"]), &b) } else { Def::obj("T", &b) };
            expected = X::ConcatEnd;
        }
        2 => {
            // wrong arity in a nested call
            let arity = t.below(4);
            let params: Vec<String> = PARAMS[..arity].iter().map(|s| s.to_string()).collect();
            let mut given = t.below(6);
            if given == arity {
                given += 1 + t.below(2);
            }
            if given == 0 {
                // an empty list is one empty argument
                given = if arity == 1 { 2 } else { 1 };
            }
            if arity == 0 && given == 1 {
                given = 2;
            }
            defs.push(Def::func("W", &params, &strs(&["r"])));
            let empty = t.chance(1, 4) && given > 1;
            let mut call = strs(&["W", "("]);
            for i in 0..given {
                if i > 0 {
                    call.push(",".into());
                }
                // arity 0 with a single argument needs that argument to be non-empty
                if !empty {
                    call.extend(words(t.pick(&["1", "p", "( 1 , 2 )", "A"])));
                }
            }
            call.push(")".into());
            if given == 1 && empty {
                call = strs(&["W", "(", ")"]);
            }
            let c: Vec<&str> = call.iter().map(|s| s.as_str()).collect();
            target = Def::obj("T", &join(&pre, &c, &post));
            expected = X::FnMacroArgumentError { name: "W".into(), required: arity, given };
        }
        3 => {
            let ps = [vec!["x", "x"], vec!["x", "y", "x"], vec!["x", "/* c */", "x"], vec!["y", "x", "x", "..."]][t.below(4)].clone();
            target = Def::func("T", &strs(&ps), &join(&pre, &["x"], &post));
            expected = X::NonUniqueArgument("x".into());
        }
        4 => {
            let bad = t.pick_s(&["1", "+", "\"s\"", "'c'", "(", "1.5", "a b", "", "9z", "->"]);
            let mut ps = vec!["x".to_string()];
            let at = t.below(2);
            ps.insert(at, bad);
            target = Def::func("T", &ps, &join(&pre, &["x"], &post));
            expected = X::InvalidArgumentName;
        }
        5 => {
            let ps: Vec<String> = PARAMS[..t.below(3)].iter().map(|s| s.to_string()).collect();
            let b = join(&pre, &["__VA_ARGS__"], &post);
            target = if t.chance(1, 2) { Def::func("T", &ps, &b) } else { Def::obj("T", &b) };
            expected = X::NonVariadicVarArgs;
        }
        6 => {
            // # not followed by a parameter, in an invoked macro
            let next: Vec<&str> = [vec!["1"], vec!["p"], vec![], vec!["#", "x"], vec!["+"], vec!["A"]][t.below(6)].clone();
            let (b, np) = if next.is_empty() { (join(&pre, &["x", "#"], &[]), 1) } else { (join(&join(&pre, &["#"], &[]), &next, &post), 1) };
            defs.push(Def::func("Q", &strs(&PARAMS[..np]), &b));
            target = Def::obj("T", &strs(&["Q", "(", "1", ")"]));
            expected = X::StringifyNonArgument;
        }
        7 => {
            let bad = t.pick_s(&["@", "\"open", "'", "a b", "$$", "`", "\"a\nb\"", "//x", "\\", "'toolong'", "🍌"]);
            target = Def::obj("T", &join(&pre, &[bad.as_str()], &post));
            expected = X::InvalidToken(bad);
        }
        8 => {
            cx.set_desc("unknown names");
            let set = build(&defs);
            let n = t.pick_s(&["nope", "", "x", "1", "A ", "F"]);
            for (w, ok) in [("var", guard(|| set.expand_var_macro(&n) == Err(X::MacroNotFound))), ("fn", guard(|| set.expand_fn_macro(&n) == Err(X::MacroNotFound))), ("kind", guard(|| set.expand_var_macro("f") == Err(X::MacroNotFound) && set.expand_fn_macro("A") == Err(X::MacroNotFound)))] {
                if ok != Ok(true) {
                    return fail("not-found", format!("{w} {n:?}: {ok:?}"));
                }
            }
            cx.class("unknown");
            return Ok(());
        }
        9 => {
            // pasting that forms no token
            let (a, b) = *t.pick(&[("+", "x"), ("\"s\"", "a"), ("(", ")"), ("a", "+"), ("1", "+ "), ("*", "*"), ("'c'", "1"), ("\"a\"", "\"b\""), ("x", "\"s\""), (".", "."), ("/", "/"), (";", ";")]);
            target = Def::obj("T", &join(&pre, &[a, "##", b.trim()], &post));
            if a == "1" {
                return cx.discard("a preprocessing number");
            }
            expected = X::InvalidConcat;
        }
        10 => {
            // variadic: fewer arguments than named parameters
            let arity = 2 + t.below(2);
            let mut params: Vec<String> = PARAMS[..arity].iter().map(|s| s.to_string()).collect();
            params.push("...".into());
            let given = 1 + t.below(arity - 1);
            let body = if t.chance(1, 2) { strs(&["x", "__VA_ARGS__"]) } else { strs(&["y"]) };
            defs.push(Def::func("W", &params, &body));
            let mut call = strs(&["W", "("]);
            for i in 0..given {
                if i > 0 {
                    call.push(",".into());
                }
                call.push("1".into());
            }
            call.push(")".into());
            let c: Vec<&str> = call.iter().map(|s| s.as_str()).collect();
            target = Def::obj("T", &join(&pre, &c, &post));
            // the standard does not fix which number a variadic macro "requires"
            expected = X::FnMacroArgumentError { name: "W".into(), required: usize::MAX, given };
        }
        _ => {
            let ps = [vec!["...", "x"], vec!["x", "...", "y"], vec!["...", "..."]][t.below(3)].clone();
            target = Def::func("T", &strs(&ps), &join(&pre, &["p"], &post));
            expected = if ps == ["...", "..."] { X::NonUniqueArgument("...".into()) } else { X::InvalidArgumentName };
        }
    }
    // reach the malformed macro directly or through another one
    let is_fn = target.args.is_some();
    let via = t.below(3);
    let arity = target.args.as_ref().map_or(0, |a| a.len());
    defs.push(target.clone());
    if via == 1 && !is_fn {
        defs.push(Def::obj("OUTER", &strs(&["p", "T", "q"])));
    } else if via == 2 && is_fn && nocomment(target.args.as_ref().unwrap()) {
        let mut c = strs(&["T", "("]);
        for i in 0..arity {
            if i > 0 {
                c.push(",".into());
            }
            c.push("1".into());
        }
        c.push(")".into());
        by_call = Some(c);
    }
    let set = build(&defs);
    cx.set_desc(format!("{} | expects {expected:?}", show_defs(&defs)));
    let got: Result<Result<(), X>, String> = if let Some(c) = &by_call {
        guard(|| set.expand(c).map(|_| ()))
    } else if via == 1 && !is_fn {
        guard(|| set.expand_var_macro("OUTER").map(|_| ()))
    } else if is_fn {
        guard(|| set.expand_fn_macro("T").map(|_| ()))
    } else {
        guard(|| set.expand_var_macro("T").map(|_| ()))
    };
    let ok = match (&got, &expected) {
        (Ok(Err(X::FnMacroArgumentError { name, given, .. })), X::FnMacroArgumentError { name: n2, required: usize::MAX, given: g2 }) => name == n2 && given == g2,
        (Ok(Err(e)), x) => e == x,
        _ => false,
    };
    if !ok {
        return fail("wrong-report", format!("expected {expected:?}, got {got:?}"));
    }
    cx.nontrivial = true;
    cx.class(format!("{expected:?}").split(['(', ' ']).next().unwrap().to_string());
    cx.class(["direct", "through another macro", "by a call"][if by_call.is_some() { 2 } else if via == 1 && !is_fn { 1 } else { 0 }]);
    Ok(())
}
fn words_c(s: &str) -> Vec<String> {
    if s.starts_with("/*") {
        vec![s.to_string()]
    } else {
        words(s)
    }
}

// ---------------------------------------------------------------- E09
const CHAOS: &[&str] = &[
    "A", "f", "(", ")", ",", "#", "##", "x", "__VA_ARGS__", "g", "B", "1", "...", "\"s\"", "'c'", "L", "u8", "/* c */", "[", "]", "{", "}", "+", "y", "0x", "1e", "e5", "\"\\xff\"", "é", "\\u00e9", "a\\u00e9b",
    "@", "", " ", "//", "/*", "'", "\"", "\\", "$", "1.", ".", "-", ">", "=", "u", "U", "'猫'", "\"\\u00e9\"", "\u{301}", "0b", "''", "\"\\", "\\\n+", "__LINE__", "__FILE__", "-1", "99999999999999999999999999999999999999999", "1e999999", "##\n", "%:%:", "T",
];
fn e09(t: &mut Tape, cx: &mut Cx) -> Res {
    let mut defs = vec![];
    let tok = |t: &mut Tape| -> String {
        if t.chance(1, 40) {
            (0..t.below(5)).map(|_| char::from_u32(t.below(0x3000) as u32).unwrap_or('?')).collect()
        } else {
            t.pick_s(CHAOS)
        }
    };
    for n in ["A", "B", "f", "g", "T"] {
        if t.chance(1, 8) {
            continue;
        }
        let is_fn = if t.chance(1, 10) { t.chance(1, 2) } else { matches!(n, "f" | "g") };
        let args = is_fn.then(|| {
            let mut a: Vec<String> = vec![];
            for _ in 0..t.below(4) {
                let s = if t.chance(1, 10) { tok(t) } else { t.pick_s(&["x", "y", "z", "...", "/* p */"]) };
                a.push(s);
            }
            a
        });
        let long = t.chance(1, 60);
        let body: Vec<String> = if long {
            let unit: Vec<String> = (0..1 + t.below(3)).map(|_| tok(t)).collect();
            let k = 200 * (1 + t.below(10));
            unit.iter().cycle().take(unit.len() * k).cloned().collect()
        } else {
            let mut v = vec![];
            for _ in 0..t.below(8) {
                let param = |t: &mut Tape| -> String {
                    match &args {
                        Some(a) if !a.is_empty() => match t.pick(a).as_str() {
                            "..." => "__VA_ARGS__".into(),
                            p => p.to_string(),
                        },
                        _ => tok(t),
                    }
                };
                match t.below(6) {
                    0 => v.extend([String::from("#"), param(t)]),
                    1 => v.extend([param(t), String::from("##")]),
                    2 => v.push(param(t)),
                    _ => v.push(tok(t)),
                }
            }
            v
        };
        defs.push(Def { name: n.into(), args, body });
    }
    let text: Vec<String> = if t.chance(1, 40) {
        // deep nesting
        let d = 20 * (1 + t.below(20));
        let mut v = vec![];
        for _ in 0..d {
            v.extend(strs(&["f", "("]));
        }
        v.push("1".into());
        for _ in 0..d {
            v.push(")".into());
        }
        v
    } else {
        let mut v = vec![];
        for _ in 0..t.below(8) {
            if t.chance(1, 3) {
                // a call with the right number of arguments
                let Some(d) = defs.iter().filter(|d| d.args.is_some()).nth(t.below(2)) else { continue };
                v.extend([d.name.clone(), "(".into()]);
                for i in 0..d.args.as_ref().map_or(0, |a| a.len()) {
                    if i > 0 {
                        v.push(",".into());
                    }
                    for _ in 0..t.below(3) {
                        v.push(tok(t));
                    }
                }
                v.push(")".into());
            } else {
                v.push(tok(t));
            }
        }
        v
    };
    cx.set_desc(format!("{} | expand: {}", show_defs(&defs), text.join(" ")).chars().take(4000).collect::<String>());
    // A model run bounds the size of the result; exponential growth is not the library's fault.
    let tab = table(&defs);
    let mut big = false;
    let mut steps = 0;
    {
        let mut m = Cpp::new(&tab);
        m.lenient = true;
        m.max_steps = 20000;
        big |= matches!(m.expand_text(&text), Err(CppError::TooBig));
        steps += m.expansions;
        for n in ["A", "B", "T", "f", "g"] {
            let mut m = Cpp::new(&tab);
            m.lenient = true;
            m.max_steps = 20000;
            let b = defs.iter().find(|d| d.name == n).map(|d| d.body.clone()).unwrap_or_default();
            big |= matches!(m.expand_text(&b), Err(CppError::TooBig));
            steps += m.expansions;
        }
    }
    if big {
        return cx.discard("exponential result");
    }
    let set = build(&defs);
    let run = |s: &MacroSet| -> Result<String, String> {
        guard(|| {
            let mut o = format!("{:?}", s.expand(&text));
            for n in ["A", "B", "T", "f", "g", "", "x"] {
                o += &format!("\n{:?}\n{:?}", s.expand_var_macro(n), s.expand_fn_macro(n));
            }
            o
        })
    };
    let a = match run(&set) {
        Ok(a) => a,
        Err(p) => return fail(&format!("panic:{}", p.split(" at ").nth(1).unwrap_or("").split('\n').next().unwrap_or("")), p),
    };
    // repetition, cloning, definition order
    let mut order = defs.clone();
    shuffle(t, &mut order);
    let mut other = MacroSet::new();
    if t.chance(1, 3) {
        // a different history with the same outcome
        for d in &order {
            other.define_var_macro(&d.name, ["junk", &d.name]);
            if d.args.is_some() && t.chance(1, 2) {
                other.undefine_var_macro(&d.name);
            }
        }
        cx.class("different-history");
    }
    for d in &order {
        d.apply(&mut other);
    }
    for (w, s) in [("repetition", &set), ("cloning", &set.clone()), ("definition order", &other)] {
        match run(s) {
            Ok(b) if b == a => (),
            Ok(b) => return fail("not-pure", format!("{w} changes the result:\n{a}\n----\n{b}")),
            Err(p) => return fail("panic", p),
        }
    }
    cx.nontrivial = steps > 0;
    cx.class(if a.starts_with("Ok") { "text accepted" } else { "text refused" });
    Ok(())
}

// ---------------------------------------------------------------- E10
fn with_comments(t: &mut Tape, v: &[String], n: &mut usize) -> Vec<String> {
    let mut out = vec![];
    let p = 1 + t.below(4) as u32;
    for s in v {
        if t.chance(p, 10) {
            *n += 1;
            out.push(t.pick_s(&["/* c */", "/**/", "/* , ) ( */", "/* # ## x */", "/* A */"]));
        }
        out.push(s.clone());
    }
    if t.chance(p, 10) {
        *n += 1;
        out.push("/* end */".into());
    }
    out
}
fn e10(t: &mut Tape, cx: &mut Cx) -> Res {
    let c = Cfg { ops: 5, variadic: 25, wrong_arity: 15, ..BASE };
    let (env, defs) = gen_table(t, &c);
    let text = gen_text(t, &env, &c);
    let mut n = 0;
    let cdefs: Vec<Def> = defs
        .iter()
        .map(|d| Def { name: d.name.clone(), args: d.args.as_ref().map(|a| with_comments(t, a, &mut n)), body: with_comments(t, &d.body, &mut n) })
        .collect();
    let ctext = with_comments(t, &text, &mut n);
    cx.set_desc(format!("{} | expand: {}", show_defs(&cdefs), ctext.join(" ")));
    let tab = table(&defs);
    let mut m = Cpp::new(&tab);
    if let Err(CppError::TooBig) = m.expand_text(&text) {
        return cx.discard("too big");
    }
    let (a, b) = (build(&defs), build(&cdefs));
    let run = |s: &MacroSet, text: &[String]| -> Result<Vec<Result<Vec<String>, ExpansionError>>, String> {
        guard(|| {
            let mut v = vec![s.expand(text).map(|v| canon_all(&v))];
            for o in &env.objs {
                v.push(s.expand_var_macro(o).map(|v| canon_all(&v)));
            }
            for f in &env.fns {
                v.push(s.expand_fn_macro(&f.name).map(|(a, b)| [canon_all(&a), vec!["=>".into()], canon_all(&b)].concat()));
            }
            v
        })
    };
    let (ra, rb) = match (run(&a, &text), run(&b, &ctext)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(p), _) | (_, Err(p)) => return fail("panic", p),
    };
    for (i, (x, y)) in ra.iter().zip(&rb).enumerate() {
        if x != y {
            return fail("comments", format!("#{i}: without comments {x:?}, with comments {y:?}"));
        }
    }
    cx.nontrivial = n >= 1 && m.expansions >= 1;
    cx.class(format!("comments:{}", match n { 0 => "0", 1..=3 => "1-3", 4..=9 => "4-9", _ => "10+" }));
    if m.stringified > 0 {
        cx.class("stringified");
    }
    if m.pasted > 0 {
        cx.class("pasted");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let d = Prop { id: "", rule: "", tape_len: 120, quick: 0, thorough: 0, case: e01, enumerate: None, batch: None, assumptions: &[] };
    let model = "the reference preprocessor (harness/src/cpp.rs, Prosser's hide-set algorithm) is right; it is compared with `gcc -E` on generated tables by tools/modelcheck.sh";
    let spacing = "the content of a produced string literal is compared after splitting it into preprocessing tokens, because tokens carry no spacing";
    let a1: &'static [&'static str] = Box::leak(vec![model, spacing].into_boxed_slice());
    vec![
        Prop { id: "E01", rule: "the model performs at least two macro replacements", quick: 250_000, thorough: 6_000_000, case: e01, enumerate: Some((e01_count, e01_enum)), assumptions: a1, ..d },
        Prop { id: "E02", rule: "at least one macro name is met inside its own replacement", quick: 200_000, thorough: 6_000_000, case: e02, enumerate: Some((e02_count, e02_enum)), assumptions: a1, ..d },
        Prop { id: "E03", rule: "at least one stringification of a non-empty argument list", quick: 250_000, thorough: 6_000_000, case: e03, assumptions: a1, ..d },
        Prop { id: "E04", rule: "at least one paste takes place, or is refused by C", quick: 250_000, thorough: 6_000_000, case: e04, enumerate: Some((e04_count, e04_enum)), assumptions: a1, ..d },
        Prop { id: "E05", rule: "a variadic macro using __VA_ARGS__ is invoked with at least one argument", quick: 250_000, thorough: 6_000_000, case: e05, assumptions: a1, ..d },
        Prop { id: "E06", rule: "the macro has parameters and its body expands other macros", quick: 200_000, thorough: 5_000_000, case: e06, assumptions: a1, ..d },
        Prop { id: "E07", rule: "a name is defined again while it has a current definition", quick: 200_000, thorough: 5_000_000, case: e07, assumptions: a1, ..d },
        Prop { id: "E08", rule: "a malformed macro is expanded, directly, through another macro or by a call", quick: 250_000, thorough: 5_000_000, case: e08, assumptions: a1, ..d },
        Prop { id: "E09", rule: "the model performs at least one replacement", quick: 150_000, thorough: 4_000_000, case: e09, assumptions: a1, ..d },
        Prop { id: "E10", rule: "at least one comment is inserted and one replacement takes place", quick: 200_000, thorough: 5_000_000, case: e10, assumptions: a1, ..d },
    ]
}
