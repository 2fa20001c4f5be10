//! C16: inline assembly.
use super::forms::{err_class, run, Case};
use crate::engine::*;
use crate::gram::{self, GenErr};
use crate::wf::{AsmArgs, AsmItem};
use proc_macro2::{TokenStream, TokenTree};

/// C tokens and the Rust expression for operands.
const PLACES: &[(&str, &str)] = &[("x", "x"), ("my_var", "my_var"), ("* x", "*x"), ("x . len", "x.len"), ("( * x ) . len", "(*x).len"), ("x -> len", "(*x).len"), ("( n2 )", "n2")];
const VALUES: &[(&str, &str)] = &[("1", "1"), ("x + 1", "x+1"), ("foo * ( x + 2 )", "foo*(x+2)"), ("- x", "-x"), ("2 + 3", "5"), ("( x )", "x"), ("& x", "ptr::addr_of_mut!(x)"), ("x [ 1 ]", "*x.add(1)"), ("f ( x )", "f((x).into())")];
const OUT: &[(&str, &str)] = &[("r", "reg"), ("Q", "reg_abcd"), ("q", "reg_byte"), ("f", "freg"), ("g", "reg"), ("i", "reg")];
const REGS: &[&str] = &["eax", "ebx", "rcx", "rdx", "r8", "xmm0", "st(0)", "al"];
const WORDS: &[&str] = &["mov ", "add ", "lock; ", "leal (", "[", "]", ", ", ",", ")", "1f", "\\t", " ", "nop", ".byte 0x0f", "#", "'", ":", "*4", "é", "jmp 1b"];

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Op {
    dir: String,
    reg: String,
    expr: String,
    to: Option<String>,
}
fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn find(ts: &TokenStream, out: &mut Vec<(String, TokenStream)>) {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    for i in 0..v.len() {
        if let TokenTree::Group(g) = &v[i] {
            if i >= 2 {
                if let (TokenTree::Ident(n), TokenTree::Punct(p)) = (&v[i - 2], &v[i - 1]) {
                    if p.as_char() == '!' && (n == "asm" || n == "global_asm") {
                        out.push((n.to_string(), g.stream()));
                        continue;
                    }
                }
            }
            find(&g.stream(), out);
        }
    }
}
/// A line as pieces: text and operands by position.
#[derive(Debug, Clone, PartialEq)]
enum Piece {
    Text(String),
    Operand(usize),
}
fn rust_pieces(l: &str) -> Result<Vec<Piece>, String> {
    let mut v = vec![];
    let mut cur = String::new();
    let mut c = l.chars().peekable();
    while let Some(x) = c.next() {
        match x {
            '{' if c.peek() == Some(&'{') => {
                c.next();
                cur.push('{');
            }
            '}' if c.peek() == Some(&'}') => {
                c.next();
                cur.push('}');
            }
            '{' => {
                let n: String = c.by_ref().take_while(|c| *c != '}').collect();
                let n = n.parse().map_err(|_| format!("placeholder {{{n}}} is not a number"))?;
                if !cur.is_empty() {
                    v.push(Piece::Text(std::mem::take(&mut cur)));
                }
                v.push(Piece::Operand(n));
            }
            '}' => return Err("unmatched `}` in the template".into()),
            x => cur.push(x),
        }
    }
    if !cur.is_empty() {
        v.push(Piece::Text(cur));
    }
    Ok(v)
}
fn trim_line(mut v: Vec<Piece>) -> Vec<Piece> {
    if let Some(Piece::Text(s)) = v.first_mut() {
        *s = s.trim_start().into();
    }
    if let Some(Piece::Text(s)) = v.last_mut() {
        *s = s.trim_end().into();
    }
    v.retain(|p| *p != Piece::Text(String::new()));
    v
}

pub fn c16(t: &mut Tape, cx: &mut Cx) -> Res {
    let params: Vec<String> = match t.below(3) {
        0 => vec![],
        1 => vec!["a".into()],
        _ => vec!["a".into(), "b".into()],
    };
    let mut case = Case { name: "M".into(), params: params.clone(), body: vec![], cx: Default::default(), var: false };
    if t.chance(1, 2) {
        for p in &params {
            case.cx.args.insert(p.clone(), "c_int".into());
        }
    }
    if t.chance(1, 3) {
        case.cx.tr = Some("::core".into());
    }
    // Operands.
    let sections = t.below(4);
    let pick = |t: &mut Tape, place: bool| -> (String, String) {
        if !params.is_empty() && t.chance(1, 3) {
            let i = t.below(params.len());
            return (format!("@{i}"), format!("@{i}"));
        }
        let (a, b) = *if place || t.chance(1, 2) { t.pick(PLACES) } else { t.pick(VALUES) };
        (a.into(), b.into())
    };
    let n_out = if sections >= 1 { t.count(4) } else { 0 };
    let n_in = if sections >= 2 { t.count(4) } else { 0 };
    let n_cl = if sections >= 3 { t.count(4) } else { 0 };
    let mut ops: Vec<Op> = vec![];
    let mut outs_c = vec![];
    let mut ins_c = vec![];
    for _ in 0..n_out {
        let (c, r) = pick(t, true);
        let (k, class) = *t.pick(OUT);
        let inout = t.chance(1, 3);
        outs_c.push((format!("{}{k}", if inout { "+" } else { "=" }), c));
        ops.push(Op { dir: if inout { "inout" } else { "out" }.into(), reg: class.into(), expr: r, to: None });
    }
    // What C operand number refers to which entry of `ops`.
    let mut number: Vec<usize> = (0..n_out).collect();
    for _ in 0..n_in {
        let free: Vec<usize> = (0..n_out).filter(|i| ops[*i].dir == "out").collect();
        if !free.is_empty() && t.chance(1, 2) {
            let o = *t.pick(&free);
            let same = t.chance(1, 2);
            let (c, r) = if same { (outs_c[o].1.clone(), ops[o].expr.clone()) } else { pick(t, false) };
            ins_c.push((o.to_string(), c));
            ops[o].dir = "inout".into();
            if r != ops[o].expr {
                ops[o].to = Some(std::mem::replace(&mut ops[o].expr, r));
            }
            number.push(o);
        } else {
            let (c, r) = pick(t, false);
            let (k, class) = *t.pick(&[("r", "reg"), ("rm", "reg"), ("ri", "reg"), ("g", "reg"), ("i", "reg"), ("Q", "reg_abcd"), ("q", "reg_byte"), ("f", "freg")]);
            ins_c.push((k.into(), c));
            number.push(ops.len());
            ops.push(Op { dir: "in".into(), reg: class.into(), expr: r, to: None });
        }
    }
    let mut clobbers: Vec<String> = vec![];
    for _ in 0..n_cl {
        let c = match t.below(4) {
            0 => "memory".to_string(),
            1 => "cc".into(),
            _ => t.pick_s(REGS),
        };
        if !clobbers.contains(&c) {
            clobbers.push(c);
        }
    }
    // Template.
    let mut lines: Vec<Vec<Piece>> = vec![vec![]];
    let mut text = String::new();
    let mut strings: Vec<String> = vec![];
    let (invalid, mut broken) = (t.chance(1, 50), false);
    let n = t.below(10);
    let mut dialect: Option<bool> = None;
    for _ in 0..n {
        let mut add = |s: &str, text: &mut String| {
            text.push_str(s);
            let s = s.replace("\\t", "\t");
            let l = lines.last_mut().unwrap();
            match l.last_mut() {
                Some(Piece::Text(x)) => x.push_str(&s),
                _ => l.push(Piece::Text(s)),
            }
        };
        match t.below(8) {
            0 | 1 => {
                text.push_str("\\n");
                lines.push(vec![]);
            }
            2 | 3 if !number.is_empty() && !invalid => {
                let i = t.below(number.len());
                text.push_str(&format!("%{i}"));
                // A digit after the operand would belong to its number.
                lines.last_mut().unwrap().push(Piece::Operand(number[i]));
                if t.chance(1, 2) {
                    let l = lines.last_mut().unwrap();
                    l.push(Piece::Text(", ".into()));
                    text.push_str(", ");
                } else {
                    let l = lines.last_mut().unwrap();
                    l.push(Piece::Text(")".into()));
                    text.push_str(")");
                }
            }
            4 if sections == 0 => {
                let r = t.pick_s(&["%eax", "%rbx", "%st"]);
                add(&r, &mut text);
                text.push(' ');
                match lines.last_mut().unwrap().last_mut() {
                    Some(Piece::Text(x)) => x.push(' '),
                    _ => unreachable!(),
                }
            }
            4 => add(&t.pick_s(&["$1", "$0x10"]), &mut text),
            2 | 3 if invalid => {
                // An operand which does not exist.
                text.push_str(&format!("%{}", t.pick_s(&["9", "30", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "000000000000000000000000000000"])));
                broken = true;
            }
            5 => add(&t.pick_s(&["{", "}", "{{", "{}", "}{", "{0}", "{x}"]), &mut text),
            6 if !text.is_empty() && !text.ends_with('%') => strings.push(std::mem::take(&mut text)),
            _ => add(&t.pick_s(WORDS), &mut text),
        }
    }
    strings.push(text);
    let global = sections == 0 && t.chance(1, 4);
    if global {
        let d = t.pick_s(&[".globl f\\n", ".global f\\n ", ".section .x\\n\\t"]);
        strings[0] = format!("{d}{}", strings[0]);
        lines.insert(0, vec![Piece::Text(d.trim_end_matches([' ', '\\', 'n', 't']).trim().replace("\\n", "").to_string())]);
        if let Some(Piece::Text(s)) = lines[0].last_mut() {
            *s = match d.chars().nth(1) {
                Some('s') => ".section .x".into(),
                _ if d.starts_with(".globl") => ".globl f".into(),
                _ => ".global f".into(),
            };
        }
    }
    let lines: Vec<Vec<Piece>> = lines.into_iter().map(trim_line).filter(|l| !l.is_empty()).collect();
    let whole: String = strings.concat();
    // `$`, `%reg` and `(%0` are AT&T syntax.
    let att = lines.iter().any(|l| {
        l.iter().enumerate().any(|(i, p)| match p {
            Piece::Text(s) => s.contains('$') || s.contains('%'),
            Piece::Operand(_) => i > 0 && matches!(&l[i - 1], Piece::Text(s) if s.ends_with('(')),
        })
    });
    if whole.contains("({") {
        // An escaped brace after a parenthesis is not an operand.
        dialect = None;
    } else {
        dialect = dialect.or(Some(att));
    }
    // The statement.
    let mut b: Vec<String> = vec![];
    let mut w = |s: &str| b.extend(s.split(' ').filter(|s| !s.is_empty()).map(String::from));
    let wrap = t.below(4);
    match wrap {
        0 => w("{"),
        1 => w("if ( x )"),
        2 => w("{ x = 1 ;"),
        _ => (),
    }
    w(&t.pick_s(&["__asm__", "__asm", "asm"]));
    w(&t.pick_s(&["", "volatile", ""]));
    let mut b2: Vec<String> = vec!["(".into()];
    for s in &strings {
        b2.push(format!("\"{s}\""));
    }
    if sections >= 1 {
        b2.push(":".into());
        for (i, (k, e)) in outs_c.iter().enumerate() {
            if i > 0 {
                b2.push(",".into());
            }
            b2.push(format!("\"{k}\""));
            b2.push("(".into());
            b2.extend(e.split(' ').map(String::from));
            b2.push(")".into());
        }
    }
    if sections >= 2 {
        b2.push(":".into());
        for (i, (k, e)) in ins_c.iter().enumerate() {
            if i > 0 {
                b2.push(",".into());
            }
            b2.push(format!("\"{k}\""));
            b2.push("(".into());
            b2.extend(e.split(' ').map(String::from));
            b2.push(")".into());
        }
    }
    if sections >= 3 {
        b2.push(":".into());
        for (i, k) in clobbers.iter().enumerate() {
            if i > 0 {
                b2.push(",".into());
            }
            let pct = if !matches!(k.as_str(), "memory" | "cc") && t.chance(1, 6) { "%" } else { "" };
            b2.push(format!("\"{pct}{k}\""));
        }
    }
    b2.push(")".into());
    b.extend(b2);
    match wrap {
        0 | 2 => b.extend([";".to_string(), "}".into()]),
        1 => b.push(";".into()),
        _ if t.chance(2, 3) => b.push(";".into()),
        _ => (),
    }
    case.body = b;
    cx.set_desc(case.show());
    let r = match run(&case) {
        Err(m) => return fail("panic", format!("panicked: {m:?}\n{}", case.show())),
        Ok(_) if broken => return cx.discard("operand out of range"),
        Ok(r) => r,
    };
    let out = match r {
        Ok(o) => o.0,
        Err(e @ GenErr::Parse(_)) | Err(e @ GenErr::Gen(_)) => {
            return fail("refused", format!("refused ({}): {e:?}\n{}", err_class(&e), case.show()));
        }
        Err(e) => panic!("harness: {e:?}"),
    };
    let bad = |sig: &str, m: String| fail(sig, format!("{m}\n{}\noutput: {out}", case.show()));
    let ts: TokenStream = match out.parse() {
        Ok(t) => t,
        Err(e) => return bad("lex", format!("{e}")),
    };
    let mac = out.contains("macro_rules");
    let mut found = vec![];
    find(&ts, &mut found);
    if found.len() != 1 {
        return bad("invocations", format!("{} asm invocations instead of one", found.len()));
    }
    let (name, inner) = found.pop().unwrap();
    // Parameters in a macro are `$a`.
    let inner: TokenStream = unparam(inner);
    let items = match syn::parse2::<AsmArgs>(inner) {
        Ok(a) => a.0,
        Err(e) => return bad("items", format!("the arguments of asm! do not parse: {e}")),
    };
    if (name == "global_asm") != global {
        return bad("global", format!("expected {}", if global { "global_asm!" } else { "asm!" }));
    }
    cx.class(if global { "global" } else if mac { "macro" } else { "function" });
    let mut got_lines = vec![];
    let mut got_ops: Vec<Op> = vec![];
    let mut got_clob = vec![];
    let mut options = vec![];
    let mut abi = false;
    for i in items {
        match i {
            AsmItem::Line(l) => got_lines.extend(l.split('\n').map(|s| s.to_string()).collect::<Vec<_>>()),
            AsmItem::Operand(d, r, e, to) => {
                if e == "_" {
                    if d != "out" && d != "lateout" {
                        return bad("clobber", format!("a clobber is `{d}`"));
                    }
                    got_clob.push(r.trim_matches('"').to_string())
                } else {
                    got_ops.push(Op { dir: d, reg: r, expr: squash(&e), to: to.map(|s| squash(&s)) })
                }
            }
            AsmItem::Options(o) => options.extend(o),
            AsmItem::ClobberAbi(_) => abi = true,
        }
    }
    // Names of parameters.
    let tr = if case.cx.tr.is_some() { "::core::" } else { "" };
    let name_of = |e: &str| -> String {
        match e.strip_prefix('@') {
            Some(i) => params[i.parse::<usize>().unwrap()].clone(),
            None => e.replace("ptr::", &format!("{tr}ptr::")),
        }
    };
    let ops: Vec<Op> = ops.into_iter().map(|o| Op { expr: name_of(&o.expr), to: o.to.map(|t| name_of(&t)), ..o }).collect();
    let sorted = |v: &[Op]| {
        let mut v = v.to_vec();
        v.sort();
        v
    };
    if sorted(&ops) != sorted(&got_ops) {
        return bad("operands", format!("expected operands {ops:?}\ngot {got_ops:?}"));
    }
    let got: Result<Vec<Vec<Piece>>, String> = got_lines.iter().map(|l| rust_pieces(l)).collect();
    let got: Vec<Vec<Piece>> = match got {
        Ok(g) => g.into_iter().map(trim_line).filter(|l| !l.is_empty()).collect(),
        Err(e) => return bad("template", e),
    };
    // Operands are compared by what they are bound to.
    let bind = |l: &Vec<Vec<Piece>>, o: &[Op]| -> Result<Vec<Vec<String>>, String> {
        l.iter()
            .map(|l| {
                // Adjacent texts are one.
                let mut v: Vec<String> = vec![];
                let mut text = false;
                for p in l {
                    match p {
                        Piece::Text(s) => {
                            if text {
                                v.last_mut().unwrap().push_str(s);
                            } else {
                                v.push(format!("text:{s}"));
                            }
                            text = true;
                        }
                        Piece::Operand(n) => {
                            v.push(format!("{:?}", o.get(*n).ok_or(format!("there is no operand {{{n}}}"))?));
                            text = false;
                        }
                    }
                }
                Ok(v)
            })
            .collect()
    };
    let e = bind(&lines, &ops).unwrap();
    match bind(&got, &got_ops) {
        Ok(g) if g == e => (),
        Ok(g) => return bad("template", format!("expected lines {e:?}\ngot {g:?}")),
        Err(m) => return bad("template", m),
    }
    if !global {
        let mut c: Vec<String> = clobbers.iter().filter(|c| *c != "memory" && *c != "cc").cloned().collect();
        c.sort();
        got_clob.sort();
        if c != got_clob {
            return bad("clobbers", format!("expected clobbers {c:?}, got {got_clob:?}"));
        }
        if options.iter().any(|o| o == "nomem") == clobbers.iter().any(|c| c == "memory") {
            return bad("memory", format!("`memory` clobber {clobbers:?}, options {options:?}"));
        }
        if options.iter().any(|o| o == "preserves_flags") == clobbers.iter().any(|c| c == "cc") {
            return bad("flags", format!("`cc` clobber {clobbers:?}, options {options:?}"));
        }
        if options.iter().any(|o| !matches!(o.as_str(), "nomem" | "preserves_flags" | "att_syntax")) {
            return bad("options", format!("options {options:?}"));
        }
        if abi && got_ops.iter().any(|o| o.dir != "in") {
            return bad("abi", "clobber_abi with outputs".into());
        }
    } else if !got_clob.is_empty() || !got_ops.is_empty() || options.iter().any(|o| o != "att_syntax") {
        return bad("global", "global_asm! takes neither operands nor options other than att_syntax".into());
    }
    if let Some(d) = dialect {
        if options.iter().any(|o| o == "att_syntax") != d {
            return bad("dialect", format!("options {options:?}, AT&T syntax expected: {d}"));
        }
    }
    cx.nontrivial = !ops.is_empty() || lines.len() > 1 || !clobbers.is_empty();
    if ops.iter().any(|o| o.to.is_some()) {
        cx.class("tied to another value");
    }
    if number.len() > ops.len() {
        cx.class("tied operand");
    }
    if lines.iter().flatten().any(|p| matches!(p, Piece::Operand(_))) {
        cx.class("operand in the template");
    }
    Ok(())
}
/// Removes `$`.
fn unparam(ts: TokenStream) -> TokenStream {
    ts.into_iter()
        .filter(|t| !matches!(t, TokenTree::Punct(p) if p.as_char() == '$'))
        .map(|t| match t {
            TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), unparam(g.stream()))),
            t => t,
        })
        .collect()
}
pub fn props() -> Vec<Prop> {
    let _ = gram::NAMES;
    vec![Prop {
        id: "C16",
        rule: "the statement has an operand, a clobber or several lines",
        tape_len: 250,
        quick: 400_000,
        thorough: 10_000_000,
        case: c16,
        enumerate: None,
        batch: None,
        assumptions: &["the dialect (AT&T or Intel) is not recorded in C: the documented heuristic ($, %register, (%N) is required", "lines are compared without surrounding whitespace and empty lines"],
    }]
}
