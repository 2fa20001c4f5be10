//! L01..L05: literals and tokens against reference decoders.
use crate::cg::{self, Ctx, GErr};
use crate::cpp;
use crate::engine::*;
use crate::rconst::{self, eval_const, rty, wrap, CV};
use crate::reflit::{self, Class, RefLit};
use cmacro::{BuiltInType, Comment, Identifier, IdentifierContinue, Lit, LitChar, LitFloat, LitString, MacroSet, MacroToken, Punctuation};

pub fn ctx() -> Ctx {
    let mut c = Ctx::default();
    c.tys.insert("wchar_t".into(), "c_int".into());
    c
}
fn suffix_ty(s: &str) -> Option<BuiltInType> {
    Some(match s {
        "u" => BuiltInType::UInt,
        "l" => BuiltInType::Long,
        "ul" => BuiltInType::ULong,
        "ll" => BuiltInType::LongLong,
        "ull" => BuiltInType::ULongLong,
        _ => return None,
    })
}
fn rnd_case(t: &mut Tape, s: &str) -> String {
    s.chars().map(|c| if t.chance(1, 3) { c.to_ascii_uppercase() } else { c }).collect()
}
fn gen_u64(t: &mut Tape) -> u64 {
    match t.weighted(&[4, 3, 3, 2]) {
        0 => t.below(300) as u64,
        1 => {
            let b = t.below(65) as u32;
            let d = t.range(-2, 2);
            (if b == 64 { 0u64 } else { 1u64 << b }).wrapping_add(d as u64)
        }
        2 => t.u64() >> t.below(64),
        _ => t.u64(),
    }
}
pub fn gen_int(t: &mut Tape) -> String {
    let v = gen_u64(t);
    let mut s = match t.weighted(&[4, 2, 3, 2]) {
        0 => format!("{v}"),
        1 => {
            if v == 0 && t.chance(1, 2) {
                "00".into()
            } else {
                format!("0{v:o}")
            }
        }
        2 => {
            let h = format!("{v:x}");
            let h: String = h.chars().map(|c| if t.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect();
            format!("{}{}{h}", t.pick(&["0x", "0X"]), "0".repeat(t.weighted(&[6, 1, 1])))
        }
        _ => format!("{}{v:b}", t.pick(&["0b", "0B"])),
    };
    s += &match t.weighted(&[4, 2, 2, 2, 2, 2, 2, 1]) {
        0 => String::new(),
        1 => t.pick_s(&["u", "U"]),
        2 => t.pick_s(&["l", "L"]),
        3 => t.pick_s(&["ul", "uL", "Ul", "UL"]),
        4 => t.pick_s(&["lu", "lU", "Lu", "LU"]),
        5 => t.pick_s(&["ll", "LL"]),
        6 => t.pick_s(&["ull", "uLL", "Ull", "ULL"]),
        _ => t.pick_s(&["llu", "LLu", "llU", "LLU"]),
    };
    s
}
const NUMCH: &[&str] = &["0", "1", "7", "8", "9", "a", "f", "e", "x", "b", "u", "l", "U", "L", ".", "+", "-", "_", "p", "'", "E", "F", "X", "2", " "];
fn mutate(t: &mut Tape, s: &str, alphabet: &[&str]) -> String {
    let mut v: Vec<String> = s.chars().map(|c| c.to_string()).collect();
    for _ in 0..=t.below(2) {
        let i = t.below(v.len() + 1);
        match t.below(3) {
            0 => v.insert(i, t.pick_s(alphabet)),
            1 if i < v.len() => {
                v.remove(i);
            }
            _ if i < v.len() => v[i] = t.pick_s(alphabet),
            _ => v.push(t.pick_s(alphabet)),
        }
    }
    v.concat()
}
/// What the library makes of one token, through MacroSet.
fn via_set(s: &str) -> Result<Vec<String>, String> {
    let mut m = MacroSet::new();
    m.define_var_macro("X", [s]);
    match m.expand_var_macro("X") {
        Ok(t) => Ok(t.iter().map(|t| format!("{t:?}")).collect()),
        Err(e) => Err(format!("{e:?}")),
    }
}
/// The token reaches macro bodies exactly as the literal parser reads it.
fn same_token(s: &str, lit: &Option<Lit>) -> Res {
    let v = guard(|| via_set(s))?;
    match (lit, &v) {
        (Some(l), Ok(t)) if t.len() == 1 && t[0] == format!("{:?}", MacroToken::Lit(l.clone())) => Ok(()),
        (Some(l), _) => fail("token", format!("`{s}` parses as {l:?} but expands to {v:?}")),
        (None, Ok(t)) if t.iter().any(|t| t.starts_with("Lit(")) => fail("token", format!("`{s}` is no literal but expands to {v:?}")),
        _ => Ok(()),
    }
}
fn value_of(s: &str) -> Result<(CV, String, Option<String>), Fail> {
    let (v, ty) = match guard(|| cg::var_gen("M", &[s], &ctx()))? {
        Ok(x) => x,
        Err(e) => return fail("generate", format!("generating `{s}` fails: {e:?}")),
    };
    match eval_const(&v, ty.as_deref()) {
        Ok(c) => Ok((c, v, ty)),
        Err(e) => fail("constant", format!("`{s}` generates `{v}` of type {ty:?}: {e}")),
    }
}

fn l01(t: &mut Tape, cx: &mut Cx) -> Res {
    let mut s = gen_int(t);
    let invalid = t.chance(1, 3);
    if invalid {
        s = mutate(t, &s, NUMCH);
    }
    cx.set_desc(format!("{s:?}"));
    let r = reflit::number(&s);
    let lit = guard(|| Lit::try_from(s.as_str()).ok())?;
    same_token(&s, &lit)?;
    let is_int = matches!(lit, Some(Lit::Int(_)));
    match r {
        Class::Unspecified(w) => return cx.discard(w),
        Class::Lit(RefLit::Int(v, suf)) => {
            cx.class(format!("suffix {suf}"));
            cx.class(if s.starts_with("0x") || s.starts_with("0X") { "hex" } else if s.starts_with("0b") || s.starts_with("0B") { "binary" } else if s.starts_with('0') { "octal" } else { "decimal" });
            cx.nontrivial = v > 9 || !suf.is_empty();
            match &lit {
                Some(Lit::Int(l)) => {
                    if l.value != v {
                        return fail("value", format!("`{s}` has the value {v}, got {}", l.value));
                    }
                    if l.suffix != suffix_ty(&suf) {
                        return fail("suffix", format!("`{s}` has the suffix {suf:?}, got {:?}", l.suffix));
                    }
                }
                o => return fail("rejected", format!("`{s}` is an integer literal, got {o:?}")),
            }
            let (c, out, ty) = value_of(&s)?;
            match c {
                CV::Int(w, _) if w == v => {}
                c => return fail("generated", format!("`{s}` generates `{out}` of type {ty:?}, which is {c:?}")),
            }
        }
        _ => {
            cx.class("not an integer literal");
            cx.nontrivial = true;
            if is_int {
                return fail("accepted", format!("`{s}` is not an integer literal, got {lit:?}"));
            }
        }
    }
    Ok(())
}

/// Decimal spellings at, just above and just below the midpoint of two neighbouring floats or doubles.
fn gen_tie(t: &mut Tape) -> String {
    let mut s = if t.chance(2, 3) {
        let e = t.range(100, 160) as u32;
        let f = f32::from_bits((e << 23) | (t.u32() & 0x7f_ffff));
        let n = f32::from_bits(f.to_bits() + 1);
        format!("{:.90}", (f as f64 + n as f64) / 2.0)
    } else {
        // integers whose neighbouring doubles are 2 or more apart
        let sh = t.below(4);
        format!("{}.000", ((1u128 << 53) + 2 * t.u32() as u128 + 1) << sh)
    };
    while s.ends_with('0') {
        s.pop();
    }
    match t.below(3) {
        0 => (),
        1 => s += &format!("{}{}", "0".repeat(t.below(24) as usize), t.range(1, 9)),
        _ => {
            if let Some(i) = s.rfind(|c| ('1'..='9').contains(&c)) {
                let d = (s.as_bytes()[i] - 1) as char;
                let nines = s[i + 1..].replace('0', "9");
                s = format!("{}{d}{nines}{}", &s[..i], "9".repeat(t.range(1, 24) as usize));
            }
        }
    }
    s += t.pick(&["f", "F", "f", "", "l"]);
    s
}
pub fn gen_float(t: &mut Tape) -> String {
    if t.chance(1, 8) {
        return gen_tie(t);
    }
    let mut s = String::new();
    let int = t.weighted(&[1, 4, 2, 1]);
    let digits = |t: &mut Tape, n: usize| -> String { (0..n).map(|_| char::from(b'0' + t.below(10) as u8)).collect() };
    let k = [0, 1, 3, 12][int];
    s += &digits(t, k);
    let frac = t.weighted(&[2, 3, 3, 1, 1]);
    let mut dot = frac > 0 || s.is_empty() || t.chance(1, 2);
    let form = t.below(3);
    if s.is_empty() && frac == 0 {
        s.push('0');
    }
    if form == 0 && frac == 0 {
        dot = false;
    }
    if dot {
        s.push('.');
        let n = [0, 1, 4, 12, 22][frac];
        s += &digits(t, n);
    }
    if !dot || t.chance(1, 3) {
        s += t.pick(&["e", "E"]);
        s += t.pick(&["", "+", "-"]);
        s += &match t.weighted(&[4, 3, 2, 1]) {
            0 => t.range(0, 9),
            1 => t.range(10, 46),
            2 => t.range(300, 330),
            _ => t.range(0, 999),
        }
        .to_string();
    }
    s += t.pick(&["", "", "f", "F", "l", "L"]);
    s
}
fn l02(t: &mut Tape, cx: &mut Cx) -> Res {
    let mut s = gen_float(t);
    if t.chance(1, 4) {
        s = mutate(t, &s, NUMCH);
    }
    cx.set_desc(format!("{s:?}"));
    let r = reflit::number(&s);
    let lit = guard(|| Lit::try_from(s.as_str()).ok())?;
    same_token(&s, &lit)?;
    match r {
        Class::Unspecified(w) => return cx.discard(w),
        Class::Lit(RefLit::Float(d, f, suf)) => {
            cx.class(format!("suffix {suf:?}"));
            cx.nontrivial = true;
            let ok = match (&lit, suf.as_str()) {
                (Some(Lit::Float(LitFloat::Float(x))), "f") => x.to_bits() == f.to_bits(),
                (Some(Lit::Float(LitFloat::Double(x))), "") => x.to_bits() == d.to_bits(),
                (Some(Lit::Float(LitFloat::LongDouble(x))), "l") => x.to_bits() == d.to_bits(),
                _ => false,
            };
            let (wv, wt) = if suf == "f" { (f as f64, "f32") } else { (d, "f64") };
            if wv.is_infinite() {
                cx.class("infinite");
            }
            if !ok {
                return fail("value", format!("`{s}` is {wv:?} with suffix {suf:?}, got {lit:?}"));
            }
            let (c, out, ty) = value_of(&s)?;
            if ty.as_deref().and_then(rty) != rty(wt) {
                return fail("type", format!("`{s}` generates `{out}` of type {ty:?}"));
            }
            match c {
                CV::F(x, _) if x.to_bits() == wv.to_bits() => {}
                c => return fail("generated", format!("`{s}` generates `{out}`, which is {c:?}, not {wv:?}")),
            }
        }
        _ => {
            cx.class("not a floating literal");
            if matches!(lit, Some(Lit::Float(_))) {
                return fail("accepted", format!("`{s}` is not a floating literal, got {lit:?}"));
            }
        }
    }
    Ok(())
}

const SIMPLE: &[&str] = &["\\'", "\\\"", "\\?", "\\\\", "\\a", "\\b", "\\f", "\\n", "\\r", "\\t", "\\v"];
const UNI: &[char] = &['é', 'ÿ', 'Ω', 'ж', '漢', '€', '\u{ffff}', '🎧', '\u{10ffff}', '\u{a0}', '\u{100}', '\u{7ff}', '\u{800}', '\u{10000}'];
pub fn gen_unit(t: &mut Tape, p: &str, uni: bool) -> String {
    let max = match p {
        "" | "u8" => 0xffu32,
        "u" => 0xffff,
        "U" => 0x10ffff,
        _ => u32::MAX,
    };
    match t.weighted(&[6, 4, 3, 3, 2, if uni { 3 } else { 0 }]) {
        0 => char::from(b' ' + t.below(95) as u8).to_string().replace('\\', "x").replace(['\'', '"'], "y"),
        1 => t.pick_s(SIMPLE),
        2 => {
            let v = t.below(if max > 0x1ff { 0x200 } else { 0x100 });
            let w = 1 + t.below(3);
            format!("\\{v:0w$o}")
        }
        3 => {
            let v = match t.below(3) {
                0 => t.below(0x80) as u32,
                1 => t.below((max.min(0xffff)) as usize + 1) as u32,
                _ => (t.u32() as u64 % (max as u64 + 1)) as u32,
            };
            let w = t.below(7);
            if t.chance(1, 2) {
                format!("\\x{v:0w$x}")
            } else {
                format!("\\x{v:0w$X}")
            }
        }
        4 => {
            let c = *t.pick(UNI) as u32;
            if c < 0x10000 && t.chance(2, 3) {
                format!("\\u{c:04x}")
            } else {
                format!("\\U{c:08X}")
            }
        }
        _ => t.pick(UNI).to_string(),
    }
}
const CHCH: &[&str] = &["'", "\"", "\\", "x", "u", "0", "8", "q", "a", "é", "\n", "U", "1", "\\x", "\\u", "\\q", "\\8", "g", "L", "777"];
fn char_ty(p: &str) -> &'static str {
    match p {
        "" => "c_char",
        "u8" => "u8",
        "u" => "u16",
        "U" => "u32",
        _ => "c_int",
    }
}
fn l03(t: &mut Tape, cx: &mut Cx) -> Res {
    let p = t.pick_s(&["", "u8", "u", "U", "L"]);
    let mut s = format!("{p}'{}'", gen_unit(t, &p, true));
    if t.chance(1, 3) {
        s = mutate(t, &s, CHCH);
    }
    cx.set_desc(format!("{s}"));
    let r = reflit::literal(&s);
    let lit = guard(|| Lit::try_from(s.as_str()).ok())?;
    match r {
        Class::Unspecified(w) => return cx.discard(w),
        Class::Lit(RefLit::Char(p, v)) => {
            same_token(&s, &lit)?;
            cx.class(format!("prefix {p:?}"));
            cx.class(if s.contains("\\u") || s.contains("\\U") { "universal" } else if s.contains("\\x") { "hex" } else if s.contains('\\') { "escape" } else { "plain" });
            cx.nontrivial = s.contains('\\') || !p.is_empty();
            let want = match p.as_str() {
                "" => LitChar::Ordinary(v as u8),
                "u8" => LitChar::Utf8(v as u8),
                "u" => LitChar::Utf16(v as u16),
                "U" => LitChar::Utf32(v),
                _ => LitChar::Wide(v),
            };
            if lit != Some(Lit::Char(want.clone())) {
                return fail("value", format!("`{s}` is {want:?}, got {lit:?}"));
            }
            let (c, out, ty) = value_of(&s)?;
            let wt = char_ty(&p);
            if ty.as_deref() != Some(wt) {
                return fail("type", format!("`{s}` generates `{out}` of type {ty:?}, not {wt}"));
            }
            let w = wrap(v as i128, rty(wt).unwrap());
            if c != CV::Int(w, rty(wt)) {
                return fail("generated", format!("`{s}` generates `{out}` of type {wt}, which is {c:?}, not {w}"));
            }
        }
        _ => {
            cx.class("not a character literal");
            cx.nontrivial = true;
            if matches!(lit, Some(Lit::Char(_))) {
                return fail("accepted", format!("`{s}` is not a character literal, got {lit:?}"));
            }
            same_token(&s, &lit)?;
        }
    }
    Ok(())
}

pub fn gen_str(t: &mut Tape, p: &str, ascii_only: bool) -> String {
    let n = t.count(6);
    let mut b = String::new();
    for _ in 0..n {
        let mut u = gen_unit(t, p, true);
        if ascii_only && u.starts_with("\\x") {
            u = "\\x41".into();
        } else if ascii_only && u.starts_with(|c: char| c == '\\') && u[1..].starts_with(|c: char| c.is_ascii_digit()) {
            u = "\\101".into();
        }
        // a hex escape swallows hex digits that follow
        if b.rfind("\\x").map_or(false, |i| b[i + 2..].chars().all(|c| c.is_ascii_hexdigit())) && u.starts_with(|c: char| c.is_ascii_hexdigit()) {
            b.push(' ');
        }
        b += &u;
    }
    if t.chance(1, 40) {
        // longer than any test, in one piece or in many
        let k = *t.pick(&[15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 300, 511, 600, 1023, 1100]);
        let esc = t.chance(1, 3);
        let long: String = (0..k).map(|i| if esc && i % 3 == 0 { "\\n".to_string() } else { ((b'g' + (i % 19) as u8) as char).to_string() }).collect();
        if t.chance(1, 2) {
            b.insert_str(0, &long);
        } else {
            b += &long;
        }
    }
    format!("{p}\"{b}\"")
}
/// Contents of the generated string constant including its terminator, and its element type.
pub fn contents(c: &CV) -> Option<(Vec<i128>, String)> {
    match c {
        CV::CStr(b) => Some((b.iter().map(|b| *b as i128).collect(), "CStr".into())),
        CV::Arr(v, t) => Some((v.clone(), t.clone())),
        CV::Ptr(Some(v), t) => Some((v.clone(), t.clone())),
        _ => None,
    }
}
/// A run of adjacent string literals: its parts, the prefix of the whole and its code units.
pub fn gen_run(t: &mut Tape, p: &str) -> Result<(Vec<String>, String, Vec<u32>), String> {
    let n = if t.chance(1, 50) { 5 + t.below(20) } else { 1 + t.weighted(&[3, 3, 2, 1]) };
    let mut parts = vec![];
    let mut units = vec![];
    let mut pref = String::new();
    for _ in 0..n {
        let q = if p.is_empty() || t.chance(1, 2) { "" } else { p };
        let s = gen_str(t, q, q.is_empty() && !p.is_empty());
        // the value of the whole is that of the parts under the common prefix
        let whole = format!("{p}{}", reflit::split_prefix(&s).1);
        match reflit::string(&whole) {
            Class::Lit(RefLit::Str(_, u)) => units.push(u),
            Class::Unspecified(w) => return Err(w.to_string()),
            _ => return Err("value out of range".into()),
        }
        if let Class::Unspecified(w) = reflit::string(&s) {
            return Err(w.to_string());
        }
        if !q.is_empty() {
            pref = q.into();
        }
        parts.push(s);
    }
    let u: Vec<u32> = if pref.is_empty() {
        parts.iter().flat_map(|s| match reflit::string(s) { Class::Lit(RefLit::Str(_, u)) => u, _ => vec![] }).collect()
    } else {
        units.concat()
    };
    Ok((parts, pref, u))
}
fn l04(t: &mut Tape, cx: &mut Cx) -> Res {
    let p = t.pick_s(&["", "", "u8", "u", "U", "L"]);
    if t.chance(1, 3) {
        // one literal, possibly damaged
        let mut s = gen_str(t, &p, false);
        if t.chance(2, 3) {
            s = mutate(t, &s, CHCH);
        }
        cx.set_desc(format!("{s}"));
        let r = reflit::literal(&s);
        let lit = guard(|| Lit::try_from(s.as_str()).ok())?;
        match r {
            Class::Unspecified(w) => return cx.discard(w),
            Class::Lit(RefLit::Str(p, u)) => {
                same_token(&s, &lit)?;
                cx.class("single");
                cx.nontrivial = !u.is_empty();
                check_units(&s, &p, &u, &lit)?;
            }
            _ => {
                cx.class("not a string literal");
                cx.nontrivial = true;
                if matches!(lit, Some(Lit::String(_))) {
                    return fail("accepted", format!("`{s}` is not a string literal, got {lit:?}"));
                }
                same_token(&s, &lit)?;
            }
        }
        return Ok(());
    }
    let (parts, pref, u) = match gen_run(t, &p) {
        Ok(x) => x,
        Err(w) => return cx.discard(w),
    };
    let n = parts.len();
    cx.set_desc(parts.join(" "));
    cx.class(format!("prefix {pref:?}"));
    cx.class(format!("{n} literals"));
    cx.nontrivial = n > 1;
    let (v, ty) = match guard(|| cg::var_gen("M", &parts, &ctx()))? {
        Ok(x) => x,
        Err(e) => return fail("generate", format!("generating `{}` fails: {e:?}", parts.join(" "))),
    };
    check_const(&parts.join(" "), &pref, &u, &v, ty.as_deref())
}
fn check_units(s: &str, p: &str, u: &[u32], lit: &Option<Lit>) -> Res {
    let got: Option<Vec<u32>> = match (p, lit) {
        ("", Some(Lit::String(LitString::Ordinary(b)))) => Some(b.iter().map(|b| *b as u32).collect()),
        ("u8", Some(Lit::String(LitString::Utf8(b)))) => Some(b.bytes().map(|b| b as u32).collect()),
        ("u", Some(Lit::String(LitString::Utf16(b)))) => Some(b.encode_utf16().map(|b| b as u32).collect()),
        ("U", Some(Lit::String(LitString::Utf32(b)))) => Some(b.chars().map(|b| b as u32).collect()),
        ("L", Some(Lit::String(LitString::Wide(b)))) => Some(b.clone()),
        _ => None,
    };
    if got.as_deref() != Some(u) {
        return fail("contents", format!("`{s}` has the units {u:x?} with prefix {p:?}, got {lit:?}"));
    }
    let (v, ty) = match guard(|| cg::var_gen("M", &[s], &ctx()))? {
        Ok(x) => x,
        Err(e) => return fail("generate", format!("generating `{s}` fails: {e:?}")),
    };
    check_const(s, p, u, &v, ty.as_deref())
}
pub fn check_const(s: &str, p: &str, u: &[u32], v: &str, ty: Option<&str>) -> Res {
    let c = match eval_const(v, ty) {
        Ok(c) => c,
        Err(e) => return fail("constant", format!("`{s}` generates `{v}`: {e}")),
    };
    let el = char_ty(p);
    let want: Vec<i128> = u.iter().chain(&[0]).map(|x| *x as i128).collect();
    let norm = |x: i128| if p == "L" { x & 0xffff_ffff } else { x };
    match contents(&c) {
        Some((g, gt)) if g.iter().map(|x| norm(*x)).collect::<Vec<_>>() == want => {
            let ok = match p {
                "" => gt == "CStr" || gt == "u8",
                _ => gt == el,
            };
            if !ok {
                return fail("element type", format!("`{s}` generates `{v}` with elements {gt}, not {el}"));
            }
            Ok(())
        }
        _ => fail("generated", format!("`{s}` generates `{v}`, which is {c:?}, not {want:x?}")),
    }
}

const TOKCH: &[&str] = &["a", "_", "Z", "0", "9", "é", "Ω", "\u{301}", "-", "+", "<", ">", "=", "&", "|", ".", "#", "%", ":", "!", "~", "?", ";", ",", "(", ")", "[", "]", "{", "}", "*", "/", "^", "$", "@", "`", "\\", " ", "'", "\"", "漢", "\u{200d}", "·", "\\u00e9", "\\u0301", "e", "x", "L", "u8", "\n", "\t", "🎧", "/*", "*/", "..", "<<"];
/// Undoes universal character names; None if one is malformed or unspecified.
fn unescape(s: &str) -> Option<Result<String, ()>> {
    let mut out = String::new();
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '\\' {
            let n = match c.get(i + 1) {
                Some('u') => 4,
                Some('U') => 8,
                _ => return Some(Err(())),
            };
            let h: String = c[i + 2..].iter().take(n).collect();
            if h.chars().count() < n || !h.chars().all(|c| c.is_ascii_hexdigit()) {
                return Some(Err(()));
            }
            let v = u32::from_str_radix(&h, 16).unwrap();
            if v < 0xa0 || (0xd800..0xe000).contains(&v) {
                return None;
            }
            match char::from_u32(v) {
                Some(c) => out.push(c),
                None => return Some(Err(())),
            }
            i += 2 + n;
        } else {
            out.push(c[i]);
            i += 1;
        }
    }
    Some(Ok(out))
}
fn l05(t: &mut Tape, cx: &mut Cx) -> Res {
    let mut s = match t.weighted(&[4, 3, 2, 2, 2, 3]) {
        0 => {
            // identifier-like
            let n = 1 + t.count(6);
            let mut s = String::new();
            for i in 0..n {
                let w = t.weighted(&[6, 3, 2, if i == 0 { 1 } else { 4 }, 2, 1]);
                s += &match w {
                    0 => t.pick_s(&["a", "x", "Z", "L", "u", "U", "u8", "_"]),
                    1 => t.pick(&['é', 'Ω', '漢', 'ж', 'ª', 'ʰ', 'Ⅷ']).to_string(),
                    2 => "_".into(),
                    3 => t.pick_s(&["0", "1", "9", "e", "٣", "\u{301}", "\u{20d7}", "·"]),
                    4 => {
                        let c = *t.pick(&['é', 'Ω', '漢', '\u{301}', '𝒜', '°', '\u{ff}']) as u32;
                        if c < 0x10000 && t.chance(2, 3) {
                            format!("\\u{c:04X}")
                        } else {
                            format!("\\U{c:08x}")
                        }
                    }
                    _ => t.pick_s(&["$", "°", "🎧", "-"]),
                };
            }
            s
        }
        1 => t.pick_s(cpp::PUNCTS),
        2 => {
            let n = t.count(6);
            let mut s = "/*".to_string();
            for _ in 0..n {
                s += t.pick(&["*", "/", " ", "a", "é", "\n", "//", "'", "\"", "/*"]);
            }
            s + "*/"
        }
        3 => gen_int(t),
        4 => {
            let p = t.pick_s(&["", "u8", "u", "U", "L"]);
            if t.chance(1, 2) {
                format!("{p}'{}'", gen_unit(t, &p, true))
            } else {
                gen_str(t, &p, false)
            }
        }
        _ => {
            let n = t.count(5);
            (0..n).map(|_| t.pick_s(TOKCH)).collect()
        }
    };
    if t.chance(1, 3) {
        s = mutate(t, &s, TOKCH);
    }
    cx.set_desc(format!("{s:?}"));
    if s.contains("\\\n") {
        return cx.discard("line continuation");
    }
    // reference classification
    let lit = reflit::literal(&s);
    if let Class::Unspecified(w) = lit {
        return cx.discard(w);
    }
    let un = match unescape(&s) {
        None if matches!(lit, Class::NotLit) => return cx.discard("universal character name of a basic character"),
        Some(Ok(u)) => Some(u),
        _ => None,
    };
    let comment = s.len() >= 4 && s.starts_with("/*") && s[2..].find("*/") == Some(s.len() - 4);
    let want = if un.as_deref().map_or(false, cpp::is_id) {
        "identifier"
    } else if matches!(lit, Class::Lit(_)) {
        "literal"
    } else if un.as_deref().map_or(false, |u| !u.is_empty() && u.chars().all(unicode_ident::is_xid_continue)) {
        "continuation"
    } else if cpp::PUNCTS.contains(&s.as_str()) {
        "punctuation"
    } else if comment {
        "comment"
    } else {
        "invalid"
    };
    if want == "continuation" && s.starts_with('0') && !s.is_ascii() {
        // fine: still a continuation
    }
    cx.class(want);
    cx.nontrivial = s.chars().count() > 1;
    let r = guard(|| {
        let mut m = MacroSet::new();
        m.define_var_macro("X", [s.as_str()]);
        let out = match m.expand_var_macro("X") {
            Err(e) => Err(format!("{e:?}")),
            Ok(v) => Ok(v.iter().map(crate::lib_if::canon).collect::<Vec<_>>()),
        };
        let kinds = [
            ("identifier", Identifier::try_from(s.as_str()).is_ok()),
            ("literal", Lit::try_from(s.as_str()).is_ok()),
            ("punctuation", Punctuation::try_from(s.as_str()).is_ok()),
            ("comment", Comment::try_from(s.as_str()).is_ok()),
        ];
        let cont = IdentifierContinue::try_from(s.as_str()).is_ok();
        (out, kinds, cont)
    })?;
    let (out, kinds, cont) = r;
    for (k, is) in kinds {
        if is != (k == want) {
            return fail("constructor", format!("{s:?} is {want}; as {k} it is {}", if is { "accepted" } else { "refused" }));
        }
    }
    let wcont = un.as_deref().map_or(false, |u| !u.is_empty() && u.chars().all(unicode_ident::is_xid_continue));
    if cont != wcont {
        return fail("constructor", format!("{s:?} as identifier continuation: {cont}"));
    }
    let ok = match (want, &out) {
        // nothing to concatenate
        ("punctuation", Err(e)) if s == "##" || s == "%:%:" => e == "ConcatBegin",
        ("invalid", Err(e)) => e.contains("InvalidToken"),
        ("comment", Ok(v)) => v.len() <= 1 && v.iter().all(|x| x.is_none()),
        ("identifier", Ok(v)) => v[..] == [un.clone()],
        ("continuation", Ok(v)) => v[..] == [un.clone().map(|u| format!("cont:{u}"))],
        ("literal", Ok(v)) => v.len() == 1 && v[0].is_some(),
        ("punctuation", Ok(v)) => v[..] == [Some(s.clone())],
        _ => false,
    };
    if !ok {
        return fail("expansion", format!("{s:?} is {want}; expanding it gives {out:?}"));
    }
    Ok(())
}
/// Every punctuator, and every string of up to three characters over the punctuation alphabet.
const PCH: &[u8] = b"[](){}.->+&*~!/%<=^|?:;,#@$`\\";
fn l05_n() -> usize {
    let n = PCH.len();
    n + n * n + n * n * n
}
fn l05_enum(i: usize, cx: &mut Cx) -> Res {
    let n = PCH.len();
    let idx: Vec<usize> = if i < n {
        vec![i]
    } else if i < n + n * n {
        let j = i - n;
        vec![j / n, j % n]
    } else {
        let j = i - n - n * n;
        vec![j / n / n, j / n % n, j % n]
    };
    let s: String = idx.iter().map(|i| PCH[*i] as char).collect();
    cx.set_desc(format!("{s:?}"));
    let want = cpp::PUNCTS.contains(&s.as_str());
    cx.nontrivial = want;
    let got = guard(|| Punctuation::try_from(s.as_str()).is_ok())?;
    if got != want {
        return fail("punctuators", format!("{s:?} is {}a punctuator", if want { "" } else { "not " }));
    }
    if want && s != "##" && s != "%:%:" {
        let v = guard(|| via_set(&s))?;
        if v.as_ref().map_or(true, |v| v.len() != 1) {
            return fail("punctuators", format!("{s:?} expands to {v:?}"));
        }
    }
    Ok(())
}
fn l03_n() -> usize {
    5 * (256 + 128)
}
/// Every one-byte octal and hexadecimal escape and every ASCII character, with every prefix.
fn l03_enum(i: usize, cx: &mut Cx) -> Res {
    let p = ["", "u8", "u", "U", "L"][i % 5];
    let j = i / 5;
    let s = if j < 256 {
        if j % 2 == 0 {
            format!("{p}'\\x{j:x}'")
        } else {
            format!("{p}'\\{j:o}'")
        }
    } else {
        format!("{p}'{}'", char::from((j - 256) as u8))
    };
    cx.set_desc(s.clone());
    cx.nontrivial = true;
    let lit = guard(|| Lit::try_from(s.as_str()).ok())?;
    match reflit::character(&s) {
        Class::Lit(RefLit::Char(_, v)) => {
            let (c, out, _) = value_of(&s)?;
            let w = wrap(v as i128, rty(char_ty(p)).unwrap());
            if c != CV::Int(w, rty(char_ty(p))) {
                return fail("generated", format!("`{s}` generates `{out}`, which is {c:?}, not {w}"));
            }
        }
        Class::Unspecified(_) => {}
        _ => {
            if lit.is_some() {
                return fail("accepted", format!("{s:?} is not a character literal, got {lit:?}"));
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _ = rconst::I32;
    let _: Option<GErr> = None;
    let p = |id, rule, case: CaseFn, enumerate: Option<(fn() -> usize, EnumFn)>| Prop {
        id,
        rule,
        tape_len: 64,
        quick: 1_000_000,
        thorough: 20_000_000,
        case,
        enumerate,
        batch: None,
        assumptions: &[],
    };
    vec![
        p("L01", "the literal has a value above 9 or a suffix, or the text is a damaged literal", l01, None),
        p("L02", "the text is a decimal floating literal", l02, None),
        p("L03", "the literal has a prefix or an escape, or the text is a damaged literal", l03, Some((l03_n, l03_enum))),
        p("L04", "more than one literal, a non-empty one, or a damaged one", l04, None),
        p("L05", "the text has more than one character", l05, Some((l05_n, l05_enum))),
    ]
}
