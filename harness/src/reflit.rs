//! Reference decoding of C literals, independent of the library.
#[derive(Debug, Clone, PartialEq)]
pub enum RefLit {
    Int(i128, String),
    /// double value, float value, suffix
    Float(f64, f32, String),
    Char(String, u32),
    /// prefix and code units (bytes, UTF-8, UTF-16 units, code points)
    Str(String, Vec<u32>),
}
#[derive(Debug, Clone, PartialEq)]
pub enum Class {
    Lit(RefLit),
    NotLit,
    /// Implementation-defined or outside what the properties speak about.
    Unspecified(&'static str),
}
extern "C" {
    fn strtof(s: *const libc::c_char, e: *mut *mut libc::c_char) -> f32;
    fn strtod(s: *const libc::c_char, e: *mut *mut libc::c_char) -> f64;
}
fn strto(s: &str) -> (f64, f32) {
    let c = std::ffi::CString::new(s).unwrap();
    // SAFETY: NUL-terminated string, no end pointer.
    unsafe { (strtod(c.as_ptr(), std::ptr::null_mut()), strtof(c.as_ptr(), std::ptr::null_mut())) }
}

fn int_suffix(s: &str) -> Option<String> {
    let l = s.to_ascii_lowercase();
    let ok = match l.as_str() {
        "" | "u" | "l" | "ul" | "lu" => true,
        "ll" | "ull" => s.ends_with("ll") || s.ends_with("LL"),
        "llu" => s.starts_with("ll") || s.starts_with("LL"),
        _ => false,
    };
    ok.then(|| {
        let mut k = String::new();
        if l.contains('u') {
            k.push('u');
        }
        k.extend(l.chars().filter(|c| *c == 'l'));
        k
    })
}
pub fn number(s: &str) -> Class {
    let b = s.as_bytes();
    if b.is_empty() || !s.is_ascii() || !(b[0].is_ascii_digit() || b[0] == b'.') {
        return Class::NotLit;
    }
    let low = s.to_ascii_lowercase();
    if low.contains('z') {
        return Class::Unspecified("z suffix");
    }
    let (radix, digits) = if low.starts_with("0x") {
        if low.contains('p') || low.contains('.') {
            return Class::Unspecified("hexadecimal float");
        }
        (16, &s[2..])
    } else if low.starts_with("0b") {
        (2, &s[2..])
    } else {
        (10, s)
    };
    let n = digits.bytes().take_while(|c| (*c as char).is_digit(radix)).count();
    if radix != 10 && n == 0 {
        return Class::NotLit;
    }
    if n > 0 {
        if let Some(suf) = int_suffix(&digits[n..]) {
            let radix = if radix == 10 && digits.len() > 1 && digits.starts_with('0') { 8 } else { radix };
            let mut v: i128 = 0;
            for c in digits[..n].chars() {
                let Some(d) = c.to_digit(radix) else { return Class::NotLit };
                match v.checked_mul(radix as i128).and_then(|v| v.checked_add(d as i128)) {
                    Some(x) => v = x,
                    None => return Class::Unspecified("too large"),
                }
            }
            if v > u64::MAX as i128 {
                return Class::Unspecified("too large");
            }
            return Class::Lit(RefLit::Int(v, suf));
        }
    }
    if radix != 10 {
        return Class::NotLit;
    }
    // decimal float
    let mut i = n;
    let mut dot = false;
    let mut frac = 0;
    if i < b.len() && b[i] == b'.' {
        dot = true;
        i += 1;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
            frac += 1;
        }
    }
    if n + frac == 0 {
        return Class::NotLit;
    }
    let mut exp = false;
    if i < b.len() && (b[i] | 32) == b'e' {
        let mut j = i + 1;
        if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
            j += 1;
        }
        let k = j;
        while j < b.len() && b[j].is_ascii_digit() {
            j += 1;
        }
        if j > k {
            exp = true;
            i = j;
        }
    }
    if !dot && !exp {
        return Class::NotLit;
    }
    let suf = low[i..].to_string();
    if !["", "f", "l"].contains(&suf.as_str()) {
        return Class::NotLit;
    }
    let (d, f) = strto(&s[..i]);
    Class::Lit(RefLit::Float(d, f, suf))
}

pub enum U {
    /// a numeric escape
    Unit(u32),
    Char(char),
}
enum D {
    Ok(Vec<U>),
    Bad,
    Unspec(&'static str),
}
fn decode(body: &[char], q: char) -> D {
    let mut out = vec![];
    let mut i = 0;
    while i < body.len() {
        let c = body[i];
        if c == q || c == '\n' || c == '\r' {
            return if c == '\r' { D::Unspec("carriage return") } else { D::Bad };
        }
        if c != '\\' {
            out.push(U::Char(c));
            i += 1;
            continue;
        }
        i += 1;
        let Some(&e) = body.get(i) else { return D::Bad };
        i += 1;
        match e {
            '\'' | '"' | '?' | '\\' => out.push(U::Char(e)),
            'a' => out.push(U::Char('\x07')),
            'b' => out.push(U::Char('\x08')),
            'f' => out.push(U::Char('\x0c')),
            'n' => out.push(U::Char('\n')),
            'r' => out.push(U::Char('\r')),
            't' => out.push(U::Char('\t')),
            'v' => out.push(U::Char('\x0b')),
            'e' => return D::Unspec("\\e"),
            '\n' | '\r' => return D::Unspec("line continuation"),
            '0'..='7' => {
                let mut v = e.to_digit(8).unwrap();
                for _ in 0..2 {
                    if let Some(d) = body.get(i).and_then(|c| c.to_digit(8)) {
                        v = v * 8 + d;
                        i += 1;
                    } else {
                        break;
                    }
                }
                out.push(U::Unit(v));
            }
            'x' => {
                let s = i;
                let mut v: u64 = 0;
                while let Some(d) = body.get(i).and_then(|c| if c.is_ascii() { c.to_digit(16) } else { None }) {
                    v = (v * 16 + d as u64).min(u32::MAX as u64 + 1);
                    i += 1;
                }
                if s == i || v > u32::MAX as u64 {
                    return D::Bad;
                }
                out.push(U::Unit(v as u32));
            }
            'u' | 'U' => {
                let n = if e == 'u' { 4 } else { 8 };
                let mut v: u32 = 0;
                for _ in 0..n {
                    match body.get(i).and_then(|c| if c.is_ascii() { c.to_digit(16) } else { None }) {
                        Some(d) => v = (v << 4) | d,
                        None => return D::Bad,
                    }
                    i += 1;
                }
                if v < 0xa0 || (0xd800..0xe000).contains(&v) {
                    return D::Unspec("universal character name of a surrogate or a basic character");
                }
                match char::from_u32(v) {
                    Some(c) => out.push(U::Char(c)),
                    None => return D::Bad,
                }
            }
            _ => return D::Bad,
        }
    }
    D::Ok(out)
}
pub fn split_prefix(s: &str) -> (&str, &str) {
    for p in ["u8", "u", "U", "L"] {
        if let Some(r) = s.strip_prefix(p) {
            if r.starts_with('"') || r.starts_with('\'') {
                return (p, r);
            }
        }
    }
    ("", s)
}
fn inner(r: &str, q: char) -> Option<Vec<char>> {
    let c: Vec<char> = r.chars().collect();
    (c.len() >= 2 && c[0] == q && c[c.len() - 1] == q).then(|| c[1..c.len() - 1].to_vec())
}
pub fn character(s: &str) -> Class {
    let (p, r) = split_prefix(s);
    let Some(b) = inner(r, '\'') else { return Class::NotLit };
    match decode(&b, '\'') {
        D::Bad => Class::NotLit,
        D::Unspec(w) => Class::Unspecified(w),
        D::Ok(u) => {
            if u.len() != 1 {
                return Class::NotLit;
            }
            let v = match (p, &u[0]) {
                ("", U::Char(c)) if !c.is_ascii() => return Class::Unspecified("multi-byte character in a plain literal"),
                ("" | "u8", U::Unit(v)) if *v > 0xff => return Class::NotLit,
                ("u8", U::Char(c)) if !c.is_ascii() => return Class::NotLit,
                ("u", U::Char(c)) if *c as u32 > 0xffff => return Class::NotLit,
                ("u", U::Unit(v)) if *v > 0xffff => return Class::NotLit,
                (_, U::Char(c)) => *c as u32,
                (_, U::Unit(v)) => *v,
            };
            Class::Lit(RefLit::Char(p.into(), v))
        }
    }
}
pub fn string(s: &str) -> Class {
    let (p, r) = split_prefix(s);
    let Some(b) = inner(r, '"') else { return Class::NotLit };
    match decode(&b, '"') {
        D::Bad => Class::NotLit,
        D::Unspec(w) => Class::Unspecified(w),
        D::Ok(us) => {
            let mut out: Vec<u32> = vec![];
            for u in us {
                match (p, u) {
                    ("" | "u8", U::Char(c)) => out.extend(c.to_string().bytes().map(|b| b as u32)),
                    ("", U::Unit(v)) if v > 0xff => return Class::NotLit,
                    ("u8", U::Unit(v)) if v > 0xff => return Class::NotLit,
                    ("u", U::Unit(v)) if v > 0xffff => return Class::NotLit,
                    ("u8", U::Unit(v)) if v > 0x7f => return Class::Unspecified("code unit that is not a character"),
                    ("u", U::Unit(v)) if (0xd800..0xe000).contains(&v) => return Class::Unspecified("code unit that is not a character"),
                    ("U", U::Unit(v)) if char::from_u32(v).is_none() => return Class::Unspecified("code unit that is not a character"),
                    (_, U::Unit(v)) => out.push(v),
                    ("u", U::Char(c)) => out.extend(c.encode_utf16(&mut [0; 2]).iter().map(|b| *b as u32)),
                    (_, U::Char(c)) => out.push(c as u32),
                }
            }
            Class::Lit(RefLit::Str(p.into(), out))
        }
    }
}
pub fn literal(s: &str) -> Class {
    if s.contains('\'') || s.contains('"') {
        let q = s.find(|c| c == '\'' || c == '"').unwrap();
        if s[q..].starts_with('"') {
            string(s)
        } else {
            character(s)
        }
    } else {
        number(s)
    }
}
