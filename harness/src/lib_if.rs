//! Thin interface to the library under test.
use crate::cpp::{self, Macro};
use cmacro::{Comment, Identifier, IdentifierContinue, Lit, LitString, MacroSet, MacroToken, Punctuation};

#[derive(Clone, Debug)]
pub struct Def {
    pub name: String,
    /// Parameter list as written (may contain comments and `...`).
    pub args: Option<Vec<String>>,
    pub body: Vec<String>,
}
impl Def {
    pub fn obj(name: &str, body: &[String]) -> Def {
        Def { name: name.into(), args: None, body: body.to_vec() }
    }
    pub fn func(name: &str, args: &[String], body: &[String]) -> Def {
        Def { name: name.into(), args: Some(args.to_vec()), body: body.to_vec() }
    }
    pub fn model(&self) -> Macro {
        match &self.args {
            None => Macro::Obj(self.body.clone()),
            Some(a) => {
                let a: Vec<String> = a.iter().filter(|s| cpp::kind(s) != cpp::K::Comment).cloned().collect();
                let variadic = a.last().map_or(false, |s| s == "...");
                let params = a.into_iter().filter(|s| s != "...").collect();
                Macro::Fn { params, variadic, body: self.body.clone() }
            }
        }
    }
    pub fn show(&self) -> String {
        match &self.args {
            None => format!("#define {} {}", self.name, self.body.join(" ")),
            Some(a) => format!("#define {}({}) {}", self.name, a.join(","), self.body.join(" ")),
        }
    }
    pub fn apply(&self, m: &mut MacroSet) -> bool {
        match &self.args {
            None => m.define_var_macro(&self.name, &self.body),
            Some(a) => m.define_fn_macro(&self.name, a, &self.body),
        }
    }
}
pub fn show_defs(d: &[Def]) -> String {
    d.iter().map(|d| d.show()).collect::<Vec<_>>().join(" | ")
}
pub fn build(defs: &[Def]) -> MacroSet {
    let mut m = MacroSet::new();
    for d in defs {
        d.apply(&mut m);
    }
    m
}
pub fn table(defs: &[Def]) -> cpp::Table {
    defs.iter().map(|d| (d.name.clone(), d.model())).collect()
}

/// Classifies one spelled token through the library's public constructors.
pub fn lib_tok(s: &str) -> Option<MacroToken<'_>> {
    if let Ok(i) = Identifier::try_from(s) {
        Some(MacroToken::Identifier(i))
    } else if let Ok(l) = Lit::try_from(s) {
        Some(MacroToken::Lit(l))
    } else if let Ok(i) = IdentifierContinue::try_from(s) {
        Some(MacroToken::IdentifierContinue(i))
    } else if let Ok(p) = Punctuation::try_from(s) {
        Some(MacroToken::Punctuation(p))
    } else if let Ok(c) = Comment::try_from(s) {
        Some(MacroToken::Comment(c))
    } else {
        None
    }
}
pub fn lib_toks(v: &[String]) -> Vec<MacroToken<'_>> {
    v.iter().map(|s| lib_tok(s).unwrap_or_else(|| panic!("harness: {s:?} is not a token"))).collect()
}

/// Whitespace-insensitive form of a narrow string's contents: its preprocessing tokens.
fn norm_str(b: &[u8]) -> String {
    match std::str::from_utf8(b).ok().and_then(|s| cpp::lex(s)) {
        Some(t) => format!("str<{}>", t.join(" ")),
        None => format!("str{b:?}"),
    }
}
pub fn canon_lit(l: &Lit) -> String {
    match l {
        Lit::String(LitString::Ordinary(b)) => norm_str(b),
        Lit::String(LitString::Utf8(s)) => format!("u8{}", norm_str(s.as_bytes())),
        Lit::String(LitString::Utf16(s)) => format!("u{}", norm_str(s.as_bytes())),
        Lit::String(LitString::Utf32(s)) => format!("U{}", norm_str(s.as_bytes())),
        Lit::Float(f) => format!("{f:?}"),
        l => format!("{l:?}"),
    }
}
/// Canonical text of a library token; comments give None.
pub fn canon(t: &MacroToken) -> Option<String> {
    Some(match t {
        MacroToken::Arg(a) => format!("{a:?}"),
        MacroToken::Identifier(i) => i.as_str().to_string(),
        MacroToken::IdentifierContinue(i) => format!("cont:{}", i.as_str()),
        MacroToken::Lit(l) => canon_lit(l),
        MacroToken::Punctuation(p) => punct_str(p),
        MacroToken::Comment(_) => return None,
    })
}
pub fn punct_str(p: &Punctuation) -> String {
    // the spelling is not public; compare against every punctuator
    for s in cpp::PUNCTS {
        if *p == *s {
            return s.to_string();
        }
    }
    format!("{p:?}")
}
pub fn canon_all(t: &[MacroToken]) -> Vec<String> {
    t.iter().filter_map(canon).collect()
}
pub fn canon_strs(v: &[String]) -> Vec<String> {
    v.iter().filter_map(|s| lib_tok(s).map_or(Some(format!("invalid:{s}")), |t| canon(&t))).collect()
}
pub fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
/// Canonical form with runs of adjacent narrow strings merged.
pub fn merge_strs(v: Vec<String>) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for s in v {
        if let (Some(n), Some(l)) = (s.strip_prefix("str<"), out.last_mut()) {
            if l.starts_with("str<") {
                let a = l[4..l.len() - 1].to_string();
                let b = &n[..n.len() - 1];
                let j = [a.as_str(), b].iter().filter(|s| !s.is_empty()).cloned().collect::<Vec<_>>().join(" ");
                *l = format!("str<{j}>");
                continue;
            }
        }
        out.push(s);
    }
    out
}
