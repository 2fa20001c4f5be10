//! Reference C preprocessor over token lists (Prosser's hide-set algorithm), independent of the library.
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;

pub const PUNCTS: &[&str] = &[
    "[", "]", "(", ")", "{", "}", ".", "->", "++", "--", "&", "*", "+", "-", "~", "!", "/", "%", "<<", ">>", "<", ">", "<=",
    ">=", "==", "!=", "^", "|", "&&", "||", "?", ":", ";", "...", "=", "*=", "/=", "%=", "+=", "-=", "<<=", ">>=", "&=", "^=",
    "|=", ",", "#", "##", "<:", ":>", "<%", "%>", "%:", "%:%:",
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Id,
    Num,
    Str,
    Chr,
    Punct,
    Comment,
    /// Placemarker for an empty operand of `##`.
    Mark,
    /// End of a replacement (context-stack variant only).
    End,
    Other,
}

pub fn is_id_start(c: char) -> bool {
    c == '_' || unicode_ident::is_xid_start(c)
}
pub fn is_id(s: &str) -> bool {
    let mut c = s.chars();
    matches!(c.next(), Some(f) if is_id_start(f)) && c.all(unicode_ident::is_xid_continue)
}
pub fn is_ppnum(s: &str) -> bool {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    if b.first() == Some(&'.') {
        i = 1;
    }
    if !b.get(i).map_or(false, |c| c.is_ascii_digit()) {
        return false;
    }
    i += 1;
    while i < b.len() {
        if matches!(b[i], 'e' | 'E' | 'p' | 'P') && matches!(b.get(i + 1), Some('+' | '-')) {
            i += 2;
        } else if b[i] == '.' || unicode_ident::is_xid_continue(b[i]) {
            i += 1;
        } else {
            return false;
        }
    }
    true
}
fn quoted(s: &str, q: char) -> bool {
    let r = s.strip_prefix("u8").or_else(|| s.strip_prefix('u')).or_else(|| s.strip_prefix('U')).or_else(|| s.strip_prefix('L')).unwrap_or(s);
    let b: Vec<char> = r.chars().collect();
    if b.len() < 2 || b[0] != q {
        return false;
    }
    let mut i = 1;
    while i < b.len() {
        if b[i] == '\\' {
            i += 2;
        } else if b[i] == q {
            return i == b.len() - 1;
        } else {
            i += 1;
        }
    }
    false
}
pub fn kind(s: &str) -> K {
    if is_id(s) {
        K::Id
    } else if is_ppnum(s) {
        K::Num
    } else if quoted(s, '"') {
        K::Str
    } else if quoted(s, '\'') {
        K::Chr
    } else if PUNCTS.contains(&s) {
        K::Punct
    } else if s.starts_with("/*") && s.ends_with("*/") && s.len() >= 4 {
        K::Comment
    } else {
        K::Other
    }
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub s: String,
    pub k: K,
    pub hs: Rc<BTreeSet<String>>,
    /// An operator `#`/`##` of a replacement list (as opposed to an ordinary token of that spelling).
    op: bool,
}
pub fn tok(s: &str) -> Tok {
    Tok { s: s.to_string(), k: kind(s), hs: Rc::new(BTreeSet::new()), op: false }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Macro {
    Obj(Vec<String>),
    Fn { params: Vec<String>, variadic: bool, body: Vec<String> },
}
pub type Table = BTreeMap<String, Macro>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum CppError {
    Arity { name: String, required: usize, given: usize },
    BadPaste(String, String),
    PasteBegin,
    PasteEnd,
    StringifyNonParam,
    VarArgsOutside,
    TooBig,
    /// A situation the C standard leaves unspecified, or outside the modelled domain.
    Unspecified(&'static str),
}

pub struct Cpp<'a> {
    pub t: &'a Table,
    pub steps: usize,
    pub expansions: usize,
    pub max_steps: usize,
    pub blocked: usize,
    pub spanned: usize,
    pub stringified: usize,
    pub pasted: usize,
    pub nested_args: usize,
    /// Leave a function-like name alone when its argument list is unbalanced or unterminated, instead of giving up.
    pub lenient: bool,
    /// Nested replacement as a stack of contexts (a name is available again once its replacement has been read to the end)
    /// instead of hide sets. The two differ only where the C standard leaves the result unspecified (C17 6.10.3.4p4).
    pub contexts: bool,
    active: Vec<String>,
}

impl<'a> Cpp<'a> {
    pub fn new(t: &'a Table) -> Self {
        Cpp { t, steps: 0, expansions: 0, max_steps: 4000, blocked: 0, spanned: 0, stringified: 0, pasted: 0, nested_args: 0, lenient: false, contexts: false, active: vec![] }
    }

    /// Expands a body the way the library's entry points do: `##` in the text is an operator.
    pub fn expand_text(&mut self, body: &[String]) -> Result<Vec<String>, CppError> {
        let toks = self.subst_obj(body, &BTreeSet::new())?;
        Ok(self.expand(toks)?.into_iter().map(|t| t.s).collect())
    }

    pub fn with_contexts(t: &'a Table) -> Self {
        Cpp { contexts: true, ..Cpp::new(t) }
    }

    pub fn expand_name(&mut self, name: &str) -> Result<Vec<String>, CppError> {
        let Some(Macro::Obj(b)) = self.t.get(name) else { return Err(CppError::Unspecified("not an object-like macro")) };
        let hs: BTreeSet<String> = [name.to_string()].into_iter().collect();
        let toks = self.subst_obj(b, &hs)?;
        self.active = vec![name.to_string()];
        Ok(self.expand(toks)?.into_iter().map(|t| t.s).collect())
    }

    fn end(&self, name: &str) -> Tok {
        Tok { s: name.to_string(), k: K::End, hs: Rc::new(BTreeSet::new()), op: false }
    }
    fn leave(&mut self, name: &str) {
        self.active.retain(|n| n != name);
    }
    fn is_hidden(&self, t: &Tok) -> bool {
        t.hs.contains(&t.s) || (self.contexts && self.active.contains(&t.s))
    }

    fn subst_obj(&mut self, body: &[String], hs: &BTreeSet<String>) -> Result<Vec<Tok>, CppError> {
        let v: Vec<Tok> = body
            .iter()
            .filter(|s| kind(s) != K::Comment)
            .map(|s| {
                let mut t = tok(s);
                t.op = s == "##";
                t
            })
            .collect();
        if v.iter().any(|t| t.s == "__VA_ARGS__") {
            return Err(CppError::VarArgsOutside);
        }
        let mut v = self.paste(v)?;
        for t in &mut v {
            hsadd(t, hs);
        }
        Ok(v)
    }

    pub fn expand(&mut self, ts: Vec<Tok>) -> Result<Vec<Tok>, CppError> {
        let mut q: VecDeque<Tok> = ts.into();
        let mut out = vec![];
        while let Some(t) = q.pop_front() {
            self.steps += 1;
            if self.steps > self.max_steps || q.len() > 3000 || out.len() > 3000 {
                return Err(CppError::TooBig);
            }
            if t.k == K::Comment {
                continue;
            }
            if t.k == K::End {
                self.leave(&t.s);
                continue;
            }
            if t.k != K::Id || !self.t.contains_key(&t.s) {
                out.push(t);
                continue;
            }
            if self.is_hidden(&t) {
                self.blocked += 1;
                let mut t = t;
                if self.contexts {
                    paint(&mut t);
                }
                out.push(t);
                continue;
            }
            match &self.t[&t.s] {
                Macro::Obj(body) => {
                    self.expansions += 1;
                    let mut hs = (*t.hs).clone();
                    hs.insert(t.s.clone());
                    if self.contexts {
                        hs.clear();
                        self.active.push(t.s.clone());
                        q.push_front(self.end(&t.s));
                    }
                    let body = body.clone();
                    let r = self.subst_obj(&body, &hs)?;
                    for x in r.into_iter().rev() {
                        q.push_front(x);
                    }
                }
                Macro::Fn { params, variadic, body } => {
                    let open = q.iter().position(|x| !matches!(x.k, K::Comment | K::End));
                    let Some(open) = open.filter(|i| q[*i].s == "(" && q[*i].k == K::Punct) else {
                        out.push(t);
                        continue;
                    };
                    // collect
                    let mut depth = 0;
                    let mut args: Vec<Vec<Tok>> = vec![];
                    let mut cur: Vec<Tok> = vec![];
                    let mut i = open + 1;
                    let mut close = None;
                    let was_active = self.active.clone();
                    let mut left: Vec<String> = vec![];
                    for x in q.iter().take(open) {
                        if x.k == K::End {
                            left.push(x.s.clone());
                        }
                    }
                    for n in left.clone() {
                        self.leave(&n);
                    }
                    while i < q.len() {
                        let x = &q[i];
                        if x.k == K::Punct {
                            match x.s.as_str() {
                                "(" => depth += 1,
                                ")" if depth == 0 => {
                                    close = Some(i);
                                    break;
                                }
                                ")" => depth -= 1,
                                "," if depth == 0 => {
                                    args.push(std::mem::take(&mut cur));
                                    i += 1;
                                    continue;
                                }
                                _ => (),
                            }
                        }
                        if x.k == K::End {
                            let n = x.s.clone();
                            left.push(n.clone());
                            self.leave(&n);
                        } else if x.k != K::Comment {
                            let mut x = x.clone();
                            if self.contexts && self.is_hidden(&x) {
                                paint(&mut x);
                            }
                            cur.push(x);
                        }
                        i += 1;
                    }
                    if self.lenient && close.is_none() {
                        self.active = was_active;
                        out.push(t);
                        continue;
                    }
                    let Some(close) = close else {
                        return Err(CppError::Unspecified("unterminated argument list"));
                    };
                    args.push(cur);
                    self.expansions += 1;
                    if t.hs != q[close].hs || !left.is_empty() {
                        self.spanned += 1;
                    }
                    if params.is_empty() && !variadic {
                        if args.len() == 1 && args[0].is_empty() {
                            args.clear();
                        }
                    }
                    let ok = if *variadic { args.len() >= params.len() } else { args.len() == params.len() };
                    if !ok {
                        return Err(CppError::Arity { name: t.s.clone(), required: params.len() + *variadic as usize, given: args.len() });
                    }
                    let mut hs: BTreeSet<String> = t.hs.intersection(&q[close].hs).cloned().collect();
                    hs.insert(t.s.clone());
                    q.drain(..=close);
                    if self.contexts {
                        hs.clear();
                        q.push_front(self.end(&t.s));
                    }
                    let (params, variadic, body) = (params.clone(), *variadic, body.clone());
                    let r = self.subst_fn(&params, variadic, &body, &args, &hs)?;
                    if self.contexts {
                        self.active.push(t.s.clone());
                    }
                    for x in r.into_iter().rev() {
                        q.push_front(x);
                    }
                }
            }
        }
        Ok(out)
    }

    fn subst_fn(&mut self, params: &[String], variadic: bool, body: &[String], args: &[Vec<Tok>], hs: &BTreeSet<String>) -> Result<Vec<Tok>, CppError> {
        let body: Vec<&String> = body.iter().filter(|s| kind(s) != K::Comment).collect();
        let arg_of = |s: &str| -> Result<Option<Vec<Tok>>, CppError> {
            if s == "__VA_ARGS__" {
                if !variadic {
                    return Err(CppError::VarArgsOutside);
                }
                let mut v = vec![];
                for (i, a) in args[params.len().min(args.len())..].iter().enumerate() {
                    if i > 0 {
                        v.push(tok(","));
                    }
                    v.extend(a.iter().cloned());
                }
                return Ok(Some(v));
            }
            Ok(params.iter().position(|p| p == s).map(|i| args[i].clone()))
        };
        let mut os: Vec<Tok> = vec![];
        let mut i = 0;
        while i < body.len() {
            let s = body[i].as_str();
            if s == "#" {
                let Some(n) = body.get(i + 1) else { return Err(CppError::StringifyNonParam) };
                let Some(a) = arg_of(n)? else { return Err(CppError::StringifyNonParam) };
                self.stringified += 1;
                os.push(stringize(&a));
                i += 2;
                continue;
            }
            if s == "##" {
                let mut t = tok("##");
                t.op = true;
                os.push(t);
                i += 1;
                continue;
            }
            if let Some(a) = arg_of(s)? {
                let pasted = (i > 0 && body[i - 1] == "##") || body.get(i + 1).map_or(false, |n| *n == "##");
                if pasted {
                    if a.is_empty() {
                        os.push(Tok { s: String::new(), k: K::Mark, hs: Rc::new(BTreeSet::new()), op: false });
                    } else {
                        os.extend(a);
                    }
                } else {
                    let before = self.expansions;
                    let e = self.expand(a)?;
                    if self.expansions > before {
                        self.nested_args += 1;
                    }
                    os.extend(e);
                }
                i += 1;
                continue;
            }
            os.push(tok(s));
            i += 1;
        }
        let mut v = self.paste(os)?;
        for t in &mut v {
            hsadd(t, hs);
        }
        Ok(v)
    }

    fn paste(&mut self, v: Vec<Tok>) -> Result<Vec<Tok>, CppError> {
        let mut out: Vec<Tok> = vec![];
        let mut it = v.into_iter().peekable();
        while let Some(t) = it.next() {
            if !t.op {
                out.push(t);
                continue;
            }
            let Some(l) = out.pop() else { return Err(CppError::PasteBegin) };
            let Some(r) = it.next() else { return Err(CppError::PasteEnd) };
            if r.op {
                return Err(CppError::Unspecified("consecutive ## operators"));
            }
            self.pasted += 1;
            out.push(paste2(l, r)?);
        }
        out.retain(|t| t.k != K::Mark);
        Ok(out)
    }
}

fn paste2(l: Tok, r: Tok) -> Result<Tok, CppError> {
    if l.k == K::Mark {
        return Ok(r);
    }
    if r.k == K::Mark {
        return Ok(l);
    }
    let s = format!("{}{}", l.s, r.s);
    let k = kind(&s);
    if matches!(k, K::Other | K::Comment) || s.starts_with("//") {
        return Err(CppError::BadPaste(l.s, r.s));
    }
    let hs = l.hs.intersection(&r.hs).cloned().collect();
    Ok(Tok { s, k, hs: Rc::new(hs), op: false })
}

/// Marks a name as never available for replacement again.
fn paint(t: &mut Tok) {
    let s = t.s.clone();
    hsadd(t, &[s].into_iter().collect());
}

fn hsadd(t: &mut Tok, hs: &BTreeSet<String>) {
    if hs.is_empty() || hs.iter().all(|h| t.hs.contains(h)) {
        return;
    }
    let mut n = (*t.hs).clone();
    n.extend(hs.iter().cloned());
    t.hs = Rc::new(n);
}

/// The spelling inside the string literal (before escaping), with single spaces between all tokens.
pub fn spelling(a: &[Tok]) -> String {
    a.iter().map(|t| t.s.as_str()).collect::<Vec<_>>().join(" ")
}

/// Marker that the spacing of this literal is not fixed by the model.
pub fn stringize(a: &[Tok]) -> Tok {
    let inner = library_spacing(&a.iter().map(|t| t.s.as_str()).collect::<Vec<_>>());
    let s = format!("\"{}\"", inner.replace('\\', "\\\\").replace('"', "\\\""));
    Tok { s, k: K::Str, hs: Rc::new(BTreeSet::new()), op: false }
}

/// Tokens carry no whitespace information; the documented examples fix where a space is put:
/// between all tokens except before `) ] } . , (` and after `( [ { .`.
pub fn library_spacing(ts: &[&str]) -> String {
    let mut s = String::new();
    let mut space = false;
    for t in ts {
        if space && !matches!(*t, ")" | "]" | "}" | "." | "," | "(") {
            s.push(' ');
        }
        space = !matches!(*t, "(" | "[" | "{" | ".");
        s.push_str(t);
    }
    s
}

/// Splits text into preprocessing tokens (whitespace separates, comments are dropped).
pub fn lex(s: &str) -> Option<Vec<String>> {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() {
            i += 1;
            continue;
        }
        if c == '/' && b.get(i + 1) == Some(&'*') {
            let mut j = i + 2;
            while j + 1 < b.len() && !(b[j] == '*' && b[j + 1] == '/') {
                j += 1;
            }
            if j + 1 >= b.len() {
                return None;
            }
            i = j + 2;
            continue;
        }
        // literals with prefix
        let mut j = i;
        for p in ["u8", "u", "U", "L", ""] {
            let pl = p.chars().count();
            if b[i..].iter().take(pl).collect::<String>() == p && matches!(b.get(i + pl), Some('"' | '\'')) {
                let q = b[i + pl];
                j = i + pl + 1;
                while j < b.len() && b[j] != q {
                    if b[j] == '\\' {
                        j += 1;
                    }
                    j += 1;
                }
                if j >= b.len() {
                    return None;
                }
                j += 1;
                break;
            }
        }
        if j > i {
            out.push(b[i..j].iter().collect());
            i = j;
            continue;
        }
        if is_id_start(c) {
            while j < b.len() && unicode_ident::is_xid_continue(b[j]) {
                j += 1;
            }
        } else if c.is_ascii_digit() || (c == '.' && b.get(i + 1).map_or(false, |d| d.is_ascii_digit())) {
            j += 1;
            while j < b.len() {
                if matches!(b[j], 'e' | 'E' | 'p' | 'P') && matches!(b.get(j + 1), Some('+' | '-')) {
                    j += 2;
                } else if b[j] == '.' || unicode_ident::is_xid_continue(b[j]) {
                    j += 1;
                } else {
                    break;
                }
            }
        } else {
            let mut best = 0;
            for p in PUNCTS {
                let n = p.len();
                if i + n <= b.len() && b[i..i + n].iter().collect::<String>() == *p {
                    best = best.max(n);
                }
            }
            if best == 0 {
                return None;
            }
            j = i + best;
        }
        out.push(b[i..j].iter().collect());
        i = j;
    }
    Some(out)
}
