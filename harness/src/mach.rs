//! Abstract machine shared by the C reference semantics and the interpreter for generated Rust.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Step {
    Idx(i64),
    Field(String),
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Place {
    pub root: String,
    pub path: Vec<Step>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Int(i128),
    Bool(bool),
    F(f64),
    Ptr(Place),
    Null,
    Arr(Vec<V>),
    St(BTreeMap<String, V>),
    Bytes(Vec<u8>),
    Unit,
}
impl V {
    /// C's view: truth values are integers.
    pub fn norm(&self) -> V {
        match self {
            V::Bool(b) => V::Int(*b as i128),
            v => v.clone(),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Call(String, Vec<V>),
    VRead(Place),
    VWrite(Place, V),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Err {
    /// Undefined or outside the model: the valuation is not judged.
    Undef(String),
    /// The generated code cannot do what C does.
    Bad(String),
}
pub fn undef<T>(s: impl Into<String>) -> Result<T, Err> {
    Result::Err(Err::Undef(s.into()))
}
pub fn bad<T>(s: impl Into<String>) -> Result<T, Err> {
    Result::Err(Err::Bad(s.into()))
}

#[derive(Clone, Debug, Default)]
pub struct Machine {
    pub objs: BTreeMap<String, V>,
    pub scopes: Vec<BTreeMap<String, String>>,
    pub trace: Vec<Ev>,
    pub fresh: usize,
    pub steps: usize,
    pub extra_steps: usize,
    /// Evaluate operands right to left where C leaves the order open.
    pub rtl: bool,
    /// Evaluate the right side of an assignment before its left side.
    pub rhs_first: bool,
    /// Load the old value of a compound assignment before its right side is evaluated.
    pub load_first: bool,
}
pub const LIMIT: i128 = 1 << 31;

impl Machine {
    pub fn place(&self, name: &str) -> Result<Place, Err> {
        for s in self.scopes.iter().rev() {
            if let Some(r) = s.get(name) {
                return Ok(Place { root: r.clone(), path: vec![] });
            }
        }
        if self.objs.contains_key(name) {
            return Ok(Place { root: name.into(), path: vec![] });
        }
        bad(format!("unknown name {name}"))
    }
    pub fn declare(&mut self, name: &str, v: V) {
        self.fresh += 1;
        let root = format!("{name}#{}", self.fresh);
        self.objs.insert(root.clone(), v);
        if self.scopes.is_empty() {
            self.scopes.push(BTreeMap::new());
        }
        self.scopes.last_mut().unwrap().insert(name.into(), root);
    }
    pub fn tick(&mut self) -> Result<(), Err> {
        self.steps += 1;
        if self.steps > 4000 + self.extra_steps {
            return undef("too many steps");
        }
        Ok(())
    }
    fn slot(&mut self, p: &Place) -> Result<&mut V, Err> {
        let mut v = match self.objs.get_mut(&p.root) {
            Some(v) => v,
            None => return undef("dangling object"),
        };
        for s in &p.path {
            v = match (v, s) {
                (V::Arr(a), Step::Idx(i)) => match a.get_mut(*i as usize) {
                    Some(v) if *i >= 0 => v,
                    _ => return undef("index out of bounds"),
                },
                (V::St(m), Step::Field(f)) => match m.get_mut(f) {
                    Some(v) => v,
                    None => return bad(format!("no field {f}")),
                },
                (_, s) => return bad(format!("no such part {s:?}")),
            };
        }
        Ok(v)
    }
    pub fn read(&mut self, p: &Place) -> Result<V, Err> {
        self.tick()?;
        let v = self.slot(p)?.clone();
        Ok(v)
    }
    pub fn write(&mut self, p: &Place, v: V) -> Result<(), Err> {
        self.tick()?;
        let s = self.slot(p)?;
        *s = if matches!((&*s, &v), (V::Bool(_), V::Bool(_))) { v } else { v.norm() };
        Ok(())
    }
    pub fn vread(&mut self, p: &Place) -> Result<V, Err> {
        let v = self.read(p)?;
        self.trace.push(Ev::VRead(p.clone()));
        Ok(v)
    }
    pub fn vwrite(&mut self, p: &Place, v: V) -> Result<(), Err> {
        self.write(p, v.clone())?;
        self.trace.push(Ev::VWrite(p.clone(), v.norm()));
        Ok(())
    }
    pub fn call(&mut self, f: &str, args: Vec<V>) -> Result<V, Err> {
        self.tick()?;
        let args: Vec<V> = args.iter().map(|v| v.norm()).collect();
        let mut h: i128 = f.bytes().fold(7, |h, b| h * 31 + b as i128) % 9973;
        for a in &args {
            let k = match a {
                V::Int(i) => *i,
                V::Null => 1000,
                V::Bytes(b) => b.iter().fold(3, |h, b| (h * 31 + *b as i128) % 99991),
                V::Ptr(p) if f.len() == 2 => match (&p.root[..], &p.path[..]) {
                    ("buf@" | "sbuf@", [Step::Idx(i)]) => *i as i128,
                    _ => return undef("pointer to something else"),
                },
                a => format!("{a:?}").bytes().fold(3, |h, b| (h * 31 + b as i128) % 99991),
            };
            h = (h * 131 + k).rem_euclid(99991);
        }
        self.trace.push(Ev::Call(f.into(), args));
        Ok(match f {
            "rip" => V::Ptr(Place { root: "buf@".into(), path: vec![Step::Idx(1 + (h % 4) as i64)] }),
            "rsp" => V::Ptr(Place { root: "sbuf@".into(), path: vec![Step::Idx((h % 4) as i64)] }),
            _ => V::Int(h % 11 - 3),
        })
    }
    pub fn ptr_add(p: &Place, n: i128) -> Result<Place, Err> {
        let mut p = p.clone();
        match p.path.last_mut() {
            Some(Step::Idx(i)) => {
                *i += n as i64;
                if *i < -64 || *i > 64 {
                    return undef("pointer out of range");
                }
            }
            _ if n == 0 => {}
            _ => return undef("pointer past a single object"),
        }
        Ok(p)
    }
    /// Visible state: every object that existed at the start.
    pub fn state(&self) -> BTreeMap<String, V> {
        self.objs.iter().filter(|(k, _)| !k.contains('#')).map(|(k, v)| (k.clone(), v.clone())).collect()
    }
}
pub fn int_in(v: i128) -> Result<V, Err> {
    if v >= LIMIT || v < -LIMIT {
        return undef("integer overflow");
    }
    Ok(V::Int(v))
}
/// Wraps to one of C's integer types (LP64).
pub fn c_wrap(v: i128, bits: u32, signed: bool) -> i128 {
    crate::rconst::wrap(v, crate::rconst::RTy::Int { bits, signed })
}
/// Arithmetic common to both languages; comparisons are handled by the callers.
pub fn arith(op: &str, a: &V, b: &V) -> Result<V, Err> {
    match (a, b) {
        (V::Ptr(p), V::Int(n)) if op == "+" => return Ok(V::Ptr(Machine::ptr_add(p, *n)?)),
        (V::Int(n), V::Ptr(p)) if op == "+" => return Ok(V::Ptr(Machine::ptr_add(p, *n)?)),
        (V::Ptr(p), V::Int(n)) if op == "-" => return Ok(V::Ptr(Machine::ptr_add(p, -*n)?)),
        _ => {}
    }
    let (V::Int(x), V::Int(y)) = (a, b) else { return undef(format!("`{op}` of {a:?} and {b:?}")) };
    let (x, y) = (*x, *y);
    int_in(match op {
        "*" => x * y,
        "/" | "%" if y == 0 => return undef("division by zero"),
        "%" if y == -1 && x == i32::MIN as i128 => return undef("overflow"),
        "/" => x / y,
        "%" => x % y,
        "+" => x + y,
        "-" => x - y,
        "<<" | ">>" if !(0..32).contains(&y) => return undef("shift amount"),
        "<<" if x < 0 => return undef("shift of a negative value"),
        "<<" => x << y,
        ">>" => x >> y,
        "&" => x & y,
        "^" => x ^ y,
        "|" => x | y,
        _ => return undef(format!("operator {op}")),
    })
}
pub fn compare(op: &str, a: &V, b: &V) -> Result<bool, Err> {
    let o = match (a, b) {
        (V::Int(x), V::Int(y)) => x.cmp(y),
        (V::Ptr(x), V::Ptr(y)) => {
            let mut a = x.clone();
            let mut b = y.clone();
            let (i, j) = (a.path.pop(), b.path.pop());
            match (op, a == b, i, j) {
                ("==" | "!=", false, ..) => return Ok((x == y) == (op == "==")),
                (_, true, Some(Step::Idx(i)), Some(Step::Idx(j))) => i.cmp(&j),
                ("==" | "!=", ..) => return Ok((x == y) == (op == "==")),
                _ => return undef("comparison of unrelated pointers"),
            }
        }
        (V::Ptr(_), V::Null | V::Int(0)) | (V::Null | V::Int(0), V::Ptr(_)) => match op {
            "==" => return Ok(false),
            "!=" => return Ok(true),
            _ => return undef("comparison with null"),
        },
        _ => return undef(format!("comparison of {a:?} and {b:?}")),
    };
    Ok(match op {
        "<" => o.is_lt(),
        "<=" => o.is_le(),
        ">" => o.is_gt(),
        ">=" => o.is_ge(),
        "==" => o.is_eq(),
        _ => o.is_ne(),
    })
}
