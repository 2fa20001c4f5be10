//! Compiles and runs what was generated with rustc, and the C macros with gcc, in batches.
use crate::engine::*;
use std::fs;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

/// One comparison. `IDX` stands for the number of the item in every text.
#[derive(Clone, Default, Debug)]
pub struct Item {
    /// File-scope C text.
    pub c_top: String,
    /// C statements which print one line without the number.
    pub c_run: String,
    /// Undoes the definitions.
    pub c_end: String,
    /// Rust items of a module of their own.
    pub rs_top: String,
    /// Rust statements which print one line without the number.
    pub rs_run: String,
    /// What the case is, for messages.
    pub show: String,
    /// What was generated.
    pub generated: String,
}
pub const IDX: char = '\u{F8FF}';
pub type Prep = fn(&mut Tape, &mut Cx) -> Result<Option<Item>, Fail>;

const C_PRELUDE: &str = r#"#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <stddef.h>
#include <wchar.h>
#include <uchar.h>
static void si(long long v) { printf("%lld ", v); }
static void su(unsigned long long v) { printf("%llu ", v); }
static void sf(float v) { double d = v; unsigned long long u; memcpy(&u, &d, 8); printf("f%llx ", u); }
static void sd(double v) { unsigned long long u; memcpy(&u, &v, 8); printf("d%llx ", u); }
struct N { int fx, fy; };
typedef struct S { int fx, fy; struct N fn_; int *fr; struct S *next; } S;
static struct { char a[4096]; int b[6]; char c[4096]; S d[4]; char e[4096]; } mem_;
#define buf mem_.b
#define sbuf mem_.d
static void sp(const volatile int *p) { long i = p - buf; if (i >= 0 && i < 6) printf("p%ld ", i); else printf("px "); }
static void ss(const volatile S *p) { long i = p - sbuf; if (i >= 0 && i < 4) printf("s%ld ", i); else printf("sx "); }
static void sst(S s) { si(s.fx); si(s.fy); si(s.fn_.fx); si(s.fn_.fy); sp(s.fr); ss(s.next); }
static int quiet;
static long fl(long h, const char *f, int n, long a, long b) {
    if (!quiet) { printf("%s(", f); if (n > 0) printf("%ld", a); if (n > 1) printf(",%ld", b); printf(") "); }
    if (n > 0) { h = ((h * 131 + a) % 99991 + 99991) % 99991; }
    if (n > 1) { h = ((h * 131 + b) % 99991 + 99991) % 99991; }
    return h;
}
static int fh(long h, const char *f, int n, long a, long b) { return fl(h, f, n, a, b) % 11 - 3; }
static int f(int a) { return fh(@f@, "f", 1, a, 0); }
static int g(int a, int b) { return fh(@g@, "g", 2, a, b); }
static int h(void) { return fh(@h@, "h", 0, 0, 0); }
static int fp(volatile int *p) { return fh(@fp@, "fp", 1, p ? ((char *)p - (char *)buf) / 4 : 1000, 0); }
static int fc(const volatile int *p, int b) { return fh(@fc@, "fc", 2, p ? ((char *)p - (char *)buf) / 4 : 1000, b); }
static int fs(S *p, int b) { return fh(@fs@, "fs", 2, p ? ((char *)p - (char *)sbuf) / (long)sizeof(S) : 1000, b); }
static int ft(const char *p) { long h = 3; for (; *p; p++) h = (h * 31 + (unsigned char)*p) % 99991; return fh(@ft@, "ft", 1, h, 0); }
static double fd(double a) { return a * 0.5 + 1; }
static int *rip(int a) { return buf + 1 + fl(@rip@, "rip", 1, a, 0) % 4; }
static S *rsp(int a) { return sbuf + fl(@rsp@, "rsp", 1, a, 0) % 4; }
static void state(void) { for (int i = 0; i < 6; i++) si(buf[i]); for (int i = 0; i < 4; i++) sst(sbuf[i]); }
#define SHOW(e) _Generic((e), int *: sp, const int *: sp, volatile int *: sp, S *: ss, S: sst,  float: sf, double: sd, long double: sd, unsigned char: su, unsigned short: su, unsigned: su, unsigned long: su, unsigned long long: su, default: si)(e)
#define UNITS(s) do { for (size_t i = 0; i < sizeof(s) / sizeof((s)[0]) - 1; i++) printf("%llx ", (unsigned long long)(s)[i] & (sizeof((s)[0]) == 1 ? 0xff : sizeof((s)[0]) == 2 ? 0xffff : 0xffffffff)); } while (0)
"#;
const RS_PRELUDE: &str = r#"#![allow(warnings, arithmetic_overflow, unconditional_panic)]
pub use core::ffi::*;
pub use std::ptr;
#[allow(non_camel_case_types)] pub type c_size_t = usize;
// The documented output is `offsetof!`.
pub mod mem { pub use std::mem::*; pub use std::mem::offset_of as offsetof; }
pub trait Show { fn s(self); }
macro_rules! ints { ($($t:ty)*) => { $(impl Show for $t { fn s(self) { print!("{self} ") } })* } }
ints!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);
impl Show for bool { fn s(self) { print!("{} ", self as u8) } }
impl Show for f32 { fn s(self) { print!("f{:x} ", (self as f64).to_bits()) } }
impl Show for f64 { fn s(self) { print!("d{:x} ", self.to_bits()) } }
impl Show for () { fn s(self) { } }
pub fn units<T: Copy>(v: &[T], f: fn(T) -> u64) { for x in &v[..v.len() - 1] { print!("{:x} ", f(*x)) } if f(v[v.len() - 1]) != 0 { print!("unterminated") } }
#[derive(Clone, Copy)]
#[repr(C)]
pub struct N { pub fx: c_int, pub fy: c_int }
#[derive(Clone, Copy)]
#[repr(C)]
pub struct S { pub fx: c_int, pub fy: c_int, pub fn_: N, pub fr: *mut c_int, pub next: *mut S }
#[repr(C)]
pub struct Mem { pub a: [u8; 4096], pub b: [c_int; 6], pub c: [u8; 4096], pub d: [S; 4], pub e: [u8; 4096] }
pub static mut MEM: Mem = Mem { a: [0; 4096], b: [0; 6], c: [0; 4096], d: [S { fx: 0, fy: 0, fn_: N { fx: 0, fy: 0 }, fr: ptr::null_mut(), next: ptr::null_mut() }; 4], e: [0; 4096] };
fn place(k: &str, i: isize, n: isize) { if i >= 0 && i < n { print!("{k}{i} ") } else { print!("{k}x ") } }
impl Show for *mut c_int { fn s(self) { place("p", (self as isize - unsafe { ptr::addr_of!(MEM.b) } as isize).div_euclid(4), 6) } }
impl Show for *const c_int { fn s(self) { (self as *mut c_int).s() } }
impl Show for *mut S { fn s(self) { place("s", (self as isize - unsafe { ptr::addr_of!(MEM.d) } as isize).div_euclid(mem::size_of::<S>() as isize), 4) } }
impl Show for S { fn s(self) { self.fx.s(); self.fy.s(); self.fn_.fx.s(); self.fn_.fy.s(); self.fr.s(); self.next.s() } }
pub static mut quiet: bool = false;
fn fl(mut h: i64, f: &str, a: &[i64]) -> i64 {
    if !unsafe { quiet } { print!("{f}({}) ", a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }
    for a in a { h = (h * 131 + a).rem_euclid(99991) }
    h
}
fn fh(h: i64, f: &str, a: &[i64]) -> c_int { (fl(h, f, a) % 11 - 3) as c_int }
pub unsafe extern "C" fn fd(a: f64) -> f64 { a * 0.5 + 1.0 }
pub unsafe extern "C" fn rip(a: c_int) -> *mut c_int { ptr::addr_of_mut!(MEM.b[1 + (fl(@rip@, "rip", &[a as i64]) % 4) as usize]) }
pub unsafe extern "C" fn rsp(a: c_int) -> *mut S { ptr::addr_of_mut!(MEM.d[(fl(@rsp@, "rsp", &[a as i64]) % 4) as usize]) }
pub unsafe extern "C" fn f(a: c_int) -> c_int { fh(@f@, "f", &[a as i64]) }
pub unsafe extern "C" fn g(a: c_int, b: c_int) -> c_int { fh(@g@, "g", &[a as i64, b as i64]) }
pub unsafe extern "C" fn h() -> c_int { fh(@h@, "h", &[]) }
pub unsafe extern "C" fn fp(p: *mut c_int) -> c_int { fh(@fp@, "fp", &[if p.is_null() { 1000 } else { (p as i64 - ptr::addr_of!(MEM.b) as i64) / 4 }]) }
pub unsafe extern "C" fn fc(p: *const c_int, b: c_int) -> c_int { fh(@fc@, "fc", &[if p.is_null() { 1000 } else { (p as i64 - ptr::addr_of!(MEM.b) as i64) / 4 }, b as i64]) }
pub unsafe extern "C" fn fs(p: *mut S, b: c_int) -> c_int { fh(@fs@, "fs", &[if p.is_null() { 1000 } else { (p as i64 - ptr::addr_of!(MEM.d) as i64) / mem::size_of::<S>() as i64 }, b as i64]) }
pub unsafe extern "C" fn ft(p: *const c_char) -> c_int { fh(@ft@, "ft", &[CStr::from_ptr(p).to_bytes().iter().fold(3i64, |h, b| (h * 31 + *b as i64) % 99991)]) }
pub unsafe fn state() { for i in 0..6 { MEM.b[i].s() } for i in 0..4 { MEM.d[i].s() } }
impl Show for &CStr { fn s(self) { units(self.to_bytes_with_nul(), |x| x as u64) } }
impl<const N: usize> Show for &[u8; N] { fn s(self) { units(self, |x| x as u64) } }
impl<const N: usize> Show for &[u16; N] { fn s(self) { units(self, |x| x as u64) } }
impl<const N: usize> Show for &[u32; N] { fn s(self) { units(self, |x| x as u64) } }
impl<const N: usize> Show for &[i32; N] { fn s(self) { units(self, |x| x as u32 as u64) } }
fn run(n: usize, f: fn()) {
    use std::io::Write;
    print!("\n{n}: ");
    std::io::stdout().flush();
    if std::panic::catch_unwind(f).is_err() { print!("panicked ") }
    println!();
    std::io::stdout().flush();
}
"#;

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
/// The functions of the abstract machine.
fn hashes(s: &str) -> String {
    ["f", "g", "h", "fp", "fc", "fs", "ft", "rip", "rsp"].iter().fold(s.to_string(), |s, f| s.replace(&format!("@{f}@"), &(f.bytes().fold(7, |h, b| h * 31 + b as i64) % 9973).to_string()))
}
static NEXT: AtomicU64 = AtomicU64::new(0);
fn scratch() -> Scratch {
    let base = std::env::current_exe().unwrap();
    let d = base.parent().unwrap().join(format!("native-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
    fs::create_dir_all(&d).unwrap();
    Scratch(d)
}
fn sub(s: &str, i: usize) -> String {
    s.replace(IDX, &i.to_string())
}
/// Number, payload.
fn results(out: &[u8], n: usize) -> Vec<Option<String>> {
    let mut v = vec![None; n];
    for l in String::from_utf8_lossy(out).lines() {
        if let Some((a, b)) = l.split_once(':') {
            if let Ok(i) = a.parse::<usize>() {
                if i < n {
                    v[i] = Some(b.trim().to_string());
                }
            }
        }
    }
    v
}
pub fn run(items: &[Item]) -> Vec<Res> {
    let d = scratch();
    let mut ok: Vec<Res> = items.iter().map(|_| Ok(())).collect();
    // C
    let mut c = hashes(C_PRELUDE);
    for (i, x) in items.iter().enumerate() {
        c += &sub(&x.c_top, i);
        c.push('\n');
        c += &format!("static void run{i}(void) {{ {} }}\n", sub(&x.c_run, i));
        c += &x.c_end;
    }
    c += "int main(void) {\n";
    for i in 0..items.len() {
        c += &format!("printf(\"\\n{i}: \"); fflush(stdout); run{i}(); puts(\"\");\n");
    }
    c += "return 0; }\n";
    fs::write(d.0.join("a.c"), &c).unwrap();
    // Rust
    let mut r = hashes(RS_PRELUDE);
    let first = r.lines().count() + 1;
    for (i, x) in items.iter().enumerate() {
        let l = format!("pub mod m{i} {{ use super::*; {} pub fn run() {{ {} }} }}", sub(&x.rs_top, i), sub(&x.rs_run, i));
        assert!(!l.contains('\n'), "harness: line break in generated code: {l}");
        r += &l;
        r.push('\n');
    }
    r += "fn main() { std::panic::set_hook(Box::new(|_| ()));\n";
    for i in 0..items.len() {
        r += &format!("run({i}, m{i}::run);\n");
    }
    r += "}\n";
    fs::write(d.0.join("a.rs"), &r).unwrap();
    let gcc = Command::new("gcc").args(["-std=gnu2x", "-w", "-O0", "-o", "ac", "a.c"]).current_dir(&d.0).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().expect("harness: gcc");
    let rustc = Command::new("rustc")
        .args(["--edition", "2021", "--error-format=short", "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "overflow-checks=on", "-o", "ar", "a.rs"])
        .current_dir(&d.0)
        .stdin(Stdio::null())
        .output()
        .expect("harness: rustc");
    let gcc = gcc.wait_with_output().unwrap();
    if !gcc.status.success() {
        panic!("harness: gcc: {}\n{}", String::from_utf8_lossy(&gcc.stderr).chars().take(1500).collect::<String>(), items[0].c_top);
    }
    if !rustc.status.success() {
        let err = String::from_utf8_lossy(&rustc.stderr).to_string();
        let mut any = false;
        for l in err.lines() {
            let mut p = l.splitn(4, ':');
            let (Some(_), Some(Ok(line)), Some(_), Some(msg)) = (p.next(), p.next().map(|x| x.parse::<usize>()), p.next(), p.next()) else { continue };
            if !msg.trim().starts_with("error") || line < first || line >= first + items.len() {
                continue;
            }
            let x = &items[line - first];
            any = true;
            if ok[line - first].is_ok() {
                let code: String = msg.trim().chars().take_while(|c| *c != ':').collect();
                ok[line - first] = fail(&format!("compile {code}"), format!("{}\ngenerates `{}`, which rustc refuses:{msg}", x.show, x.generated));
            }
        }
        if !any {
            panic!("harness: rustc: {}", err.chars().take(1500).collect::<String>());
        }
        return ok;
    }
    let out = |p: &str| Command::new("timeout").args(["10", &format!("./{p}")]).current_dir(&d.0).stdin(Stdio::null()).stderr(Stdio::null()).output().expect("harness: run");
    let co = out("ac");
    if !co.status.success() {
        let last = results(&co.stdout, items.len()).iter().filter(|x| x.is_some()).count();
        panic!("harness: the C program ended with {:?} at {}", co.status, items.get(last.saturating_sub(1)).map(|x| x.show.clone()).unwrap_or_default());
    }
    let ro = out("ar");
    let (cr, rr) = (results(&co.stdout, items.len()), results(&ro.stdout, items.len()));
    for (i, x) in items.iter().enumerate() {
        let want = cr[i].clone().unwrap_or_else(|| panic!("harness: no output of {}", x.show));
        match &rr[i] {
            Some(g) if *g == want && (ro.status.success() || rr.get(i + 1).is_some_and(|x| x.is_some())) => (),
            Some(g) if !ro.status.success() && rr[i + 1..].iter().all(|x| x.is_none()) => {
                let (sig, how) = if ro.status.code() == Some(124) { ("hang", "does not end".to_string()) } else { ("crash", format!("ends with {:?}", ro.status)) };
                ok[i] = fail(sig, format!("{}\ngenerates `{}`, which {how} after `{g}`; gcc gives `{want}`", x.show, x.generated));
                break;
            }
            Some(g) => {
                let sig = if g.contains("panicked") { "panicked" } else { "value" };
                ok[i] = fail(sig, format!("{}\ngenerates `{}`, for which rustc gives `{g}`; gcc gives `{want}`", x.show, x.generated));
            }
            None => break,
        }
    }
    ok
}
/// Evaluates a single case.
pub fn single(p: Prep, t: &mut Tape, cx: &mut Cx) -> Res {
    match p(t, cx)? {
        None => Ok(()),
        Some(i) => run(&[i]).pop().unwrap(),
    }
}
