//! Instrumented component types. Every instance of an instrumented type carries an id and a
//! canary; the registry knows which instances are alive, so dropping, cloning or reading
//! anything that is not a live instance is noticed without touching invalid memory.

use crate::alloc::user;
use std::cell::{Cell, RefCell};
use std::mem::ManuallyDrop;

pub type Kind = u8;

/// What the engine sees of a component.
pub trait Comp {
    fn kind(&self) -> Kind;
    fn read(&self) -> Result<u64, String>;
    fn set(&mut self, v: u64);
}

pub trait Make: Comp + Clone + 'static {
    const KIND: Kind;
    fn make(v: u64) -> Self;
}

#[derive(Default)]
struct Reg {
    /// 1 = alive, 2 = dropped; index = id
    state: Vec<u8>,
    live: i64,
    zst: i64,
    bytes: Vec<i64>,
    errors: Vec<String>,
    clones: u64,
    drops: u64,
}

thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
    static FUSE_CLONE: Cell<i64> = const { Cell::new(-1) };
    static FUSE_DROP: Cell<i64> = const { Cell::new(-1) };
    static FUSE_INTO: Cell<i64> = const { Cell::new(-1) };
    static FIRED: Cell<u64> = const { Cell::new(0) };
}

fn reg<R>(f: impl FnOnce(&mut Reg) -> R) -> R {
    user(|| REG.with(|r| f(&mut r.borrow_mut())))
}

pub fn reset() {
    reg(|r| {
        r.state.clear();
        r.state.push(0);
        r.live = 0;
        r.zst = 0;
        r.bytes.clear();
        r.bytes.resize(256, 0);
        r.errors.clear();
        r.clones = 0;
        r.drops = 0;
    });
    disarm();
}
pub fn take_errors() -> Vec<String> {
    reg(|r| std::mem::take(&mut r.errors))
}
pub fn has_errors() -> bool {
    reg(|r| !r.errors.is_empty())
}
/// Live instances: (with id, zero-sized, one-byte)
pub fn live() -> (i64, i64, i64) {
    reg(|r| (r.live, r.zst, r.bytes.iter().sum()))
}
pub fn clones() -> u64 {
    reg(|r| r.clones)
}

/// The n-th (0-based) next instrumented clone panics.
pub fn arm_clone(n: i64) {
    FUSE_CLONE.with(|f| f.set(n));
}
/// The n-th (0-based) next instrumented drop panics (after doing its work).
pub fn arm_drop(n: i64) {
    FUSE_DROP.with(|f| f.set(n));
}
/// The next conversion into an archetype's components panics.
pub fn arm_into() {
    FUSE_INTO.with(|f| f.set(0));
}
pub fn burn_into() {
    burn(&FUSE_INTO)
}
pub fn disarm() {
    FUSE_INTO.with(|f| f.set(-1));
    FUSE_CLONE.with(|f| f.set(-1));
    FUSE_DROP.with(|f| f.set(-1));
}
pub fn fired() -> u64 {
    FIRED.with(|f| f.get())
}

pub struct Injected;

fn burn(fuse: &'static std::thread::LocalKey<Cell<i64>>) {
    let n = fuse.with(|f| f.get());
    if n < 0 {
        return;
    }
    fuse.with(|f| f.set(n - 1));
    if n == 0 {
        FIRED.with(|f| f.set(f.get() + 1));
        std::panic::panic_any(Injected);
    }
}
fn burn_clone() {
    reg(|r| r.clones += 1);
    burn(&FUSE_CLONE)
}
fn burn_drop() {
    reg(|r| r.drops += 1);
    // A second panic while unwinding would abort.
    if !std::thread::panicking() {
        burn(&FUSE_DROP)
    }
}

#[repr(C)]
pub struct Inst {
    id: u32,
    canary: u32,
}

fn canary(id: u32) -> u32 {
    id.wrapping_mul(0x9E37_79B9) ^ 0x00C0_FFEE
}

impl Inst {
    fn new() -> Self {
        let id = reg(|r| {
            r.live += 1;
            r.state.push(1);
            (r.state.len() - 1) as u32
        });
        Inst { id, canary: canary(id) }
    }
    fn valid(&self) -> bool {
        self.id != 0
            && self.canary == canary(self.id)
            && reg(|r| r.state.get(self.id as usize).copied() == Some(1))
    }
    /// True if the instance was alive and is now dead; an error is recorded otherwise.
    fn end(&self, what: &str) -> bool {
        let (id, ok) = (self.id, self.canary == canary(self.id) && self.id != 0);
        reg(|r| match r.state.get(id as usize).copied() {
            Some(1) if ok => {
                r.state[id as usize] = 2;
                r.live -= 1;
                true
            }
            Some(2) if ok => {
                r.errors.push(format!("{what} instance dropped twice"));
                false
            }
            _ => {
                r.errors.push(format!("{what} drop of memory that holds no value"));
                false
            }
        })
    }
    fn why(&self) -> String {
        if self.canary == canary(self.id) && self.id != 0 {
            "value that was already dropped".to_string()
        } else {
            "memory that holds no value".to_string()
        }
    }
}

pub fn mix(v: u64, i: u64) -> u64 {
    (v ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_mul(0xD6E8_FEB8_6659_FD93).rotate_left(29)
}

macro_rules! inst_comp {
    ($name:ident, $kind:expr, $(#[$m:meta])* { $($field:ident : $ty:ty = $init:expr),* } ,
     read |$s:ident| $read:expr, set |$t:ident, $v:ident| $set:expr, free |$d:ident| $free:expr) => {
        #[repr(C)]
        $(#[$m])*
        pub struct $name { inst: Inst, $($field: $ty),* }
        impl Make for $name {
            const KIND: Kind = $kind;
            fn make($v: u64) -> Self { user(|| $name { inst: Inst::new(), $($field: $init),* }) }
        }
        impl Comp for $name {
            fn kind(&self) -> Kind { $kind }
            fn read(&self) -> Result<u64, String> {
                if !self.inst.valid() { return Err(self.inst.why()); }
                let $s = self; $read
            }
            fn set(&mut self, $v: u64) {
                if !self.inst.valid() {
                    reg(|r| r.errors.push(format!("{} write to memory that holds no value", stringify!($name))));
                    return;
                }
                let $t = self; user(|| $set)
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                burn_clone();
                let v = match self.read() { Ok(v) => v, Err(e) => {
                    reg(|r| r.errors.push(format!("{} clone of {e}", stringify!($name))));
                    0
                }};
                $name::make(v)
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                if self.inst.end(stringify!($name)) { let $d = &mut *self; $free; }
                burn_drop();
            }
        }
    };
}

inst_comp!(CompWord, 3, { v: u64 = v }, read |s| Ok(s.v), set |t, v| t.v = v, free |_d| ());
inst_comp!(CompAlign, 4, #[repr(align(32))] { v: u64 = v }, read |s| Ok(s.v), set |t, v| t.v = v, free |_d| ());
inst_comp!(CompWide, 5, #[repr(align(64))] { v: [u64; 14] = wide::<14>(v) },
    read |s| read_wide(&s.v), set |t, v| t.v = wide(v), free |_d| ());
inst_comp!(CompPad, 6, { a: u8 = v as u8, v: u64 = v, b: u8 = !(v as u8) },
    read |s| if s.a == s.v as u8 && s.b == !(s.v as u8) { Ok(s.v) } else { Err("torn value".into()) },
    set |t, v| { t.a = v as u8; t.v = v; t.b = !(v as u8); }, free |_d| ());
inst_comp!(CompBox, 7, { v: ManuallyDrop<Box<u64>> = ManuallyDrop::new(Box::new(v)) },
    read |s| Ok(**s.v), set |t, v| **t.v = v, free |d| unsafe { ManuallyDrop::drop(&mut d.v) });
inst_comp!(CompText, 8, { v: ManuallyDrop<String> = ManuallyDrop::new(text(v)) },
    read |s| read_text(&s.v), set |t, v| *t.v = text(v), free |d| unsafe { ManuallyDrop::drop(&mut d.v) });
inst_comp!(CompList, 9, { v: ManuallyDrop<Vec<u64>> = ManuallyDrop::new(list(v)) },
    read |s| read_list(&s.v), set |t, v| { t.v.clear(); t.v.extend(list(v)); },
    free |d| unsafe { ManuallyDrop::drop(&mut d.v) });
inst_comp!(CompBulk, 10, { v: [u64; 40] = wide::<40>(v) },
    read |s| read_wide(&s.v), set |t, v| t.v = wide(v), free |_d| ());
inst_comp!(CompHalf, 11, { v: u32 = v as u32 }, read |s| Ok(s.v as u64), set |t, v| t.v = v as u32, free |_d| ());

fn wide<const N: usize>(v: u64) -> [u64; N] {
    let mut a = [v; N];
    for (i, x) in a.iter_mut().enumerate().skip(1) {
        *x = mix(v, i as u64);
    }
    a
}
fn read_wide(a: &[u64]) -> Result<u64, String> {
    for (i, x) in a.iter().enumerate().skip(1) {
        if *x != mix(a[0], i as u64) {
            return Err("torn value".into());
        }
    }
    Ok(a[0])
}
fn text(v: u64) -> String {
    format!("{v}:{}", "x".repeat((v % 23) as usize))
}
fn read_text(s: &str) -> Result<u64, String> {
    let v: u64 = s.split(':').next().and_then(|n| n.parse().ok()).ok_or("torn text")?;
    if s == text(v) { Ok(v) } else { Err("torn text".into()) }
}
fn list(v: u64) -> Vec<u64> {
    (0..1 + v % 7).map(|i| v.wrapping_add(i)).collect()
}
fn read_list(s: &[u64]) -> Result<u64, String> {
    let v = *s.first().ok_or("torn list")?;
    if s == list(v) { Ok(v) } else { Err("torn list".into()) }
}

/// Zero-sized, counted.
pub struct CompZero;
impl Make for CompZero {
    const KIND: Kind = 0;
    fn make(_: u64) -> Self {
        reg(|r| r.zst += 1);
        CompZero
    }
}
impl Comp for CompZero {
    fn kind(&self) -> Kind { 0 }
    fn read(&self) -> Result<u64, String> { Ok(0) }
    fn set(&mut self, _: u64) {}
}
impl Clone for CompZero {
    fn clone(&self) -> Self {
        burn_clone();
        Self::make(0)
    }
}
impl Drop for CompZero {
    fn drop(&mut self) {
        reg(|r| {
            r.zst -= 1;
            if r.zst < 0 {
                r.errors.push("CompZero dropped more often than made".into());
            }
        });
        burn_drop();
    }
}

/// One byte, counted per value.
pub struct CompByte(u8);
impl Make for CompByte {
    const KIND: Kind = 1;
    fn make(v: u64) -> Self {
        reg(|r| r.bytes[v as u8 as usize] += 1);
        CompByte(v as u8)
    }
}
impl Comp for CompByte {
    fn kind(&self) -> Kind { 1 }
    fn read(&self) -> Result<u64, String> { Ok(self.0 as u64) }
    fn set(&mut self, v: u64) {
        reg(|r| {
            r.bytes[self.0 as usize] -= 1;
            r.bytes[v as u8 as usize] += 1;
        });
        self.0 = v as u8;
    }
}
impl Clone for CompByte {
    fn clone(&self) -> Self {
        burn_clone();
        Self::make(self.0 as u64)
    }
}
impl Drop for CompByte {
    fn drop(&mut self) {
        let v = self.0;
        reg(|r| {
            r.bytes[v as usize] -= 1;
            if r.bytes[v as usize] < 0 {
                r.errors.push(format!("CompByte({v}) dropped more often than made"));
            }
        });
        burn_drop();
    }
}

/// Plain data without drop glue.
#[derive(Clone)]
pub struct CompPlain(pub u32);
impl Make for CompPlain {
    const KIND: Kind = 2;
    fn make(v: u64) -> Self { CompPlain(v as u32) }
}
impl Comp for CompPlain {
    fn kind(&self) -> Kind { 2 }
    fn read(&self) -> Result<u64, String> { Ok(self.0 as u64) }
    fn set(&mut self, v: u64) { self.0 = v as u32; }
}

/// Plain unit struct: zero-sized and without drop glue.
#[derive(Clone)]
pub struct CompUnit;
impl Make for CompUnit {
    const KIND: Kind = 12;
    fn make(_: u64) -> Self { CompUnit }
}
impl Comp for CompUnit {
    fn kind(&self) -> Kind { 12 }
    fn read(&self) -> Result<u64, String> { Ok(0) }
    fn set(&mut self, _: u64) {}
}

/// Numbered plain components for archetypes with many columns.
#[derive(Clone)]
pub struct Num<const N: u8>(u64);
impl<const N: u8> Make for Num<N> {
    const KIND: Kind = 32 + N;
    fn make(v: u64) -> Self { Num(v) }
}
impl<const N: u8> Comp for Num<N> {
    fn kind(&self) -> Kind { 32 + N }
    fn read(&self) -> Result<u64, String> { Ok(self.0) }
    fn set(&mut self, v: u64) { self.0 = v; }
}
macro_rules! nums { ($($n:ident = $i:expr),*) => { $(pub type $n = Num<$i>;)* } }
nums!(NumAa = 0, NumAb = 1, NumAc = 2, NumAd = 3, NumAe = 4, NumAf = 5, NumAg = 6, NumAh = 7,
      NumAi = 8, NumAj = 9, NumAk = 10, NumAl = 11, NumAm = 12, NumAn = 13, NumAo = 14, NumAp = 15,
      NumBa = 16, NumBb = 17, NumBc = 18, NumBd = 19, NumBe = 20, NumBf = 21, NumBg = 22, NumBh = 23,
      NumBi = 24, NumBj = 25, NumBk = 26, NumBl = 27, NumBm = 28, NumBn = 29, NumBo = 30, NumBp = 31);

/// The part of a value a component of this kind can hold.
pub fn trunc(kind: Kind, v: u64) -> u64 {
    match kind {
        0 | 12 => 0,
        1 => v as u8 as u64,
        2 | 11 => v as u32 as u64,
        _ => v,
    }
}
