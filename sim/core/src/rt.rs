//! Runtime seams linked into the generated declarations: user code (hooks, conditions, nested
//! parsers), session state, fault points, drop ledger, error types, result capture.
#![allow(dead_code)]
use nom::error::{Error, ErrorKind, FromExternalError, ParseError};
use nom::number::Endianness;
use nom::{Err, IResult, Needed};
use nom_derive::{LengthData, Parse};
use std::cell::RefCell;
use std::marker::PhantomData;
use std::rc::Rc;

// ---------------------------------------------------------------- values and outcomes

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    I(i128),
    U(u128),
    /// float, by bits
    F(u64),
    S(String),
    /// borrowed bytes: offset from the start of the input, and contents
    B(i64, Vec<u8>),
    O(Option<Box<Val>>),
    L(Vec<Val>),
    R(Vec<Val>),
    /// variant index and fields
    V(usize, Vec<Val>),
    /// drop-tracked value and flavour of the call
    T(u16, u8),
    M(u8, u8),
    Unit,
}

impl Val {
    /// forget where borrowed data lies (used when positions legitimately differ)
    pub fn unplaced(&self) -> Val {
        match self {
            Val::B(_, d) => Val::B(0, d.clone()),
            Val::O(Some(v)) => Val::O(Some(Box::new(v.unplaced()))),
            Val::L(v) => Val::L(v.iter().map(|x| x.unplaced()).collect()),
            Val::R(v) => Val::R(v.iter().map(|x| x.unplaced()).collect()),
            Val::V(i, v) => Val::V(*i, v.iter().map(|x| x.unplaced()).collect()),
            v => v.clone(),
        }
    }
    /// borrowed slices inside the value
    pub fn slices(&self, out: &mut Vec<(i64, i64)>) {
        match self {
            Val::B(o, d) => out.push((*o, d.len() as i64)),
            Val::O(Some(v)) => v.slices(out),
            Val::L(v) | Val::R(v) | Val::V(_, v) => v.iter().for_each(|x| x.slices(out)),
            _ => {}
        }
    }
    pub fn toks(&self) -> usize {
        match self {
            Val::T(..) => 1,
            Val::O(Some(v)) => v.toks(),
            Val::L(v) | Val::R(v) | Val::V(_, v) => v.iter().map(|x| x.toks()).sum(),
            _ => 0,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Ok { val: Val, off: i64, len: i64 },
    Inc(Option<usize>),
    Err(i64, ErrorKind),
    Fail(i64, ErrorKind),
    Panic(String),
}

impl Out {
    pub fn class(&self) -> char {
        match self { Out::Ok { .. } => 'o', Out::Inc(_) => 'i', Out::Err(..) => 'e', Out::Fail(..) => 'f', Out::Panic(_) => 'p' }
    }
    pub fn short(&self) -> String {
        let s = format!("{:?}", self);
        if s.len() > 400 { let mut n = 400; while !s.is_char_boundary(n) { n -= 1; } format!("{}...", &s[..n]) } else { s }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Ev { pub k: char, pub id: u32, pub pos: i64, pub v: i64 }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault { Error, Failure, Inc(usize), IncUnknown, Panic }

pub const FAULT_KINDS: [Fault; 5] = [Fault::Error, Fault::Failure, Fault::Inc(3), Fault::IncUnknown, Fault::Panic];

pub struct Injected;

#[derive(Default, Clone)]
pub struct Plan {
    /// (n-th fault point of the attempt, what happens)
    pub faults: Vec<(u32, Fault)>,
    /// session values
    pub env: Vec<i64>,
}

pub fn env_of(env: &[i64], id: u32) -> i64 {
    if env.is_empty() { 0 } else { env[id as usize % env.len()] }
}

#[derive(Default)]
pub struct Ctx {
    pub base: usize,
    pub len: usize,
    pub events: Vec<Ev>,
    pub calls: u32,
    pub plan: Plan,
    pub fired: u32,
    pub fired_kinds: [u32; 5],
    // ledger
    pub born: u32,
    pub live: Vec<bool>,
    pub bad_drop: bool,
    pub yielder: Option<Rc<dyn Fn()>>,
    pub depth: u32,
    pub steps: u64,
}

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}

pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R { CTX.with(|c| f(&mut c.borrow_mut())) }

fn yield_point() {
    let y = with(|c| c.yielder.clone());
    if let Some(y) = y { y(); }
}

fn log(k: char, id: u32, ptr: Option<usize>, v: i64) {
    let _pause = crate::meter::Pause::new();
    with(|c| {
        c.steps += 1;
        if c.steps > 20_000_000 { panic!("parse does not end"); }
        let pos = match ptr { Some(p) => (p as i64).wrapping_sub(c.base as i64), None => -1 };
        if c.events.len() < 100_000 { c.events.push(Ev { k, id, pos, v }); }
    });
    yield_point();
}

// ---------------------------------------------------------------- user code called by declarations

/// session value, logged every time it is evaluated
pub fn env(id: u32) -> i64 {
    let v = with(|c| env_of(&c.plan.env, id));
    log('E', id, None, v);
    v
}
pub fn endian(v: i64) -> Endianness { if v & 1 == 1 { Endianness::Little } else { Endianness::Big } }
pub fn hook(id: u32, p: *const u8) { log('H', id, Some(p as usize), 0) }
pub fn hook_val(id: u32, p: *const u8, v: i64) { log('H', id, Some(p as usize), v) }
pub fn chk(id: u32, b: bool) -> bool { log('K', id, None, b as i64); b }
pub fn mapped(id: u32) { log('M', id, None, 0) }

fn fault_point<'a, E: ParseError<&'a [u8]>>(id: u32, i: &'a [u8]) -> Result<(), Err<E>> { fault_at(id, i.as_ptr() as usize, i) }
/// a nested parser is called at this place: it may have been chosen to fail
pub fn fault_at<I, E: ParseError<I>>(id: u32, addr: usize, i: I) -> Result<(), Err<E>> {
    let f = with(|c| {
        let n = c.calls;
        c.calls += 1;
        let f = c.plan.faults.iter().find(|x| x.0 == n).map(|x| x.1);
        if let Some(f) = f {
            c.fired += 1;
            c.fired_kinds[match f { Fault::Error => 0, Fault::Failure => 1, Fault::Inc(_) => 2, Fault::IncUnknown => 3, Fault::Panic => 4 }] += 1;
        }
        f
    });
    log('C', id, Some(addr), 0);
    match f {
        None => Ok(()),
        Some(Fault::Error) => Err(Err::Error(E::from_error_kind(i, ErrorKind::Fix))),
        Some(Fault::Failure) => Err(Err::Failure(E::from_error_kind(i, ErrorKind::Fail))),
        Some(Fault::Inc(n)) => Err(Err::Incomplete(Needed::new(n))),
        Some(Fault::IncUnknown) => Err(Err::Incomplete(Needed::Unknown)),
        Some(Fault::Panic) => std::panic::panic_any(Injected),
    }
}

pub fn try_hook<'a, E: ParseError<&'a [u8]>>(id: u32, i: &'a [u8]) -> IResult<&'a [u8], (), E> {
    fault_point(id, i)?;
    Ok((i, ()))
}

pub fn eat<'a, E: ParseError<&'a [u8]>>(i: &'a [u8], n: usize) -> IResult<&'a [u8], (), E> {
    if i.len() < n { return Err(Err::Incomplete(Needed::new(n - i.len()))); }
    Ok((&i[n..], ()))
}

/// value kept alive in results: every one is tracked from birth to drop
#[derive(Debug, PartialEq)]
pub struct Tok { pub v: u16, pub fl: u8, id: u32 }
impl Tok {
    pub fn born(v: u16, fl: u8) -> Tok {
        let _pause = crate::meter::Pause::new();
        with(|c| { let id = c.born; c.born += 1; c.live.push(true); Tok { v, fl, id } })
    }
}
impl Default for Tok { fn default() -> Self { Tok::born(0, 9) } }
impl Drop for Tok {
    fn drop(&mut self) {
        let id = self.id as usize;
        with(|c| {
            if c.live.get(id) == Some(&true) { c.live[id] = false; } else { c.bad_drop = true; }
        });
    }
}

pub const TOK_ERR: u8 = 0xDD;
pub const TOK_FAIL: u8 = 0xEE;

fn tok_parse<'a, E: ParseError<&'a [u8]>>(i: &'a [u8], fl: u8) -> IResult<&'a [u8], Tok, E> {
    fault_point(1000, i)?;
    if i.len() < 2 { return Err(Err::Incomplete(Needed::new(2 - i.len()))); }
    if i[0] == TOK_ERR { return Err(Err::Error(E::from_error_kind(i, ErrorKind::Digit))); }
    if i[0] == TOK_FAIL { return Err(Err::Failure(E::from_error_kind(i, ErrorKind::Alpha))); }
    let b = [i[0], i[1]];
    let v = if fl == 2 { u16::from_le_bytes(b) } else { u16::from_be_bytes(b) };
    Ok((&i[2..], Tok::born(v, fl)))
}
impl<'a, E: ParseError<&'a [u8]>> Parse<&'a [u8], E> for Tok {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { tok_parse(i, 1) }
    fn parse_be(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { tok_parse(i, 1) }
    fn parse_le(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { tok_parse(i, 2) }
}

#[derive(Debug, PartialEq, Clone, Copy, Default)]
pub struct Mini { pub v: u8, pub fl: u8 }
fn mini_parse<'a, E: ParseError<&'a [u8]>>(i: &'a [u8], fl: u8) -> IResult<&'a [u8], Mini, E> {
    fault_point(1001, i)?;
    if i.is_empty() { return Err(Err::Incomplete(Needed::new(1))); }
    if i[0] == TOK_ERR { return Err(Err::Error(E::from_error_kind(i, ErrorKind::Digit))); }
    if i[0] == TOK_FAIL { return Err(Err::Failure(E::from_error_kind(i, ErrorKind::Alpha))); }
    Ok((&i[1..], Mini { v: i[0], fl }))
}
impl<'a, E: ParseError<&'a [u8]>> Parse<&'a [u8], E> for Mini {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { mini_parse(i, 1) }
    fn parse_be(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { mini_parse(i, 1) }
    fn parse_le(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { mini_parse(i, 2) }
}

/// implements only `parse`: its other two entry points are the trait's own
#[derive(Debug, PartialEq, Clone, Copy, Default)]
pub struct Only(pub u16);
impl<'a, E: ParseError<&'a [u8]>> Parse<&'a [u8], E> for Only {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        fault_point(1003, i)?;
        if i.len() < 2 { return Err(Err::Incomplete(Needed::new(2 - i.len()))); }
        if i[0] == TOK_ERR { return Err(Err::Error(E::from_error_kind(i, ErrorKind::Digit))); }
        if i[0] == TOK_FAIL { return Err(Err::Failure(E::from_error_kind(i, ErrorKind::Alpha))); }
        Ok((&i[2..], Only(u16::from_be_bytes([i[0], i[1]]))))
    }
}

/// reads plainly in an order of its own (here: bytes swapped, bits flipped), unlike its big-endian entry point
#[derive(Debug, PartialEq, Clone, Copy, Default)]
pub struct Nat(pub u16);
fn nat_parse<'a, E: ParseError<&'a [u8]>>(i: &'a [u8], f: fn([u8; 2]) -> u16) -> IResult<&'a [u8], Nat, E> {
    fault_point(1004, i)?;
    if i.len() < 2 { return Err(Err::Incomplete(Needed::new(2 - i.len()))); }
    if i[0] == TOK_ERR { return Err(Err::Error(E::from_error_kind(i, ErrorKind::Digit))); }
    if i[0] == TOK_FAIL { return Err(Err::Failure(E::from_error_kind(i, ErrorKind::Alpha))); }
    Ok((&i[2..], Nat(f([i[0], i[1]]))))
}
impl<'a, E: ParseError<&'a [u8]>> Parse<&'a [u8], E> for Nat {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { nat_parse(i, |b| !u16::from_le_bytes(b)) }
    fn parse_be(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { nat_parse(i, u16::from_be_bytes) }
    fn parse_le(i: &'a [u8]) -> IResult<&'a [u8], Self, E> { nat_parse(i, u16::from_le_bytes) }
}

/// lengths: mostly small, sometimes whatever was read
pub fn len8(v: u8) -> usize { if v >= 200 { v as usize } else { v as usize % 11 } }
pub fn len16(v: u16) -> usize { if v >= 0xf000 { v as usize } else { v as usize % 37 } }
impl nom::ToUsize for Mini { fn to_usize(&self) -> usize { len8(self.v) } }
impl nom::ToUsize for Tok { fn to_usize(&self) -> usize { len16(self.v) } }
impl nom::ToUsize for Nat { fn to_usize(&self) -> usize { len16(self.0) } }
impl nom::ToUsize for Only { fn to_usize(&self) -> usize { len16(self.0) } }

pub fn strict16<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], u16, E> {
    fault_point(1002, i)?;
    if i.len() < 2 { return Err(Err::Incomplete(Needed::new(2 - i.len()))); }
    if i[0] == TOK_ERR { return Err(Err::Error(E::from_error_kind(i, ErrorKind::Digit))); }
    if i[0] == TOK_FAIL { return Err(Err::Failure(E::from_error_kind(i, ErrorKind::Alpha))); }
    Ok((&i[2..], u16::from_be_bytes([i[0], i[1]])))
}

/// newtype without a parser of its own
#[derive(Debug, PartialEq, Clone, Copy, Default)]
pub struct W<T>(pub T);
impl<T> From<T> for W<T> { fn from(t: T) -> Self { W(t) } }

/// newtype used as selector
#[derive(Debug, PartialEq, Eq, Clone, Copy, Default)]
pub struct Sel<T>(pub T);
pub type SelU8 = Sel<u8>;
pub type SelU16 = Sel<u16>;
pub type SelU32 = Sel<u32>;
pub type SelU64 = Sel<u64>;
pub type SelI16 = Sel<i16>;
pub type SelI32 = Sel<i32>;

macro_rules! fx {
    ($($n:ident $t:ident),*) => { $( pub fn $n(i: &[u8]) -> IResult<&[u8], $t> { nom::number::streaming::$n(i) } )* };
}
pub mod fx {
    use super::*;
    fx!(be_u8 u8, be_u16 u16, be_u32 u32, be_u64 u64, le_u8 u8, le_u16 u16, le_u32 u32, le_u64 u64, be_i16 i16, le_i16 i16, be_i32 i32, le_i32 i32, be_u128 u128, le_u128 u128);
}

pub fn opt_prim<'a, T, E: ParseError<&'a [u8]>>(f: fn(&'a [u8]) -> IResult<&'a [u8], T, E>) -> impl FnMut(&'a [u8]) -> IResult<&'a [u8], Option<T>, E> {
    move |i| match f(i) {
        Ok((r, v)) => Ok((r, Some(v))),
        Err(Err::Error(_)) | Err(Err::Incomplete(_)) => Ok((i, None)),
        Err(e) => Err(e),
    }
}
pub fn rest<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], &'a [u8], E> { Ok((&i[i.len()..], i)) }
pub fn window<'a, T, E: ParseError<&'a [u8]>>(n: usize, mut f: impl FnMut(&'a [u8]) -> IResult<&'a [u8], T, E>) -> impl FnMut(&'a [u8]) -> IResult<&'a [u8], T, E> {
    move |i| {
        if i.len() < n { return Err(Err::Incomplete(Needed::new(n - i.len()))); }
        let (_, v) = f(&i[..n])?;
        Ok((&i[n..], v))
    }
}

#[cfg(feature = "alloc")]
pub fn len_vec<T>(v: &Vec<T>) -> i64 { v.len() as i64 }
pub fn len_str(v: &String) -> i64 { v.len() as i64 }
pub fn len_bytes(v: &&[u8]) -> i64 { v.len() as i64 }

// ---------------------------------------------------------------- capturing values

pub trait ToVal { fn to_val(&self, base: usize) -> Val; }
macro_rules! tv { (u $($t:ty),*) => { $(impl ToVal for $t { fn to_val(&self, _: usize) -> Val { Val::U(*self as u128) } })* };
                  (i $($t:ty),*) => { $(impl ToVal for $t { fn to_val(&self, _: usize) -> Val { Val::I(*self as i128) } })* } }
tv!(u u8, u16, u32, u64, u128);
tv!(i i8, i16, i32, i64, i128);
impl ToVal for f32 { fn to_val(&self, _: usize) -> Val { Val::F(self.to_bits() as u64) } }
impl ToVal for f64 { fn to_val(&self, _: usize) -> Val { Val::F(self.to_bits()) } }
impl ToVal for String {
    fn to_val(&self, _: usize) -> Val {
        // text that is no text must not upset the simulator
        match std::str::from_utf8(self.as_bytes()) { Ok(_) => Val::S(self.clone()), Err(_) => Val::S(format!("not UTF-8: {:02x?}", self.as_bytes())) }
    }
}
impl ToVal for &[u8] { fn to_val(&self, base: usize) -> Val { Val::B((self.as_ptr() as i64).wrapping_sub(base as i64), self.to_vec()) } }
impl<T: ToVal> ToVal for Option<T> { fn to_val(&self, b: usize) -> Val { Val::O(self.as_ref().map(|x| Box::new(x.to_val(b)))) } }
impl<T: ToVal> ToVal for Vec<T> { fn to_val(&self, b: usize) -> Val { Val::L(self.iter().map(|x| x.to_val(b)).collect()) } }
impl<T: ToVal, const N: usize> ToVal for [T; N] { fn to_val(&self, b: usize) -> Val { Val::L(self.iter().map(|x| x.to_val(b)).collect()) } }
impl<A: ToVal, B: ToVal> ToVal for (A, B) { fn to_val(&self, b: usize) -> Val { Val::R(vec![self.0.to_val(b), self.1.to_val(b)]) } }
impl<L> ToVal for LengthData<L, &[u8]> { fn to_val(&self, b: usize) -> Val { self.data.to_val(b) } }
impl<T> ToVal for PhantomData<T> { fn to_val(&self, _: usize) -> Val { Val::Unit } }
impl ToVal for Tok { fn to_val(&self, _: usize) -> Val { Val::T(self.v, self.fl) } }
impl ToVal for Nat { fn to_val(&self, _: usize) -> Val { Val::U(self.0 as u128) } }
impl ToVal for Only { fn to_val(&self, _: usize) -> Val { Val::U(self.0 as u128) } }
impl ToVal for Mini { fn to_val(&self, _: usize) -> Val { Val::M(self.v, self.fl) } }
impl<T: ToVal> ToVal for W<T> { fn to_val(&self, b: usize) -> Val { self.0.to_val(b) } }

// ---------------------------------------------------------------- error types

/// error type of the caller's own: keeps the whole chain
#[derive(Debug, PartialEq, Clone)]
pub struct MyErr(pub Vec<(usize, ErrorKind)>);
impl<'a> ParseError<&'a [u8]> for MyErr {
    fn from_error_kind(i: &'a [u8], k: ErrorKind) -> Self { MyErr(vec![(i.as_ptr() as usize, k)]) }
    fn append(i: &'a [u8], k: ErrorKind, mut o: Self) -> Self { o.0.push((i.as_ptr() as usize, k)); o }
}
impl<'a, X> FromExternalError<&'a [u8], X> for MyErr {
    fn from_external_error(i: &'a [u8], k: ErrorKind, _: X) -> Self { MyErr(vec![(i.as_ptr() as usize, k)]) }
}

pub trait ErrPos { fn pos(&self) -> (usize, ErrorKind); }
impl<'a> ErrPos for Error<&'a [u8]> { fn pos(&self) -> (usize, ErrorKind) { (self.input.as_ptr() as usize, self.code) } }
impl ErrPos for MyErr { fn pos(&self) -> (usize, ErrorKind) { self.0[0] } }

pub fn finish<'a, T: ToVal, E: ErrPos>(i: &'a [u8], r: IResult<&'a [u8], T, E>) -> Out {
    let base = i.as_ptr() as usize;
    let rel = |p: usize| (p as i64).wrapping_sub(base as i64);
    let pause = crate::meter::Pause::new();
    let out = match &r {
        Ok((rem, v)) => {
            let val = v.to_val(base);
            // ledger: exactly the values in the result are alive now
            let n = val.toks();
            with(|c| if c.live.iter().filter(|x| **x).count() != n { c.bad_drop = true; });
            Out::Ok { val, off: rel(rem.as_ptr() as usize), len: rem.len() as i64 }
        }
        Err(Err::Incomplete(Needed::Unknown)) => Out::Inc(None),
        Err(Err::Incomplete(Needed::Size(n))) => Out::Inc(Some(n.get())),
        Err(Err::Error(e)) => { let (p, k) = e.pos(); Out::Err(rel(p), k) }
        Err(Err::Failure(e)) => { let (p, k) = e.pos(); Out::Fail(rel(p), k) }
    };
    // the result is dropped with the allocator metered, so that what is left is a leak
    drop(pause);
    drop(r);
    out
}
