//! An input that is not one slice: received segments parsed where they lie. It implements nom's
//! `Input` by the letter of that trait and refuses, by panic, to be cut beyond its end.
use crate::rng::Rng;
use crate::rt::*;
use nom::error::{Error, ErrorKind, FromExternalError, ParseError};
use nom::{Err, IResult, Input, Needed};
use nom_derive::{InputSlice, LengthData, Parse};
use std::rc::Rc;

struct Segs { ends: Vec<usize>, data: Vec<Vec<u8>> }

#[derive(Clone)]
pub struct Rope { segs: Rc<Segs>, base: usize, at: usize, len: usize }

impl Rope {
    /// the bytes as a list of segments, some of them empty
    pub fn cut(i: &[u8], seed: i64) -> Rope {
        let _pause = crate::meter::Pause::new();
        let mut r = Rng::new(seed as u64);
        let style = r.below(5);
        let mut s = Segs { ends: vec![], data: vec![] };
        let mut at = 0;
        while at < i.len() || s.data.is_empty() {
            let n = match style { 0 => i.len(), 1 => 1, 2 => r.below(4), 3 => if r.pct(50) { r.below(3) } else { r.below(40) }, _ => [0, i.len() / 2 + 1][r.below(2)] };
            let e = (at + n).min(i.len());
            s.data.push(i[at..e].to_vec());
            s.ends.push(e);
            at = e;
        }
        if r.pct(30) { s.data.push(vec![]); s.ends.push(at); }
        Rope { segs: Rc::new(s), base: i.as_ptr() as usize, at: 0, len: i.len() }
    }
    fn byte(&self, k: usize) -> u8 {
        assert!(k < self.len, "input read beyond its end");
        let p = self.at + k;
        let s = self.segs.ends.partition_point(|e| *e <= p);
        let start = if s == 0 { 0 } else { self.segs.ends[s - 1] };
        self.segs.data[s][p - start]
    }
    fn sub(&self, from: usize, len: usize) -> Rope { Rope { segs: self.segs.clone(), base: self.base, at: self.at + from, len } }
    pub fn addr(&self) -> usize { self.base + self.at }
    pub fn bytes(&self) -> Vec<u8> { (0..self.len).map(|k| self.byte(k)).collect() }
}
impl std::fmt::Debug for Rope { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Rope({:?})", self.bytes()) } }
impl PartialEq for Rope { fn eq(&self, o: &Rope) -> bool { self.len == o.len && (0..self.len).all(|k| self.byte(k) == o.byte(k)) } }

pub struct RopeIter { rope: Rope, k: usize }
impl Iterator for RopeIter {
    type Item = u8;
    fn next(&mut self) -> Option<u8> { if self.k < self.rope.len { self.k += 1; Some(self.rope.byte(self.k - 1)) } else { None } }
}
impl Input for Rope {
    type Item = u8;
    type Iter = RopeIter;
    type IterIndices = std::iter::Enumerate<RopeIter>;
    fn input_len(&self) -> usize { self.len }
    fn take(&self, n: usize) -> Self { assert!(n <= self.len, "input cut beyond its end"); self.sub(0, n) }
    fn take_from(&self, n: usize) -> Self { assert!(n <= self.len, "input cut beyond its end"); self.sub(n, self.len - n) }
    fn take_split(&self, n: usize) -> (Self, Self) { (self.take_from(n), self.take(n)) }
    fn position<P: Fn(u8) -> bool>(&self, p: P) -> Option<usize> { (0..self.len).find(|k| p(self.byte(*k))) }
    fn iter_elements(&self) -> RopeIter { RopeIter { rope: self.clone(), k: 0 } }
    fn iter_indices(&self) -> Self::IterIndices { self.iter_elements().enumerate() }
    fn slice_index(&self, n: usize) -> Result<usize, Needed> { if self.len >= n { Ok(n) } else { Err(Needed::new(n - self.len)) } }
}
impl InputSlice for Rope {}

impl ParseError<Rope> for MyErr {
    fn from_error_kind(i: Rope, k: ErrorKind) -> Self { MyErr(vec![(i.addr(), k)]) }
    fn append(i: Rope, k: ErrorKind, mut o: Self) -> Self { o.0.push((i.addr(), k)); o }
}
impl<X> FromExternalError<Rope, X> for MyErr { fn from_external_error(i: Rope, k: ErrorKind, _: X) -> Self { MyErr(vec![(i.addr(), k)]) } }
impl ErrPos for Error<Rope> { fn pos(&self) -> (usize, ErrorKind) { (self.input.addr(), self.code) } }

impl<L> ToVal for LengthData<L, Rope> { fn to_val(&self, base: usize) -> Val { Val::B(self.data.addr() as i64 - base as i64, self.data.bytes()) } }

/// the fault points of the nested parsers, over this input
fn start<E: ParseError<Rope>>(id: u32, i: &Rope, need: usize) -> Result<Vec<u8>, Err<E>> {
    fault_at(id, i.addr(), i.clone())?;
    if i.len < need { return Err(Err::Incomplete(Needed::new(need - i.len))); }
    let b: Vec<u8> = (0..need).map(|k| i.byte(k)).collect();
    if b[0] == TOK_ERR { return Err(Err::Error(E::from_error_kind(i.clone(), ErrorKind::Digit))); }
    if b[0] == TOK_FAIL { return Err(Err::Failure(E::from_error_kind(i.clone(), ErrorKind::Alpha))); }
    Ok(b)
}
fn tok<E: ParseError<Rope>>(i: Rope, fl: u8) -> IResult<Rope, Tok, E> {
    let b = start(1000, &i, 2)?;
    let b = [b[0], b[1]];
    Ok((i.take_from(2), Tok::born(if fl == 2 { u16::from_le_bytes(b) } else { u16::from_be_bytes(b) }, fl)))
}
impl<E: ParseError<Rope>> Parse<Rope, E> for Tok {
    fn parse(i: Rope) -> IResult<Rope, Self, E> { tok(i, 1) }
    fn parse_be(i: Rope) -> IResult<Rope, Self, E> { tok(i, 1) }
    fn parse_le(i: Rope) -> IResult<Rope, Self, E> { tok(i, 2) }
}
fn mini<E: ParseError<Rope>>(i: Rope, fl: u8) -> IResult<Rope, Mini, E> { let b = start(1001, &i, 1)?; Ok((i.take_from(1), Mini { v: b[0], fl })) }
impl<E: ParseError<Rope>> Parse<Rope, E> for Mini {
    fn parse(i: Rope) -> IResult<Rope, Self, E> { mini(i, 1) }
    fn parse_be(i: Rope) -> IResult<Rope, Self, E> { mini(i, 1) }
    fn parse_le(i: Rope) -> IResult<Rope, Self, E> { mini(i, 2) }
}
impl<E: ParseError<Rope>> Parse<Rope, E> for Only {
    fn parse(i: Rope) -> IResult<Rope, Self, E> { let b = start(1003, &i, 2)?; Ok((i.take_from(2), Only(u16::from_be_bytes([b[0], b[1]])))) }
}

pub fn finish_rope<T: ToVal, E: ErrPos>(i: Rope, r: IResult<Rope, T, E>) -> Out {
    let base = i.addr();
    let rel = |p: usize| (p as i64).wrapping_sub(base as i64);
    let pause = crate::meter::Pause::new();
    let out = match &r {
        Ok((rem, v)) => {
            let val = v.to_val(base);
            let n = val.toks();
            with(|c| if c.live.iter().filter(|x| **x).count() != n { c.bad_drop = true; });
            Out::Ok { val, off: rel(rem.addr()), len: rem.len as i64 }
        }
        Err(Err::Incomplete(Needed::Unknown)) => Out::Inc(None),
        Err(Err::Incomplete(Needed::Size(n))) => Out::Inc(Some(n.get())),
        Err(Err::Error(e)) => { let (p, k) = e.pos(); Out::Err(rel(p), k) }
        Err(Err::Failure(e)) => { let (p, k) = e.pos(); Out::Fail(rel(p), k) }
    };
    drop(pause);
    drop(r);
    out
}
