//! Reference model: interprets a declaration over bytes, written from the documentation of the
//! attributes. In `gen` mode the same interpreter invents the bytes it needs, which yields records
//! that satisfy the declared checks most of the time.
use crate::rng::Rng;
use crate::rt::{env_of, Ev, Fault, Out, Plan, Val, TOK_ERR, TOK_FAIL};
use crate::schema::*;
use nom::error::ErrorKind as K;

#[derive(Clone, PartialEq, Debug)]
pub enum Stop { Inc(Option<usize>), Err(usize, K), Fail(usize, K), Panic }
type Res<T> = Result<T, Stop>;

pub struct Gen {
    rng: Rng,
    /// 0 small, 1 mixed, 2 with large lengths, 3 with huge ones, 4 long sequences of small elements
    pub size: u8,
    /// percentage of nested values that are damaged on purpose
    pub bad: usize,
    /// maximum record size
    pub cap: usize,
}

pub struct Model<'c> {
    cat: &'c Cat,
    pub buf: Vec<u8>,
    limit: usize,
    gen: Option<Gen>,
    plan: Plan,
    calls: u32,
    pub events: Vec<Ev>,
    /// highest position consumed
    pub reach: usize,
    /// failures seen by traced fields: name, start, how it failed
    traces: Vec<(String, usize, usize, Stop)>,
    steps: u64,
    depth: u32,
    pub overrun: bool,
}

struct Frame<'s> {
    s: &'s Schema,
    le: bool,
    o: usize,
    end: usize,
    args: &'s [i64],
    set: Option<bool>,
    vals: Vec<Option<Val>>,
    /// name of the field, when it is traced
    name: String,
}

pub struct Ran { pub out: Out, pub events: Vec<Ev>, pub calls: u32, pub reach: usize, pub overrun: bool, pub traces: Vec<(String, usize, usize, Stop)> }

fn num(v: &Val) -> i64 { match v { Val::I(x) => *x as i64, Val::U(x) => *x as i64, _ => 0 } }
fn vlen(v: &Val) -> i64 { match v { Val::S(s) => s.len() as i64, Val::B(_, d) => d.len() as i64, Val::L(l) => l.len() as i64, _ => 0 } }

fn cast(v: i128, q: P) -> Val {
    match q {
        P::U8 => Val::U(v as u8 as u128), P::U16 => Val::U(v as u16 as u128), P::U32 => Val::U(v as u32 as u128), P::U64 => Val::U(v as u64 as u128), P::U128 => Val::U(v as u128),
        P::I8 => Val::I(v as i8 as i128), P::I16 => Val::I(v as i16 as i128), P::I32 => Val::I(v as i32 as i128), P::I64 => Val::I(v as i64 as i128), P::I128 => Val::I(v),
        P::F32 | P::F64 => unreachable!(),
    }
}
fn raw(v: &Val) -> i128 { match v { Val::I(x) => *x, Val::U(x) => *x as i128, _ => 0 } }

pub fn decode(b: &[u8], q: P, le: bool) -> Val {
    let mut x: u128 = 0;
    for k in 0..b.len() { let c = if le { b[b.len() - 1 - k] } else { b[k] }; x = (x << 8) | c as u128; }
    match q {
        P::F32 | P::F64 => Val::F(x as u64),
        P::I8 => Val::I(x as u8 as i8 as i128), P::I16 => Val::I(x as u16 as i16 as i128), P::I32 => Val::I(x as u32 as i32 as i128), P::I64 => Val::I(x as u64 as i64 as i128), P::I128 => Val::I(x as i128),
        _ => Val::U(x),
    }
}

/// declared default of a type
fn default_val(t: &Ty, fld: bool) -> Val {
    match t {
        Ty::P(q) => if q.float() { Val::F(0) } else if q.signed() { Val::I(0) } else { Val::U(0) },
        Ty::Str => Val::S(String::new()),
        Ty::Opt(_) => Val::O(None),
        Ty::Vec(_) => Val::L(vec![]),
        Ty::Arr(x, n) => Val::L((0..*n).map(|_| default_val(x, fld)).collect()),
        Ty::Pair(a, b) => Val::R(vec![default_val(a, fld), default_val(b, fld)]),
        Ty::Tok => Val::T(0, 9),
        Ty::Mini => Val::M(0, 0),
        Ty::Only | Ty::Nat => Val::U(0),
        Ty::Phantom => Val::Unit,
        _ => Val::Unit,
    }
}

/// what a nested parser's value means as a length
fn usz(v: &Val) -> usize { match v { Val::M(x, _) => crate::rt::len8(*x), Val::T(x, _) => crate::rt::len16(*x), v => crate::rt::len16(raw(v) as u16) } }

impl<'c> Model<'c> {
    /// run the declaration over given bytes
    pub fn run(cat: &'c Cat, id: Id, fl: Fl, data: &[u8], sel: i64, args: &[i64], plan: &Plan) -> Ran {
        let mut m = Model { cat, buf: data.to_vec(), limit: data.len(), gen: None, plan: plan.clone(), calls: 0, events: vec![], reach: 0, traces: vec![], steps: 0, depth: 0, overrun: false };
        let r = m.call(id, fl, 0, data.len(), sel, args);
        let out = m.out(r, data.len());
        Ran { out, events: m.events, calls: m.calls, reach: m.reach, overrun: m.overrun, traces: m.traces }
    }
    /// invent a record; it usually satisfies the declaration
    pub fn invent(cat: &'c Cat, id: Id, fl: Fl, sel: i64, args: &[i64], plan: &Plan, seed: u64, size: u8, bad: usize, cap: usize) -> (Vec<u8>, bool) {
        let mut best = vec![];
        for attempt in 0..24u64 {
            let g = Gen { rng: Rng::new(crate::rng::hash(&[seed, attempt])), size, bad, cap };
            let mut m = Model { cat, buf: vec![], limit: usize::MAX, gen: Some(g), plan: plan.clone(), calls: 0, events: vec![], reach: 0, traces: vec![], steps: 0, depth: 0, overrun: false };
            let r = m.call(id, fl, 0, usize::MAX, sel, args);
            if let Ok((p, _)) = &r {
                let p = *p;
                if m.limit == usize::MAX && p > m.buf.len() && p <= cap { m.fill(p); }
                return (m.buf, true);
            }
            best = m.buf;
        }
        (best, false)
    }
    fn out(&self, r: Res<(usize, Val)>, len: usize) -> Out {
        match r {
            Ok((p, val)) => Out::Ok { val, off: p as i64, len: len as i64 - p as i64 },
            Err(Stop::Inc(n)) => Out::Inc(n),
            Err(Stop::Err(p, k)) => Out::Err(p as i64, k),
            Err(Stop::Fail(p, k)) => Out::Fail(p as i64, k),
            Err(Stop::Panic) => Out::Panic("injected".into()),
        }
    }

    // ------------------------------------------------------------ bytes
    fn avail(&self, end: usize, p: usize) -> usize { end.min(self.limit).saturating_sub(p) }
    fn fill(&mut self, to: usize) {
        while self.buf.len() < to {
            let g = self.gen.as_mut().unwrap();
            let b = if g.rng.pct(50) { g.rng.below(8) as u8 } else { g.rng.next() as u8 };
            self.buf.push(b);
        }
    }
    /// n bytes at p, or ask for more
    fn want(&mut self, p: usize, n: usize, end: usize) -> Res<()> {
        let a = self.avail(end, p);
        if n > a { return Err(Stop::Inc(Some(n - a))); }
        if self.gen.is_some() && p + n > self.buf.len() {
            let cap = self.gen.as_ref().unwrap().cap;
            if p + n > cap {
                self.limit = self.buf.len();
                return Err(Stop::Inc(Some(p + n - self.buf.len().min(p + n - 1))));
            }
            self.fill(p + n);
        }
        self.reach = self.reach.max(p + n);
        Ok(())
    }
    fn close(&mut self) { if self.limit == usize::MAX { self.limit = self.buf.len(); } }
    fn tick(&mut self) -> Res<()> {
        self.steps += 1;
        if self.steps > 3_000_000 { self.overrun = true; return Err(Stop::Panic); }
        Ok(())
    }
    fn ev(&mut self, k: char, id: u32, pos: i64, v: i64) { if self.gen.is_none() && self.events.len() < 100_000 { self.events.push(Ev { k, id, pos, v }); } }

    /// in gen mode: put a chosen value at a fresh position
    fn plant(&mut self, p: usize, q: P, le: bool, hints: &[i128], lenlike: bool) {
        if self.gen.is_none() || p < self.buf.len() || self.limit != usize::MAX { return; }
        self.fill(p);
        let g = self.gen.as_mut().unwrap();
        let n = q.size();
        let r = g.rng.below(100);
        let x: i128 = if !hints.is_empty() && r < 55 { *g.rng.pick(hints) }
            else if lenlike && g.size == 3 && n > 2 && r < 85 { *g.rng.pick(&[65535i64, 65536, 65537, 70000, 131071, 131072, 131073, 140000]) as i128 }
            else if lenlike && g.size == 2 && r < 85 { *g.rng.pick(&[255i64, 256, 257, 300, 511, 512, 1000, 1023, 4096, 5000, 65535, 65536, 70000]) as i128 }
            else if lenlike || r < 78 { let hi = if g.size == 0 { 4 } else { 9 }; if q.signed() && g.rng.pct(25) { -(g.rng.below(4) as i128) } else { g.rng.below(hi) as i128 } }
            else if r < 88 { *g.rng.pick(&[0i128, 1, 127, 128, 254, 255, 256, 0x0100, 0x0102, 0x7fff, 0x8000, 0xffff, 0x10000, -1, -2, -128]) }
            else { ((g.rng.next() as i128) << 64) ^ g.rng.next() as i128 };
        let x = if q.float() { (g.rng.next() as i128) << 32 ^ g.rng.next() as i128 } else { x };
        let b = x.to_be_bytes();
        let mut b: Vec<u8> = b[16 - n..].to_vec();
        if le { b.reverse(); }
        self.buf.extend_from_slice(&b);
    }

    fn prim(&mut self, q: P, le: bool, p: usize, end: usize) -> Res<(usize, Val)> { self.prim_h(q, le, p, end, &[], false) }
    fn prim_h(&mut self, q: P, le: bool, p: usize, end: usize, hints: &[i128], lenlike: bool) -> Res<(usize, Val)> {
        let n = q.size();
        if self.gen.is_some() && self.avail(end, p) >= n && p + n <= self.gen.as_ref().unwrap().cap { self.plant(p, q, le, hints, lenlike); }
        self.want(p, n, end)?;
        let v = decode(&self.buf[p..p + n], q, le);
        Ok((p + n, v))
    }
    fn bytes(&mut self, n: usize, p: usize, end: usize) -> Res<(usize, Val)> {
        self.want(p, n, end)?;
        Ok((p + n, Val::B(p as i64, self.buf[p..p + n].to_vec())))
    }
    fn fault(&mut self, id: u32, p: usize) -> Res<()> {
        let n = self.calls;
        self.calls += 1;
        self.ev('C', id, p as i64, 0);
        match self.plan.faults.iter().find(|x| x.0 == n).map(|x| x.1) {
            None => Ok(()),
            Some(Fault::Error) => Err(Stop::Err(p, K::Fix)),
            Some(Fault::Failure) => Err(Stop::Fail(p, K::Fail)),
            Some(Fault::Inc(k)) => Err(Stop::Inc(Some(k))),
            Some(Fault::IncUnknown) => Err(Stop::Inc(None)),
            Some(Fault::Panic) => Err(Stop::Panic),
        }
    }
    fn marked(&mut self, p: usize, n: usize, end: usize) -> Res<()> {
        if self.gen.is_some() && p >= self.buf.len() && self.avail(end, p) >= n && p + n <= self.gen.as_ref().unwrap().cap && self.limit == usize::MAX {
            self.fill(p);
            let g = self.gen.as_mut().unwrap();
            let bad = g.bad;
            let b = if g.rng.pct(bad) { if g.rng.pct(75) { TOK_ERR } else { TOK_FAIL } } else { let mut b = g.rng.next() as u8; while b == TOK_ERR || b == TOK_FAIL { b = g.rng.next() as u8; } b };
            self.buf.push(b);
        }
        self.want(p, n, end)?;
        if self.buf[p] == TOK_ERR { return Err(Stop::Err(p, K::Digit)); }
        if self.buf[p] == TOK_FAIL { return Err(Stop::Fail(p, K::Alpha)); }
        Ok(())
    }
    fn tok(&mut self, le: bool, p: usize, end: usize) -> Res<(usize, Val)> {
        self.fault(1000, p)?;
        self.marked(p, 2, end)?;
        let b = [self.buf[p], self.buf[p + 1]];
        Ok((p + 2, Val::T(if le { u16::from_le_bytes(b) } else { u16::from_be_bytes(b) }, if le { 2 } else { 1 })))
    }
    fn mini(&mut self, le: bool, p: usize, end: usize) -> Res<(usize, Val)> {
        self.fault(1001, p)?;
        self.marked(p, 1, end)?;
        Ok((p + 1, Val::M(self.buf[p], if le { 2 } else { 1 })))
    }

    fn only(&mut self, p: usize, end: usize) -> Res<(usize, Val)> {
        self.fault(1003, p)?;
        self.marked(p, 2, end)?;
        Ok((p + 2, Val::U(u16::from_be_bytes([self.buf[p], self.buf[p + 1]]) as u128)))
    }

    /// only asked for in a stated byte order: nothing says what its plain entry means
    fn nat(&mut self, le: bool, p: usize, end: usize) -> Res<(usize, Val)> {
        self.fault(1004, p)?;
        self.marked(p, 2, end)?;
        let b = [self.buf[p], self.buf[p + 1]];
        Ok((p + 2, Val::U(if le { u16::from_le_bytes(b) } else { u16::from_be_bytes(b) } as u128)))
    }

    // ------------------------------------------------------------ types
    fn ty(&mut self, t: &Ty, le: bool, p: usize, end: usize, g: Option<&Ty>, hints: &[i128], lenlike: bool) -> Res<(usize, Val)> {
        self.tick()?;
        match t {
            Ty::P(q) => self.prim_h(*q, le, p, end, hints, lenlike),
            Ty::Param => { let t = g.expect("generic"); self.ty(t, le, p, end, None, &[], false) }
            Ty::Str => {
                let (p, n) = self.prim_h(P::U32, false, p, end, &[], true)?;
                let n = num(&n) as u32 as usize;
                if self.gen.is_some() && self.limit == usize::MAX && p == self.buf.len() && p + n <= self.gen.as_ref().unwrap().cap && end == usize::MAX {
                    let gen = self.gen.as_mut().unwrap();
                    let bad = if gen.size == 4 { 0 } else { gen.bad + 3 };
                    let mut s: Vec<u8> = vec![];
                    while s.len() < n {
                        if n - s.len() >= 2 && gen.rng.pct(15) { s.extend_from_slice("é".as_bytes()); } else { s.push(b' ' + gen.rng.below(90) as u8); }
                    }
                    if n > 0 && gen.rng.pct(bad) { let k = gen.rng.below(n); s[k] = 0xff; }
                    self.buf.extend_from_slice(&s);
                }
                self.want(p, n, end)?;
                match String::from_utf8(self.buf[p..p + n].to_vec()) { Ok(s) => Ok((p + n, Val::S(s))), Err(_) => Err(Stop::Err(p, K::MapRes)) }
            }
            Ty::Bytes | Ty::Phantom | Ty::W(_) => Ok((p, Val::Unit)),
            Ty::Len(q, _) => {
                let (p, n) = self.prim_h(*q, le, p, end, &[], true)?;
                let n = raw(&n) as usize;
                self.bytes(n, p, end)
            }
            Ty::LenOf(t) => {
                let (p, n) = self.ty(t, le, p, end, g, &[], true)?;
                self.bytes(usz(&n), p, end)
            }
            Ty::Opt(x) => match self.ty(x, le, p, end, g, &[], false) {
                Ok((p, v)) => Ok((p, Val::O(Some(Box::new(v))))),
                Err(Stop::Inc(_)) | Err(Stop::Err(..)) => Ok((p, Val::O(None))),
                Err(e) => Err(e),
            },
            Ty::Vec(x) => {
                let mut p = p;
                let mut l = vec![];
                let mut again = 0;
                let mut quota = match &mut self.gen { Some(gn) if end == usize::MAX && self.limit == usize::MAX => Some(if gn.size == 3 { 65_500 + gn.rng.below(70_000) } else if gn.size == 4 { 300 + gn.rng.below(6000) } else if gn.size == 2 { gn.rng.below(1200) } else { gn.rng.below(6) }), _ => None };
                loop {
                    self.tick()?;
                    if quota == Some(0) { self.close(); quota = None; }
                    if let Some(q) = &mut quota { *q -= 1; }
                    match self.ty(x, le, p, end, g, &[], false) {
                        Ok((np, _)) if np == p => return Err(Stop::Err(p, K::Many0)),
                        Ok((np, v)) => { l.push(v); p = np; }
                        // a long sequence is wanted: another element instead
                        Err(Stop::Err(..)) if quota.is_some() && self.limit == usize::MAX && self.gen.as_ref().map_or(false, |g| g.size == 4) && self.buf.len() > p && again < 50 => { again += 1; self.buf.truncate(p); }
                        Err(Stop::Inc(_)) | Err(Stop::Err(..)) => { if quota.is_some() { self.close(); } return Ok((p, Val::L(l))); }
                        Err(e) => return Err(e),
                    }
                }
            }
            Ty::Pair(a, b) => {
                let (p, x) = self.ty(a, le, p, end, g, &[], false)?;
                let (p, y) = self.ty(b, le, p, end, g, &[], false)?;
                Ok((p, Val::R(vec![x, y])))
            }
            Ty::Arr(x, n) => {
                let mut p = p;
                let mut l = vec![];
                for _ in 0..*n { let (np, v) = self.ty(x, le, p, end, g, &[], false)?; p = np; l.push(v); }
                Ok((p, Val::L(l)))
            }
            Ty::Ref(i) => self.call(*i, if le { Fl::Le } else { Fl::Be }, p, end, 0, &[]),
            Ty::Tok => self.tok(le, p, end),
            Ty::Mini => self.mini(le, p, end),
            Ty::Only => self.only(p, end),
            Ty::Nat => self.nat(le, p, end),
        }
    }

    // ------------------------------------------------------------ expressions
    fn ex(&mut self, f: &Frame, e: &Ex, own: Option<&Val>, p: usize) -> i64 {
        match e {
            Ex::C(n) => *n,
            Ex::F(i) => num(f.vals[*i].as_ref().unwrap()),
            Ex::FLen(i) => vlen(f.vals[*i].as_ref().unwrap()),
            Ex::A(i) => match f.s.args[*i].1 { ArgTy::P(q) => num(&cast(f.args[*i] as i128, q)), ArgTy::Endian => 0 },
            Ex::Env(k) => { let v = env_of(&self.plan.env, *k); self.ev('E', *k, -1, v); v }
            Ex::Own => num(own.unwrap()),
            Ex::OwnLen => vlen(own.unwrap()),
            Ex::Add(a, b) => { let x = self.ex(f, a, own, p); x.wrapping_add(self.ex(f, b, own, p)) }
            Ex::Sub(a, b) => { let x = self.ex(f, a, own, p); x.wrapping_sub(self.ex(f, b, own, p)) }
            Ex::Mul(a, b) => { let x = self.ex(f, a, own, p); x.wrapping_mul(self.ex(f, b, own, p)) }
            Ex::And(a, b) => { let x = self.ex(f, a, own, p); x & self.ex(f, b, own, p) }
            Ex::Mod(a, b) => self.ex(f, a, own, p).rem_euclid(*b),
            Ex::InLen => {
                if self.gen.is_some() && self.limit == usize::MAX && f.end == usize::MAX {
                    let n = self.gen.as_mut().unwrap().rng.below(12);
                    self.fill(p + n);
                    self.close();
                }
                self.avail(f.end, p) as i64
            }
        }
    }
    fn pr(&mut self, f: &Frame, q: &Pr, own: Option<&Val>, p: usize) -> bool {
        match q {
            Pr::True => true,
            Pr::Cmp(c, a, b) => {
                let x = self.ex(f, a, own, p);
                let y = self.ex(f, b, own, p);
                match c { Cmp::Eq => x == y, Cmp::Ne => x != y, Cmp::Lt => x < y, Cmp::Le => x <= y, Cmp::Gt => x > y }
            }
            Pr::And(a, b) => self.pr(f, a, own, p) && self.pr(f, b, own, p),
            Pr::Or(a, b) => self.pr(f, a, own, p) || self.pr(f, b, own, p),
            Pr::Not(a) => !self.pr(f, a, own, p),
            Pr::Log(id, a) => { let b = self.pr(f, a, own, p); self.ev('K', *id, -1, b as i64); b }
        }
    }
    fn little(&mut self, f: &Frame, e: &EnEx, p: usize) -> bool {
        match e {
            EnEx::Env(k) => { let v = env_of(&self.plan.env, *k); self.ev('E', *k, -1, v); v & 1 == 1 }
            EnEx::By(x) => self.ex(f, x, None, p) & 1 == 1,
            EnEx::Arg(i) => f.args[*i] & 1 == 1,
            EnEx::Const(l) => *l,
        }
    }

    // ------------------------------------------------------------ statements before and after
    fn skip(&mut self, f: &Frame, n: usize, p: usize) -> Res<usize> {
        match self.want(p, n, f.end) {
            Ok(()) => Ok(p + n),
            Err(Stop::Inc(_)) if f.s.complete => Err(Stop::Err(p, K::Eof)),
            Err(e) => Err(e),
        }
    }
    fn goto(&mut self, f: &Frame, to: u64, p: usize) -> Res<usize> {
        let total = f.end.min(self.limit).saturating_sub(f.o) as u64;
        if to > total {
            if f.s.complete { return Err(Stop::Err(p, K::Eof)); }
            return Err(Stop::Inc(Some((to - total) as usize)));
        }
        let to = to as usize + f.o;
        if self.gen.is_some() && to > self.buf.len() {
            if to > self.gen.as_ref().unwrap().cap { self.limit = self.buf.len(); return Err(Stop::Inc(Some(1))); }
            self.fill(to);
        }
        self.reach = self.reach.max(to);
        Ok(to)
    }
    fn stmts(&mut self, f: &mut Frame, attrs: &[At], post: bool, mut p: usize) -> Res<usize> {
        for a in attrs {
            if !a.is_pre_post() || a.is_post() != post { continue; }
            self.tick()?;
            match a {
                At::AlignBefore(e) | At::AlignAfter(e) => {
                    let al = self.ex(f, e, None, p) as u64;
                    if al == 0 { return Err(Stop::Err(p, K::Verify)); }
                    let off = (p - f.o) as u64;
                    p = self.skip(f, ((al - off % al) % al) as usize, p)?;
                }
                At::SkipBefore(e) | At::SkipAfter(e) => { let n = self.ex(f, e, None, p) as usize; p = self.skip(f, n, p)?; }
                At::Move(e) => {
                    let d = self.ex(f, e, None, p);
                    let cur = (p - f.o) as u64;
                    if d < 0 {
                        if d.unsigned_abs() > cur { return Err(Stop::Err(p, K::TooLarge)); }
                        p = f.o + (cur - d.unsigned_abs()) as usize;
                    } else {
                        p = self.goto(f, cur + d as u64, p)?;
                    }
                }
                At::MoveAbs(e) => { let d = self.ex(f, e, None, p) as u64; p = self.goto(f, d, p)?; }
                At::ErrorIf(q) => if self.pr(f, q, None, p) { return Err(Stop::Err(p, K::Verify)); },
                At::Exact => {
                    if self.limit == usize::MAX && f.end == usize::MAX { self.fill(p); self.close(); }
                    if self.avail(f.end, p) > 0 { return Err(Stop::Err(p, K::Verify)); }
                }
                At::Pre(id, h) | At::Post(id, h) => match h {
                    HookK::Log => self.ev('H', *id, p as i64, 0),
                    HookK::Val(e) => { let v = self.ex(f, e, None, p); self.ev('H', *id, p as i64, v); }
                    HookK::Eat(n) => { self.want(p, *n, f.end)?; p += n; }
                    HookK::Try => self.fault(*id, p)?,
                },
                At::SetEndian(e) => { let l = self.little(f, e, p); f.set = Some(l); }
                _ => {}
            }
        }
        Ok(p)
    }

    // ------------------------------------------------------------ field parsers
    fn field_le(f: &Frame, attrs: &[At]) -> bool {
        for a in attrs { match a { At::Be => return false, At::Le => return true, _ => {} } }
        if let Some(l) = f.set { return l; }
        f.le
    }
    fn chain(&mut self, f: &Frame, attrs: &[At], ty: &Ty, le: bool, p: usize, h: &[i128], ll: bool) -> Res<(usize, Val)> {
        self.tick()?;
        for (k, a) in attrs.iter().enumerate() {
            let rest = &attrs[k + 1..];
            match a {
                At::Tag(t) => {
                    if self.gen.is_some() && self.limit == usize::MAX && p >= self.buf.len() && p + t.len() <= self.gen.as_ref().unwrap().cap && self.avail(f.end, p) >= t.len() { self.fill(p); self.buf.extend_from_slice(t); }
                    let n = self.avail(f.end, p).min(t.len());
                    self.want(p, n, f.end)?;
                    if self.buf[p..p + n] != t[..n] { return Err(Stop::Err(p, K::Tag)); }
                    if n < t.len() { return Err(Stop::Inc(Some(t.len() - n))); }
                    return Ok((p + n, Val::B(p as i64, t.clone())));
                }
                At::Take(e) => { let n = self.ex(f, e, None, p) as usize; return self.bytes(n, p, f.end); }
                At::Value(e) => { let v = self.ex(f, e, None, p); return Ok((p, match ty { Ty::P(q) => cast(v as i128, *q), _ => Val::Unit })); }
                At::Parse(u) => return self.user(f, u, ty, p, h, ll),
                At::Ignore(_) => return Ok((p, default_val(ty, true))),
                At::Complete => return match self.chain(f, rest, ty, le, p, h, ll) { Err(Stop::Inc(_)) => Err(Stop::Err(p, K::Complete)), r => r },
                At::Debug => { let r = self.chain(f, rest, ty, le, p, h, ll); self.trace(f, p, &r); return r; }
                At::Cond(q, _) => {
                    let b = self.pr(f, q, None, p);
                    let sub = match ty { Ty::Opt(x) => x, _ => unreachable!() };
                    if !b { return Ok((p, Val::O(None))); }
                    let (p, v) = self.chain(f, rest, sub, le, p, h, ll)?;
                    return Ok((p, Val::O(Some(Box::new(v)))));
                }
                At::Count(e) => {
                    let n = self.ex(f, e, None, p) as u64;
                    let sub = match ty { Ty::Vec(x) => x, _ => unreachable!() };
                    return self.times(f, n, rest, sub, le, p);
                }
                At::LengthCount(q, be) => {
                    let (p, n) = self.prim_h(*q, !be, p, f.end, &[], true)?;
                    let n = raw(&n) as u64;
                    let sub = match ty { Ty::Vec(x) => x, _ => unreachable!() };
                    return self.times(f, n, rest, sub, le, p);
                }
                At::LengthBy(t, fl) => {
                    let (p, n) = self.ty(t, *fl == Fl::Le, p, f.end, f.s.generic.as_ref(), &[], true)?;
                    let sub = match ty { Ty::Vec(x) => x, _ => unreachable!() };
                    return self.times(f, usz(&n) as u64, rest, sub, le, p);
                }
                At::Into => {
                    let (np, v) = self.chain(f, rest, ty, le, p, h, ll)?;
                    return Ok((np, match (ty, &v) { (Ty::P(q), Val::I(_) | Val::U(_)) => cast(raw(&v), *q), _ => v }));
                }
                At::Map(m) => {
                    // the type in front of the mapping is the one its argument has
                    let src = match m { MapF::Add(q, ..) | MapF::Cast(q, ..) | MapF::Wrap(q, _) => Ty::P(*q) };
                    let (np, v) = self.chain(f, rest, &src, le, p, h, ll)?;
                    return Ok((np, match m {
                        MapF::Add(q, k, id) => { self.ev('M', *id, -1, 0); let x = cast(*k as i128, *q); cast(raw(&v).wrapping_add(raw(&x)), *q) }
                        MapF::Cast(_, q, id) => { self.ev('M', *id, -1, 0); cast(raw(&v), *q) }
                        MapF::Wrap(_, id) => { self.ev('M', *id, -1, 0); v }
                    }));
                }
                At::Verify(q) => {
                    let (np, v) = self.chain(f, rest, ty, le, p, h, ll)?;
                    if !self.pr(f, q, Some(&v), np) { return Err(Stop::Err(p, K::Verify)); }
                    return Ok((np, v));
                }
                _ => {}
            }
        }
        self.ty(ty, le, p, f.end, f.s.generic.as_ref(), h, ll)
    }
    fn times(&mut self, f: &Frame, n: u64, rest: &[At], sub: &Ty, le: bool, p: usize) -> Res<(usize, Val)> {
        let mut p = p;
        let mut l = vec![];
        let mut k = 0;
        while k < n { self.tick()?; let (np, v) = self.chain(f, rest, sub, le, p, &[], false)?; p = np; l.push(v); k += 1; }
        Ok((p, Val::L(l)))
    }
    fn user(&mut self, f: &Frame, u: &UP, _ty: &Ty, p: usize, h: &[i128], ll: bool) -> Res<(usize, Val)> {
        match u {
            UP::Prim(q, be) | UP::FxPrim(q, be) => self.prim_h(*q, !be, p, f.end, h, ll),
            UP::PrimComplete(q, be) => match self.prim(*q, !be, p, f.end) { Err(Stop::Inc(_)) => Err(Stop::Err(p, K::Eof)), r => r },
            UP::U24(be) => { self.want(p, 3, f.end)?; let v = decode(&self.buf[p..p + 3], P::U32, !be); Ok((p + 3, v)) }
            UP::Tok(fl) => self.tok(*fl == Fl::Le, p, f.end),
            UP::Mini(fl) => self.mini(*fl == Fl::Le, p, f.end),
            UP::Strict => { self.fault(1002, p)?; self.marked(p, 2, f.end)?; Ok((p + 2, Val::U(u16::from_be_bytes([self.buf[p], self.buf[p + 1]]) as u128))) }
            UP::Call { id, fl, sel, args } => {
                let s = match sel { Some(e) => self.ex(f, e, None, p), None => 0 };
                let a: Vec<i64> = args.iter().map(|e| self.ex(f, e, None, p)).collect();
                self.call(*id, *fl, p, f.end, s, &a)
            }
            UP::Rest => {
                if self.gen.is_some() && self.limit == usize::MAX && f.end == usize::MAX { let n = self.gen.as_mut().unwrap().rng.below(7); self.fill(p + n); self.close(); }
                let n = self.avail(f.end, p);
                self.bytes(n, p, f.end)
            }
            UP::Window(e, t, fl) => {
                let n = self.ex(f, e, None, p) as usize;
                let a = self.avail(f.end, p);
                if n > a { return Err(Stop::Inc(Some(n - a))); }
                if self.gen.is_none() { self.want(p, n, f.end)?; }
                let (_, v) = self.ty(t, *fl == Fl::Le, p, p + n, f.s.generic.as_ref(), &[], false)?;
                self.want(p, n, f.end)?;
                Ok((p + n, v))
            }
            UP::OptPrim(q, be) => match self.prim(*q, !be, p, f.end) {
                Ok((np, v)) => Ok((np, Val::O(Some(Box::new(v))))),
                Err(Stop::Panic) => Err(Stop::Panic),
                Err(_) => Ok((p, Val::O(None))),
            },
            UP::OfTy(t, fl) => self.ty(t, *fl == Fl::Le, p, f.end, f.s.generic.as_ref(), h, ll),
        }
    }

    fn trace(&mut self, f: &Frame, p: usize, r: &Res<(usize, Val)>) {
        if let Err(e) = r { if self.gen.is_none() && *e != Stop::Panic { self.traces.push((f.name.clone(), p, f.end, e.clone())); } }
    }
    fn fields(&mut self, f: &mut Frame, fields: &[Field], mut p: usize) -> Res<(usize, Vec<Val>)> {
        f.vals = vec![None; fields.len()];
        for (k, fd) in fields.iter().enumerate() {
            p = self.stmts(f, &fd.attrs, false, p)?;
            let le = Model::field_le(f, &fd.attrs);
            let (h, ll) = if self.gen.is_some() { self.hints(fields, k) } else { (vec![], false) };
            if f.s.debug || fd.attrs.contains(&At::Debug) { f.name = fd.name.clone(); }
            let r = self.chain(f, &fd.attrs, &fd.ty, le, p, &h, ll);
            let r = if f.s.complete { match r { Err(Stop::Inc(_)) => Err(Stop::Err(p, K::Complete)), r => r } } else { r };
            if f.s.debug { self.trace(f, p, &r); }
            let (np, v) = r?;
            p = np;
            let v = if let Ty::Phantom = fd.ty { Val::Unit } else { v };
            f.vals[k] = Some(v);
            p = self.stmts(f, &fd.attrs, true, p)?;
        }
        let v = f.vals.drain(..).map(|x| x.unwrap()).collect();
        Ok((p, v))
    }

    fn call(&mut self, id: Id, fl: Fl, p: usize, end: usize, sel: i64, args: &[i64]) -> Res<(usize, Val)> {
        self.tick()?;
        let cat: &'c Cat = self.cat;
        let s: &'c Schema = &cat.v[id];
        let fixed = match s.derive { Derive::Be => Some(false), Derive::Le => Some(true), Derive::Nom => s.top.iter().find_map(|a| match a { At::Be => Some(false), At::Le => Some(true), _ => None }) };
        let le = fixed.unwrap_or(fl == Fl::Le);
        let args: Vec<i64> = args.to_vec();
        self.depth += 1;
        let mut f = Frame { s, le, o: p, end, args: &args, set: None, vals: vec![], name: String::new() };
        let r = self.body(&mut f, p, sel);
        self.depth -= 1;
        r
    }
    fn body(&mut self, f: &mut Frame, p0: usize, sel: i64) -> Res<(usize, Val)> {
        let s = f.s;
        let p = self.stmts(f, &s.top, false, p0)?;
        let (p, v) = match &s.body {
            Body::Struct(_, fields) => { let (p, v) = self.fields(f, fields, p)?; (p, Val::R(v)) }
            Body::Fieldless { repr, variants } => {
                let h: Vec<i128> = variants.iter().map(|v| v.1).collect();
                let r = self.prim_h(*repr, f.le, p, f.end, &h, false);
                let r = if s.complete { match r { Err(Stop::Inc(_)) => Err(Stop::Err(p, K::Complete)), r => r } } else { r };
                let (p, v) = r?;
                match variants.iter().position(|x| cast(x.1, *repr) == v) {
                    Some(k) => (p, Val::V(k, vec![])),
                    None => return Err(Stop::Err(p0, K::Switch)),
                }
            }
            Body::Enum { sel: q, variants, .. } => {
                let x = cast(sel as i128, *q);
                let pick = variants.iter().position(|v| !(v.pat == Pat::Wild && v.guard.is_none()) && self.matches(f, v, &x)).or_else(|| variants.iter().position(|v| v.pat == Pat::Wild && v.guard.is_none()));
                let k = match pick { Some(k) => k, None => return Err(Stop::Err(p, K::Switch)) };
                let vr = &variants[k];
                if vr.shape == Shape::Unit {
                    let p = self.stmts(f, &vr.unit, false, p)?;
                    let up = vr.unit.iter().rev().find_map(|a| if let At::Parse(u) = a { Some(u) } else { None });
                    let p = match up {
                        None => p,
                        Some(u) => { let r = self.user(f, u, &Ty::Phantom, p, &[], false); match r { Err(Stop::Inc(_)) if s.complete => return Err(Stop::Err(p, K::Complete)), r => r?.0 } }
                    };
                    let p = self.stmts(f, &vr.unit, true, p)?;
                    (p, Val::V(k, vec![]))
                } else {
                    let set = f.set;
                    let (p, v) = self.fields(f, &vr.fields, p)?;
                    f.set = set;
                    (p, Val::V(k, v))
                }
            }
        };
        let p = self.stmts(f, &s.top, true, p)?;
        Ok((p, v))
    }
    fn matches(&mut self, f: &Frame, v: &Variant, x: &Val) -> bool {
        let n = raw(x);
        let m = v.pat.has(n);
        m && match &v.guard { None => true, Some(g) => self.pr(f, g, Some(x), 0) }
    }

    // ------------------------------------------------------------ hints for inventing bytes
    fn hints(&self, fields: &[Field], k: usize) -> (Vec<i128>, bool) {
        let mut h = vec![];
        let mut ll = false;
        for a in &fields[k].attrs { if let At::Verify(q) = a { consts(q, &|e| matches!(e, Ex::Own), &mut h); } }
        let me = |e: &Ex| matches!(e, Ex::F(i) if *i == k);
        for fd in &fields[k + 1..] {
            for a in &fd.attrs {
                match a {
                    At::ErrorIf(q) | At::Cond(q, _) => consts(q, &me, &mut h),
                    At::Parse(UP::Call { id, sel: Some(e), .. }) if ex_any(e, &me) => h.extend(selectors(&self.cat.v[*id])),
                    At::Count(e) | At::Take(e) | At::SkipBefore(e) | At::SkipAfter(e) | At::AlignAfter(e) | At::AlignBefore(e) | At::Move(e) | At::MoveAbs(e) if ex_any(e, &me) => ll = true,
                    At::Parse(UP::Window(e, ..)) if ex_any(e, &me) => ll = true,
                    At::Parse(UP::Call { args, .. }) if args.iter().any(|e| ex_any(e, &me)) => ll = true,
                    _ => {}
                }
            }
        }
        (h.into_iter().map(|x| x as i128).collect(), ll)
    }
}

fn consts(q: &Pr, me: &dyn Fn(&Ex) -> bool, out: &mut Vec<i64>) {
    match q {
        Pr::Cmp(_, a, b) => if ex_any(a, me) || ex_any(b, me) {
            for e in [a, b] { ex_any(e, &|x| { if let Ex::C(_) = x {} false }); collect(e, out); }
        },
        Pr::And(a, b) | Pr::Or(a, b) => { consts(a, me, out); consts(b, me, out) }
        Pr::Not(a) | Pr::Log(_, a) => consts(a, me, out),
        Pr::True => {}
    }
}
fn collect(e: &Ex, out: &mut Vec<i64>) {
    match e {
        Ex::C(n) => out.extend([n.wrapping_sub(1), *n, n.wrapping_add(1)]),
        Ex::Add(a, b) | Ex::Sub(a, b) | Ex::Mul(a, b) | Ex::And(a, b) => { collect(a, out); collect(b, out) }
        Ex::Mod(a, _) => collect(a, out),
        _ => {}
    }
}

/// selector values of interest for an enumeration
pub fn selectors(s: &Schema) -> Vec<i64> {
    let mut h = vec![];
    if let Body::Enum { variants, .. } = &s.body {
        for v in variants {
            match &v.pat {
                Pat::Lit(a) => h.push(*a),
                Pat::Range(a, b) => h.extend([*a, *b, a + (b - a) / 2, a - 1, b + 1]),
                Pat::Or(l) => h.extend(l.iter()),
                Pat::From(a) => h.extend([a - 1, *a, a.saturating_add(1), a.saturating_add(100)]),
                Pat::To(b) => h.extend([b + 1, *b, b.saturating_sub(1), b.saturating_sub(100)]),
                _ => {}
            }
            if let Some(g) = &v.guard { consts(g, &|_| true, &mut h); }
        }
    }
    if h.is_empty() { h.push(0); }
    h
}

impl<'c> Model<'c> {
    /// one value of type `t` at a position, in the byte order of a call of declaration `owner`
    pub fn element(cat: &'c Cat, t: &Ty, owner: Id, fl: Fl, data: &[u8], at: usize, plan: &Plan) -> Option<(usize, Val)> {
        let s = &cat.v[owner];
        let own = match &s.body { Body::Struct(_, f) => f[0].attrs.iter().find_map(|a| if let At::Parse(UP::OfTy(_, x)) = a { Some(*x) } else { None }), _ => None };
        let le = match (own, s.derive) { (Some(x), _) => x == Fl::Le, (_, Derive::Be) => false, (_, Derive::Le) => true, _ => fl == Fl::Le };
        let mut m = Model { cat, buf: data.to_vec(), limit: data.len(), gen: None, plan: plan.clone(), calls: 0, events: vec![], reach: 0, traces: vec![], steps: 0, depth: 0, overrun: false };
        m.ty(t, le, at, data.len(), s.generic.as_ref(), &[], false).ok()
    }
}
