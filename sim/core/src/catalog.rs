//! The catalogue of declarations the simulator runs: a directed part covering every attribute,
//! container, regime and entry point, a random part drawn from a seed, and twins (the same
//! declaration with Complete, GenericErrors or Debug added).
use crate::rng::Rng;
use crate::schema::*;

pub fn c(n: i64) -> Ex { Ex::C(n) }
fn bx<T>(t: T) -> Box<T> { Box::new(t) }
fn add(a: Ex, b: Ex) -> Ex { Ex::Add(bx(a), bx(b)) }
fn sub(a: Ex, b: Ex) -> Ex { Ex::Sub(bx(a), bx(b)) }
fn mul(a: Ex, b: Ex) -> Ex { Ex::Mul(bx(a), bx(b)) }
fn and(a: Ex, b: i64) -> Ex { Ex::And(bx(a), bx(c(b))) }
fn md(a: Ex, b: i64) -> Ex { Ex::Mod(bx(a), b) }
fn eq(a: Ex, b: Ex) -> Pr { Pr::Cmp(Cmp::Eq, a, b) }
fn ne(a: Ex, b: Ex) -> Pr { Pr::Cmp(Cmp::Ne, a, b) }
fn lt(a: Ex, b: Ex) -> Pr { Pr::Cmp(Cmp::Lt, a, b) }
fn le(a: Ex, b: Ex) -> Pr { Pr::Cmp(Cmp::Le, a, b) }
fn gt(a: Ex, b: Ex) -> Pr { Pr::Cmp(Cmp::Gt, a, b) }
fn lg(id: u32, p: Pr) -> Pr { Pr::Log(id, bx(p)) }
fn own() -> Ex { Ex::Own }
fn p(x: P) -> Ty { Ty::P(x) }
fn opt(t: Ty) -> Ty { Ty::Opt(bx(t)) }
fn vec_(t: Ty) -> Ty { Ty::Vec(bx(t)) }
fn arr(t: Ty, n: usize) -> Ty { Ty::Arr(bx(t), n) }
fn pair(a: Ty, b: Ty) -> Ty { Ty::Pair(bx(a), bx(b)) }
fn f(name: &str, ty: Ty, attrs: Vec<At>) -> Field { Field { name: name.into(), ty, attrs } }
fn u8f(name: &str) -> Field { f(name, p(P::U8), vec![]) }
fn oft(t: Ty, fl: Fl) -> At { At::Parse(UP::OfTy(bx(t), fl)) }
fn take(n: Ex) -> At { At::Take(n) }
fn pre(id: u32) -> At { At::Pre(id, HookK::Log) }
fn post(id: u32) -> At { At::Post(id, HookK::Log) }
fn prev(id: u32, e: Ex) -> At { At::Pre(id, HookK::Val(e)) }
fn postv(id: u32, e: Ex) -> At { At::Post(id, HookK::Val(e)) }
fn madd(q: P, k: i64, id: u32) -> At { At::Map(MapF::Add(q, k, id)) }
fn v(name: &str, pat: Pat, shape: Shape, fields: Vec<Field>) -> Variant { Variant { name: name.into(), pat, guard: None, shape, fields, unit: vec![] } }
fn vu(name: &str, pat: Pat, unit: Vec<At>) -> Variant { Variant { name: name.into(), pat, guard: None, shape: Shape::Unit, fields: vec![], unit } }
fn vg(mut x: Variant, g: Pr) -> Variant { x.guard = Some(g); x }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Reg { Plain, DBe, DLe, TBe, TLe, SetEnv, SetArg }
const REGS: [Reg; 7] = [Reg::Plain, Reg::DBe, Reg::DLe, Reg::TBe, Reg::TLe, Reg::SetEnv, Reg::SetArg];

struct B { cat: Cat }

impl B {
    fn add(&mut self, mut s: Schema) -> Id {
        let id = self.cat.v.len();
        s.name = format!("T{}", id);
        if s.style == 0 { s.style = crate::rng::mix(id as u64 + 77); }
        self.cat.v.push(s);
        let l = self.level(id);
        self.cat.v[id].level = l;
        id
    }
    fn level(&self, id: Id) -> u8 {
        let s = &self.cat.v[id];
        let alloc = self.cat.sch_any_ty(s, &|t| matches!(t, Ty::Vec(_) | Ty::Str) || matches!(t, Ty::Arr(x, _) if !copyable(x)))
            || self.cat.any_schema(id, &|s| s.all_attrs().iter().any(|a| matches!(a, At::Count(_) | At::LengthCount(..))));
        let debug = self.cat.any_schema(id, &|s| s.debug || s.all_attrs().iter().any(|a| matches!(a, At::Debug)));
        if debug { 2 } else if alloc { 1 } else { 0 }
    }
    fn st(&mut self, tag: &'static str, fields: Vec<Field>) -> Id { self.add(Schema::new(tag, Body::Struct(Shape::Named, fields))) }
    fn tu(&mut self, tag: &'static str, tys: Vec<(Ty, Vec<At>)>) -> Id {
        let fields = tys.into_iter().enumerate().map(|(k, (t, a))| f(&format!("_{}", k), t, a)).collect();
        self.add(Schema::new(tag, Body::Struct(Shape::Tuple, fields)))
    }
    fn en(&mut self, tag: &'static str, sel: P, variants: Vec<Variant>) -> Id { self.add(Schema::new(tag, Body::Enum { sel, newtype: false, variants })) }
    fn with(&mut self, s: Schema, g: impl FnOnce(&mut Schema)) -> Id { let mut s = s; g(&mut s); self.add(s) }
    fn regime(&mut self, tag: &'static str, r: Reg, body: Body) -> Id {
        let mut s = Schema::new(tag, body);
        match r {
            Reg::Plain => {}
            Reg::DBe => s.derive = Derive::Be,
            Reg::DLe => s.derive = Derive::Le,
            Reg::TBe => s.top.push(At::Be),
            Reg::TLe => s.top.push(At::Le),
            Reg::SetEnv => s.top.push(At::SetEndian(EnEx::Env(3))),
            Reg::SetArg => { s.args = vec![("en".into(), ArgTy::Endian)]; s.top.push(At::SetEndian(EnEx::Arg(0))) }
        }
        self.add(s)
    }
}

fn copyable(t: &Ty) -> bool {
    match t { Ty::P(_) | Ty::Mini | Ty::Only | Ty::Nat => true, Ty::Arr(x, n) => *n <= 32 && copyable(x), Ty::Opt(x) => copyable(x), _ => false }
}

fn named(fields: Vec<Field>) -> Body { Body::Struct(Shape::Named, fields) }
fn tuple(tys: Vec<(Ty, Vec<At>)>) -> Body { Body::Struct(Shape::Tuple, tys.into_iter().enumerate().map(|(k, (t, a))| f(&format!("_{}", k), t, a)).collect()) }

pub fn build(seed: u64) -> Cat {
    let mut b = B { cat: Cat { v: vec![] } };
    use P::*;

    // ------------------------------------------------------------ building blocks
    let pt = b.st("block", vec![f("a", p(U16), vec![]), f("b", p(U32), vec![])]);
    let pt_be = { let s = Schema::new("block", named(vec![f("a", p(U16), vec![]), u8f("b")])); b.with(s, |s| s.derive = Derive::Be) };
    let pt_le = { let s = Schema::new("block", named(vec![f("a", p(U16), vec![]), u8f("b")])); b.with(s, |s| s.derive = Derive::Le) };
    let toks = b.st("block", vec![f("a", Ty::Tok, vec![]), f("b", Ty::Tok, vec![])]);
    let checked = b.st("block", vec![f("len", p(U8), vec![At::Verify(lt(own(), c(20)))]), f("body", vec_(p(U8)), vec![At::Count(Ex::F(0))])]);
    let al4 = b.st("block", vec![u8f("a"), f("b", p(U16), vec![At::AlignBefore(c(4)), At::AlignAfter(c(4))])]);
    let skp = b.st("block", vec![u8f("a"), f("b", p(U16), vec![At::SkipBefore(c(3))]), u8f("c")]);
    let mini2 = b.st("block", vec![f("a", Ty::Mini, vec![]), f("b", p(U16), vec![])]);
    let color = b.add(Schema::new("fieldless", Body::Fieldless { repr: U16, variants: vec![("Red".into(), 1), ("Green".into(), 0x0200), ("Blue".into(), 0x1234)] }));
    let shape = b.en("enum", U8, vec![
        v("A", Pat::Lit(0), Shape::Tuple, vec![f("_0", p(U16), vec![])]),
        v("B", Pat::Lit(1), Shape::Named, vec![f("x", p(U8), vec![]), f("y", p(U32), vec![])]),
        vu("C", Pat::Lit(2), vec![]),
        v("D", Pat::Range(3, 9), Shape::Tuple, vec![f("_0", p(I32), vec![]), f("_1", Ty::Tok, vec![])]),
    ]);
    let borrow = b.st("lifetime", vec![u8f("n"), f("d", Ty::Bytes, vec![take(Ex::F(0))])]);
    let args1 = { let s = Schema::new("args", named(vec![f("a", vec_(p(U16)), vec![At::Count(Ex::A(0))]), f("b", opt(p(U8)), vec![At::Cond(gt(Ex::A(1), c(3)), false)])]));
        b.with(s, |s| s.args = vec![("n".into(), ArgTy::P(U8)), ("k".into(), ArgTy::P(I32))]) };
    let bytes3 = b.tu("block", vec![(p(U8), vec![]), (p(U16), vec![])]);

    // ------------------------------------------------------------ byte order regimes
    for (n, r) in REGS.iter().enumerate() {
        let r = *r;
        b.regime("endian", r, named(PRIMS.iter().enumerate().map(|(k, q)| f(&format!("f{}", k), p(*q), vec![])).collect()));
        b.regime("endian", r, named(vec![
            u8f("k"),
            f("o", opt(p(U16)), vec![At::Cond(ne(and(Ex::F(0), 1), c(0)), n % 2 == 0)]),
            f("cv", vec_(p(U32)), vec![At::Count(and(Ex::F(0), 3))]),
            f("lc", vec_(p(U16)), vec![At::LengthCount(U8, true)]),
            f("ar", arr(p(U16), 3), vec![]),
            f("pr", pair(p(U16), p(I32)), vec![]),
            f("po", opt(pair(p(U64), p(U8))), vec![At::Cond(lt(Ex::F(0), c(4)), false)]),
            f("cp", vec_(pair(p(U8), p(I16))), vec![At::Count(c(2))]),
            f("cc", opt(vec_(p(U16))), vec![At::Cond(gt(Ex::F(0), c(2)), false), At::Count(and(Ex::F(0), 3))]),
            f("ca", vec_(arr(p(U16), 2)), vec![At::Count(c(2))]),
        ]));
        b.regime("endian_open", r, named(vec![
            f("a", p(U16), vec![]),
            f("b", opt(p(U32)), vec![]),
            f("d", opt(pair(p(U16), p(U16))), vec![]),
            f("v", vec_(p(U16)), vec![]),
        ]));
        b.regime("endian", r, named(vec![
            f("m", p(U16), vec![madd(U16, 3, 1)]),
            f("ve", p(U32), vec![At::Verify(ne(and(own(), 0xff00), c(0)))]),
            f("co", p(I64), vec![At::Complete]),
            f("n1", Ty::Ref(pt), vec![]),
            f("n2", Ty::Ref(pt_be), vec![]),
            f("n3", Ty::Ref(pt_le), vec![]),
            f("fb", p(U32), vec![At::Be]),
            f("fl", p(U32), vec![At::Le]),
            f("fbm", p(U16), vec![At::Be, madd(U16, 1, 2)]),
            f("flc", vec_(p(U16)), vec![At::Le, At::Count(c(2))]),
            f("flp", pair(p(U16), p(U32)), vec![At::Le]),
            f("fbo", opt(p(U16)), vec![At::Cond(gt(Ex::F(0), c(5)), false), At::Be]),
            f("pp", p(U16), vec![At::Parse(UP::Prim(U16, n % 2 == 0))]),
            f("u24", p(U32), vec![At::Parse(UP::U24(n % 2 == 1))]),
            f("to", Ty::Tok, vec![]),
            f("lst", p(I16), vec![]),
            f("int", p(U16), vec![At::Into]),
        ]));
        // usable without alloc
        b.regime("endian_core", r, named(vec![
            f("ar", arr(p(U16), 4), vec![]),
            f("aa", arr(arr(p(U32), 2), 2), vec![]),
            f("z", p(U16), vec![At::Verify(ne(own(), c(0)))]),
            f("o", opt(p(U32)), vec![At::Cond(gt(md(Ex::F(2), 4), c(1)), false), At::Le]),
            f("m", p(U64), vec![madd(U64, -1, 3)]),
            f("pr", pair(p(U16), Ty::Mini), vec![]),
            f("n", Ty::Ref(mini2), vec![]),
            f("am", arr(Ty::Mini, 2), vec![]),
        ]));
        b.regime("endian_enum", r, Body::Enum { sel: U8, newtype: n % 2 == 1, variants: vec![
            v("A", Pat::Lit(1), Shape::Tuple, vec![f("_0", p(U32), vec![]), f("_1", Ty::Ref(pt), vec![])]),
            v("B", Pat::Lit(2), Shape::Named, vec![f("k", p(U16), vec![madd(U16, 7, 4)]), f("l", vec_(p(U16)), vec![At::Count(and(Ex::F(0), 3))]), f("m", p(I32), vec![At::Le])]),
            v("C", Pat::Range(3, 5), Shape::Named, vec![f("k", opt(p(U32)), vec![At::Cond(Pr::True, false)]), f("a", arr(p(U16), 2), vec![])]),
            vu("D", Pat::Lit(7), vec![]),
            v("E", Pat::Wild, Shape::Tuple, vec![f("_0", p(U64), vec![]), f("_1", p(U16), vec![At::Be])]),
        ] });
        if !matches!(r, Reg::SetEnv | Reg::SetArg) {
            b.regime("fieldless", r, Body::Fieldless { repr: U32, variants: vec![("A".into(), 1), ("B".into(), 0x01000000), ("C".into(), 0x01020304), ("D".into(), 0x04030201)] });
            b.regime("fieldless", r, Body::Fieldless { repr: I16, variants: vec![("A".into(), -2), ("B".into(), 0), ("C".into(), 0x0102), ("D".into(), 0x0201)] });
        }
        b.regime("endian", r, tuple(vec![(p(U16), vec![]), (p(I64), vec![At::SkipBefore(c(1))]), (Ty::Ref(pt), vec![At::AlignBefore(c(4))]), (Ty::Ref(toks), vec![])]));
        // generic
        let mut s = Schema::new("generic", named(vec![f("h", p(U16), vec![]), f("t", Ty::Param, vec![]), f("v", vec_(Ty::Param), vec![At::Count(and(Ex::F(0), 3))]), f("o", opt(Ty::Param), vec![At::Cond(gt(Ex::F(0), c(2)), false)])]));
        s.generic = Some(match n % 3 { 0 => p(U32), 1 => Ty::Ref(pt), _ => arr(p(U16), 2) });
        match r { Reg::DLe => s.derive = Derive::Le, Reg::DBe => s.derive = Derive::Be, Reg::SetEnv => s.top.push(At::SetEndian(EnEx::Env(5))), Reg::TLe => s.top.push(At::Le), _ => {} }
        if r != Reg::SetArg && r != Reg::TBe { b.add(s); }
    }
    // every wrapper around every other, over parsers that depend on the byte order
    {
        let regs = [Reg::Plain, Reg::SetEnv, Reg::DLe, Reg::Plain, Reg::SetArg, Reg::TBe];
        let mut all: Vec<String> = vec![];
        for a in "CIMVONL".chars() { all.push(a.to_string()); for d in "CIMVONL".chars() { all.push(format!("{}{}", a, d)); } }
        let mut g = Rng::new(4242);
        for _ in 0..60 { all.push((0..3).map(|_| *g.pick(&['C', 'I', 'M', 'V', 'O', 'N', 'L'])).collect()); }
        let inner = [p(U16), p(U32), Ty::Ref(pt), p(I64), arr(p(U16), 2), pair(p(U16), Ty::Tok), Ty::Tok];
        let mut built: Vec<(Ty, Vec<At>)> = vec![];
        for (k, spec) in all.iter().enumerate() {
            let mut t = if k % 3 == 0 || spec.contains('M') { [p(U16), p(U32), p(I64)][k / 3 % 3].clone() } else { inner[k % inner.len()].clone() };
            let mut attrs: Vec<At> = vec![];
            // what type inference cannot resolve: Into twice, Verify without a type of its own
            let mut ok = spec.matches('I').count() < 2;
            for (n, w) in spec.chars().enumerate().collect::<Vec<_>>().into_iter().rev() {
                let id = 500 + k as u32 * 4 + n as u32;
                // conditions inside repetitions and other conditions are evaluated when the parser is put together: not logged
                let inside = spec[..n].contains(|c| matches!(c, 'O' | 'N' | 'L'));
                let at = match w {
                    'C' => At::Complete,
                    'I' => At::Into,
                    'M' => match &t { Ty::P(q) => madd(*q, 1 + k as i64 % 5, id), _ => { ok = false; At::Complete } },
                    'V' if matches!(t, Ty::Arr(..)) => { ok = false; At::Complete }
                    'V' => At::Verify(match &t { Ty::P(_) => if k % 2 == 0 { ne(own(), c(0)) } else { lg(id, ne(and(own(), 0xff), c(1))) }, Ty::Vec(_) => ne(Ex::OwnLen, c(3)), _ => lg(id, ne(Ex::Env(k as u32 % 8), c(6))) }),
                    'O' => { t = opt(t); At::Cond(if k % 2 == 0 || inside { ne(and(Ex::F(0), 3), c(0)) } else { lg(id, gt(Ex::Env(k as u32 % 8), c(1))) }, k % 4 == 1) }
                    'N' => { t = vec_(t); At::Count(if k % 2 == 0 { and(Ex::F(0), 3) } else { c(2) }) }
                    _ => { let small = matches!(t, Ty::Opt(_) | Ty::Vec(_)); t = vec_(t); At::LengthCount(if k % 2 == 0 || small { U8 } else { U16 }, k % 3 == 0) }
                };
                attrs.insert(0, at);
            }
            if k % 7 == 3 { attrs.insert(0, if k % 2 == 0 { At::Le } else { At::Be }); }
            if ok { built.push((t, attrs)); }
        }
        for (n, ch) in built.chunks(6).enumerate() {
            let mut fs = vec![u8f("k")];
            for (m, (t, a)) in ch.iter().enumerate() { fs.push(f(&format!("w{}", m), t.clone(), a.clone())); }
            b.regime("wrap", regs[n % regs.len()], named(fs));
        }
        // without alloc
        for r in [Reg::Plain, Reg::DLe, Reg::SetEnv] {
            b.regime("wrap", r, named(vec![u8f("k"), f("a", p(U16), vec![At::Into]), f("b", opt(p(U32)), vec![At::Cond(gt(Ex::F(0), c(3)), true), At::Into]), f("d", p(U16), vec![At::Verify(ne(own(), c(0))), At::Complete]), f("e", opt(p(I16)), vec![At::Complete, At::Cond(gt(Ex::F(0), c(9)), false), madd(I16, 3, 490)]), f("g", p(U32), vec![madd(U32, 2, 491), At::Verify(ne(own(), c(7)))]), f("h", arr(p(U16), 2), vec![At::Into, At::Complete])]));
        }
    }
    for q in INTS {
        let vs: Vec<(String, i128)> = if q.signed() { vec![("N".into(), -1), ("Z".into(), 0), ("P".into(), 5), ("Q".into(), 0x41), ("M".into(), -128)] } else { vec![("Z".into(), 0), ("P".into(), 5), ("Q".into(), 0x41), ("M".into(), 0x80), ("L".into(), 255)] };
        b.add(Schema::new("fieldless", Body::Fieldless { repr: q, variants: vs }));
    }
    // every primitive through every flavour of every trait implementation
    for (k, q) in PRIMS.iter().enumerate() {
        let q = *q;
        let fl = [Fl::No, Fl::Be, Fl::Le];
        b.st("direct", vec![
            f("a", p(q), vec![oft(p(q), fl[k % 3])]),
            f("b", arr(p(q), 2), vec![oft(arr(p(q), 2), fl[(k + 1) % 3])]),
            f("d", pair(p(q), p(U16)), vec![oft(pair(p(q), p(U16)), fl[(k + 2) % 3])]),
            f("e", opt(p(q)), vec![oft(opt(p(q)), fl[k % 3])]),
            f("g", vec_(p(q)), vec![oft(vec_(p(q)), fl[(k + 1) % 3])]),
        ]);
    }
    for fl in [Fl::No, Fl::Be, Fl::Le] {
        b.st("direct", vec![f("a", arr(p(U32), 2), vec![oft(arr(p(U32), 2), fl)]), f("t", Ty::Tok, vec![At::Parse(UP::Tok(fl))]), f("r", Ty::Ref(pt), vec![oft(Ty::Ref(pt), fl)]), f("p", pair(p(U16), p(U32)), vec![oft(pair(p(U16), p(U32)), fl)]), f("o", opt(p(U16)), vec![oft(opt(p(U16)), fl)])]);
        b.st("direct", vec![u8f("h"), f("g", vec_(p(U16)), vec![oft(vec_(p(U16)), fl)])]);
        b.st("direct", vec![f("g", vec_(pair(p(U16), p(U8))), vec![oft(vec_(pair(p(U16), p(U8))), fl)])]);
        for q in [U8, U16, U32] {
            b.st("lendata", vec![u8f("h"), f("d", Ty::Len(q, q == U8), vec![oft(Ty::Len(q, q == U8), fl)]), u8f("t")]);
        }
        b.st("lendata", vec![f("d", Ty::Len(U64, true), vec![oft(Ty::Len(U64, true), fl)]), f("e", opt(Ty::Len(U16, false)), vec![oft(opt(Ty::Len(U16, false)), fl)]), f("v", vec_(Ty::Len(U8, true)), vec![oft(vec_(Ty::Len(U8, true)), fl)])]);
        b.st("string", vec![u8f("h"), f("s", Ty::Str, vec![oft(Ty::Str, fl)]), f("t", p(U16), vec![])]);
    }
    b.st("lendata", vec![f("a", pair(Ty::Len(U16, true), Ty::Len(U32, false)), vec![oft(pair(Ty::Len(U16, true), Ty::Len(U32, false)), Fl::Le)]), f("b", arr(Ty::Len(U8, false), 3), vec![oft(arr(Ty::Len(U8, false), 3), Fl::Be)])]);
    b.st("string", vec![f("s", Ty::Str, vec![]), f("v", vec_(Ty::Str), vec![At::Count(c(2))]), f("o", opt(Ty::Str), vec![At::Cond(gt(Ex::FLen(0), c(1)), false)]), f("k", Ty::Str, vec![At::Verify(lt(Ex::OwnLen, c(6)))]), f("z", p(U16), vec![])]);

    // ------------------------------------------------------------ byte order chosen at run time, per field
    let u16x3 = |a: Vec<At>, b_: Vec<At>, c_: Vec<At>| vec![f("a", p(U16), a), f("b", p(U16), b_), f("d", p(U32), c_)];
    b.st("setend", u16x3(vec![At::SetEndian(EnEx::Env(1))], vec![], vec![]));
    b.st("setend", u16x3(vec![], vec![At::SetEndian(EnEx::By(Ex::F(0)))], vec![]));
    b.st("setend", u16x3(vec![], vec![], vec![At::SetEndian(EnEx::Const(true))]));
    b.st("setend", u16x3(vec![At::SetEndian(EnEx::Env(1))], vec![At::SetEndian(EnEx::By(Ex::F(0)))], vec![]));
    b.st("setend", vec![f("a", p(U16), vec![]), f("b", p(U16), vec![At::SetEndian(EnEx::Env(2))]), f("x", p(U16), vec![At::Be]), f("y", p(U16), vec![At::Le]), f("z", p(U32), vec![]), f("w", Ty::Ref(pt), vec![]), f("v", vec_(p(U16)), vec![At::Count(c(2))]), f("q", p(U16), vec![At::SetEndian(EnEx::Const(false))]), f("r", p(U64), vec![])]);
    b.st("setend", vec![u8f("bom"), f("a", vec_(p(U16)), vec![At::SetEndian(EnEx::By(Ex::F(0))), At::LengthCount(U8, true)]), f("o", opt(p(U32)), vec![At::Cond(gt(Ex::F(0), c(1)), false)]), f("p", pair(p(U16), Ty::Tok), vec![]), f("r", arr(p(I16), 2), vec![]), f("m", p(U16), vec![madd(U16, 9, 1)]), f("vv", p(U32), vec![At::Verify(gt(own(), c(1)))]), f("cc", p(U64), vec![At::Complete]), f("e", opt(p(U16)), vec![]), f("g", vec_(p(U16)), vec![])]);
    b.with(Schema::new("setend", named(vec![f("a", p(U16), vec![]), f("b", p(U16), vec![At::SetEndian(EnEx::Arg(0))]), f("d", p(U32), vec![])])), |s| s.args = vec![("e".into(), ArgTy::Endian)]);
    b.with(Schema::new("setend", named(vec![f("a", p(U16), vec![]), f("b", Ty::Tok, vec![At::SetEndian(EnEx::Env(2))]), f("d", p(U32), vec![]), f("e", arr(p(U16), 2), vec![])])), |s| s.derive = Derive::Le);
    b.with(Schema::new("setend", named(vec![f("a", p(U16), vec![]), f("b", p(U16), vec![At::SetEndian(EnEx::Env(0))]), f("d", p(U32), vec![])])), |s| s.top.push(At::SetEndian(EnEx::Env(1))));
    b.with(Schema::new("setend", named(vec![f("a", p(U16), vec![pre(1)]), f("b", p(U16), vec![]), f("d", p(U32), vec![post(3)])])), |s| { s.top.push(pre(7)); s.top.push(At::SetEndian(EnEx::Env(1))); s.top.push(pre(8)); s.top.push(post(9)) });
    b.en("setend", U8, vec![
        v("A", Pat::Lit(0), Shape::Named, vec![f("a", p(U16), vec![]), f("b", p(U16), vec![At::SetEndian(EnEx::Env(1))]), f("d", p(U32), vec![])]),
        v("B", Pat::Lit(1), Shape::Named, vec![f("a", p(U16), vec![]), f("b", p(U32), vec![])]),
        v("C", Pat::Wild, Shape::Tuple, vec![f("_0", p(U16), vec![At::SetEndian(EnEx::By(Ex::Env(4)))]), f("_1", p(U64), vec![])]),
    ]);
    b.st("setend", vec![f("a", p(U8), vec![At::SetEndian(EnEx::Env(1)), At::AlignBefore(c(2))]), f("b", p(U16), vec![At::AlignBefore(c(4)), At::SkipAfter(c(1))]), f("d", p(U32), vec![At::AlignBefore(c(4))])]);
    b.tu("setend", vec![(p(U16), vec![]), (p(U16), vec![At::SetEndian(EnEx::Env(6))]), (p(U32), vec![]), (p(U32), vec![At::Be]), (p(I32), vec![])]);

    // ------------------------------------------------------------ positions
    for n in [1i64, 2, 3, 4, 5, 8, 16, 64] {
        b.st("pos", vec![u8f("a"), f("b", p(U16), vec![At::AlignBefore(c(n))]), f("d", p(U8), vec![At::AlignAfter(c(n))]), u8f("e")]);
    }
    b.st("pos", vec![f("n", p(U16), vec![]), f("d", vec_(p(U8)), vec![At::Count(and(Ex::F(0), 1023)), At::AlignAfter(c(4))]), f("t", p(U16), vec![])]);
    b.st("pos", vec![f("n", p(U32), vec![At::AlignAfter(c(512))]), f("t", p(U16), vec![At::AlignAfter(c(1000))]), u8f("z")]);
    b.st("pos", vec![u8f("n"), f("d", p(U16), vec![At::SkipBefore(Ex::F(0)), At::SkipAfter(add(Ex::F(0), c(1)))]), u8f("z")]);
    b.st("pos", vec![u8f("a"), f("d", p(U8), vec![At::SkipBefore(c(300)), At::SkipAfter(c(256))]), u8f("z")]);
    b.st("pos", vec![u8f("a"), f("d", p(U16), vec![At::SkipBefore(c(2)), At::AlignBefore(c(4)), At::SkipBefore(c(1))]), f("e", p(U16), vec![At::SkipAfter(c(1)), At::AlignAfter(c(8)), At::SkipAfter(c(2))]), u8f("z")]);
    b.st("pos", vec![u8f("a"), f("d", p(U16), vec![At::Move(c(3))]), f("e", p(U16), vec![At::Move(c(-4))]), f("g", p(U32), vec![At::Move(c(0))]), f("h", p(U8), vec![At::Move(c(2))])]);
    b.st("pos", vec![f("m", p(I8), vec![]), f("d", p(U16), vec![At::Move(Ex::F(0))]), u8f("z")]);
    b.st("pos", vec![f("m", p(U8), vec![]), f("d", p(U16), vec![At::MoveAbs(Ex::F(0))]), f("z", p(U8), vec![At::MoveAbs(c(12))])]);
    b.st("pos", vec![f("off", p(U16), vec![]), f("len", p(U8), vec![]), f("d", vec_(p(U8)), vec![At::MoveAbs(add(Ex::F(0), c(3))), At::Count(Ex::F(1))]), u8f("z")]);
    b.st("pos", vec![f("a", p(U32), vec![]), f("d", p(U16), vec![At::MoveAbs(c(2))]), f("e", p(U16), vec![At::MoveAbs(c(0))]), f("g", p(U64), vec![At::MoveAbs(c(300))])]);
    b.st("pos", vec![f("a", Ty::Ref(al4), vec![]), f("b", p(U8), vec![]), f("d", Ty::Ref(al4), vec![]), f("e", vec_(Ty::Ref(al4)), vec![At::Count(c(2))]), f("g", p(U8), vec![At::AlignAfter(c(8))])]);
    b.st("pos", vec![f("hd", p(U8), vec![]), f("b", Ty::Ref(skp), vec![At::AlignBefore(c(4))]), f("o", opt(Ty::Ref(al4)), vec![At::Cond(gt(Ex::F(0), c(3)), true), At::AlignAfter(c(4))]), f("e", arr(Ty::Ref(al4), 2), vec![At::SkipBefore(c(1))])]);
    b.st("pos_core", vec![f("hd", p(U8), vec![]), f("b", Ty::Ref(al4), vec![At::SkipBefore(c(1))]), f("w", p(U16), vec![At::Move(c(-3))]), f("x", p(U32), vec![At::MoveAbs(c(16))]), f("y", p(U8), vec![At::AlignBefore(c(16)), At::AlignAfter(c(16))])]);
    b.with(Schema::new("pos", named(vec![u8f("i"), f("orig_i", p(U16), vec![At::AlignBefore(c(4)), At::AlignAfter(c(4))]), f("b", p(U16), vec![At::Move(c(-2))]), f("d", p(U8), vec![At::MoveAbs(add(Ex::F(0), c(2))), At::ErrorIf(eq(Ex::F(0), c(7)))])])), |s| s.input_name = Some("inp".into()));
    // field names that also occur in generated code
    b.st("pos", vec![u8f("align"), f("offset", p(U8), vec![At::AlignBefore(add(Ex::F(0), c(1)))]), f("skip", p(U16), vec![At::SkipBefore(Ex::F(1)), At::AlignAfter(add(and(Ex::F(0), 7), c(1)))]), f("z", p(U8), vec![At::SkipBefore(and(Ex::F(2), 7)), At::AlignAfter(add(and(Ex::F(1), 3), c(1)))])]);
    b.st("pos", vec![u8f("start"), u8f("pos"), u8f("offset_u"), f("available", p(U8), vec![At::Move(Ex::F(0))]), f("new_offset", p(U8), vec![At::Move(sub(and(Ex::F(1), 3), c(2)))]), f("offset", p(U8), vec![At::MoveAbs(Ex::F(2))]), f("q", p(U8), vec![At::Move(and(Ex::F(3), 3)), At::SkipAfter(and(Ex::F(5), 3))])]);
    // fields named as the generated code names the input
    b.st("pos", vec![u8f("a"), f("orig_i", Ty::Bytes, vec![take(c(3))]), f("x", p(U16), vec![At::AlignBefore(c(8))]), f("y", p(U8), vec![At::AlignAfter(c(4))]), u8f("z")]);
    b.st("pos", vec![u8f("n"), f("orig_i", Ty::Bytes, vec![take(and(Ex::F(0), 7))]), f("x", p(U16), vec![At::Move(c(1))]), f("y", p(U8), vec![At::Move(c(-2))]), u8f("z")]);
    b.st("pos", vec![u8f("n"), f("orig_i", Ty::Bytes, vec![At::Tag(b"AB".to_vec())]), f("x", p(U16), vec![At::MoveAbs(add(and(Ex::F(0), 7), c(1)))]), u8f("z")]);
    b.with(Schema::new("pos", named(vec![f("orig_inp", Ty::Bytes, vec![take(c(5))]), f("x", p(U16), vec![At::SkipBefore(c(1)), At::AlignAfter(c(16))]), f("y", p(U16), vec![At::MoveAbs(c(3))]), u8f("z")])), |s| s.input_name = Some("inp".into()));
    b.en("pos", U8, vec![
        v("A", Pat::Lit(0), Shape::Named, vec![u8f("h"), f("orig_i", Ty::Bytes, vec![take(c(2))]), f("x", p(U16), vec![At::AlignBefore(c(8))]), f("y", p(U8), vec![At::MoveAbs(c(2))])]),
        v("B", Pat::Wild, Shape::Named, vec![f("x", p(U16), vec![At::AlignAfter(c(4))]), f("orig_i", Ty::Bytes, vec![take(c(1)), At::AlignAfter(c(8))])]),
    ]);
    b.st("pos", vec![u8f("offset"), u8f("align"), f("x", p(U16), vec![At::AlignBefore(add(and(Ex::F(0), 7), c(1))), At::AlignAfter(add(and(Ex::F(1), 7), c(1)))]), f("y", p(U8), vec![At::Move(Ex::F(0)), At::SkipAfter(Ex::F(1))]), f("z", p(U8), vec![At::MoveAbs(add(Ex::F(0), Ex::F(1)))])]);
    b.tu("pos", vec![(p(U8), vec![]), (p(U16), vec![At::AlignBefore(c(4))]), (p(U8), vec![At::SkipBefore(Ex::F(0))]), (p(U16), vec![At::MoveAbs(c(5)), At::AlignAfter(c(4))])]);
    b.en("pos", U8, vec![
        v("A", Pat::Lit(0), Shape::Named, vec![u8f("a"), f("b", p(U32), vec![At::AlignBefore(c(4)), At::SkipAfter(c(2))])]),
        v("B", Pat::Lit(1), Shape::Tuple, vec![f("_0", p(U8), vec![At::SkipBefore(c(2))]), f("_1", p(U16), vec![At::Move(c(-2))]), f("_2", p(U16), vec![At::MoveAbs(c(8))])]),
        vu("C", Pat::Lit(2), vec![At::SkipBefore(c(3)), At::AlignAfter(c(8))]),
        vu("D", Pat::Lit(3), vec![At::MoveAbs(c(4)), At::Parse(UP::Prim(U16, true)), At::SkipAfter(c(1))]),
        v("E", Pat::Wild, Shape::Tuple, vec![f("_0", Ty::Ref(al4), vec![At::SkipBefore(c(1))])]),
    ]);
    b.with(Schema::new("pos", named(vec![u8f("a"), f("b", p(U16), vec![])])), |s| { s.top = vec![At::Pre(1, HookK::Eat(2)), At::Post(2, HookK::Eat(3))] });
    b.with(Schema::new("pos", named(vec![u8f("a"), f("b", p(U16), vec![])])), |s| { s.top = vec![pre(3), At::Pre(1, HookK::Eat(2)), pre(2), At::Post(4, HookK::Try)] });
    b.with(Schema::new("pos", Body::Fieldless { repr: U8, variants: vec![("A".into(), 1), ("B".into(), 2)] }), |s| { s.top = vec![At::Pre(1, HookK::Eat(3)), At::Post(2, HookK::Eat(1)), At::Exact] });
    b.with(Schema::new("pos", Body::Struct(Shape::Unit, vec![])), |s| { s.top = vec![pre(1), At::Pre(3, HookK::Eat(3)), post(2), At::Post(4, HookK::Eat(1))] });
    b.st("pos", vec![f("w", Ty::Ref(al4), vec![At::SkipBefore(c(1)), At::Parse(UP::Window(c(16), bx(Ty::Ref(al4)), Fl::Le))]), f("x", p(U16), vec![At::AlignBefore(c(2))])]);
    // large offsets
    b.st("pos_large", vec![f("n", p(U32), vec![]), f("d", p(U16), vec![At::SkipBefore(and(Ex::F(0), 0x3ffff)), At::AlignBefore(c(8))]), f("e", p(U16), vec![At::AlignAfter(c(256))]), u8f("z")]);
    b.st("pos_large", vec![f("d", p(U8), vec![At::SkipBefore(c(70000)), At::AlignAfter(c(4096))]), f("e", p(U16), vec![At::Move(c(-66000))]), f("g", p(U16), vec![At::MoveAbs(c(69999))])]);
    b.st("pos_large", vec![f("n", p(U16), vec![]), f("d", vec_(p(U8)), vec![At::Count(Ex::F(0))]), f("m", p(U16), vec![At::AlignBefore(c(2))]), f("v", vec_(p(U16)), vec![At::Count(and(Ex::F(2), 0xfff))]), f("b", p(U8), vec![])]);

    // ------------------------------------------------------------ checks
    b.st("check", vec![f("t", Ty::Bytes, vec![At::Tag(b"NOM".to_vec())]), f("v", p(U8), vec![At::Verify(le(own(), c(5)))]), f("w", p(U16), vec![At::ErrorIf(eq(Ex::F(1), c(3)))]), f("x", p(I16), vec![At::Verify(gt(own(), c(-5)))])]);
    b.st("check", vec![f("t", Ty::Bytes, vec![At::Tag(b"\x00".to_vec())]), f("u", Ty::Bytes, vec![At::Tag((0..40u8).collect())]), u8f("z")]);
    b.st("check", vec![f("a", p(U32), vec![At::Verify(eq(and(own(), 0xffff), c(0x0102)))]), f("b", opt(p(U16)), vec![At::Cond(gt(Ex::F(0), c(100)), false), At::Verify(ne(own(), c(0)))]), f("d", vec_(p(U8)), vec![At::Verify(le(Ex::OwnLen, c(4))), At::LengthCount(U8, true)]), f("e", p(U8), vec![madd(U8, 1, 1), At::Verify(lt(own(), c(100)))]), f("g", p(U16), vec![At::Verify(lt(own(), c(0x100))), madd(U16, 2, 2)])]);
    b.st("check", vec![u8f("a"), f("b", p(U8), vec![At::ErrorIf(gt(Ex::F(0), c(9))), At::SkipBefore(c(1)), At::ErrorIf(eq(Ex::F(0), c(4)))]), f("d", p(U8), vec![At::SkipAfter(c(1))])]);
    b.with(Schema::new("check", named(vec![u8f("a"), f("b", p(U16), vec![])])), |s| s.top = vec![At::Exact]);
    b.with(Schema::new("check", named(vec![u8f("a"), f("b", p(U16), vec![])])), |s| s.top = vec![pre(1), postv(3, c(5)), At::Exact, post(4)]);
    b.st("check", vec![f("n", p(U8), vec![At::Verify(lt(own(), c(9)))]), f("w", vec_(Ty::Ref(checked)), vec![At::Parse(UP::Window(Ex::F(0), bx(vec_(Ty::Ref(checked))), Fl::Be))]), f("x", p(U8), vec![])]);
    b.st("check", vec![f("t", opt(Ty::Bytes), vec![At::Cond(eq(Ex::Env(1), c(1)), false), At::Tag(b"ab".to_vec())]), f("u", vec_(Ty::Bytes), vec![At::Count(c(2)), At::Tag(b"xy".to_vec())]), f("k", Ty::Bytes, vec![take(c(3))]), u8f("z")]);
    b.st("check", vec![f("e", Ty::Ref(shape), vec![At::Parse(UP::Call { id: shape, fl: Fl::Be, sel: Some(Ex::C(1)), args: vec![] })]), f("k", p(U8), vec![]), f("g", Ty::Ref(shape), vec![At::Parse(UP::Call { id: shape, fl: Fl::Le, sel: Some(Ex::F(1)), args: vec![] })]), f("q", Ty::Ref(color), vec![]), u8f("z")]);
    b.st("check", vec![f("k", p(U8), vec![]), f("o", opt(Ty::Ref(color)), vec![]), f("cs", vec_(Ty::Ref(color)), vec![At::Count(c(2))]), f("v", p(U64), vec![At::Verify(Pr::Or(bx(lt(own(), c(77))), bx(gt(own(), c(1 << 40)))))])]);
    b.st("check", vec![f("a", p(F32), vec![]), f("b", p(F64), vec![At::SkipBefore(c(1))]), f("d", p(U128), vec![At::Verify(ne(md(own(), 3), c(1)))])]);
    b.tu("check", vec![(p(U8), vec![]), (Ty::Bytes, vec![At::Tag(b"#!".to_vec())]), (p(U16), vec![At::ErrorIf(Pr::Not(bx(lt(Ex::F(0), c(3)))))]), (p(U8), vec![])]);
    b.st("check", vec![f("a", p(U8), vec![]), f("d", p(U8), vec![At::Value(add(Ex::F(0), c(1)))]), f("e", p(U32), vec![At::Ignore(false)]), f("g", opt(p(U8)), vec![At::Ignore(true)]), f("h", vec_(p(U8)), vec![At::Ignore(false)]), f("ph", Ty::Phantom, vec![]), f("s", Ty::Str, vec![At::Ignore(true)]), f("ar", arr(p(U16), 3), vec![At::Ignore(false)]), f("t", Ty::Tok, vec![At::Ignore(true)]), f("q", p(U16), vec![At::SkipBefore(Ex::F(1)), At::Value(c(-3))]), u8f("z")]);
    b.st("check", vec![f("a", p(U64), vec![At::Into, At::Parse(UP::FxPrim(U32, true))]), f("b", Ty::W(U16), vec![At::Into, At::Parse(UP::FxPrim(U16, false))]), f("d", Ty::W(U32), vec![At::Map(MapF::Wrap(U32, 1)), At::Parse(UP::Prim(U32, true))]), f("e", p(I64), vec![At::Map(MapF::Cast(U16, I64, 2)), At::Parse(UP::Prim(U16, false))]), f("g", vec_(p(U64)), vec![At::Count(c(2)), At::Into, At::Parse(UP::FxPrim(U16, true))]), f("h", opt(p(U32)), vec![At::Cond(gt(Ex::F(0), c(2)), false), At::Into, At::Parse(UP::FxPrim(U8, true))])]);
    b.st("check", vec![f("a", p(U16), vec![At::Parse(UP::Strict)]), f("b", opt(p(U16)), vec![At::Parse(UP::OptPrim(U16, true))]), f("d", p(U32), vec![At::Complete, At::Parse(UP::Prim(U32, false))]), f("e", p(U16), vec![At::Parse(UP::PrimComplete(U16, true))])]);
    b.st("check", vec![u8f("a"), f("r", Ty::Bytes, vec![At::Parse(UP::Rest)])]);
    b.st("check_open", vec![u8f("a"), f("b", p(U16), vec![At::ErrorIf(lt(Ex::InLen, c(5)))]), f("d", opt(p(U16)), vec![At::Cond(gt(Ex::InLen, c(3)), false)]), f("e", Ty::Bytes, vec![take(Ex::InLen)])]);

    // ------------------------------------------------------------ selectors
    let pay = |k: usize| -> Vec<Field> { match k % 4 { 0 => vec![f("_0", p(U8), vec![])], 1 => vec![f("_0", p(U16), vec![])], 2 => vec![f("_0", p(U8), vec![]), f("_1", p(U32), vec![])], _ => vec![f("_0", Ty::Ref(bytes3), vec![])] } };
    for pos in 0..4usize {
        // overlapping patterns, catch-all declared at position `pos`
        let mut vs = vec![
            v("R", Pat::Range(10, 100), Shape::Tuple, pay(0)),
            v("L", Pat::Lit(50), Shape::Tuple, pay(1)),
            v("S", Pat::Range(40, 200), Shape::Tuple, pay(2)),
            v("T", Pat::Lit(3), Shape::Tuple, pay(3)),
            vu("U", Pat::Range(0, 150), vec![]),
        ];
        vs.insert(pos + (pos / 3), v("W", Pat::Wild, Shape::Tuple, pay(pos + 1)));
        b.en("enum", U8, vs);
    }
    b.en("enum", U8, vec![vu("A", Pat::Lit(1), vec![]), vu("B", Pat::Lit(2), vec![]), vu("C", Pat::Or(vec![4, 5, 200]), vec![])]);
    // a binding takes everything from where it stands; what is declared behind it is never reached
    for pos in 0..10usize {
        let mut vs = vec![v("A", Pat::Lit(3), Shape::Tuple, pay(0)), v("L", Pat::Range(5, 50), Shape::Tuple, pay(1)), v("T", Pat::Or(vec![1, 60]), Shape::Named, vec![f("a", p(U16), vec![])]), vu("U", Pat::From(200), vec![])];
        vs.insert(pos % 5, if pos < 5 { v("W", Pat::Bind, Shape::Tuple, pay(pos + 2)) } else { v("W", Pat::Bind, Shape::Named, vec![f("b", p(U32), vec![])]) });
        if pos % 3 == 1 { vs.insert((pos * 2) % 6, v("E", Pat::Wild, Shape::Tuple, pay(pos))); }
        if pos == 6 || pos == 2 { b.with(Schema::new("enum", Body::Enum { sel: U8, newtype: true, variants: vs }), |_| {}); } else { b.en("enum", [U8, U16, I16, U8][pos % 4], vs); }
    }
    b.en("enum", U16, vec![v("A", Pat::Or(vec![1, 256, 3]), Shape::Tuple, pay(1)), v("B", Pat::Range(256, 511), Shape::Tuple, pay(0)), vg(v("G", Pat::Bind, Shape::Tuple, pay(2)), gt(own(), c(60000))), vg(v("H", Pat::Bind, Shape::Tuple, pay(3)), eq(md(own(), 2), c(0))), vu("Z", Pat::Lit(77), vec![])]);
    b.en("enum", I16, vec![v("N", Pat::Range(-100, -1), Shape::Tuple, pay(1)), v("M", Pat::Lit(-200), Shape::Tuple, pay(0)), vu("Z", Pat::Lit(0), vec![]), vg(v("G", Pat::Bind, Shape::Tuple, pay(2)), lt(own(), c(-1000)))]);
    b.en("enum", U32, vec![v("A", Pat::Lit(0x01020304), Shape::Tuple, pay(1)), v("B", Pat::Range(70000, 80000), Shape::Tuple, pay(2)), v("D", Pat::Wild, Shape::Tuple, vec![]), v("C", Pat::Lit(75000), Shape::Tuple, pay(0))]);
    b.en("enum", U64, vec![v("A", Pat::Lit(1 << 40), Shape::Tuple, pay(1)), vg(v("G", Pat::Bind, Shape::Tuple, pay(2)), gt(own(), c(1 << 33))), vu("B", Pat::Lit(9), vec![])]);
    b.with(Schema::new("enum", Body::Enum { sel: U16, newtype: true, variants: vec![v("A", Pat::Lit(1), Shape::Tuple, pay(1)), vu("W", Pat::Wild, vec![]), v("B", Pat::Range(4, 9), Shape::Tuple, pay(2)), v("C", Pat::Or(vec![3, 12]), Shape::Tuple, pay(0)), vg(v("D", Pat::Bind, Shape::Tuple, pay(3)), gt(own(), c(1000)))] }), |_| {});
    b.with(Schema::new("enum", Body::Enum { sel: I32, newtype: true, variants: vec![v("A", Pat::Lit(-1), Shape::Tuple, pay(1)), v("B", Pat::Range(-9, -4), Shape::Tuple, pay(2)), vg(v("D", Pat::Bind, Shape::Tuple, pay(3)), eq(Ex::A(0), own()))] }), |s| s.args = vec![("want".into(), ArgTy::P(I32))]);
    b.with(Schema::new("enum", Body::Enum { sel: U8, newtype: false, variants: vec![v("A", Pat::Lit(1), Shape::Named, vec![f("x", vec_(p(U16)), vec![At::Count(Ex::A(0))])]), vg(v("B", Pat::Bind, Shape::Tuple, pay(1)), lt(own(), Ex::A(0))), v("C", Pat::Range(2, 20), Shape::Named, vec![f("y", opt(p(U8)), vec![At::Cond(gt(Ex::A(0), c(3)), false)]), u8f("z")])] }), |s| s.args = vec![("m".into(), ArgTy::P(U8))]);
    {
        let mut vs = vec![];
        for k in 0..16i64 {
            let fields = match k % 5 { 0 => vec![f("a", p(U8), vec![])], 1 => vec![f("a", p(U32), vec![]), f("b", p(U16), vec![At::Le])], 2 => vec![f("a", Ty::Tok, vec![])], 3 => vec![u8f("a"), f("b", vec_(p(U8)), vec![At::Count(Ex::F(0))])], _ => vec![f("a", opt(p(U8)), vec![])] };
            vs.push(v(&format!("V{}", k), Pat::Lit(k * 3), Shape::Named, fields));
        }
        vs.insert(7, v("Dflt", Pat::Wild, Shape::Named, vec![u8f("a")]));
        b.en("enum", U8, vs);
    }
    b.with(Schema::new("enum", Body::Enum { sel: U8, newtype: false, variants: vec![vu("A", Pat::Lit(1), vec![pre(1), At::Parse(UP::Prim(U16, true)), post(2)]), vu("B", Pat::Lit(2), vec![At::SkipBefore(c(2)), At::ErrorIf(eq(Ex::Env(1), c(3)))]), v("C", Pat::Lit(3), Shape::Named, vec![f("a", p(U8), vec![prev(3, c(1)), At::Verify(lg(5, lt(own(), c(200))))])]), v("D", Pat::Wild, Shape::Tuple, vec![f("_0", Ty::Tok, vec![post(4)])])] }), |s| s.top = vec![pre(10), At::Pre(14, HookK::Eat(1)), pre(11), post(12), At::Post(15, HookK::Eat(1)), post(13)]);
    b.with(Schema::new("enum", Body::Enum { sel: U8, newtype: false, variants: vec![v("A", Pat::Lit(1), Shape::Tuple, pay(2)), v("B", Pat::Lit(2), Shape::Tuple, pay(1))] }), |s| s.top = vec![At::Exact]);
    // code of the whole type that consumes, around an enumeration that does not know every selector
    for k in 0..8usize {
        let vs = vec![v("A", Pat::Lit(1), Shape::Tuple, pay(k)), v("B", Pat::Or(vec![2, 7]), Shape::Tuple, pay(k + 1)), vg(v("D", Pat::Bind, Shape::Tuple, pay(2)), gt(own(), c(100)))];
        b.with(Schema::new("enum", Body::Enum { sel: [U8, U16][k % 2], newtype: k == 5, variants: vs }), |s| {
            s.top = match k % 4 { 0 => vec![At::Pre(10, HookK::Eat(1))], 1 => vec![pre(10), At::Pre(11, HookK::Eat(2)), At::Post(12, HookK::Eat(1))], 2 => vec![At::Pre(10, HookK::Try), post(11)], _ => vec![At::Pre(10, HookK::Eat(3)), pre(11), At::Exact] };
            match k { 4 => s.derive = Derive::Le, 6 => s.complete = true, _ => {} }
        });
    }
    let msg = b.en("enum", U8, vec![
        v("Hello", Pat::Lit(1), Shape::Named, vec![f("ver", p(U16), vec![]), f("name", vec_(p(U8)), vec![At::LengthCount(U8, true)])]),
        v("Data", Pat::Lit(2), Shape::Named, vec![f("seq", p(U32), vec![]), f("n", p(U8), vec![]), f("d", vec_(p(U16)), vec![At::Count(Ex::F(1))])]),
        v("Col", Pat::Lit(3), Shape::Tuple, vec![f("_0", Ty::Ref(color), vec![])]),
        vu("Bye", Pat::Or(vec![9, 10]), vec![]),
    ]);
    b.st("enum_use", vec![f("kind", p(U8), vec![]), f("body", Ty::Ref(msg), vec![At::Parse(UP::Call { id: msg, fl: Fl::Be, sel: Some(Ex::F(0)), args: vec![] })]), f("crc", p(U16), vec![])]);
    b.st("enum_use", vec![f("n", p(U8), vec![]), f("kind", p(U8), vec![]), f("v", vec_(Ty::Ref(shape)), vec![At::Count(and(Ex::F(0), 3)), At::Parse(UP::Call { id: shape, fl: Fl::Le, sel: Some(Ex::F(1)), args: vec![] })]), f("o", opt(Ty::Ref(msg)), vec![At::Cond(gt(Ex::F(0), c(2)), false), At::Parse(UP::Call { id: msg, fl: Fl::Be, sel: Some(Ex::F(1)), args: vec![] })]), f("k", Ty::Ref(shape), vec![At::Complete, At::Parse(UP::Call { id: shape, fl: Fl::Be, sel: Some(Ex::F(1)), args: vec![] })])]);
    b.st("enum_use", vec![f("a", Ty::Ref(color), vec![]), f("v", vec_(Ty::Ref(color)), vec![]) ]);
    b.st("args_use", vec![f("n", p(U8), vec![]), f("a", Ty::Ref(args1), vec![At::Parse(UP::Call { id: args1, fl: Fl::Le, sel: None, args: vec![and(Ex::F(0), 7), Ex::F(0)] })]), u8f("z")]);

    // ------------------------------------------------------------ user code
    b.st("hooks", vec![f("a", p(U8), vec![pre(1), post(2)]), f("b", p(U16), vec![prev(3, Ex::F(0)), At::SkipBefore(c(1)), pre(4), postv(5, Ex::F(1)), At::AlignAfter(c(4)), post(6)]), f("d", Ty::Tok, vec![pre(7)]), f("e", opt(p(U8)), vec![At::Cond(lg(8, gt(Ex::F(0), c(2))), false), post(9)]), f("g", p(U8), vec![At::Verify(lg(10, lt(own(), c(250)))), postv(11, Ex::F(4))])]);
    b.with(Schema::new("hooks", named(vec![f("a", Ty::Tok, vec![pre(1), post(2)]), f("b", vec_(Ty::Tok), vec![At::Count(Ex::Env(1)), pre(3)]), f("d", p(U16), vec![madd(U16, 4, 4), post(5)])])), |s| s.top = vec![pre(20), post(21), pre(22), post(23)]);
    b.with(Schema::new("hooks", named(vec![f("a", Ty::Mini, vec![pre(1), At::Pre(2, HookK::Try), post(3)]), f("b", p(U16), vec![At::Pre(4, HookK::Eat(2)), pre(5), At::Post(6, HookK::Eat(1)), At::Post(7, HookK::Try)])])), |s| s.top = vec![At::Pre(20, HookK::Try), pre(22), At::Post(24, HookK::Try), post(23)]);
    b.with(Schema::new("hooks", named(vec![f("a", Ty::Mini, vec![pre(1), post(3), At::SkipBefore(c(1)), pre(2)]), f("b", arr(Ty::Mini, 3), vec![At::Complete, pre(4)]), f("d", opt(Ty::Mini), vec![At::Cond(lg(6, gt(Ex::Env(1), c(1))), false)]), f("e", p(U16), vec![At::Verify(lg(7, lt(own(), c(60000)))), post(5)]), f("g", pair(Ty::Mini, Ty::Mini), vec![postv(8, Ex::F(3))])])), |s| s.top = vec![pre(20), post(21)]);
    b.st("hooks", vec![f("n", p(U8), vec![post(1)]), f("v", vec_(p(U16)), vec![At::Count(and(Ex::F(0), 7)), madd(U16, 1, 2), pre(3)]), f("w", vec_(p(U8)), vec![At::LengthCount(U8, true), At::Verify(lg(4, ne(own(), c(255)))), post(5)]), f("k", vec_(Ty::Tok), vec![pre(6), post(7)])]);
    b.st("hooks", vec![f("a", p(U8), vec![At::ErrorIf(lg(1, eq(Ex::Env(1), c(2)))), At::ErrorIf(lg(2, eq(Ex::Env(2), c(3))))]), f("b", p(U8), vec![At::SkipBefore(Ex::Env(3)), At::AlignAfter(add(Ex::Env(4), c(1))), At::MoveAbs(add(Ex::Env(5), c(4))), At::Move(Ex::Env(6))]), f("d", Ty::Bytes, vec![take(Ex::Env(7))]), f("e", p(U32), vec![At::Value(Ex::Env(2))])]);
    b.st("hooks", vec![f("a", opt(Ty::Tok), vec![pre(1), post(2)]), f("b", vec_(Ty::Ref(toks)), vec![pre(3), post(4)]), f("d", opt(Ty::Tok), vec![post(5)])]);
    b.tu("hooks", vec![(p(U8), vec![pre(1), postv(2, Ex::F(0))]), (opt(Ty::Tok), vec![At::Cond(lg(3, gt(Ex::F(0), c(1))), false), post(4)]), (p(U16), vec![madd(U16, 1, 5), postv(6, Ex::F(2))])]);
    b.with(Schema::new("hooks", Body::Fieldless { repr: U16, variants: vec![("A".into(), 1), ("B".into(), 0x0203)] }), |s| s.top = vec![pre(1), At::Pre(5, HookK::Eat(1)), pre(2), post(3), At::Post(6, HookK::Try), post(4)]);
    b.with(Schema::new("hooks", named(vec![f("x", Ty::Mini, vec![pre(1)]), f("i", p(U8), vec![postv(2, Ex::F(1)), prev(3, c(4))])])), |s| { s.input_name = Some("data".into()); s.top = vec![pre(5), At::SetEndian(EnEx::Env(1)), pre(6), post(7)] });
    let hk = b.st("hooks", vec![f("a", p(U8), vec![pre(31), post(32)]), f("t", Ty::Tok, vec![pre(33)])]);
    b.st("hooks", vec![f("o", Ty::Ref(hk), vec![pre(1), post(2)]), f("v", vec_(Ty::Ref(hk)), vec![At::Count(c(2)), post(3)]), f("ar", arr(Ty::Ref(hk), 2), vec![pre(4)]), f("c", opt(Ty::Ref(hk)), vec![At::Cond(lg(5, gt(Ex::Env(1), c(2))), false)]), f("p", opt(Ty::Ref(hk)), vec![post(6)])]);

    // ------------------------------------------------------------ hostile lengths
    for q in [U8, U16, U32, U64, I32, U128] {
        b.st("hostile", vec![f("n", p(q), vec![]), f("d", vec_(p(U16)), vec![At::Count(Ex::F(0))]), u8f("z")]);
        b.st("hostile", vec![f("n", p(q), vec![]), f("d", Ty::Bytes, vec![take(Ex::F(0))]), u8f("z")]);
        b.st("hostile", vec![f("n", p(q), vec![]), f("a", p(U8), vec![At::SkipBefore(Ex::F(0))]), f("z", p(U8), vec![At::SkipAfter(Ex::F(0))])]);
        b.st("hostile", vec![f("n", p(q), vec![]), f("a", p(U8), vec![At::Move(Ex::F(0))]), f("z", p(U8), vec![])]);
        b.st("hostile", vec![f("n", p(q), vec![]), f("a", p(U8), vec![At::MoveAbs(Ex::F(0))]), f("z", p(U8), vec![])]);
        b.st("hostile", vec![f("n", p(q), vec![]), f("a", p(U8), vec![At::AlignBefore(Ex::F(0))]), f("z", p(U8), vec![At::AlignAfter(Ex::F(0))])]);
    }
    for q in [U8, U16, U32, U64] {
        for be in [true, false] {
            b.st("hostile", vec![u8f("h"), f("d", vec_(p(U32)), vec![At::LengthCount(q, be)]), u8f("z")]);
        }
        b.st("hostile", vec![f("v", vec_(Ty::Ref(pt)), vec![At::LengthCount(q, true)]), f("w", vec_(Ty::Tok), vec![At::LengthCount(q, false)])]);
        b.st("hostile", vec![f("v", vec_(Ty::Len(q, true)), vec![oft(vec_(Ty::Len(q, true)), Fl::Le)])]);
    }
    // the inner sequence is never empty where the outer count is hostile
    b.st("hostile", vec![f("n", p(U64), vec![]), f("m", p(U64), vec![]), f("d", vec_(vec_(p(U8))), vec![At::Count(Ex::F(0)), At::Count(add(and(Ex::F(1), 0xff), c(1)))])]);
    b.st("hostile", vec![f("n", p(U64), vec![]), f("m", p(U64), vec![]), f("d", vec_(vec_(p(U8))), vec![At::Count(and(Ex::F(0), 7)), At::Count(Ex::F(1))])]);
    b.st("hostile", vec![f("n", p(U64), vec![]), f("d", opt(vec_(p(U64))), vec![At::Cond(gt(Ex::F(0), c(0)), false), At::Count(Ex::F(0))]), f("s", Ty::Str, vec![])]);
    b.st("hostile", vec![f("n", p(U32), vec![]), f("m", p(U32), vec![]), f("d", Ty::Bytes, vec![take(mul(Ex::F(0), Ex::F(1)))]), f("e", p(U8), vec![At::Move(sub(Ex::F(0), Ex::F(1)))]), f("g", p(U8), vec![At::MoveAbs(mul(Ex::F(0), Ex::F(1)))])]);
    b.st("hostile", vec![f("s", vec_(Ty::Str), vec![]), ]);
    b.st("hostile", vec![f("v", vec_(Ty::Ref(checked)), vec![]), u8f("z")]);
    b.st("hostile", vec![f("n", p(U32), vec![]), f("v", vec_(Ty::Ref(borrow)), vec![At::Count(Ex::F(0))]), f("w", opt(Ty::Ref(borrow)), vec![])]);
    b.st("hostile", vec![f("n", p(U32), vec![]), f("d", vec_(p(U16)), vec![At::Count(Ex::F(0)), At::Complete]), u8f("z")]);
    b.with(Schema::new("hostile", named(vec![f("n", p(U64), vec![]), f("d", vec_(arr(p(U8), 8)), vec![At::Count(Ex::F(0))])])), |s| s.derive = Derive::Le);
    b.with(Schema::new("hostile", named(vec![f("d", vec_(p(U32)), vec![At::Count(Ex::A(0))]), f("e", Ty::Bytes, vec![take(Ex::A(1))])])), |s| s.args = vec![("n".into(), ArgTy::P(U64)), ("m".into(), ArgTy::P(U32))]);

    // ------------------------------------------------------------ nested parsers that fail
    b.st("fault", vec![f("a", Ty::Tok, vec![]), f("b", opt(Ty::Tok), vec![]), f("d", Ty::Tok, vec![]), f("e", vec_(Ty::Tok), vec![])]);
    b.st("fault", vec![f("a", arr(Ty::Tok, 3), vec![]), f("b", pair(Ty::Tok, Ty::Tok), vec![]), f("d", vec_(Ty::Tok), vec![At::Count(c(3))]), f("e", vec_(Ty::Tok), vec![At::LengthCount(U8, true)]), f("g", opt(Ty::Tok), vec![At::Cond(Pr::True, false)]), f("h", Ty::Tok, vec![At::Complete])]);
    b.st("fault", vec![f("a", opt(opt(Ty::Tok)), vec![]), f("b", vec_(pair(Ty::Tok, Ty::Mini)), vec![])]);
    b.st("fault", vec![f("a", opt(vec_(Ty::Tok)), vec![At::Cond(Pr::True, false), At::Count(c(2))]), f("b", opt(Ty::Ref(toks)), vec![]), f("d", arr(Ty::Ref(toks), 2), vec![]), f("e", vec_(arr(Ty::Tok, 2)), vec![])]);
    b.st("fault", vec![f("a", Ty::Tok, vec![At::Complete]), f("b", arr(Ty::Tok, 2), vec![At::Complete]), f("d", vec_(Ty::Tok), vec![At::Complete, At::Count(c(2))]), f("e", vec_(Ty::Tok), vec![At::Count(c(2)), At::Complete]), f("g", opt(Ty::Tok), vec![At::Cond(Pr::True, false), At::Complete]), f("h", p(U16), vec![At::Verify(ne(own(), c(7))), At::Parse(UP::Strict)])]);
    b.st("fault", vec![f("a", Ty::Tok, vec![At::Parse(UP::Tok(Fl::Le))]), f("b", p(U16), vec![madd(U16, 1, 1), At::Parse(UP::Strict)]), f("d", opt(p(U16)), vec![At::Cond(gt(Ex::F(1), c(5)), false), At::Parse(UP::Strict)]), f("e", vec_(p(U16)), vec![At::LengthCount(U8, true), At::Parse(UP::Strict)]), f("g", p(U16), vec![At::Complete, At::Parse(UP::Strict)])]);
    b.st("fault_core", vec![f("a", arr(Ty::Mini, 4), vec![]), f("b", opt(Ty::Mini), vec![]), f("d", pair(Ty::Mini, p(U16)), vec![]), f("e", arr(opt(Ty::Mini), 2), vec![]), f("g", Ty::Mini, vec![At::Complete]), f("h", opt(Ty::Mini), vec![At::Cond(Pr::True, false)])]);
    // the implementations for containers called directly, in each of their three forms
    for fl in [Fl::No, Fl::Be, Fl::Le] {
        let d = |t: Ty| (t.clone(), vec![oft(t, fl)]);
        b.tu("fault", vec![(Ty::Tok, vec![At::Parse(UP::Tok(fl))]), d(arr(Ty::Tok, 2)), d(pair(Ty::Tok, Ty::Tok)), d(opt(Ty::Tok)), d(vec_(Ty::Tok))]);
        b.tu("fault", vec![d(vec_(arr(Ty::Tok, 2)))]);
        b.tu("fault", vec![(p(U8), vec![]), d(opt(opt(Ty::Tok))), d(arr(opt(Ty::Tok), 2)), d(opt(pair(Ty::Tok, Ty::Mini))), d(vec_(pair(Ty::Tok, p(U16))))]);
        b.tu("fault", vec![d(arr(Ty::Ref(toks), 2)), d(pair(Ty::Ref(toks), opt(Ty::Ref(toks)))), d(vec_(Ty::Ref(toks)))]);
        b.tu("fault", vec![(p(U8), vec![]), (opt(vec_(Ty::Tok)), vec![At::Cond(gt(Ex::F(0), c(2)), false), oft(vec_(Ty::Tok), fl)]), (arr(Ty::Tok, 3), vec![At::Complete, oft(arr(Ty::Tok, 3), fl)]), (vec_(Ty::Tok), vec![At::Complete, oft(vec_(Ty::Tok), fl)])]);
        b.tu("fault_core", vec![d(arr(Ty::Mini, 2)), d(pair(Ty::Mini, Ty::Mini)), d(opt(Ty::Mini)), d(arr(opt(Ty::Mini), 2))]);
    }
    b.en("fault", U8, vec![v("A", Pat::Lit(0), Shape::Tuple, vec![f("_0", Ty::Tok, vec![]), f("_1", vec_(Ty::Tok), vec![At::Count(c(2))]), f("_2", Ty::Tok, vec![])]), v("B", Pat::Lit(1), Shape::Named, vec![f("a", opt(Ty::Tok), vec![]), f("b", vec_(Ty::Tok), vec![])]), vu("C", Pat::Lit(2), vec![At::Parse(UP::Tok(Fl::Be)), post(1)]), v("D", Pat::Wild, Shape::Tuple, vec![f("_0", arr(Ty::Tok, 2), vec![])])]);
    b.with(Schema::new("fault", named(vec![f("a", Ty::Tok, vec![]), f("t", Ty::Param, vec![]), f("o", opt(Ty::Param), vec![]), f("v", vec_(Ty::Param), vec![])])), |s| s.generic = Some(Ty::Tok));
    b.with(Schema::new("fault", named(vec![f("a", Ty::Tok, vec![]), f("t", Ty::Param, vec![At::Complete]), f("v", vec_(Ty::Param), vec![At::Count(c(2))])])), |s| s.generic = Some(Ty::Ref(toks)));
    b.st("fault", vec![f("a", Ty::Tok, vec![]), f("w", vec_(Ty::Tok), vec![At::Parse(UP::Window(c(5), bx(vec_(Ty::Tok)), Fl::Be))]), f("k", opt(Ty::Tok), vec![At::Parse(UP::Window(c(3), bx(opt(Ty::Tok)), Fl::Be))]), f("z", Ty::Tok, vec![])]);
    b.st("fault", vec![f("a", vec_(Ty::Tok), vec![At::Count(c(20))]), f("b", arr(Ty::Tok, 20), vec![]), f("z", Ty::Tok, vec![At::ErrorIf(eq(Ex::FLen(0), c(1)))])]);
    b.with(Schema::new("fault", named(vec![f("a", Ty::Tok, vec![]), f("b", Ty::Tok, vec![At::Post(1, HookK::Try)]), f("d", Ty::Tok, vec![At::Pre(2, HookK::Try)])])), |s| s.top = vec![At::Pre(3, HookK::Try), At::Post(4, HookK::Try), At::Exact]);
    b.st("fault", vec![f("a", Ty::Tok, vec![]), f("b", p(U16), vec![At::Verify(lt(own(), c(0x4000)))]), f("d", vec_(Ty::Tok), vec![At::Count(c(2))]), f("e", p(U8), vec![At::Verify(lt(own(), c(128)))]), f("g", Ty::Tok, vec![])]);

    // ------------------------------------------------------------ logs: unbounded sequences
    let elems: Vec<Ty> = vec![p(U8), p(U32), Ty::Ref(pt), Ty::Ref(checked), Ty::Tok, Ty::Ref(toks), pair(p(U16), Ty::Ref(checked)), arr(p(U16), 2), Ty::Str, Ty::Ref(color), Ty::Ref(al4), Ty::Ref(borrow)];
    for (k, e) in elems.iter().enumerate() {
        b.st("log", vec![f("v", vec_(e.clone()), vec![])]);
        if k % 2 == 0 { b.st("log", vec![f("h", p(U16), vec![]), f("v", vec_(e.clone()), vec![]), f("o", opt(p(U8)), vec![])]); }
        else { b.st("log", vec![f("h", p(U8), vec![]), f("o", opt(e.clone()), vec![]), f("v", vec_(e.clone()), vec![])]); }
        if k % 3 == 0 { b.st("log", vec![f("v", opt(e.clone()), vec![]), f("w", opt(e.clone()), vec![]), f("t", opt(p(U16)), vec![])]); }
        if k % 3 == 1 { b.st("log", vec![f("n", p(U8), vec![]), f("v", vec_(e.clone()), vec![At::Count(and(Ex::F(0), 15))]), f("a", arr(e.clone(), 3), vec![])]); }
    }
    let rec = b.st("log_rec", vec![f("mg", Ty::Bytes, vec![At::Tag(b"R1".to_vec())]), f("n", p(U8), vec![At::Verify(lt(own(), c(40)))]), f("d", vec_(p(U8)), vec![At::Count(Ex::F(1))]), f("e", Ty::Bytes, vec![At::Tag(b"\x0d\x0a".to_vec())])]);
    b.st("log", vec![f("v", vec_(Ty::Ref(rec)), vec![])]);
    b.with(Schema::new("log", named(vec![f("h", p(U32), vec![]), f("v", vec_(Ty::Ref(rec)), vec![])])), |s| s.derive = Derive::Le);
    b.st("log", vec![f("v", vec_(Ty::Phantom), vec![At::Ignore(false)]), f("w", vec_(opt(p(U8))), vec![]) ]);
    b.with(Schema::new("log", tuple(vec![(vec_(p(U16)), vec![])])), |s| s.derive = Derive::Le);
    b.with(Schema::new("log", tuple(vec![(vec_(Ty::Ref(msg)), vec![At::Parse(UP::Window(c(24), bx(vec_(Ty::Ref(checked))), Fl::Be))]), ])), |s| { if let Body::Struct(_, fs) = &mut s.body { fs[0].ty = vec_(Ty::Ref(checked)); } });
    b.st("log", vec![f("v", vec_(vec_(p(U8))), vec![At::Count(c(2))]), ]);
    b.st("log", vec![f("v", vec_(arr(Ty::Ref(checked), 2)), vec![]), ]);
    b.en("log", U8, vec![v("A", Pat::Lit(0), Shape::Tuple, vec![f("_0", vec_(Ty::Ref(checked)), vec![])]), v("B", Pat::Wild, Shape::Named, vec![u8f("h"), f("o", opt(Ty::Ref(pt)), vec![]), f("v", vec_(p(U16)), vec![])])]);
    // large counts and arrays
    b.st("large", vec![f("n", p(U16), vec![]), f("d", vec_(p(U8)), vec![At::Count(Ex::F(0))]), f("a", arr(p(U8), 40), vec![]), f("t", p(U16), vec![])]);
    b.st("large", vec![f("d", vec_(p(U16)), vec![At::LengthCount(U16, false)]), f("a", arr(p(U16), 33), vec![]), f("s", Ty::Str, vec![])]);
    b.st("large", vec![f("d", Ty::Len(U16, true), vec![oft(Ty::Len(U16, true), Fl::Be)]), f("e", Ty::Bytes, vec![take(c(600))]), f("g", Ty::Bytes, vec![At::Tag(vec![b'x'; 300])]), f("a", arr(arr(p(U8), 20), 20), vec![])]);
    b.st("large_core", vec![f("a", arr(p(U8), 32), vec![]), f("b", arr(p(U64), 17), vec![]), f("d", Ty::Bytes, vec![take(c(1024))]), f("e", arr(p(I8), 200), vec![])]);
    b.st("log_large", vec![f("v", vec_(p(U8)), vec![])]);
    b.st("log_large", vec![f("v", vec_(Ty::Ref(bytes3)), vec![])]);
    b.st("large", (0..24).map(|k| f(&format!("m{}", k), p(INTS[k % 8]), if k % 5 == 4 { vec![At::AlignBefore(c(4))] } else { vec![] })).collect());

    // ------------------------------------------------------------ lifetimes, generics, names
    b.st("lifetime", vec![f("a", Ty::Ref(borrow), vec![]), f("v", vec_(Ty::Ref(borrow)), vec![At::Count(c(2))]), f("o", opt(Ty::Ref(borrow)), vec![At::Cond(Pr::True, false)]), f("t", Ty::Bytes, vec![At::Tag(b"\xff\xfe".to_vec())]), f("k", vec_(Ty::Bytes), vec![At::Count(c(2)), take(c(2))]), f("l", opt(Ty::Bytes), vec![At::Cond(gt(Ex::FLen(3), c(1)), false), take(Ex::FLen(3))]), u8f("z")]);
    b.st("lifetime", vec![f("n", p(U8), vec![]), f("w", Ty::Bytes, vec![take(mul(and(Ex::F(0), 7), c(3)))]), f("x", p(U8), vec![At::SkipBefore(Ex::FLen(1))]), f("y", vec_(p(U8)), vec![At::Count(Ex::FLen(1))]), f("zz", Ty::Str, vec![]), f("q", vec_(p(U8)), vec![At::Count(Ex::FLen(4))])]);
    // generic enumerations
    for (k, t) in [p(U16), Ty::Ref(pt), Ty::Nat, arr(p(I32), 2), Ty::Tok, opt(p(U64)), Ty::Ref(checked)].into_iter().enumerate() {
        let w = |s: &mut Schema| { s.generic = Some(t.clone()); match k % 4 { 1 => s.derive = Derive::Le, 2 => s.top.push(At::Le), 3 => s.top.push(At::SetEndian(EnEx::Env(3))), _ => {} } };
        b.with(Schema::new("generic", Body::Enum { sel: U8, newtype: k % 2 == 1, variants: vec![
            v("A", Pat::Lit(0), Shape::Tuple, vec![f("_0", Ty::Param, vec![])]),
            v("B", Pat::Range(1, 3), Shape::Named, vec![f("n", p(U16), vec![]), f("v", vec_(Ty::Param), vec![At::Count(and(Ex::F(0), 3))]), f("o", opt(Ty::Param), vec![At::Cond(gt(Ex::F(0), c(2)), false), At::Le])]),
            vu("C", Pat::Lit(7), vec![]),
            v("D", Pat::Wild, Shape::Tuple, vec![f("_0", p(U32), vec![At::AlignAfter(c(4))]), f("_1", arr(Ty::Param, 2), vec![]), f("_2", opt(Ty::Param), vec![At::Be])])] }), &w);
        b.with(Schema::new("generic", tuple(vec![(p(U8), vec![]), (Ty::Param, vec![At::AlignBefore(c(4))]), (opt(Ty::Param), vec![])])), &w);
    }
    b.with(Schema::new("generic", named(vec![f("n", p(U8), vec![]), f("d", Ty::Bytes, vec![take(Ex::F(0))]), f("t", Ty::Param, vec![])])), |s| s.generic = Some(p(U32)));
    b.st("names", vec![f("r#type", p(U8), vec![]), f("r#match", p(U16), vec![At::Verify(gt(own(), c(1)))]), f("r#fn", vec_(p(U8)), vec![At::Count(Ex::F(0))]), f("r#struct", p(U8), vec![At::SkipBefore(and(Ex::F(0), 3)), postv(1, Ex::F(3))])]);
    b.st("names", vec![f("input", p(U8), vec![]), f("rem", p(U16), vec![At::SkipBefore(c(1))]), f("res", vec_(p(U8)), vec![At::Count(and(Ex::F(0), 7))]), f("e", p(U8), vec![]), f("n", p(U8), vec![At::AlignAfter(add(and(Ex::F(3), 3), c(1)))]), f("take", p(U8), vec![]), f("x", opt(p(U8)), vec![At::Cond(gt(Ex::F(5), c(3)), false)])]);
    b.st("names", vec![f("struct_def", p(U8), vec![]), f("enum_def", p(U16), vec![]), f("sel", p(U8), vec![At::SkipBefore(Ex::F(0))]), f("len", p(U8), vec![]), f("data", vec_(p(U8)), vec![At::Count(and(Ex::F(3), 7))])]);

    // ------------------------------------------------------------ tracing
    let dbg = |s: &mut Schema| s.debug = true;
    let t1 = b.with(Schema::new("trace", named(vec![u8f("kind"), f("body", Ty::Tok, vec![]), f("tail", p(U16), vec![])])), dbg);
    let t2 = b.st("trace", vec![f("a", Ty::Mini, vec![At::Debug]), f("b", p(U32), vec![]), f("c", Ty::Tok, vec![At::Debug])]);
    let t3 = b.with(Schema::new("trace", named(vec![f("magic", Ty::Bytes, vec![At::Tag(b"ND".to_vec())]), f("r#type", p(I16), vec![At::Le]), f("p", Ty::Pair(bx(Ty::Mini), bx(p(U8))), vec![])])), dbg);
    b.with(Schema::new("trace", named(vec![f("one", Ty::Ref(t1), vec![]), f("opt", opt(Ty::Ref(t1)), vec![]), f("many", vec_(Ty::Ref(t2)), vec![])])), dbg);
    b.st("trace", vec![u8f("n"), f("l", vec_(Ty::Ref(t1)), vec![At::Count(and(Ex::F(0), 3))]), f("o", opt(Ty::Ref(t2)), vec![At::Cond(gt(Ex::F(0), c(3)), false)]), f("w", opt(Ty::Ref(t3)), vec![]), f("z", Ty::Mini, vec![At::Debug])]);
    b.st("trace", vec![f("v", vec_(Ty::Ref(t1)), vec![At::Debug]), f("x", p(U8), vec![At::Debug])]);
    b.st("trace", vec![f("v", vec_(Ty::Ref(t3)), vec![At::LengthCount(U8, false)]), f("q", opt(opt(Ty::Ref(t1))), vec![At::Debug])]);
    b.with(Schema::new("trace", named(vec![f("h", p(U32), vec![At::AlignAfter(c(8))]), f("k", p(U16), vec![At::SkipBefore(c(2))]), f("s", Ty::Str, vec![]), f("q", opt(p(U32)), vec![])])), dbg);
    b.with(Schema::new("trace", named(vec![f("a", vec_(Ty::Pair(bx(Ty::Tok), bx(p(U8)))), vec![]), f("b", opt(Ty::Pair(bx(Ty::Ref(t2)), bx(Ty::Ref(t2)))), vec![]), f("c", opt(opt(Ty::Mini)), vec![])])), dbg);
    b.with(Schema::new("trace", Body::Enum { sel: U8, newtype: false, variants: vec![
        v("A", Pat::Lit(0), Shape::Named, vec![f("x", Ty::Tok, vec![]), f("y", p(U32), vec![])]),
        v("B", Pat::Range(1, 3), Shape::Named, vec![f("y", opt(Ty::Ref(t1)), vec![]), f("x", Ty::Mini, vec![])]),
        vu("C", Pat::Wild, vec![]),
    ] }), dbg);
    b.en("trace", U8, vec![
        v("A", Pat::Lit(0), Shape::Named, vec![f("x", Ty::Tok, vec![]), f("y", p(U32), vec![At::Debug])]),
        v("B", Pat::Wild, Shape::Named, vec![f("x", Ty::Ref(t1), vec![At::Debug]), f("y", Ty::Ref(t3), vec![])]),
    ]);
    b.with(Schema::new("trace", named(vec![u8f("n"), f("a", vec_(p(U16)), vec![At::Count(and(Ex::F(0), 7))]), f("b", opt(p(U32)), vec![At::Cond(gt(Ex::F(0), c(2)), false)]), f("d", Ty::Bytes, vec![take(and(Ex::F(0), 3))]), f("e", p(U16), vec![At::Verify(ne(own(), c(9)))]), f("g", p(U16), vec![At::Into]), f("h", vec_(Ty::Ref(t2)), vec![At::LengthCount(U8, false)]), f("k", p(U32), vec![madd(U32, 1, 497)]), f("v", p(U32), vec![At::Value(Ex::F(0))]), f("z", p(U8), vec![At::Complete])])), dbg);
    b.st("trace", vec![u8f("n"), f("a", vec_(p(U16)), vec![At::Debug, At::Count(and(Ex::F(0), 7))]), f("b", opt(p(U32)), vec![At::Cond(gt(Ex::F(0), c(2)), false), At::Debug]), f("d", Ty::Bytes, vec![At::Debug, take(and(Ex::F(0), 3))]), f("e", vec_(p(U16)), vec![At::Count(c(2)), At::Debug, At::Complete]), f("h", vec_(Ty::Ref(t2)), vec![At::Debug, At::LengthCount(U8, false)]), f("k", vec_(p(U8)), vec![At::LengthCount(U8, false), At::Debug]), f("z", opt(Ty::Ref(t3)), vec![At::Debug, At::Cond(gt(Ex::F(0), c(3)), false), At::Complete])]);
    b.with(Schema::new("trace", named(vec![u8f("n"), f("a", p(U16), vec![At::Verify(gt(own(), c(3)))]), f("b", opt(Ty::Ref(t1)), vec![At::Cond(gt(Ex::F(0), c(2)), false), At::Complete]), f("d", vec_(Ty::Ref(t1)), vec![])])), |s| { s.debug = true; s.complete = true });
    b.tu("trace", vec![(Ty::Ref(t1), vec![]), (opt(Ty::Ref(t2)), vec![]), (vec_(Ty::Ref(t3)), vec![])]);

    // ------------------------------------------------------------ sizes at the edges, other ways to write the same
    b.st("wide", vec![u8f("n"), f("z", arr(p(U32), 0), vec![]), f("e", Ty::Bytes, vec![At::Tag(vec![])]), f("t", Ty::Bytes, vec![take(c(0))]), f("o", opt(arr(p(U16), 0)), vec![At::Cond(gt(Ex::F(0), c(3)), false)]), f("y", arr(arr(p(U8), 3), 0), vec![]), f("w", p(U16), vec![])]);
    b.st("wide", vec![f("z", arr(Ty::Tok, 0), vec![]), f("v", vec_(arr(p(U8), 0)), vec![At::Count(c(3))]), f("a", arr(arr(p(U8), 0), 2), vec![]), f("one", arr(p(U64), 1), vec![]), f("k", arr(Ty::Tok, 1), vec![]), u8f("x")]);
    b.st("wide", vec![f("t", Ty::Bytes, vec![At::Tag(vec![0; 5])]), f("u", Ty::Bytes, vec![At::Tag(b"\x00A\xffA\x00".to_vec())]), f("q", Ty::Bytes, vec![At::Tag((0..100).map(|x| (x * 37 + 5) as u8).collect())]), u8f("x")]);
    for n in [12usize, 17, 31, 33, 40, 63, 64, 65] {
        b.st("wide", (0..n).map(|k| f(&format!("w{}", k), p(if k % 3 == 0 { U8 } else if k % 7 == 1 { U32 } else { U16 }), match k % 9 { 4 => vec![At::SkipBefore(and(Ex::F(k - 1), 3))], 6 => vec![At::AlignAfter(c(4))], 8 => vec![if k % 2 == 0 { At::Be } else { At::Le }], _ => vec![] })).collect());
    }
    for n in [12usize, 16, 20, 33] {
        b.tu("wide", (0..n).map(|k| (p(if k % 2 == 0 { U8 } else { U16 }), match k % 8 { 3 => vec![At::AlignBefore(c(4))], 5 => vec![At::Le], 7 => vec![At::SkipAfter(c(1))], _ => vec![] })).collect());
    }
    b.st("wide", (0..20).map(|k| if k == 0 { u8f("n") } else { f(&format!("c{}", k), opt(if k % 2 == 0 { p(U16) } else { Ty::Tok }), vec![At::Cond(gt(and(Ex::F(0), 31), c(k)), k % 3 == 0)]) }).collect());
    b.st("wide", (0..10).map(|k| if k == 0 { u8f("n") } else { f(&format!("v{}", k), vec_(p(U16)), vec![At::Count(and(Ex::F(0), 7)), ]) }).collect());
    for n in [20i64, 33, 60] {
        let mut vs: Vec<Variant> = (0..n).map(|k| match k % 6 {
            0 => v(&format!("V{}", k), Pat::Lit(k), Shape::Tuple, vec![f("_0", p(U16), vec![])]),
            1 => v(&format!("V{}", k), Pat::Lit(k), Shape::Named, vec![u8f("a"), f("b", p(U32), vec![])]),
            2 => vu(&format!("V{}", k), Pat::Lit(k), vec![]),
            3 => v(&format!("V{}", k), Pat::Range(k, k + 1), Shape::Tuple, vec![f("_0", p(U8), vec![]), f("_1", p(U8), vec![])]),
            4 => v(&format!("V{}", k), Pat::Lit(k), Shape::Named, vec![f("t", Ty::Tok, vec![])]),
            _ => vg(v(&format!("V{}", k), Pat::Bind, Shape::Tuple, vec![f("_0", p(U32), vec![])]), eq(own(), c(k))),
        }).collect();
        if n != 20 { vs.insert(n as usize / 2, v("Other", Pat::Wild, Shape::Tuple, vec![f("_0", p(U64), vec![])])); }
        b.en("wide_enum", if n == 33 { U16 } else { U8 }, vs);
    }
    for q in [U8, U16, I16, U32] {
        b.en("wide_enum", q, vec![
            v("Lo", Pat::To(5), Shape::Tuple, vec![f("_0", p(U8), vec![])]),
            vg(v("Odd", Pat::Range(10, 100), Shape::Tuple, vec![f("_0", p(U16), vec![])]), eq(md(own(), 2), c(1))),
            vg(v("Three", Pat::Or(vec![20, 30, 40, 200]), Shape::Named, vec![u8f("a"), u8f("b")]), ne(own(), c(30))),
            v("Mid", Pat::Range(10, 60), Shape::Tuple, vec![f("_0", p(U32), vec![])]),
            vu("Gap", Pat::Lit(61), vec![]),
            v("Other", Pat::Wild, Shape::Tuple, vec![f("_0", p(U8), vec![]), f("_1", p(U8), vec![])]),
            v("Hi", Pat::From(150), Shape::Tuple, vec![f("_0", p(U16), vec![]), f("_1", p(U16), vec![])]),
        ]);
    }
    // a guarded wildcard is a pattern like any other
    b.with(Schema::new("wide_enum", Body::Enum { sel: U8, newtype: false, variants: vec![
        v("A", Pat::Lit(1), Shape::Tuple, vec![f("_0", p(U8), vec![])]),
        vg(v("B", Pat::Wild, Shape::Tuple, vec![f("_0", p(U16), vec![])]), gt(Ex::A(0), c(5))),
        v("C", Pat::Range(2, 9), Shape::Tuple, vec![f("_0", p(U32), vec![])]),
        vg(v("D", Pat::Wild, Shape::Named, vec![u8f("x"), u8f("y")]), eq(md(Ex::A(0), 2), c(0))),
    ] }), |s| s.args = vec![("lim".into(), ArgTy::P(U8))]);
    b.with(Schema::new("wide_enum", Body::Enum { sel: U8, newtype: false, variants: vec![
        vg(v("B", Pat::Wild, Shape::Tuple, vec![f("_0", p(U16), vec![])]), gt(Ex::A(0), c(5))),
        v("Rest", Pat::Wild, Shape::Tuple, vec![f("_0", p(U64), vec![])]),
        v("A", Pat::Lit(1), Shape::Tuple, vec![f("_0", p(U8), vec![])]),
    ] }), |s| s.args = vec![("lim".into(), ArgTy::P(U8))]);
    b.with(Schema::new("wide_enum", Body::Enum { sel: U8, newtype: true, variants: vec![
        vg(v("B", Pat::Lit(7), Shape::Tuple, vec![f("_0", p(U16), vec![])]), gt(Ex::A(0), own())),
        v("Lo", Pat::To(7), Shape::Tuple, vec![f("_0", p(U64), vec![])]),
        vg(v("A", Pat::From(8), Shape::Tuple, vec![f("_0", p(U8), vec![])]), ne(own(), c(9))),
    ] }), |s| s.args = vec![("lim".into(), ArgTy::P(U8))]);
    // fieldless: many, extreme and implied discriminants
    let named_all = |l: Vec<i128>| l.into_iter().enumerate().map(|(k, x)| (format!("K{}", k), x)).collect::<Vec<_>>();
    for (k, (q, l)) in [
        (U8, (0..256).collect::<Vec<i128>>()), (I8, (-128..128).collect()), (U16, (0..260).map(|x| x * 251).collect()), (U8, (0..40).map(|x| x * 6).collect()),
        (I16, vec![-32768, -257, -256, -1, 0, 1, 255, 256, 32767]), (U16, vec![0, 1, 255, 256, 257, 65535]), (U32, vec![0, 1, 0xffff, 0x10000, 0x01020304, 0xffff_ffff]),
        (I32, vec![-2147483648, -65536, -1, 0, 1, 65536, 2147483647]), (U64, vec![0, 1, 0xffff_ffff, 0x1_0000_0000, 0x0102030405060708, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0xffff_ffff_ffff_ffff]),
        (I64, vec![-0x8000_0000_0000_0000, -0x1_0000_0000, -1, 0, 1, 0x7fff_ffff_ffff_ffff]), (U8, vec![5, 6, 7, 9, 10, 200, 201, 255]), (I8, vec![-3, -2, -1, 0, 1, 100, 101]), (U16, vec![1]), (U8, vec![0]), (U64, vec![1 << 63]),
        (U16, vec![0xff00, 0xff01, 0x00ff, 0x01ff]), (U32, vec![9, 8, 7, 6, 5]), (I64, vec![-5, 3, 4, 5, -4]), (U8, (200..256).collect()),
        (U128, vec![0, 5, 0x8000_0000_0000_0000, 0xffff_ffff_ffff_ffff, 1 << 64, (1 << 64) + 5, 1 << 126, i128::MAX]), (I128, vec![i128::MIN, -(1 << 64), -(1 << 63), -1, 0, 7, 0x8000_0000_0000_0000, 1 << 64, (1 << 64) + 7, i128::MAX]),
    ].into_iter().enumerate() {
        for style in [1u64 << 9 | 1, 1 << 10 | 1, 3 << 9 | 1] {
            if l.len() > 100 && style != 1 << 9 | 1 { continue; }
            let mut s = Schema::new("fieldless", Body::Fieldless { repr: q, variants: named_all(l.clone()) });
            s.style = style;
            match k % 4 { 1 => s.derive = Derive::Le, 2 => s.top = vec![pre(1), post(2)], _ => {} }
            b.add(s);
        }
    }
    // a deep chain of declarations, each with its own statements and byte order
    let mut last = b.st("chain", vec![u8f("a"), f("b", p(U16), vec![At::AlignBefore(c(2))])]);
    for k in 0..12i64 {
        let fs = vec![u8f("h"), f("in_", Ty::Ref(last), match k % 4 { 0 => vec![At::SkipBefore(c(1))], 1 => vec![At::AlignBefore(c(4)), At::AlignAfter(c(4))], 2 => vec![At::SkipAfter(and(Ex::F(0), 3))], _ => vec![] }), f("t", p(U16), vec![])];
        last = b.with(Schema::new("chain", if k % 3 == 1 { tuple(vec![(p(U16), vec![]), (Ty::Ref(last), vec![At::AlignAfter(c(2))]), (p(U8), vec![])]) } else { named(fs) }), |s| match k % 5 { 1 => s.derive = Derive::Be, 3 => s.derive = Derive::Le, 4 => s.top = vec![At::Pre(1, HookK::Eat(1)), post(2)], _ => {} });
        if k % 4 == 3 { b.st("chain", vec![u8f("n"), f("v", vec_(Ty::Ref(last)), vec![At::Count(and(Ex::F(0), 3))]), f("o", opt(Ty::Ref(last)), vec![At::Cond(lt(Ex::F(0), c(5)), false)]), u8f("z")]); }
    }
    // nested parsers with nothing but `parse`
    for r in [Reg::Plain, Reg::DBe, Reg::DLe, Reg::TBe, Reg::TLe, Reg::SetEnv] {
        b.regime("only", r, named(vec![u8f("n"), f("a", Ty::Only, vec![]), f("b", Ty::Only, vec![At::Le]), f("d", arr(Ty::Only, 2), vec![]), f("e", opt(Ty::Only), vec![At::Cond(gt(Ex::F(0), c(3)), false)]), f("g", pair(Ty::Only, Ty::Only), vec![At::Be]), f("h", vec_(Ty::Only), vec![At::Count(and(Ex::F(0), 3))]), f("k", opt(Ty::Only), vec![]), f("t", p(U16), vec![])]));
        b.regime("only", r, tuple(vec![(Ty::Only, vec![]), (vec_(pair(Ty::Only, p(U8))), vec![At::LengthCount(U8, false)]), (vec_(Ty::Only), vec![])]));
    }
    // nested parsers whose plain entry point reads something else again
    for r in [Reg::Plain, Reg::DBe, Reg::DLe, Reg::TBe, Reg::TLe, Reg::SetEnv] {
        let n = || Ty::Nat;
        b.regime("endian", r, named(vec![u8f("z"), f("a", n(), vec![]), f("b", n(), vec![At::Le]), f("g", n(), vec![At::Be]), f("d", arr(n(), 2), vec![]), f("e", opt(n()), vec![At::Cond(gt(Ex::F(0), c(3)), false)]), f("h", pair(n(), n()), vec![]), f("y", opt(n()), vec![]), f("j", opt(pair(n(), opt(n()))), vec![]), f("t", p(U16), vec![])]));
        b.regime("endian", r, named(vec![u8f("n"), f("h", vec_(n()), vec![At::Count(and(Ex::F(0), 3))]), f("l", vec_(n()), vec![At::LengthCount(U8, true)]), f("c", n(), vec![At::Complete]), f("p", pair(n(), p(U16)), vec![At::Complete]), f("k", vec_(pair(n(), opt(n()))), vec![])]));
        b.regime("endian", r, named(vec![f("o", arr(opt(n()), 2), vec![At::Le]), f("q", arr(arr(n(), 2), 2), vec![At::Be]), f("v", opt(vec_(n())), vec![At::Cond(Pr::True, false), At::Count(c(2))]), f("w", vec_(opt(n())), vec![At::Count(c(2))]), f("s", opt(n()), vec![At::Be]), f("x", opt(n()), vec![At::Le])]));
        b.regime("endian", r, tuple(vec![(n(), vec![]), (opt(n()), vec![]), (arr(n(), 3), vec![]), (vec_(n()), vec![])]));
        b.regime("endian_core", r, tuple(vec![(n(), vec![]), (opt(n()), vec![]), (arr(n(), 3), vec![]), (pair(n(), opt(n())), vec![]), (n(), vec![At::Complete]), (opt(n()), vec![At::Cond(Pr::True, false)])]));
    }
    b.with(Schema::new("generic", named(vec![f("t", Ty::Param, vec![]), f("o", opt(Ty::Param), vec![At::Le]), f("p", opt(Ty::Param), vec![At::Be]), f("v", vec_(Ty::Param), vec![])])), |s| s.generic = Some(Ty::Nat));
    b.en("endian", U8, vec![v("A", Pat::Lit(0), Shape::Tuple, vec![f("_0", Ty::Nat, vec![]), f("_1", opt(Ty::Nat), vec![])]), v("B", Pat::Lit(1), Shape::Named, vec![f("a", arr(Ty::Nat, 2), vec![]), f("b", opt(Ty::Nat), vec![At::Le])]), v("C", Pat::Wild, Shape::Tuple, vec![f("_0", Ty::Nat, vec![])])]);
    for fl in [Fl::Be, Fl::Le] {
        let d = |t: Ty| (t.clone(), vec![oft(t, fl)]);
        b.tu("direct", vec![d(Ty::Nat), d(arr(Ty::Nat, 2)), d(pair(Ty::Nat, Ty::Nat)), d(opt(Ty::Nat)), d(vec_(Ty::Nat))]);
        b.tu("direct", vec![d(opt(opt(Ty::Nat))), d(arr(opt(Ty::Nat), 2)), d(pair(opt(Ty::Nat), p(U16))), d(vec_(pair(Ty::Nat, opt(Ty::Nat))))]);
    }
    for fl in [Fl::No, Fl::Be, Fl::Le] {
        let d = |t: Ty| (t.clone(), vec![oft(t, fl)]);
        b.tu("fault", vec![d(Ty::Only), d(arr(Ty::Only, 2)), d(pair(Ty::Only, Ty::Only)), d(opt(Ty::Only)), d(vec_(Ty::Only))]);
    }
    // lengths and counts read by nested parsers
    for (k, l) in [Ty::Tok, Ty::Mini, Ty::Nat, Ty::Only].into_iter().enumerate() {
        for fl in [Fl::No, Fl::Be, Fl::Le] {
            if l == Ty::Nat && fl == Fl::No { continue; }
            let d = |t: Ty| (t.clone(), vec![oft(t, fl)]);
            let w = || Ty::LenOf(bx(l.clone()));
            b.tu("fault", vec![d(w()), (p(U16), vec![]), d(pair(w(), Ty::Mini))]);
            b.tu("lendata", vec![d(opt(w())), d(arr(w(), 2)), d(vec_(w()))]);
            b.st("fault", vec![u8f("h"), f("d", w(), vec![At::Complete, oft(w(), fl)]), f("e", opt(w()), vec![At::Cond(gt(Ex::F(0), c(2)), false), oft(w(), fl)]), f("g", vec_(w()), vec![At::Count(and(Ex::F(0), 3)), oft(w(), fl)]), f("t", p(U16), vec![])]);
            let n = |x: Vec<At>| { let mut v = vec![At::LengthBy(l.clone(), fl)]; v.extend(x); v };
            let r = [Reg::Plain, Reg::DLe, Reg::TLe, Reg::SetEnv][(k + fl as usize) % 4];
            b.regime("fault", r, named(vec![f("a", vec_(p(U16)), n(vec![])), f("b", vec_(Ty::Tok), n(vec![At::Be])), f("t", p(U32), vec![])]));
            b.regime("fault", r, named(vec![u8f("h"), f("a", opt(vec_(Ty::Mini)), { let mut v = vec![At::Cond(gt(Ex::F(0), c(2)), false)]; v.extend(n(vec![])); v }), f("b", vec_(p(U8)), { let mut v = vec![At::Complete]; v.extend(n(vec![])); v }), f("d", vec_(p(U16)), n(vec![At::Le, At::Complete])), f("e", vec_(p(U8)), { let mut v = vec![At::Verify(lt(Ex::OwnLen, c(9)))]; v.extend(n(vec![])); v }), f("t", Ty::Tok, vec![])]));
            b.with(Schema::new("hooks", named(vec![f("a", vec_(Ty::Nat), n(vec![pre(1), post(2)])), f("t", p(U16), vec![At::AlignBefore(c(4))])])), |s| s.top = vec![pre(3), post(4)]);
        }
    }
    // more elements than fit in the smaller counters
    b.st("log_huge", vec![f("v", vec_(p(U8)), vec![])]);
    b.st("log_huge", vec![f("h", p(U16), vec![]), f("v", vec_(pair(p(U8), p(U8))), vec![])]);
    b.with(Schema::new("log_huge", named(vec![f("v", vec_(p(U16)), vec![])])), |s| s.derive = Derive::Le);
    for fl in [Fl::No, Fl::Be, Fl::Le] {
        let d = |t: Ty| vec![f("v", t.clone(), vec![oft(t, fl)])];
        b.st("log_huge", d(vec_(p(U8))));
        for t in [vec_(p(U32)), vec_(pair(p(U16), p(U8))), vec_(Ty::Tok), vec_(Ty::Ref(pt)), vec_(arr(p(U8), 3)), vec_(Ty::Str), vec_(Ty::Only)] { b.st("log", d(t)); }
        b.st("large_huge", vec![f("a", arr(p(U8), 5000), vec![oft(arr(p(U8), 5000), fl)]), f("t", p(U16), vec![])]);
    }
    b.st("large_huge", vec![f("n", p(U32), vec![At::Verify(lt(own(), c(200000)))]), f("d", vec_(p(U8)), vec![At::Count(Ex::F(0))]), f("t", p(U16), vec![])]);
    b.st("large_huge", vec![f("d", vec_(p(U8)), vec![At::LengthCount(U32, true)]), f("t", p(U16), vec![])]);

    // ------------------------------------------------------------ random part
    let base_n = b.cat.v.len();
    let mut rng = Rng::new(seed.wrapping_mul(1000003));
    let mut k = 0;
    let pool: Vec<Id> = vec![pt, pt_be, pt_le, toks, checked, al4, skp, mini2, color, borrow, bytes3];
    let mut pool = pool;
    while k < 600 {
        let s = random(&mut rng, &b.cat, &pool);
        let id = b.add(s);
        if b.cat.v[id].is_plain() && b.cat.v[id].generic.is_none() && !b.cat.any_schema(id, &|s| s.all_attrs().iter().any(|a| matches!(a, At::Exact))) && !open_ended(&b.cat, id) && pool.len() < 60 && depth(&b.cat, id) <= 3 && min_size(&b.cat, id) {
            pool.push(id);
        }
        k += 1;
    }
    // ------------------------------------------------------------ twins
    let total = b.cat.v.len();
    let mut ge_of: Vec<Option<Id>> = vec![None; total];
    for id in 0..total {
        let random = id >= base_n;
        let s = b.cat.v[id].clone();
        let r = crate::rng::mix(id as u64 * 31 + seed) % 100;
        if (r % 2 == 0 || !random) && (s.tag == "block" || !matches!(s.tag, "direct" | "large" | "large_core" | "large_huge" | "log_huge" | "wide" | "wide_enum" | "chain" | "log_large" | "pos_large" | "hostile") || id % 3 == 0) {
            if let Some(t) = ge_twin(&b.cat, id, &ge_of) { ge_of[id] = Some(b.add(t)); }
        }
        if matches!(s.tag, "block" | "direct" | "large" | "large_core" | "large_huge" | "log_huge" | "wide" | "wide_enum" | "chain" | "log_large" | "pos_large" | "hostile") && id % 3 != 0 { continue; }
        if can_complete(&b.cat, id) && r < 45 && s.tag != "hostile" {
            let mut t = s.clone(); t.complete = true; t.twin = Some((id, Twin::Complete)); t.tag = "twin_complete"; b.add(t);
        }
        if debug_ok(&b.cat, id) && r % 3 == 0 {
            let mut t = s.clone(); t.debug = true; t.twin = Some((id, Twin::Debug)); t.tag = "twin_debug"; b.add(t);
        }
        if r % 5 == 1 {
            if let Some(t) = debug_field(&b.cat, id, r as usize) { let mut t = t; t.twin = Some((id, Twin::Debug)); t.tag = "twin_debug"; b.add(t); }
        }
        if r % 6 == 2 {
            if let Some(t) = complete_field(&b.cat, id, r as usize) { let mut t = t; t.twin = Some((id, Twin::FieldComplete)); t.tag = "twin_fcomplete"; b.add(t); }
        }
    }
    // what was declared with traces, without them
    for id in 0..b.cat.v.len() {
        let s = &b.cat.v[id];
        if s.tag != "trace" || s.twin.is_some() || !(s.debug || s.all_attrs().iter().any(|a| matches!(a, At::Debug))) { continue; }
        let mut t = s.clone();
        t.debug = false;
        t.tag = "untraced";
        let strip = |l: &mut Vec<At>| l.retain(|a| !matches!(a, At::Debug));
        strip(&mut t.top);
        match &mut t.body {
            Body::Struct(_, fs) => fs.iter_mut().for_each(|f| strip(&mut f.attrs)),
            Body::Enum { variants, .. } => for v in variants { strip(&mut v.unit); v.fields.iter_mut().for_each(|f| strip(&mut f.attrs)); },
            _ => {}
        }
        let t = b.add(t);
        b.cat.v[id].twin = Some((t, Twin::Debug));
    }
    b.cat
}

/// consumes an unbounded part of the input somewhere, or looks at its length
pub fn open_ended(cat: &Cat, id: Id) -> bool {
    fn ty_open(cat: &Cat, t: &Ty) -> bool {
        match t { Ty::Vec(_) | Ty::Opt(_) => true, Ty::Pair(a, b) => ty_open(cat, a) || ty_open(cat, b), Ty::Arr(x, _) => ty_open(cat, x), Ty::Ref(i) => open_ended(cat, *i), _ => false }
    }
    let s = &cat.v[id];
    if s.complete { return true; }
    let gen = s.generic.as_ref().map_or(false, |t| ty_open(cat, t));
    if gen { return true; }
    for f in s.all_fields() {
        let mut t = &f.ty;
        let mut parsed = false;
        for a in &f.attrs {
            match a {
                At::Count(_) | At::LengthCount(..) | At::LengthBy(..) => if let Ty::Vec(x) = t { t = x; },
                At::Cond(..) => if let Ty::Opt(x) = t { t = x; },
                At::Complete => return true,
                At::Tag(_) | At::Take(_) | At::Value(_) | At::Ignore(_) if !parsed => parsed = true,
                At::Parse(u) if !parsed => {
                    parsed = true;
                    match u {
                        UP::Rest | UP::PrimComplete(..) | UP::OptPrim(..) => return true,
                        UP::OfTy(t, _) => if ty_open(cat, t) { return true; },
                        UP::Call { id, .. } => if open_ended(cat, *id) { return true; },
                        // a window bounds what is inside
                        _ => {}
                    }
                }
                _ => {}
            }
            if at_any_ex(a, &|e| matches!(e, Ex::InLen)) { return true; }
        }
        if !parsed && ty_open(cat, t) { return true; }
    }
    for a in s.all_attrs() { if matches!(a, At::Exact) { return true; } if let At::Parse(UP::Rest) = a { return true; } }
    false
}

/// user code of the declaration never returns Incomplete by itself and nested parsers are plain
pub fn can_complete(cat: &Cat, id: Id) -> bool {
    let s = &cat.v[id];
    if s.complete || s.twin.is_some() || s.debug || s.all_attrs().iter().any(|a| matches!(a, At::Debug)) { return false; }
    !s.all_attrs().iter().any(|a| matches!(a, At::Pre(_, HookK::Eat(_) | HookK::Try) | At::Post(_, HookK::Eat(_) | HookK::Try)))
}

fn ge_ty(cat: &Cat, t: &mut Ty, of: &[Option<Id>], special: bool, direct: bool) -> bool {
    match t {
        Ty::Arr(..) => false,
        Ty::Str => direct && !special,
        Ty::Opt(x) | Ty::Vec(x) => ge_ty(cat, x, of, special, false),
        Ty::Pair(a, b) => ge_ty(cat, a, of, special, false) && ge_ty(cat, b, of, special, false),
        // (what holds a String asks the error type for more than ParseError)
        Ty::Ref(i) if special && cat.sch_any_ty(&cat.v[*i], &|t| matches!(t, Ty::Str)) => false,
        Ty::Ref(i) => match of.get(*i) { Some(Some(k)) => { *i = *k; true } _ => false },
        _ => true,
    }
}

/// the declaration generic over the error type, made of nested ones that are so too: no arrays,
/// no Debug, no parsers with a fixed error type
fn ge_twin(cat: &Cat, id: Id, of: &[Option<Id>]) -> Option<Schema> {
    let mut s = cat.v[id].clone();
    if s.ge || s.twin.is_some() || s.debug || s.generic.is_some() { return None; }
    let special = !s.is_plain() || s.all_attrs().iter().any(|a| matches!(a, At::SetEndian(_)));
    if s.top.iter().any(|a| matches!(a, At::Debug)) { return None; }
    let inherent = !s.is_plain();
    let layers = |f: &Field| f.attrs.iter().fold((0, 0), |n, a| match a { At::Count(_) | At::LengthCount(..) | At::LengthBy(..) => (n.0 + 1, n.1), At::Cond(..) => (n.0, n.1 + 1), _ => n });
    let opaque = |f: &Field| f.attrs.iter().any(|a| matches!(a, At::Parse(_) | At::Ignore(_)));
    // only a String of its own makes a declaration ask the error type for what a String needs
    let text = s.all_fields().iter().any(|f| { let l = layers(f); !opaque(f) && matches!(peel(&mut f.ty.clone(), l.0, l.1), Ty::Str) });
    let special = special || !text;
    let fix = |fs: &mut Vec<Field>| fs.iter_mut().all(|f| {
        let parsed = f.attrs.iter().any(|a| matches!(a, At::Parse(_)));
        if f.attrs.iter().any(|a| matches!(a, At::Ignore(_))) && !parsed { return true; }
        let l = layers(f);
        let t = peel(&mut f.ty, l.0, l.1);
        ge_ty(cat, t, of, special || parsed, !parsed) && ge_attrs(cat, &mut f.attrs, of, inherent)
    });
    let ok = match &mut s.body {
        Body::Struct(_, fs) => fix(fs),
        Body::Enum { variants, .. } => variants.iter_mut().all(|v| fix(&mut v.fields) && ge_attrs(cat, &mut v.unit, of, inherent)),
        _ => true,
    };
    if !ok { return None; }
    s.ge = true;
    s.twin = Some((id, Twin::Ge));
    s.tag = "twin_ge";
    Some(s)
}
fn peel(t: &mut Ty, vecs: usize, opts: usize) -> &mut Ty {
    let vec = matches!(t, Ty::Vec(_)) && vecs > 0;
    let opt = matches!(t, Ty::Opt(_)) && opts > 0;
    if !vec && !opt { return t; }
    match t {
        Ty::Vec(x) => peel(x, vecs - 1, opts),
        Ty::Opt(x) => peel(x, vecs, opts - 1),
        _ => unreachable!(),
    }
}
fn ge_attrs(cat: &Cat, l: &mut [At], of: &[Option<Id>], inherent: bool) -> bool {
    l.iter_mut().all(|a| match a {
        At::Debug => false,
        At::Parse(UP::FxPrim(..)) => false,
        // (the functions of a declaration that is not a `Parse` also ask for E: Debug)
        At::Parse(UP::Call { .. }) if !inherent => false,
        At::Parse(UP::Call { id, .. }) => match of.get(*id) { Some(Some(k)) => { *id = *k; true } _ => false },
        At::Parse(UP::OfTy(t, _)) | At::Parse(UP::Window(_, t, _)) => ge_ty(cat, t, of, true, false),
        _ => true,
    })
}

/// Debug wraps every field parser
pub fn debug_ok(cat: &Cat, id: Id) -> bool {
    let s = &cat.v[id];
    if s.debug || s.ge || s.twin.is_some() { return false; }
    if let Body::Fieldless { .. } = s.body { return false; }
    if let Body::Struct(Shape::Tuple, _) = s.body { return false; }
    if let Body::Enum { variants, .. } = &s.body { if variants.iter().any(|v| v.shape == Shape::Tuple) { return false; } }
    s.all_fields().iter().all(|f| !f.attrs.contains(&At::Debug) && traceable(&f.attrs))
}
/// Debug in front of these attributes: nom's dbg_dmp takes functions, so parsers given by the user have to be functions
fn traceable(attrs: &[At]) -> bool {
    match attrs.iter().find(|a| !a.is_pre_post() && !matches!(a, At::Be | At::Le)) { Some(At::Parse(UP::Window(..) | UP::OptPrim(..))) => false, _ => true }
}

fn mod_field(cat: &Cat, id: Id, k: usize, ok: &dyn Fn(&Field) -> bool, at: At) -> Option<Schema> {
    let s = &cat.v[id];
    if s.debug || s.ge || s.twin.is_some() || s.complete { return None; }
    if let Body::Struct(Shape::Named, fs) = &s.body {
        let c: Vec<usize> = (0..fs.len()).filter(|i| ok(&fs[*i])).collect();
        if c.is_empty() { return None; }
        let i = c[k % c.len()];
        let mut t = s.clone();
        if let Body::Struct(_, fs) = &mut t.body {
            // after the attributes that run before the parser
            let pos = fs[i].attrs.iter().position(|a| !a.is_pre_post() && !matches!(a, At::Be | At::Le)).unwrap_or(fs[i].attrs.len());
            fs[i].attrs.insert(pos, at);
        }
        return Some(t);
    }
    None
}
/// Debug in front of any of the attributes that say how a field is read
fn debug_field(cat: &Cat, id: Id, k: usize) -> Option<Schema> {
    let s = &cat.v[id];
    if s.debug || s.ge || s.twin.is_some() { return None; }
    let mut t = s.clone();
    if let Body::Struct(Shape::Named, fs) = &mut t.body {
        let mut spots = Vec::new();
        for (n, f) in fs.iter().enumerate() {
            if f.attrs.contains(&At::Debug) { continue; }
            for p in 0..=f.attrs.len() {
                if p == f.attrs.len() || (!f.attrs[p].is_pre_post() && !matches!(f.attrs[p], At::Be | At::Le)) {
                    if traceable(&f.attrs[p..]) { spots.push((n, p)); }
                }
                if p < f.attrs.len() && matches!(f.attrs[p], At::Tag(_) | At::Take(_) | At::Value(_) | At::Parse(_) | At::Ignore(_)) { break; }
            }
        }
        if spots.is_empty() { return None; }
        let (n, p) = spots[k % spots.len()];
        fs[n].attrs.insert(p, At::Debug);
        return Some(t);
    }
    None
}
fn complete_field(cat: &Cat, id: Id, k: usize) -> Option<Schema> {
    mod_field(cat, id, k, &|f| !f.attrs.iter().any(|a| matches!(a, At::Complete)), At::Complete)
}

fn depth(cat: &Cat, id: Id) -> usize {
    let mut d = 0;
    for t in cat.tys(&cat.v[id]) { d = d.max(ty_depth(cat, &t)); }
    d + 1
}
fn ty_depth(cat: &Cat, t: &Ty) -> usize {
    match t { Ty::Ref(i) => depth(cat, *i), Ty::Opt(x) | Ty::Vec(x) | Ty::Arr(x, _) => ty_depth(cat, x), Ty::Pair(a, b) => ty_depth(cat, a).max(ty_depth(cat, b)), _ => 0 }
}
/// always consumes at least one byte: starts with an unconditional fixed-size field, and never moves back
fn min_size(cat: &Cat, id: Id) -> bool {
    match &cat.v[id].body {
        Body::Struct(_, fs) => fs.first().map_or(false, |f| f.attrs.is_empty() && matches!(f.ty, Ty::P(_) | Ty::Tok | Ty::Mini | Ty::Only | Ty::Nat)) && !cat.v[id].all_attrs().iter().any(|a| matches!(a, At::Move(_) | At::MoveAbs(_))),
        _ => false,
    }
}

// ---------------------------------------------------------------- random declarations

const NAMES: [&str; 24] = ["a", "len", "count", "offset", "align", "skip", "pos", "start", "kind", "flags", "ver", "x", "y", "body", "data", "name", "n", "ty", "r#type", "end", "val", "key", "size", "tag"];

struct R<'a> { rng: &'a mut Rng, cat: &'a Cat, pool: &'a [Id], hook: u32, core: bool, borrow_ok: bool, nargs: usize }

impl<'a> R<'a> {
    fn int(&mut self) -> P { *self.rng.pick(&[P::U8, P::U8, P::U8, P::U16, P::U16, P::U32, P::U64, P::I8, P::I16, P::I32, P::I64, P::U128, P::I128]) }
    fn prim(&mut self) -> P { if self.rng.pct(8) { *self.rng.pick(&[P::F32, P::F64]) } else { self.int() } }
    fn elem(&mut self, d: u32) -> Ty {
        match self.rng.below(if d == 0 { 6 } else { 10 }) {
            0..=3 => p(self.prim()),
            4 => if self.core { Ty::Mini } else { Ty::Tok },
            5 => self.rng.pick(&[Ty::Mini, Ty::Only, Ty::Nat]).clone(),
            6 => { let i = *self.rng.pick(self.pool); if (self.core && self.cat.v[i].level > 0) || (!self.borrow_ok && self.cat.schema_borrows(i)) { p(P::U16) } else { Ty::Ref(i) } }
            7 => pair(self.elem(d - 1), self.elem(d - 1)),
            8 => { let n = self.rng.below(4); if self.core { arr(p(self.prim()), n + 1) } else { arr(self.elem(d - 1), n + 1) } }
            _ => { let i = *self.rng.pick(self.pool); if (self.core && self.cat.v[i].level > 0) || (!self.borrow_ok && self.cat.schema_borrows(i)) { p(P::U32) } else { Ty::Ref(i) } }
        }
    }
    fn nums(&self, fs: &[Field]) -> Vec<usize> { fs.iter().enumerate().filter(|(_, f)| matches!(&f.ty, Ty::P(q) if !q.float())).map(|x| x.0).collect() }
    /// small non-negative expression
    fn small(&mut self, fs: &[Field], allow_env: bool) -> Ex {
        let n = self.nums(fs);
        match self.rng.below(10) {
            0..=3 => c(self.rng.range(0, 6)),
            4 | 5 if !n.is_empty() => Ex::F(*self.rng.pick(&n)),
            6 if !n.is_empty() => and(Ex::F(*self.rng.pick(&n)), 7),
            7 if self.nargs > 0 => Ex::A(self.rng.below(self.nargs)),
            8 if allow_env => Ex::Env(self.rng.below(8) as u32),
            9 if !n.is_empty() => md(add(Ex::F(*self.rng.pick(&n)), c(self.rng.range(0, 5))), 11),
            _ => c(self.rng.range(0, 9)),
        }
    }
    fn pred(&mut self, fs: &[Field], log: bool) -> Pr {
        let e = { let n = self.nums(fs); if n.is_empty() || self.rng.pct(20) { Ex::Env(self.rng.below(8) as u32) } else { Ex::F(*self.rng.pick(&n)) } };
        let k = c(self.rng.range(0, 9));
        let q = match self.rng.below(5) { 0 => eq(e, k), 1 => ne(e, k), 2 => lt(e, k), 3 => gt(e, k), _ => ne(and(e, 1), c(0)) };
        if log && self.rng.pct(40) && !pr_any(&q, &|e| matches!(e, Ex::Env(_))) { self.hook += 1; lg(self.hook, q) } else { q }
    }
    fn field(&mut self, name: String, fs: &[Field], shape: Shape) -> Field {
        let mut attrs = vec![];
        // before
        while self.rng.pct(22) {
            self.hook += 1;
            attrs.push(match self.rng.below(8) {
                0 => At::AlignBefore(c(*self.rng.pick(&[1i64, 2, 3, 4, 8]))),
                1 => At::SkipBefore(self.small(fs, true)),
                2 => if self.rng.pct(60) { At::Move(c(self.rng.range(-3, 6))) } else { At::Move(self.small(fs, true)) },
                3 => At::MoveAbs(add(self.small(fs, false), c(self.rng.range(0, 8)))),
                4 => { let q = self.pred(fs, true); if let Pr::Log(..) = q { At::ErrorIf(q) } else { At::ErrorIf(Pr::And(bx(q.clone()), bx(q))) } }
                5 => prev(self.hook, c(self.rng.range(0, 99))),
                _ => pre(self.hook),
            });
        }
        // two evaluations of a logged session value in one ErrorIf are fine: declared twice
        let mut ty;
        let mut main: Vec<At> = vec![];
        let named = shape == Shape::Named;
        match self.rng.below(20) {
            0..=5 => { ty = p(self.prim()); if named { if let Ty::P(q) = ty { if !q.float() {
                    if self.rng.pct(20) { let k = c(self.rng.range(0, 200)); let pr = match self.rng.below(3) { 0 => ne(own(), k), 1 => lt(own(), add(k, c(60))), _ => Pr::Or(bx(gt(own(), k.clone())), bx(lt(own(), c(3)))) }; self.hook += 1; let pr = if self.rng.pct(40) { lg(self.hook, pr) } else { pr }; main.push(At::Verify(pr)); }
                } } }
                if let Ty::P(q) = ty { if !q.float() && self.rng.pct(15) { self.hook += 1; main.push(madd(q, self.rng.range(-4, 100), self.hook)); } }
            }
            6 => { let e = self.elem(1); ty = opt(e); let q = self.pred(fs, true); main.push(At::Cond(q, self.rng.pct(40))); }
            7 | 8 if !self.core => { let e = self.elem(1); let zero = self.can_be_empty(&e); ty = vec_(e); let n = if zero { and(self.small(fs, false), 7) } else { self.small(fs, true) }; main.push(At::Count(n)); }
            9 if !self.core => { let e = self.elem(1); if self.can_be_empty(&e) { ty = vec_(p(P::U16)); } else { ty = vec_(e); } main.push(At::LengthCount(*self.rng.pick(&[P::U8, P::U8, P::U16, P::U32]), self.rng.pct(50))); }
            10 if self.borrow_ok => { ty = Ty::Bytes; main.push(take(self.small(fs, true))); }
            11 if self.borrow_ok => { ty = Ty::Bytes; let n = 1 + self.rng.below(4); main.push(At::Tag((0..n).map(|_| *self.rng.pick(b"ABz\x00\xff\x01")).collect())); }
            12 => { let q = self.int(); ty = p(q); if self.rng.pct(50) { main.push(At::Ignore(self.rng.pct(50))); } else { let e = self.small(fs, true); main.push(At::Value(e)); } }
            13 => { let q = *self.rng.pick(&[P::U8, P::U16, P::U32, P::U64, P::I16, P::I32]); ty = p(q); main.push(At::Parse(if self.rng.pct(50) { UP::Prim(q, self.rng.pct(50)) } else { UP::OfTy(bx(p(q)), *self.rng.pick(&[Fl::No, Fl::Be, Fl::Le])) })); }
            14 => { ty = p(P::U16); main.push(At::Parse(UP::Strict)); }
            15 if !self.core => { ty = Ty::Str; }
            16 if !self.core && self.rng.pct(40) => { let e = self.elem(1); if self.can_be_empty(&e) { ty = vec_(p(P::U8)); } else { ty = vec_(e); } }
            17 if self.rng.pct(40) => { let e = self.elem(1); ty = opt(e); }
            18 if !self.core => { let e = self.elem(0); ty = opt(vec_(e)); let q = self.pred(fs, true); main.push(At::Cond(q, false)); main.push(At::Count(and(self.small(fs, false), 7))); }
            19 if self.borrow_ok => { let q = *self.rng.pick(&[P::U8, P::U16, P::U32]); ty = Ty::Len(q, self.rng.pct(50)); main.push(oft(ty.clone(), *self.rng.pick(&[Fl::No, Fl::Be, Fl::Le]))); }
            _ => { ty = self.elem(2); }
        }
        if let Ty::P(_) = ty { if self.rng.pct(8) && !main.iter().any(|a| matches!(a, At::Ignore(_) | At::Value(_) | At::Verify(_) | At::Map(_))) { main.insert(0, At::Into); } }
        if let Ty::Pair(..) = ty { if main.is_empty() && self.rng.pct(30) { main.push(At::Complete); } }
        if self.rng.pct(6) && !main.iter().any(|a| matches!(a, At::Ignore(_) | At::Value(_))) { main.insert(0, At::Complete); }
        if self.rng.pct(9) { attrs.push(if self.rng.pct(50) { At::Be } else { At::Le }); }
        else if self.rng.pct(5) { let n = self.nums(fs); attrs.push(At::SetEndian(if n.is_empty() { EnEx::Env(self.rng.below(8) as u32) } else { EnEx::By(Ex::F(*self.rng.pick(&n))) })); }
        attrs.extend(main);
        while self.rng.pct(16) {
            self.hook += 1;
            attrs.push(match self.rng.below(5) {
                0 => At::AlignAfter(c(*self.rng.pick(&[1i64, 2, 4, 8]))),
                1 => At::SkipAfter(self.small(fs, true)),
                2 => { if let Ty::P(q) = &ty { if !q.float() { postv(self.hook, Ex::F(fs.len())) } else { post(self.hook) } } else { post(self.hook) } }
                _ => post(self.hook),
            });
        }
        if let Ty::P(q) = ty { ty = Ty::P(q); }
        Field { name, ty, attrs }
    }
    fn can_be_empty(&self, t: &Ty) -> bool {
        match t { Ty::P(_) | Ty::Tok | Ty::Mini | Ty::Only | Ty::Nat | Ty::Str | Ty::Len(..) | Ty::LenOf(_) => false, Ty::Pair(a, b) => self.can_be_empty(a) && self.can_be_empty(b), Ty::Arr(x, n) => *n == 0 || self.can_be_empty(x), Ty::Ref(i) => !min_size(self.cat, *i) && !matches!(self.cat.v[*i].tag, "block" | "fieldless"), _ => true }
    }
    fn fields(&mut self, n: usize, shape: Shape) -> Vec<Field> {
        let mut fs: Vec<Field> = vec![];
        let off = self.rng.below(NAMES.len());
        for k in 0..n {
            let name = if shape == Shape::Tuple { format!("_{}", k) } else { NAMES[(off + k * 5) % NAMES.len()].to_string() };
            let name = if fs.iter().any(|f| f.name == name) { format!("f{}", k) } else { name };
            let x = if k == 0 && self.rng.pct(60) { f(&name, p(*self.rng.pick(&[P::U8, P::U8, P::U16, P::U32])), vec![]) } else { self.field(name, &fs, shape) };
            fs.push(x);
        }
        fs
    }
    fn top_hooks(&mut self) -> Vec<At> {
        let mut t = vec![];
        while self.rng.pct(18) {
            self.hook += 1;
            t.push(match self.rng.below(8) { 0 => At::Pre(self.hook, HookK::Eat(1)), 1 => At::Post(self.hook, HookK::Eat(2)), 2 => At::Pre(self.hook, HookK::Try), 3 | 4 => post(self.hook), _ => pre(self.hook) });
        }
        if self.rng.pct(5) { t.push(At::Exact); }
        t
    }
}

fn random(rng: &mut Rng, cat: &Cat, pool: &[Id]) -> Schema {
    let core = rng.pct(25);
    let borrow_ok = rng.pct(40);
    let nargs = if rng.pct(12) { 1 + rng.below(2) } else { 0 };
    let args: Vec<(String, ArgTy)> = (0..nargs).map(|k| (format!("xarg{}", k), ArgTy::P(*rng.pick(&[P::U8, P::U16, P::I32, P::U64])))).collect();
    let mut r = R { rng, cat, pool, hook: 100, core, borrow_ok, nargs };
    let mut s;
    match r.rng.below(10) {
        0..=6 => {
            let shape = if r.rng.pct(25) { Shape::Tuple } else { Shape::Named };
            let big = r.rng.pct(15); let n = 1 + r.rng.below(if big { 14 } else { 7 });
            let fs = r.fields(n, shape);
            s = Schema::new("random", Body::Struct(shape, fs));
            if shape == Shape::Named && nargs == 0 && r.rng.pct(10) && !core {
                if let Body::Struct(_, fs) = &mut s.body { fs.push(f("gen_t", Ty::Param, vec![])); fs.push(f("gen_v", vec_(Ty::Param), vec![At::Count(c(2))])); }
                s.generic = Some(r.rng.pick(&[p(P::U16), Ty::Tok, p(P::I64)]).clone());
            }
        }
        7 | 8 => {
            let sel = *r.rng.pick(&[P::U8, P::U8, P::U16, P::U32, P::I16]);
            let n = 2 + r.rng.below(5);
            let mut vs = vec![];
            for k in 0..n {
                let shape = *r.rng.pick(&[Shape::Named, Shape::Tuple, Shape::Tuple, Shape::Unit]);
                let lo = r.rng.range(0, 40);
                let pat = match r.rng.below(8) { 0..=3 => Pat::Lit(lo), 4 | 5 => Pat::Range(lo, lo + r.rng.range(0, 30)), _ => match r.rng.below(4) { 0 => Pat::From(lo), 1 => Pat::To(lo), _ => Pat::Or(vec![lo, lo + 3, lo + 50]) } };
                let fs = if shape == Shape::Unit { vec![] } else { let m = 1 + r.rng.below(3); r.fields(m, shape) };
                let mut x = v(&format!("V{}", k), pat, shape, fs);
                if r.rng.pct(20) {
                    let e = if nargs > 0 && r.rng.pct(50) { Ex::A(r.rng.below(nargs)) } else { own() };
                    let m = r.rng.range(2, 6);
                    x.guard = Some(match r.rng.below(3) { 0 => eq(md(e, m), c(1)), 1 => ne(md(e, m), c(0)), _ => gt(e, c(m * 4)) });
                }
                vs.push(x);
            }
            if r.rng.pct(40) { let at = r.rng.below(vs.len() + 1); vs.insert(at, v("Other", Pat::Wild, Shape::Tuple, vec![f("_0", p(P::U16), vec![])])); }
            s = Schema::new("random", Body::Enum { sel, newtype: r.rng.pct(20) && sel != P::U64, variants: vs });
        }
        _ => {
            let repr = r.int();
            let mut vals: Vec<i64> = (0..2 + r.rng.below(5)).map(|_| if repr.signed() { r.rng.range(-100, 100) } else { r.rng.range(0, 200) }).collect();
            vals.sort(); vals.dedup();
            s = Schema::new("random", Body::Fieldless { repr, variants: vals.iter().enumerate().map(|(k, v)| (format!("K{}", k), *v as i128)).collect() });
        }
    }
    s.top = r.top_hooks();
    match r.rng.below(10) { 0 => s.derive = Derive::Be, 1 => s.derive = Derive::Le, 2 => s.top.insert(0, At::Be), 3 => s.top.insert(0, At::Le), 4 if !matches!(s.body, Body::Fieldless { .. }) => s.top.insert(0, At::SetEndian(EnEx::Env(2))), _ => {} }
    if !matches!(s.body, Body::Fieldless { .. }) { s.args = args; }
    else {
        // no extra arguments there
        s.top.retain(|a| !at_any_ex(a, &|e| matches!(e, Ex::A(_))));
    }
    if r.rng.pct(10) { s.input_name = Some("inp".into()); }
    if matches!(s.body, Body::Enum { .. }) && s.generic.is_some() { s.generic = None; }
    s
}
