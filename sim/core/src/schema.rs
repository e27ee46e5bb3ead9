//! Declaration language shared by the generator (build.rs) and the simulator.
//! A `Schema` is a type declaration with nom-derive attributes; `emit.rs` prints it as Rust,
//! `model.rs` interprets it.

pub type Id = usize;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum P { U8, I8, U16, I16, U32, I32, U64, I64, U128, I128, F32, F64 }

pub const PRIMS: [P; 12] = [P::U8, P::I8, P::U16, P::I16, P::U32, P::I32, P::U64, P::I64, P::U128, P::I128, P::F32, P::F64];
pub const INTS: [P; 10] = [P::U8, P::I8, P::U16, P::I16, P::U32, P::I32, P::U64, P::I64, P::U128, P::I128];

impl P {
    pub fn size(self) -> usize {
        match self { P::U8 | P::I8 => 1, P::U16 | P::I16 => 2, P::U32 | P::I32 | P::F32 => 4, P::U64 | P::I64 | P::F64 => 8, P::U128 | P::I128 => 16 }
    }
    pub fn name(self) -> &'static str {
        match self { P::U8 => "u8", P::I8 => "i8", P::U16 => "u16", P::I16 => "i16", P::U32 => "u32", P::I32 => "i32", P::U64 => "u64", P::I64 => "i64", P::U128 => "u128", P::I128 => "i128", P::F32 => "f32", P::F64 => "f64" }
    }
    pub fn signed(self) -> bool { matches!(self, P::I8 | P::I16 | P::I32 | P::I64 | P::I128) }
    pub fn float(self) -> bool { matches!(self, P::F32 | P::F64) }
}

/// byte order of an entry point / a call
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fl { No, Be, Le }

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    P(P),
    Str,
    /// `&'a [u8]`
    Bytes,
    /// LengthData<P, &'a [u8]>; true: use the LengthDataU.. alias
    Len(P, bool),
    /// LengthData with a length read by a nested parser
    LenOf(Box<Ty>),
    Opt(Box<Ty>),
    Vec(Box<Ty>),
    Pair(Box<Ty>, Box<Ty>),
    Arr(Box<Ty>, usize),
    Ref(Id),
    /// drop-tracked nested parser with fault point (2 bytes)
    Tok,
    /// Copy + Default nested parser with fault point (1 byte), usable without alloc
    Mini,
    /// nested parser that implements only `parse`
    Only,
    /// nested parser whose plain entry point is not its big-endian one
    Nat,
    Phantom,
    /// newtype of a primitive, only From<P>, no parser of its own
    W(P),
    /// the type parameter `T` of a generic declaration
    Param,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ex {
    C(i64),
    /// value of an earlier field
    F(usize),
    /// length of an earlier Vec / bytes / String field
    FLen(usize),
    /// extra argument
    A(usize),
    /// session value number n: logged each time it is evaluated
    Env(u32),
    /// value under verification
    Own,
    OwnLen,
    Add(Box<Ex>, Box<Ex>),
    Sub(Box<Ex>, Box<Ex>),
    Mul(Box<Ex>, Box<Ex>),
    And(Box<Ex>, Box<Ex>),
    Mod(Box<Ex>, i64),
    /// remaining input length (depends on how much has arrived)
    InLen,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cmp { Eq, Ne, Lt, Le, Gt }

#[derive(Clone, PartialEq, Debug)]
pub enum Pr {
    True,
    Cmp(Cmp, Ex, Ex),
    And(Box<Pr>, Box<Pr>),
    Or(Box<Pr>, Box<Pr>),
    Not(Box<Pr>),
    /// logs event `id` with the outcome
    Log(u32, Box<Pr>),
}

#[derive(Clone, PartialEq, Debug)]
pub enum HookK {
    /// log id and position
    Log,
    /// log id, position and the value of a field
    Val(Ex),
    /// `let (i, _) = rt::eat(i, n)?;`
    Eat(usize),
    /// user code that can fail: fault point
    Try,
}

#[derive(Clone, PartialEq, Debug)]
pub enum EnEx { Env(u32), By(Ex), Arg(usize), Const(bool) }

#[derive(Clone, PartialEq, Debug)]
pub enum MapF {
    /// same primitive: wrapping add, logged with id
    Add(P, i64, u32),
    /// from primitive to primitive (`as`)
    Cast(P, P, u32),
    /// wrap in the newtype
    Wrap(P, u32),
}

/// user-supplied parser (Parse attribute)
#[derive(Clone, PartialEq, Debug)]
pub enum UP {
    Prim(P, bool /*big*/),
    PrimComplete(P, bool),
    U24(bool),
    Tok(Fl),
    Mini(Fl),
    /// fallible u16 (BE) with data-driven Error/Failure
    Strict,
    /// enum with selector / struct with extra args
    Call { id: Id, fl: Fl, sel: Option<Ex>, args: Vec<Ex> },
    /// `rest`
    Rest,
    /// `map_parser(take(n), T::parse)`
    Window(Ex, Box<Ty>, Fl),
    /// `opt(complete(be_uN))`
    OptPrim(P, bool),
    /// fixed error type versions for Into
    FxPrim(P, bool),
    /// `<Ty>::parse..`
    OfTy(Box<Ty>, Fl),
}

#[derive(Clone, PartialEq, Debug)]
pub enum At {
    AlignBefore(Ex), AlignAfter(Ex), SkipBefore(Ex), SkipAfter(Ex), Move(Ex), MoveAbs(Ex),
    ErrorIf(Pr), Pre(u32, HookK), Post(u32, HookK), SetEndian(EnEx), Exact,
    Tag(Vec<u8>), Take(Ex), Value(Ex), Parse(UP), Ignore(bool), Complete, Debug,
    Cond(Pr, bool), Count(Ex), Into, LengthCount(P, bool),
    /// count read by an entry point of a nested parser
    LengthBy(Ty, Fl), Map(MapF), Verify(Pr),
    Be, Le,
}

impl At {
    pub fn is_pre_post(&self) -> bool {
        matches!(self, At::AlignBefore(_) | At::AlignAfter(_) | At::SkipBefore(_) | At::SkipAfter(_) | At::Move(_) | At::MoveAbs(_) | At::ErrorIf(_) | At::Pre(..) | At::Post(..) | At::SetEndian(_) | At::Exact)
    }
    pub fn is_post(&self) -> bool {
        matches!(self, At::AlignAfter(_) | At::SkipAfter(_) | At::Post(..) | At::Exact)
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Field { pub name: String, pub ty: Ty, pub attrs: Vec<At> }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Shape { Named, Tuple, Unit }

#[derive(Clone, PartialEq, Debug)]
pub enum Pat {
    Wild, Lit(i64), Range(i64, i64), Or(Vec<i64>), Bind,
    /// `a..`
    From(i64),
    /// `..=b`
    To(i64),
}

impl Pat {
    pub fn has(&self, n: i128) -> bool {
        match self {
            Pat::Wild | Pat::Bind => true,
            Pat::Lit(a) => n == *a as i128,
            Pat::Range(a, b) => n >= *a as i128 && n <= *b as i128,
            Pat::Or(l) => l.iter().any(|a| n == *a as i128),
            Pat::From(a) => n >= *a as i128,
            Pat::To(b) => n <= *b as i128,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Variant {
    pub name: String,
    pub pat: Pat,
    /// guard over Ex::Own (= bound selector `s`) and extra args
    pub guard: Option<Pr>,
    pub shape: Shape,
    pub fields: Vec<Field>,
    /// attributes of a unit variant
    pub unit: Vec<At>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Body {
    Struct(Shape, Vec<Field>),
    Enum { sel: P, newtype: bool, variants: Vec<Variant> },
    Fieldless { repr: P, variants: Vec<(String, i128)> },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Derive { Nom, Be, Le }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Twin { Complete, Ge, Debug, FieldComplete }

#[derive(Clone, PartialEq, Debug)]
pub struct Schema {
    pub name: String,
    pub derive: Derive,
    pub body: Body,
    /// top-level hooks/endianness in order (Be, Le, SetEndian, Pre, Post, Exact)
    pub top: Vec<At>,
    pub input_name: Option<String>,
    pub ge: bool,
    pub complete: bool,
    pub debug: bool,
    pub args: Vec<(String, ArgTy)>,
    pub generic: Option<Ty>,
    /// selects between string / parenthesised attribute syntax, and attribute grouping
    pub style: u64,
    pub twin: Option<(Id, Twin)>,
    /// theme label
    pub tag: &'static str,
    /// build configurations: 0 core (no alloc), 1 alloc, 2 std
    pub level: u8,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ArgTy { P(P), Endian }

impl Schema {
    pub fn new(tag: &'static str, body: Body) -> Schema {
        Schema { name: String::new(), derive: Derive::Nom, body, top: vec![], input_name: None, ge: false, complete: false, debug: false, args: vec![], generic: None, style: 0, twin: None, tag, level: 0 }
    }
    pub fn is_plain(&self) -> bool {
        self.args.is_empty() && !matches!(self.body, Body::Enum { .. })
    }
    pub fn all_fields(&self) -> Vec<&Field> {
        match &self.body {
            Body::Struct(_, f) => f.iter().collect(),
            Body::Enum { variants, .. } => variants.iter().flat_map(|v| v.fields.iter()).collect(),
            Body::Fieldless { .. } => vec![],
        }
    }
    pub fn all_attrs(&self) -> Vec<&At> {
        let mut v: Vec<&At> = self.top.iter().collect();
        if let Body::Enum { variants, .. } = &self.body {
            for x in variants { v.extend(x.unit.iter()); }
        }
        for f in self.all_fields() { v.extend(f.attrs.iter()); }
        v
    }
}

pub struct Cat { pub v: Vec<Schema> }

impl Cat {
    /// types directly used by a schema
    pub fn tys<'a>(&'a self, s: &'a Schema) -> Vec<Ty> {
        let mut out = vec![];
        for f in s.all_fields() { out.push(f.ty.clone()); }
        for a in s.all_attrs() {
            match a {
                At::Parse(UP::Call { id, .. }) => out.push(Ty::Ref(*id)),
                At::Parse(UP::Window(_, t, _)) | At::Parse(UP::OfTy(t, _)) => out.push((**t).clone()),
                At::LengthBy(t, _) => out.push(t.clone()),
                At::Parse(UP::Tok(_)) => out.push(Ty::Tok),
                At::Parse(UP::Mini(_)) => out.push(Ty::Mini),
                _ => {}
            }
        }
        if let Some(g) = &s.generic { out.push(g.clone()); }
        out
    }
    /// does `pred` hold for some type reachable from t
    pub fn ty_any(&self, t: &Ty, pred: &dyn Fn(&Ty) -> bool) -> bool {
        if pred(t) { return true; }
        match t {
            Ty::Opt(x) | Ty::Vec(x) | Ty::Arr(x, _) | Ty::LenOf(x) => self.ty_any(x, pred),
            Ty::Pair(a, b) => self.ty_any(a, pred) || self.ty_any(b, pred),
            Ty::Ref(i) => self.tys(&self.v[*i]).iter().any(|x| self.ty_any(x, pred)),
            _ => false,
        }
    }
    pub fn sch_any_ty(&self, s: &Schema, pred: &dyn Fn(&Ty) -> bool) -> bool {
        self.tys(s).iter().any(|t| self.ty_any(t, pred))
    }
    /// does some schema reachable from id satisfy pred
    /// takes declarations, all that use them and all compared with them out of the catalogue
    pub fn exclude(&mut self, ids: &[Id]) -> usize {
        let mut out: Vec<bool> = (0..self.v.len()).map(|i| ids.contains(&i)).collect();
        loop {
            let before = out.iter().filter(|x| **x).count();
            for i in 0..self.v.len() {
                if out[i] { continue; }
                let mut refs = vec![];
                for t in self.tys(&self.v[i]) { self.refs(&t, &mut refs); }
                if let Some((b, _)) = self.v[i].twin { refs.push(b); }
                if refs.iter().any(|r| out[*r]) { out[i] = true; }
            }
            if out.iter().filter(|x| **x).count() == before { break; }
        }
        for i in 0..self.v.len() { if out[i] { self.v[i].level = 99; } }
        out.iter().filter(|x| **x).count()
    }
    /// of the declarations that do not compile, those with Debug whose untraced form and whose parts do
    pub fn untraceable(&self, skip: &[Id]) -> Vec<Id> {
        skip.iter().copied().filter(|id| {
            let s = match self.v.get(*id) { Some(s) => s, None => return false };
            let traced = s.debug || s.all_attrs().iter().any(|a| matches!(a, At::Debug));
            let whole = |i: &Id| self.v[*i].level != 99;
            traced && self.used(*id).iter().all(whole) && s.twin.map_or(false, |(b, _)| whole(&b))
        }).collect()
    }
    /// declarations directly referred to
    pub fn used(&self, id: Id) -> Vec<Id> {
        let mut refs = vec![];
        for t in self.tys(&self.v[id]) { self.refs(&t, &mut refs); }
        refs
    }
    pub fn any_schema(&self, id: Id, pred: &dyn Fn(&Schema) -> bool) -> bool {
        if pred(&self.v[id]) { return true; }
        let mut refs = vec![];
        for t in self.tys(&self.v[id]) { self.refs(&t, &mut refs); }
        refs.into_iter().any(|r| self.any_schema(r, pred))
    }
    fn refs(&self, t: &Ty, out: &mut Vec<Id>) {
        match t {
            Ty::Opt(x) | Ty::Vec(x) | Ty::Arr(x, _) => self.refs(x, out),
            Ty::Pair(a, b) => { self.refs(a, out); self.refs(b, out) }
            Ty::Ref(i) => out.push(*i),
            _ => {}
        }
    }
    /// no less than what a value takes in memory, without what it points to
    pub fn footprint(&self, t: &Ty) -> u64 {
        match t {
            Ty::P(q) | Ty::W(q) => q.size() as u64,
            Ty::Tok | Ty::Mini | Ty::Only | Ty::Nat => 8,
            Ty::Phantom => 0,
            Ty::Str | Ty::Bytes | Ty::Vec(_) | Ty::Len(..) | Ty::LenOf(_) => 40,
            Ty::Opt(x) => 16 + self.footprint(x),
            Ty::Pair(a, b) => 16 + self.footprint(a) + self.footprint(b),
            Ty::Arr(x, n) => *n as u64 * self.footprint(x),
            Ty::Ref(i) => 16 + self.v[*i].all_fields().iter().map(|f| 8 + self.footprint(&f.ty)).sum::<u64>(),
            Ty::Param => 64,
        }
    }
    /// nom's length_count reserves room for up to 64 KiB / (size of the length) elements at once
    pub fn reserve(&self, id: Id) -> u64 {
        let s = &self.v[id];
        let mut n = 0;
        for f in s.all_fields() {
            let mut t = &f.ty;
            for a in &f.attrs {
                match (a, t) {
                    (At::Cond(..), Ty::Opt(x)) => t = x,
                    (At::Count(_), Ty::Vec(x)) => t = x,
                    (At::LengthBy(..), Ty::Vec(x)) => { t = x; n += 32768 * self.footprint(t); }
                    (At::LengthCount(q, _), Ty::Vec(x)) => { t = x; n += if *q == P::U8 { 256 } else { 65536 / q.size() as u64 } * self.footprint(t); }
                    _ => {}
                }
            }
        }
        let mut refs = vec![];
        for t in self.tys(s) { self.refs(&t, &mut refs); }
        n + refs.into_iter().map(|r| self.reserve(r)).sum::<u64>()
    }
    pub fn borrows(&self, t: &Ty) -> bool {
        match t {
            Ty::Bytes | Ty::Len(..) | Ty::LenOf(_) => true,
            Ty::Opt(x) | Ty::Vec(x) | Ty::Arr(x, _) => self.borrows(x),
            Ty::Pair(a, b) => self.borrows(a) || self.borrows(b),
            Ty::Ref(i) => self.schema_borrows(*i),
            _ => false,
        }
    }
    pub fn schema_borrows(&self, i: Id) -> bool {
        self.v[i].all_fields().iter().any(|f| self.borrows(&f.ty))
    }
}

pub fn ex_any(e: &Ex, pred: &dyn Fn(&Ex) -> bool) -> bool {
    if pred(e) { return true; }
    match e {
        Ex::Add(a, b) | Ex::Sub(a, b) | Ex::Mul(a, b) | Ex::And(a, b) => ex_any(a, pred) || ex_any(b, pred),
        Ex::Mod(a, _) => ex_any(a, pred),
        _ => false,
    }
}
pub fn pr_any(p: &Pr, pred: &dyn Fn(&Ex) -> bool) -> bool {
    match p {
        Pr::True => false,
        Pr::Cmp(_, a, b) => ex_any(a, pred) || ex_any(b, pred),
        Pr::And(a, b) | Pr::Or(a, b) => pr_any(a, pred) || pr_any(b, pred),
        Pr::Not(a) | Pr::Log(_, a) => pr_any(a, pred),
    }
}
pub fn at_any_ex(a: &At, pred: &dyn Fn(&Ex) -> bool) -> bool {
    match a {
        At::AlignBefore(e) | At::AlignAfter(e) | At::SkipBefore(e) | At::SkipAfter(e) | At::Move(e) | At::MoveAbs(e) | At::Take(e) | At::Value(e) | At::Count(e) => ex_any(e, pred),
        At::ErrorIf(p) | At::Cond(p, _) | At::Verify(p) => pr_any(p, pred),
        At::SetEndian(EnEx::By(e)) => ex_any(e, pred),
        At::Pre(_, HookK::Val(e)) | At::Post(_, HookK::Val(e)) => ex_any(e, pred),
        At::Parse(UP::Window(e, _, _)) => ex_any(e, pred),
        At::Parse(UP::Call { sel, args, .. }) => sel.iter().any(|e| ex_any(e, pred)) || args.iter().any(|e| ex_any(e, pred)),
        _ => false,
    }
}
