//! Prints schemas as Rust declarations with nom-derive attributes.
use crate::schema::*;
use std::fmt::Write;

struct Cx<'a> {
    cat: &'a Cat,
    s: &'a Schema,
    fields: &'a [Field],
    shape: Shape,
    /// index of the field the attribute belongs to
    cur: usize,
}

pub fn fname(fields: &[Field], shape: Shape, i: usize) -> String {
    if shape == Shape::Tuple { format!("_{}", i) } else { fields[i].name.clone() }
}

impl<'a> Cx<'a> {
    fn input(&self) -> String { self.s.input_name.clone().unwrap_or("i".into()) }
    fn ex(&self, e: &Ex) -> String {
        match e {
            Ex::C(n) if *n < 0 => format!("({}i64)", n),
            Ex::C(n) => format!("{}i64", n),
            Ex::F(i) => format!("({} as i64)", fname(self.fields, self.shape, *i)),
            Ex::FLen(i) => format!("({}.len() as i64)", fname(self.fields, self.shape, *i)),
            Ex::A(i) => format!("({} as i64)", self.s.args[*i].0),
            Ex::Env(k) => format!("rt::env({})", k),
            Ex::Own => if self.cur == usize::MAX { "(s as i64)".into() } else { format!("(*{} as i64)", self.fields[self.cur].name) },
            Ex::OwnLen => {
                let n = &self.fields[self.cur].name;
                match &self.fields[self.cur].ty {
                    Ty::Str => format!("rt::len_str({})", n),
                    Ty::Bytes => format!("rt::len_bytes({})", n),
                    _ => format!("rt::len_vec({})", n),
                }
            }
            Ex::Add(a, b) => format!("{}.wrapping_add({})", self.ex(a), self.ex(b)),
            Ex::Sub(a, b) => format!("{}.wrapping_sub({})", self.ex(a), self.ex(b)),
            Ex::Mul(a, b) => format!("{}.wrapping_mul({})", self.ex(a), self.ex(b)),
            Ex::And(a, b) => format!("({} & {})", self.ex(a), self.ex(b)),
            Ex::Mod(a, b) => format!("{}.rem_euclid({})", self.ex(a), b),
            Ex::InLen => format!("({}.len() as i64)", self.input()),
        }
    }
    fn pr(&self, p: &Pr) -> String {
        match p {
            Pr::True => "true".into(),
            Pr::Cmp(c, a, b) => format!("({} {} {})", self.ex(a), match c { Cmp::Eq => "==", Cmp::Ne => "!=", Cmp::Lt => "<", Cmp::Le => "<=", Cmp::Gt => ">" }, self.ex(b)),
            Pr::And(a, b) => format!("({} && {})", self.pr(a), self.pr(b)),
            Pr::Or(a, b) => format!("({} || {})", self.pr(a), self.pr(b)),
            Pr::Not(a) => format!("!{}", self.pr(a)),
            Pr::Log(id, a) => format!("rt::chk({}, {})", id, self.pr(a)),
        }
    }
    fn num(p: P, be: bool) -> String { format!("{}_{}", if be { "be" } else { "le" }, p.name()) }
    fn flname(f: Fl) -> &'static str { match f { Fl::No => "parse", Fl::Be => "parse_be", Fl::Le => "parse_le" } }
    fn up(&self, u: &UP, al: &mut Aliases) -> String {
        match u {
            UP::Prim(p, be) => format!("nom::number::streaming::{}", Self::num(*p, *be)),
            UP::PrimComplete(p, be) => format!("nom::number::complete::{}", Self::num(*p, *be)),
            UP::U24(be) => format!("nom::number::streaming::{}_u24", if *be { "be" } else { "le" }),
            UP::Tok(f) => format!("Tok::{}", Self::flname(*f)),
            UP::Mini(f) => format!("Mini::{}", Self::flname(*f)),
            UP::Strict => "rt::strict16".into(),
            UP::Rest => "rt::rest".into(),
            UP::Window(n, t, f) => format!("rt::window({} as usize, <{}>::{})", self.ex(n), al.ty(self.cat, t, "'_"), Self::flname(*f)),
            UP::OfTy(t, f) => format!("<{}>::{}", al.ty(self.cat, t, "'_"), Self::flname(*f)),
            UP::OptPrim(p, be) => format!("rt::opt_prim(nom::number::streaming::{})", Self::num(*p, *be)),
            UP::FxPrim(p, be) => format!("rt::fx::{}", Self::num(*p, *be)),
            UP::Call { id, fl, sel, args } => {
                let t = &self.cat.v[*id];
                let mut a = vec!["x".to_string()];
                if let Some(e) = sel { a.push(sel_cons(t, &self.ex(e))); }
                for (e, (_, ty)) in args.iter().zip(&t.args) {
                    a.push(match ty { ArgTy::P(p) => format!("{} as {}", self.ex(e), p.name()), ArgTy::Endian => format!("rt::endian({})", self.ex(e)) });
                }
                format!("{{ |x| {}::{}({}) }}", t.name, Self::flname(*fl), a.join(", "))
            }
        }
    }
    fn en(&self, e: &EnEx) -> String {
        match e {
            EnEx::Env(k) => format!("rt::endian(rt::env({}))", k),
            EnEx::By(x) => format!("rt::endian({})", self.ex(x)),
            EnEx::Arg(i) => self.s.args[*i].0.clone(),
            EnEx::Const(l) => format!("nom::number::Endianness::{}", if *l { "Little" } else { "Big" }),
        }
    }
    fn stmt(&self, id: u32, h: &HookK) -> String {
        let i = self.input();
        match h {
            HookK::Log => format!("rt::hook({}, {}.as_ptr());", id, i),
            HookK::Val(e) => format!("rt::hook_val({}, {}.as_ptr(), {});", id, i, self.ex(e)),
            HookK::Eat(n) => format!("let ({0}, _) = rt::eat({0}, {1})?;", i, n),
            HookK::Try => format!("let ({0}, _) = rt::try_hook({1}, {0})?;", i, id),
        }
    }
    /// attribute name and argument
    fn at(&self, a: &At, al: &mut Aliases) -> (&'static str, Option<String>) {
        match a {
            At::AlignBefore(e) => ("AlignBefore", Some(self.ex(e))),
            At::AlignAfter(e) => ("AlignAfter", Some(self.ex(e))),
            At::SkipBefore(e) => ("SkipBefore", Some(self.ex(e))),
            At::SkipAfter(e) => ("SkipAfter", Some(self.ex(e))),
            At::Move(e) => ("Move", Some(self.ex(e))),
            At::MoveAbs(e) => ("MoveAbs", Some(self.ex(e))),
            At::ErrorIf(p) => ("ErrorIf", Some(self.pr(p))),
            At::Pre(id, h) => ("PreExec", Some(self.stmt(*id, h))),
            At::Post(id, h) => ("PostExec", Some(self.stmt(*id, h))),
            At::SetEndian(e) => ("SetEndian", Some(self.en(e))),
            At::Exact => ("Exact", None),
            At::Tag(b) => ("Tag", Some(format!("b\"{}\"", b.iter().map(|c| format!("\\x{:02x}", c)).collect::<String>()))),
            At::Take(Ex::C(n)) => ("Take", Some(format!("{}", n))),
            At::Take(e) => ("Take", Some(self.ex(e))),
            At::Value(e) => ("Value", Some(format!("({}) as {}", self.ex(e), prim_of(&self.fields[self.cur].ty).name()))),
            At::Parse(u) => ("Parse", Some(self.up(u, al))),
            At::Ignore(d) => (if *d { "Default" } else { "Ignore" }, None),
            At::Complete => ("Complete", None),
            At::Debug => ("Debug", None),
            At::Cond(p, f) => (if *f { "If" } else { "Cond" }, Some(self.pr(p))),
            At::Count(e) => ("Count", Some(self.ex(e))),
            At::Into => ("Into", None),
            At::LengthCount(p, be) => ("LengthCount", Some(format!("nom::number::streaming::{}", Self::num(*p, *be)))),
            At::LengthBy(t, fl) => ("LengthCount", Some(format!("<{}>::{}", al.ty(self.cat, t, "'_"), Self::flname(*fl)))),
            At::Map(MapF::Add(p, k, id)) => ("Map", Some(format!("|x: {0}| {{ rt::mapped({2}); x.wrapping_add({1}i64 as {0}) }}", p.name(), k, id))),
            At::Map(MapF::Cast(p, q, id)) => ("Map", Some(format!("|x: {0}| {{ rt::mapped({2}); x as {1} }}", p.name(), q.name(), id))),
            At::Map(MapF::Wrap(p, id)) => ("Map", Some(format!("|x: {0}| {{ rt::mapped({1}); W(x) }}", p.name(), id))),
            At::Verify(p) => ("Verify", Some(self.pr(p))),
            At::Be => ("BigEndian", None),
            At::Le => ("LittleEndian", None),
        }
    }
    fn attrs(&self, v: &[At], mut style: u64, extra: &[(&'static str, String)], al: &mut Aliases) -> String {
        let mut items = vec![];
        for (n, a) in extra {
            let t = style & 1 == 1; style = style.rotate_right(1);
            items.push(if t && *n != "ExtraArgs" && *n != "(" { format!("{} = {:?}", n, a) } else { format!("{}({})", n, a) });
        }
        for a in v {
            let (n, arg) = self.at(a, al);
            let t = style & 1 == 1; style = style.rotate_right(1);
            items.push(match arg { None => n.to_string(), Some(x) if t => format!("{} = {:?}", n, x), Some(x) => format!("{}({})", n, x) });
        }
        if items.is_empty() { return String::new(); }
        let mut out = String::new();
        if style & 4 == 4 {
            for x in items { let _ = write!(out, "#[nom({})] ", x); }
        } else {
            let _ = write!(out, "#[nom({})] ", items.join(", "));
        }
        out
    }
}

fn prim_of(t: &Ty) -> P {
    match t { Ty::P(p) => *p, Ty::Opt(x) | Ty::Vec(x) => prim_of(x), _ => P::U32 }
}

fn sel_ty(s: &Schema) -> String {
    match &s.body {
        Body::Enum { sel, newtype: false, .. } => sel.name().into(),
        Body::Enum { sel, .. } => format!("Sel{}", sel.name().to_uppercase()),
        _ => unreachable!(),
    }
}
fn sel_cons(s: &Schema, e: &str) -> String {
    match &s.body {
        Body::Enum { sel, newtype: false, .. } => format!("({}) as {}", e, sel.name()),
        Body::Enum { sel, .. } => format!("Sel(({}) as {})", e, sel.name()),
        _ => unreachable!(),
    }
}

#[derive(Default)]
pub struct Aliases { out: String, seen: Vec<(String, String)> }
impl Aliases {
    pub fn ty(&mut self, cat: &Cat, t: &Ty, lt: &str) -> String {
        match t {
            Ty::P(p) => p.name().into(),
            Ty::Str => "String".into(),
            Ty::Bytes => format!("&{} [u8]", lt),
            Ty::Len(p, true) => format!("LengthData{}<{}>", p.name().to_uppercase(), lt),
            Ty::Len(p, false) => format!("LengthData<{}, &{} [u8]>", p.name(), lt),
            Ty::LenOf(t) => format!("LengthData<{}, &{} [u8]>", self.ty(cat, t, lt), lt),
            Ty::Opt(x) => format!("Option<{}>", self.ty(cat, x, lt)),
            Ty::Vec(x) => format!("Vec<{}>", self.ty(cat, x, lt)),
            Ty::Arr(x, n) => format!("[{}; {}]", self.ty(cat, x, lt), n),
            Ty::Pair(a, b) => {
                let br = cat.borrows(t);
                let body = format!("({}, {})", self.ty(cat, a, "'a"), self.ty(cat, b, "'a"));
                let name = match self.seen.iter().find(|x| x.0 == body) {
                    Some(x) => x.1.clone(),
                    None => {
                        let n = format!("Pair{}", self.seen.len());
                        let _ = writeln!(self.out, "pub type {}{} = {};", n, if br { "<'a>" } else { "" }, body);
                        self.seen.push((body, n.clone()));
                        n
                    }
                };
                if br { format!("{}<{}>", name, lt) } else { name }
            }
            Ty::Ref(i) => schema_ty(cat, *i, lt, self),
            Ty::Tok => "Tok".into(),
            Ty::Mini => "Mini".into(),
            Ty::Only => "Only".into(),
            Ty::Nat => "Nat".into(),
            Ty::Phantom => "PhantomData<u16>".into(),
            Ty::W(p) => format!("W<{}>", p.name()),
            Ty::Param => "T".into(),
        }
    }
}

fn schema_ty(cat: &Cat, i: Id, lt: &str, al: &mut Aliases) -> String {
    let s = &cat.v[i];
    let mut g = vec![];
    if cat.schema_borrows(i) { g.push(lt.to_string()); }
    if let Some(t) = &s.generic { g.push(al.ty(cat, t, lt)); }
    if g.is_empty() { s.name.clone() } else { format!("{}<{}>", s.name, g.join(", ")) }
}

/// the name the declaration gives to the lifetime of its input
fn lifetime(s: &Schema) -> &'static str { ["'a", "'a", "'data", "'b", "'i", "'a", "'input", "'x"][(s.style >> 21 & 7) as usize] }

fn fields_decl(cx0: &Cx, al: &mut Aliases) -> String {
    let mut out = String::new();
    for (k, f) in cx0.fields.iter().enumerate() {
        let cx = Cx { cat: cx0.cat, s: cx0.s, fields: cx0.fields, shape: cx0.shape, cur: k };
        let mut a = cx.attrs(&f.attrs, cx.s.style.rotate_left(k as u32 * 7 + 3), &[], al);
        // attributes that are not ours, before and between
        match cx.s.style.rotate_left(k as u32 * 3 + 1) >> 7 & 15 {
            0 => a = format!("/// field {}\n    {}", k, a),
            1 => a = format!("#[allow(dead_code)] {}", a),
            2 => a = format!("{}#[cfg(all())] ", a),
            _ => {}
        }
        let ty = al.ty(cx.cat, &f.ty, lifetime(cx.s));
        if cx.shape == Shape::Named { let _ = writeln!(out, "    {}pub {}: {},", a, f.name, ty); } else { let _ = writeln!(out, "    {}{},", a, ty); }
    }
    out
}

pub fn decl(cat: &Cat, id: Id, al: &mut Aliases) -> String {
    let s = &cat.v[id];
    let mut o = String::new();
    let top = Cx { cat, s, fields: &[], shape: Shape::Unit, cur: usize::MAX };
    let mut extra: Vec<(&'static str, String)> = vec![];
    if let Body::Enum { .. } = s.body { extra.push(("Selector", sel_ty(s))); }
    if !s.args.is_empty() {
        extra.push(("ExtraArgs", s.args.iter().map(|(n, t)| format!("{}: {}", n, match t { ArgTy::P(p) => p.name(), ArgTy::Endian => "Endianness" })).collect::<Vec<_>>().join(", ")));
    }
    if let Some(n) = &s.input_name { extra.push(("InputName", n.clone())); }
    let derive = match s.derive { Derive::Nom => "Nom", Derive::Be => "NomBE", Derive::Le => "NomLE" };
    let _ = writeln!(o, "#[derive({})]", derive);
    let mut flags = vec![];
    if s.ge { flags.push("GenericErrors"); }
    if s.complete { flags.push("Complete"); }
    if s.debug { flags.push("Debug"); }
    if !flags.is_empty() { let _ = writeln!(o, "#[nom({})]", flags.join(", ")); }
    let ta = top.attrs(&s.top, s.style, &extra, al);
    if !ta.is_empty() { let _ = writeln!(o, "{}", ta); }
    let mut g = vec![];
    let br = cat.schema_borrows(id);
    if br { g.push(lifetime(s)); }
    if s.generic.is_some() { g.push("T"); }
    let gs = if g.is_empty() { String::new() } else { format!("<{}>", g.join(", ")) };
    let mut gi = vec![];
    if br { gi.push(lifetime(s)); }
    if s.generic.is_some() { gi.push("T: ToVal"); }
    let gis = if gi.is_empty() { String::new() } else { format!("<{}>", gi.join(", ")) };
    let mut tv = String::new();
    match &s.body {
        Body::Struct(shape, fields) => {
            let cx = Cx { cat, s, fields, shape: *shape, cur: usize::MAX };
            let fd = fields_decl(&cx, al);
            match shape {
                Shape::Named => { let _ = writeln!(o, "pub struct {}{} {{\n{}}}", s.name, gs, fd); }
                Shape::Tuple => { let _ = writeln!(o, "pub struct {}{} (\n{});", s.name, gs, fd); }
                Shape::Unit => { let _ = writeln!(o, "pub struct {}{};", s.name, gs); }
            }
            let l: Vec<String> = fields.iter().enumerate().map(|(k, f)| format!("self.{}.to_val(b__)", if *shape == Shape::Tuple { k.to_string() } else { f.name.clone() })).collect();
            let _ = write!(tv, "Val::R(vec![{}])", l.join(", "));
        }
        Body::Enum { variants, newtype, sel } => {
            let mut consts = String::new();
            let _ = writeln!(o, "pub enum {}{} {{", s.name, gs);
            tv.push_str("match self {");
            for (vi, v) in variants.iter().enumerate() {
                let cx = Cx { cat, s, fields: &v.fields, shape: v.shape, cur: usize::MAX };
                let wrap = |x: String| if *newtype { format!("Sel({})", x) } else { x };
                let mut only_paren = false;
                let st = s.style.rotate_left(vi as u32 * 5 + 11);
                let lit = |n: i64| if n >= 0 && st & 32 == 32 { format!("{:#x}", n) } else { n.to_string() };
                // the guard looks at the selector: the pattern binds it
                let at = v.guard.as_ref().map_or(false, |g| pr_any(g, &|e| matches!(e, Ex::Own)));
                let bind = |x: String, alt: bool| if !at { x } else if alt { format!("s @ ({})", x) } else { format!("s @ {}", x) };
                let mut pat = match &v.pat {
                    Pat::Wild => "_".to_string(),
                    Pat::Lit(n) if st & 128 == 128 => {
                        let _ = writeln!(consts, "pub const KONST_{}_{}: {} = {};", s.name, vi, sel.name(), n);
                        wrap(bind(format!("KONST_{}_{}", s.name, vi), false))
                    }
                    Pat::Lit(n) => wrap(bind(lit(*n), false)),
                    Pat::Range(a, b) if st & 64 == 64 && *b < 250 && *b > *a => wrap(bind(format!("{}..{}", lit(*a), lit(*b + 1)), false)),
                    Pat::Range(a, b) => wrap(bind(format!("{}..={}", lit(*a), lit(*b)), false)),
                    Pat::From(a) => wrap(bind(format!("{}..", lit(*a)), false)),
                    Pat::To(a) => wrap(bind(format!("..={}", lit(*a)), false)),
                    Pat::Or(l) => { if !*newtype { only_paren = true; } wrap(bind(l.iter().map(|x| lit(*x)).collect::<Vec<_>>().join(" | "), true)) }
                    // (a binding nobody looks at may have any name)
                    Pat::Bind if v.guard.is_none() => wrap(["s", "other", "_rest", "n", "_0", "x1", "kind", "_s"][(st >> 16 & 7) as usize].into()),
                    Pat::Bind => wrap("s".into()),
                };
                if let Some(g) = &v.guard { pat = format!("{} if {}", pat, cx.pr(g)); }
                let sela = if only_paren || st & 2 == 2 { format!("#[nom(Selector({}))]", pat) } else { format!("#[nom(Selector = {:?})]", pat) };
                let ua = cx.attrs(&v.unit, st, &[], al);
                let fd = fields_decl(&cx, al);
                match v.shape {
                    Shape::Unit => { let _ = writeln!(o, "  {} {} {},", sela, ua, v.name); let _ = write!(tv, "{}::{} => Val::V({}, vec![]),", s.name, v.name, vi); }
                    Shape::Named => {
                        let _ = writeln!(o, "  {} {} {{\n{}  }},", sela, v.name, fd.replace("pub ", ""));
                        let n: Vec<_> = v.fields.iter().map(|f| f.name.clone()).collect();
                        let _ = write!(tv, "{}::{}{{ {} }} => Val::V({}, vec![{}]),", s.name, v.name, n.join(", "), vi, n.iter().map(|x| format!("{}.to_val(b__)", x)).collect::<Vec<_>>().join(", "));
                    }
                    Shape::Tuple => {
                        let _ = writeln!(o, "  {} {} (\n{}  ),", sela, v.name, fd);
                        let n: Vec<_> = (0..v.fields.len()).map(|k| format!("f{}", k)).collect();
                        let _ = write!(tv, "{}::{}( {} ) => Val::V({}, vec![{}]),", s.name, v.name, n.join(", "), vi, n.iter().map(|x| format!("{}.to_val(b__)", x)).collect::<Vec<_>>().join(", "));
                    }
                }
            }
            let _ = writeln!(o, "}}");
            o.push_str(&consts);
            tv.push('}');
        }
        Body::Fieldless { repr, variants } => {
            let _ = writeln!(o, "#[repr({})]\n#[derive(Clone, Copy)]\npub enum {} {{", repr.name(), s.name);
            tv.push_str("match self {");
            for (k, (n, d)) in variants.iter().enumerate() {
                // a discriminant may be left to the compiler; not too many in a row, because rustc itself
                // adds their number in the type of the discriminant, which overflows for i8 after 127
                let next = if k == 0 { 0 } else { variants[k - 1].1.wrapping_add(1) };
                let implied = *d == next && k % 64 != 0 || k == 0 && *d == 0; let implied = implied && s.style >> 9 & 1 == 1;
                if implied { let _ = writeln!(o, "  {},", n); }
                else if *d >= 0 && s.style >> 10 & 1 == 1 { let _ = writeln!(o, "  {} = {:#x},", n, d); }
                else { let _ = writeln!(o, "  {} = {},", n, d); }
                let _ = write!(tv, "{}::{} => Val::V({}, vec![]),", s.name, n, k);
            }
            let _ = writeln!(o, "}}");
            tv.push('}');
        }
    }
    let _ = writeln!(o, "impl{} ToVal for {}{} {{ fn to_val(&self, b__: usize) -> Val {{ let _ = b__; {} }} }}", gis, s.name, gs, tv);
    o
}

fn entry(cat: &Cat, id: Id, e: &str, suffix: &str, al: &mut Aliases) -> String {
    let s = &cat.v[id];
    let mut args = vec!["i".to_string()];
    if let Body::Enum { .. } = s.body { args.push(sel_cons(s, "sel")); }
    for (k, (_, t)) in s.args.iter().enumerate() {
        args.push(match t { ArgTy::P(p) => format!("a[{}] as {}", k, p.name()), ArgTy::Endian => format!("rt::endian(a[{}])", k) });
    }
    let a = args.join(", ");
    let ty = schema_ty(cat, id, "'x", al);
    let call = if s.generic.is_some() { format!("<{}>", schema_ty(cat, id, "'_", al)) } else { s.name.clone() };
    format!("fn e{0}{4}<'x>(fl: Fl, i: &'x [u8], sel: i64, a: &[i64]) -> Out {{ let _ = (sel, a); let r: nom::IResult<&'x [u8], {1}, {2}> = match fl {{ Fl::No => {5}::parse({3}), Fl::Be => {5}::parse_be({3}), Fl::Le => {5}::parse_le({3}) }}; rt::finish(i, r) }}\n", id, ty, e, a, suffix, call)
}

/// the declarations of one shard and all they refer to
pub fn emit(cat: &Cat, level: u8, shard: usize, shards: usize) -> String {
    let mut al = Aliases::default();
    let mut body = String::new();
    let mine: Vec<Id> = (0..cat.v.len()).filter(|i| i % shards == shard && cat.v[*i].level <= level).collect();
    let mut need = vec![false; cat.v.len()];
    let mut todo = mine.clone();
    while let Some(i) = todo.pop() { if !need[i] { need[i] = true; todo.extend(cat.used(i)); } }
    for id in 0..cat.v.len() {
        if !need[id] { continue; }
        let _ = writeln!(body, "// declaration {}", id);
        body.push_str(&decl(cat, id, &mut al));
        if mine.contains(&id) {
            body.push_str(&entry(cat, id, "nom::error::Error<&'x [u8]>", "", &mut al));
            if cat.v[id].ge { body.push_str(&entry(cat, id, "rt::MyErr", "g", &mut al)); }
        }
        body.push('\n');
    }
    let mut o = String::from("use ndsim_core::rt::{self, Tok, Mini, Only, Nat, W, Sel, SelU8, SelU16, SelU32, SelU64, SelI16, SelI32, Out, Val, ToVal};\nuse ndsim_core::schema::Fl;\nuse nom_derive::*;\nuse nom::Parser;\nuse nom::number::Endianness;\nuse core::marker::PhantomData;\n\n");
    o.push_str(&al.out);
    o.push_str(&body);
    let _ = writeln!(o, "pub static ENTRIES: &[(usize, ndsim_core::Entry)] = &[");
    for id in mine {
        let _ = writeln!(o, "  ({0}, ndsim_core::Entry {{ run: e{0}, run_ge: {1} }}),", id, if cat.v[id].ge { format!("Some(e{}g)", id) } else { "None".into() });
    }
    let _ = writeln!(o, "];");
    o
}
