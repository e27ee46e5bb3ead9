//! Types read through the library's own `Parse` implementations from inputs other than a slice (C19).
use crate::rng::Rng;
use crate::schema::*;

fn bx(t: &Ty) -> Box<Ty> { Box::new(t.clone()) }

/// usable as array element without allocation
fn plain(t: &Ty) -> bool {
    match t {
        Ty::P(_) | Ty::Mini | Ty::Only => true,
        Ty::Opt(x) | Ty::Arr(x, _) => plain(x),
        Ty::Pair(a, b) => plain(a) && plain(b),
        _ => false,
    }
}
fn level(t: &Ty) -> u8 {
    match t {
        Ty::Vec(_) => 2,
        Ty::Opt(x) => level(x),
        Ty::Arr(x, _) => if plain(x) { level(x) } else { 2 },
        Ty::Pair(a, b) => level(a).max(level(b)),
        _ => 0,
    }
}

/// one declaration per type: the model reads it as a struct of one field
pub fn build() -> Cat {
    let mut leaf: Vec<Ty> = PRIMS.iter().map(|q| Ty::P(*q)).collect();
    for q in [P::U8, P::U16, P::U32, P::U64] { leaf.push(Ty::Len(q, false)); }
    leaf.extend([Ty::Tok, Ty::Mini, Ty::Only]);
    leaf.extend([Ty::Tok, Ty::Mini, Ty::Only].map(|t| Ty::LenOf(Box::new(t))));
    let mut l = leaf.clone();
    for (k, t) in leaf.iter().enumerate() {
        l.push(Ty::Opt(bx(t)));
        l.push(Ty::Vec(bx(t)));
        l.push(Ty::Arr(bx(t), [0, 1, 2, 3, 5][k % 5]));
        l.push(Ty::Arr(bx(t), [4, 7, 2, 17, 32][k % 5]));
        l.push(Ty::Pair(bx(t), bx(&leaf[(k * 7 + 3) % leaf.len()])));
        l.push(Ty::Pair(bx(&leaf[(k * 5 + 1) % leaf.len()]), bx(t)));
    }
    let mut r = Rng::new(0x726f7065);
    let one = l.len();
    for _ in 0..220 {
        let n = if r.pct(70) { one } else { l.len() };
        let k = r.below(n);
        let a = l[k].clone();
        let b = l[r.below(one)].clone();
        l.push(match r.below(6) { 0 => Ty::Opt(Box::new(a)), 1 | 2 => Ty::Vec(Box::new(a)), 3 => Ty::Arr(Box::new(a), r.below(5)), _ => Ty::Pair(Box::new(a), Box::new(b)) });
    }
    let mut cat = Cat { v: vec![] };
    for t in l {
        let mut s = Schema::new("rope", Body::Struct(Shape::Tuple, vec![Field { name: "_0".into(), ty: t.clone(), attrs: vec![] }]));
        s.name = format!("R{}", cat.v.len());
        s.level = level(&t);
        cat.v.push(s);
    }
    cat
}

/// the type as Rust text, over input `inp`
pub fn text(t: &Ty, inp: &str) -> String {
    match t {
        Ty::P(q) => q.name().into(),
        Ty::Len(q, _) => format!("LengthData<{}, {}>", q.name(), inp),
        Ty::LenOf(t) => format!("LengthData<{}, {}>", text(t, inp), inp),
        Ty::Opt(x) => format!("Option<{}>", text(x, inp)),
        Ty::Vec(x) => format!("Vec<{}>", text(x, inp)),
        Ty::Arr(x, n) => format!("[{}; {}]", text(x, inp), n),
        Ty::Pair(a, b) => format!("({}, {})", text(a, inp), text(b, inp)),
        Ty::Tok => "Tok".into(),
        Ty::Mini => "Mini".into(),
        Ty::Only => "Only".into(),
        _ => unreachable!(),
    }
}

pub fn emit(cat: &Cat, max: u8) -> String {
    let mut o = String::new();
    let mut list = String::new();
    for (k, s) in cat.v.iter().enumerate() {
        if s.level > max { continue; }
        let t = &s.all_fields()[0].ty;
        let (a, b) = (text(t, "&'x [u8]"), text(t, "Rope"));
        o.push_str(&format!("fn e{k}<'x>(fl: Fl, i: &'x [u8], sel: i64, _: &[i64]) -> Out {{ go::<{a}, {b}, Error<&'x [u8]>, Error<Rope>>(fl, i, sel) }}\n"));
        o.push_str(&format!("fn g{k}<'x>(fl: Fl, i: &'x [u8], sel: i64, _: &[i64]) -> Out {{ go::<{a}, {b}, MyErr, MyErr>(fl, i, sel) }}\n"));
        list.push_str(&format!("  ({k}, Entry {{ run: e{k}, run_ge: Some(g{k}) }}),\n"));
    }
    o.push_str(&format!("pub static ENTRIES: &[(usize, Entry)] = &[\n{}];\n", list));
    o
}
