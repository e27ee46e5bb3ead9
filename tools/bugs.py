# Planted bugs (see seed.py). Written from the property texts and the code.
TR = 'src/traits.rs'
G = 'nom-derive-impl/src/'
PRE = '''
use nom_derive::*;
use nom::IResult;
type E<'a> = nom::error::Error<&'a [u8]>;
'''

B('B01', 'C06', 'an optional little-endian value, torn inside its bytes',
  'Option<T>::parse_le asks for more input for a torn value instead of being absent',
  [(TR, 'opt(complete(<T>::parse_le)).parse(i)', 'opt(<T>::parse_le).parse(i)')],
  PRE + """
fn main() {
    let r: IResult<&[u8], Option<u16>, E> = <Option<u16>>::parse_le(&[1]);
    assert_eq!(r.expect("absent"), (&[1u8][..], None));
    let r: IResult<&[u8], Option<u16>, E> = <Option<u16>>::parse_le(&[1, 0]);
    assert_eq!(r.unwrap().1, Some(1));
}
""")

B('B02', 'C01', 'a segment boundary inside the bytes of a tag',
  'a partially received tag is an error instead of a request for more input',
  [(G + 'parsertree.rs', 'quote! { nom::bytes::streaming::tag(&#s[..]) }', 'quote! { nom::bytes::complete::tag(&#s[..]) }')],
  PRE + '''
#[derive(Nom, Debug)]
struct S<'a> { a: u8, #[nom(Tag(b"MAGIC"))] t: &'a [u8], b: u8 }
fn main() {
    let whole = b"\\x01MAGIC\\x02";
    for n in 0..whole.len() {
        match S::parse(&whole[..n]) { Err(nom::Err::Incomplete(_)) => (), x => panic!("{} {:?}", n, x) }
    }
    let (_, s) = S::parse(whole).unwrap();
    assert_eq!((s.a, s.t, s.b), (1, &b"MAGIC"[..], 2));
}
''')

B('B03', 'C02', 'a String cut after its length, with part of its text received',
  'a partially received String requests its whole length instead of the missing bytes',
  [(TR, '''        let (rem, s) = map_res(take(sz as usize), core::str::from_utf8).parse(rem)?;
        Ok((rem, s.to_owned()))
    }
}

impl<T, I, E> Parse''', '''        if rem.len() < sz as usize {
            return Err(Err::Incomplete(Needed::new(sz as usize)));
        }
        let (rem, s) = map_res(take(sz as usize), core::str::from_utf8).parse(rem)?;
        let s: &str = s;
        Ok((rem, String::from(s)))
    }
}

impl<T, I, E> Parse'''),
   ('src/traits.rs', 'use alloc::{borrow::ToOwned, string::String, vec::Vec};', 'use alloc::{string::String, vec::Vec};')],
  PRE + '''
fn main() {
    let r: IResult<&[u8], String, E> = <String>::parse(b"\\0\\0\\0\\x05abc");
    match r { Err(nom::Err::Incomplete(nom::Needed::Size(n))) => assert_eq!(n.get(), 2), x => panic!("{:?}", x) }
}
''')

B('B04', 'C09', 'a String whose claimed length is far beyond the input',
  'String reserves its claimed length before looking at the input',
  [(TR, '''        let (rem, s) = map_res(take(sz as usize), core::str::from_utf8).parse(rem)?;
        Ok((rem, s.to_owned()))
    }
}

impl<T, I, E> Parse''', '''        let mut out = String::with_capacity(sz as usize);
        let (rem, s) = map_res(take(sz as usize), core::str::from_utf8).parse(rem)?;
        out.push_str(s);
        Ok((rem, out))
    }
}

impl<T, I, E> Parse'''),
   ('src/traits.rs', 'use alloc::{borrow::ToOwned, string::String, vec::Vec};', 'use alloc::{string::String, vec::Vec};')],
  PRE + '''
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static GA: A = A;
fn main() {
    MAX.store(0, Ordering::SeqCst);
    let r: IResult<&[u8], String, E> = <String>::parse(b"\\x10\\0\\0\\0abc");
    let m = MAX.load(Ordering::SeqCst);
    assert!(r.is_err());
    assert!(m < 1 << 20, "requested {}", m);
}
''')

B('B05', 'C08', 'PreExec or PostExec declared after a skip, alignment or move of the same field',
  'user statements run before the positioning declared ahead of them, so they see another position',
  [(G + 'structs.rs', '''            MetaAttrType::PreExec => {
                tk_pre.extend(m.arg().unwrap().clone());
            }
            MetaAttrType::PostExec => {
                tk_post.extend(m.arg().unwrap().clone());
            }''', '''            MetaAttrType::PreExec => {
                let mut user = m.arg().unwrap().clone();
                user.extend(tk_pre);
                tk_pre = user;
            }
            MetaAttrType::PostExec => {
                let mut user = m.arg().unwrap().clone();
                user.extend(tk_post);
                tk_post = user;
            }''')],
  PRE + '''
use std::cell::RefCell;
thread_local!(static LOG: RefCell<Vec<usize>> = RefCell::new(vec![]));
fn log(n: usize) { LOG.with(|l| l.borrow_mut().push(n)) }
#[derive(Nom)]
#[allow(dead_code)]
struct S { a: u8, #[nom(SkipBefore(2), PreExec = "log(i.len());", SkipAfter(1), PostExec = "log(i.len());")] b: u8 }
fn main() {
    S::parse(&[0; 8]).unwrap();
    LOG.with(|l| assert_eq!(*l.borrow(), [5, 3]));
}
''')

B('B06', 'C13', 'a field converted with Into and no byte order of its own, read through parse_le',
  'Into fields ignore the byte order called for',
  [(G + 'parsertree.rs', '''            ParserExpr::Into(expr) => ParserExpr::Into(expr.with_endianness(endianness).into()),
''', '')],
  PRE + '''
#[derive(Debug, PartialEq)]
struct W(u16);
impl From<u16> for W { fn from(x: u16) -> W { W(x) } }
#[derive(Nom)]
struct S { a: u16, #[nom(Into, Parse = "X::parse")] b: u32, #[nom(Into)] c: u16 }
struct X;
impl X { fn parse(i: &[u8]) -> IResult<&[u8], u32> { nom::number::streaming::be_u32(i) } }
fn main() {
    let (_, s) = S::parse_le(&[1, 2, 0, 0, 0, 7, 3, 4]).unwrap();
    assert_eq!((s.a, s.b, s.c), (0x201, 7, 0x403));
    let _ = W(1);
}
''')

B('B07', 'C13', 'a pair whose second half has more than one byte, read little-endian',
  'the second half of a pair is read with the plain entry point, big-endian',
  [(TR, 'pair(T1::parse_le, T2::parse_le).parse(i)', 'pair(T1::parse_le, T2::parse).parse(i)')],
  PRE + '''
fn main() {
    let r: IResult<&[u8], (u16, u16), E> = <(u16, u16)>::parse_le(&[1, 0, 2, 0]);
    assert_eq!(r.unwrap().1, (1, 2));
}
''')

B('B08', 'C14', 'a number on the wire that matches no variant of an enumeration without selector',
  'the error is positioned behind the number, so the receiver cannot skip or retry from the start of the value',
  [(G + 'gen/fieldless_enums.rs', 'make_error(#orig_input, nom::error::ErrorKind::Switch)', 'make_error(#input, nom::error::ErrorKind::Switch)')],
  PRE + '''
#[derive(Nom, Debug, PartialEq, Eq, Clone, Copy)]
#[repr(u16)]
enum K { A = 1, B = 2 }
fn main() {
    let d = [0u8, 9, 1, 1];
    match K::parse(&d) { Err(nom::Err::Error(e)) => assert_eq!(e.input.len(), 4), x => panic!("{:?}", x) }
    assert_eq!(K::parse(&[0, 2]).unwrap().1, K::B);
    assert_eq!(K::parse(&[0, 1]).unwrap().1, K::A);
}
''')

B('B09', 'C07', 'an unrecoverable failure raised inside an optional value',
  'Option<T>::parse_be answers None for a failure of its nested parser',
  [(TR, 'opt(complete(<T>::parse_be)).parse(i)', '''match <T>::parse_be(i.clone()) {
            Ok((rem, v)) => Ok((rem, Some(v))),
            Err(_) => Ok((i, None)),
        }''')],
  PRE + '''
#[derive(Debug)]
struct F(u8);
impl<'a> Parse<&'a [u8], E<'a>> for F {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], F> {
        let (r, b) = <u8>::parse(i)?;
        if b == 7 { return Err(nom::Err::Failure(nom::error::make_error(i, nom::error::ErrorKind::Fail))); }
        if b == 8 { return Err(nom::Err::Error(nom::error::make_error(i, nom::error::ErrorKind::Char))); }
        Ok((r, F(b)))
    }
}
fn main() {
    let some = <Option<F>>::parse_be(&[1]).unwrap().1.unwrap();
    assert_eq!(some.0, 1);
    assert!(<Option<F>>::parse_be(&[8]).unwrap().1.is_none());
    assert!(<Option<F>>::parse_be(&[]).unwrap().1.is_none());
    assert!(matches!(<Option<F>>::parse_be(&[7]), Err(nom::Err::Failure(_))));
}
''')

B('B10', 'C07', 'an unrecoverable failure raised by a later element of an unbounded sequence',
  'Vec<T>::parse_be ends the sequence at a failure as if it were the end of the elements',
  [(TR, 'many0(complete(<T>::parse_be)).parse(i)', '''let mut v = Vec::new();
        let mut i = i;
        loop {
            match complete(<T>::parse_be).parse(i.clone()) {
                Ok((rem, _)) if rem == i => {
                    return Err(Err::Error(E::from_error_kind(i, error::ErrorKind::Many0)))
                }
                Ok((rem, x)) => {
                    i = rem;
                    v.push(x);
                }
                Err(e) if v.is_empty() && !matches!(e, Err::Error(_)) => return Err(e),
                Err(_) => return Ok((i, v)),
            }
        }''')],
  PRE + '''
#[derive(Debug)]
struct F(u8);
impl<'a> Parse<&'a [u8], E<'a>> for F {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], F> {
        let (r, b) = <u8>::parse(i)?;
        if b == 7 { return Err(nom::Err::Failure(nom::error::make_error(i, nom::error::ErrorKind::Fail))); }
        Ok((r, F(b)))
    }
}
fn main() {
    let (r, v) = <Vec<F>>::parse_be(&[1, 2]).unwrap();
    assert_eq!((r.len(), v.iter().map(|x| x.0).sum::<u8>()), (0, 3));
    assert!(matches!(<Vec<F>>::parse_be(&[7]), Err(nom::Err::Failure(_))));
    assert!(matches!(<Vec<F>>::parse_be(&[1, 2, 7, 3]), Err(nom::Err::Failure(_))));
}
''')

B('B11', 'C05', 'a LengthCount field declared complete and cut inside its length',
  'completeness is pushed down to the elements of a LengthCount and lost for its length',
  [(G + 'parsertree.rs', '''        ParserExpr::Complete(Box::new(self))
''', '''        match self {
            // the elements decide: no need for another level around the whole expression
            ParserExpr::LengthCount(e, n) => ParserExpr::LengthCount(e.complete().into(), n),
            ParserExpr::Count(e, n) => ParserExpr::Count(e.complete().into(), n),
            e => ParserExpr::Complete(Box::new(e)),
        }
''')],
  PRE + '''
#[derive(Nom, Debug)]
#[nom(Complete)]
struct S { a: u8, #[nom(LengthCount = "nom::number::streaming::be_u16")] v: Vec<u16>, #[nom(Count = "a")] w: Vec<u16> }
fn main() {
    let d = [1u8, 0, 2, 0, 1, 0, 2, 9, 9];
    for n in 0..d.len() {
        match S::parse(&d[..n]) { Err(nom::Err::Error(_)) => (), x => panic!("{} {:?}", n, x) }
    }
    let (r, s) = S::parse(&d).unwrap();
    assert_eq!((r.len(), s.a, s.v, s.w), (0, 1, vec![1, 2], vec![0x909]));
}
''')

B('B12', 'C12', 'earlier parses of a sequence that ended in a failure, any thread',
  'a nesting limit counts sequences in progress in a global counter that is not released when an element fails: later parses are refused',
  [(TR, 'many0(complete(<T>::parse)).parse(i)', '''// limit nesting
        use core::sync::atomic::{AtomicUsize, Ordering};
        static DEPTH: AtomicUsize = AtomicUsize::new(0);
        if DEPTH.fetch_add(1, Ordering::SeqCst) >= 64 {
            DEPTH.fetch_sub(1, Ordering::SeqCst);
            return Err(Err::Failure(E::from_error_kind(i, error::ErrorKind::TooLarge)));
        }
        let r = many0(complete(<T>::parse)).parse(i)?;
        DEPTH.fetch_sub(1, Ordering::SeqCst);
        Ok(r)''')],
  PRE + '''
#[derive(Debug)]
struct F(u8);
impl<'a> Parse<&'a [u8], E<'a>> for F {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], F> {
        let (r, b) = <u8>::parse(i)?;
        if b == 7 { return Err(nom::Err::Failure(nom::error::make_error(i, nom::error::ErrorKind::Fail))); }
        Ok((r, F(b)))
    }
}
fn main() {
    for _ in 0..200 {
        assert!(matches!(<Vec<F>>::parse(&[1, 7]), Err(nom::Err::Failure(_))));
        let (r, v) = <Vec<F>>::parse(&[1, 2]).expect("as before");
        assert_eq!((r.len(), v.iter().map(|x| x.0).sum::<u8>()), (0, 3));
    }
}
''')

B('B13', 'C10', 'an array read with parse_le whose later element ends in an error or in missing bytes',
  'the elements of the array already built are leaked',
  [(TR, '''            Self::try_from(v)
        })
        .parse(i)
    }
    fn parse_le(i: I) -> IResult<I, Self, E> {
''', '''            Self::try_from(v)
        })
        .parse(i)
    }
    fn parse_le(i: I) -> IResult<I, Self, E> {
        // elements are moved out below
        let mut v = core::mem::ManuallyDrop::new(Vec::with_capacity(0));
        let start = i.clone();
        let mut i = i;
        for _ in 0..N {
            let (rem, x) = <T>::parse_le(i)?;
            i = rem;
            v.push(x);
        }
        let v = core::mem::ManuallyDrop::into_inner(v);
        return match Self::try_from(v) {
            Ok(a) => Ok((i, a)),
            Err(v) => Err(Err::Error(E::from_external_error(start, error::ErrorKind::MapRes, v))),
        };
        #[allow(unreachable_code)]
'''), (TR, '''            Self::try_from(v)
        })
        .parse(i)
    }
}
''', '''            Self::try_from(v) })
        .parse(i)
    }
}
''')],
  PRE + '''
use std::sync::atomic::*;
static LIVE: AtomicIsize = AtomicIsize::new(0);
#[derive(Debug)]
struct F(#[allow(dead_code)] u8);
impl Drop for F { fn drop(&mut self) { LIVE.fetch_sub(1, Ordering::SeqCst); } }
impl<'a> Parse<&'a [u8], E<'a>> for F {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], F> {
        let (r, b) = <u8>::parse(i)?;
        LIVE.fetch_add(1, Ordering::SeqCst);
        Ok((r, F(b)))
    }
}
#[derive(Nom, Debug)]
struct S { #[allow(dead_code)] a: [F2; 3] }
type F2 = u8;
fn main() {
    let _ = S::parse(&[1, 2, 3]);
    // the error type must hold the elements
    let r: IResult<&[u8], [u8; 3], E> = <[u8; 3]>::parse_le(&[1, 2]);
    assert!(matches!(r, Err(nom::Err::Incomplete(_))));
    {
        let r: IResult<&[u8], [F; 3], E> = <[F; 3]>::parse_le(&[1, 2]);
        assert!(matches!(r, Err(nom::Err::Incomplete(_))));
    }
    assert_eq!(LIVE.load(Ordering::SeqCst), 0);
    {
        let r: IResult<&[u8], [F; 3], E> = <[F; 3]>::parse_le(&[1, 2, 3]);
        assert!(r.is_ok());
        assert_eq!(LIVE.load(Ordering::SeqCst), 3);
    }
    assert_eq!(LIVE.load(Ordering::SeqCst), 0);
}
''')

B('B14', 'C04', 'a damaged tag byte that differs from the declared one only by letter case',
  'tags are compared without regard to letter case',
  [(G + 'parsertree.rs', 'quote! { nom::bytes::streaming::tag(&#s[..]) }', 'quote! { nom::bytes::streaming::tag_no_case(&#s[..]) }')],
  PRE + '''
#[derive(Nom, Debug)]
struct S<'a> { #[allow(dead_code)] #[nom(Tag(b"RIFF"))] t: &'a [u8] }
fn main() {
    assert!(S::parse(b"RIFF").is_ok());
    assert!(matches!(S::parse(b"RiFF"), Err(nom::Err::Error(_))));
}
''')

B('B15', 'C04', 'a String whose bytes are not UTF-8',
  'invalid text is accepted with replacement characters',
  [(TR, '''        let (rem, s) = map_res(take(sz as usize), core::str::from_utf8).parse(rem)?;
        Ok((rem, s.to_owned()))
    }
}

impl<T, I, E> Parse''', '''        let (rem, s) = take(sz as usize).parse(rem)?;
        Ok((rem, String::from_utf8_lossy(s).into_owned()))
    }
}

impl<T, I, E> Parse'''),
   ('src/traits.rs', 'use alloc::{borrow::ToOwned, string::String, vec::Vec};', 'use alloc::{string::String, vec::Vec};')],
  PRE + '''
fn main() {
    let r: IResult<&[u8], String, E> = <String>::parse(b"\\0\\0\\0\\x02\\xff\\xfe");
    assert!(matches!(r, Err(nom::Err::Error(_))));
    let r: IResult<&[u8], String, E> = <String>::parse(b"\\0\\0\\0\\x02ab");
    assert_eq!(r.unwrap().1, "ab");
}
''')

B('B16', 'C11', 'a struct with type-level user code that consumes bytes and a field-level alignment or move',
  'positions of the fields are computed from the position behind the bytes consumed by the type-level code, not from the start of the record',
  [(G + 'gen/structs.rs', """            let #input = #orig_input;
            #tl_pre
""", """            let #input = #orig_input;
            #tl_pre ;
            let #start_input = #input;
""")],
  PRE + """
#[derive(Nom, Debug)]
#[nom(PreExec(let (i, _) = nom::bytes::streaming::take(1usize)(i)?;))]
struct S { a: u8, #[nom(AlignBefore(4))] b: u8, #[nom(MoveAbs(1))] c: u8 }
fn main() {
    let (r, s) = <S as Parse<_>>::parse(&[0, 1, 2, 3, 4, 5, 6, 7]).unwrap();
    assert_eq!((s.a, s.b, s.c, r.len()), (1, 4, 1, 6));
}
""")

B('B17', 'C15', 'a traced field of more than one byte without a byte order of its own, read through parse_le',
  'a traced field ignores the byte order called for',
  [(G + 'parsertree.rs', """            ParserExpr::DbgDmp(expr, i) => {
                ParserExpr::DbgDmp(expr.with_endianness(endianness).into(), i.clone())
            }
""", '')],
  PRE + """
#[derive(Nom, Debug)]
struct S { a: u16, #[nom(Debug)] b: u32 }
fn main() {
    let s = <S as Parse<_>>::parse_le(&[1, 0, 2, 0, 0, 0]).unwrap().1;
    assert_eq!((s.a, s.b), (1, 2));
}
""")

B('B18', 'C16', 'an array of more than one byte per element, read with parse_le in a build without allocation',
  'arrays are read big-endian in that build only',
  [(TR, 'let r = fill(<T>::parse_le, &mut o).parse(i);', 'let r = fill(<T>::parse, &mut o).parse(i);')],
  PRE + '''
fn main() {
    let r: IResult<&[u8], [u16; 2], E> = <[u16; 2]>::parse_le(&[1, 0, 2, 0]);
    assert_eq!(r.unwrap().1, [1, 2]);
}
''', nomf=', default-features = false', ndf=', default-features = false')

B('B19', 'C03', 'an unbounded sequence of elements one of which consumes nothing for some input',
  'an element that consumes nothing makes the sequence grow without end',
  [(TR, 'many0(complete(<T>::parse_be)).parse(i)', '''let mut v = Vec::new();
        let mut i = i;
        loop {
            match complete(<T>::parse_be).parse(i.clone()) {
                Ok((rem, x)) => {
                    i = rem;
                    v.push(x);
                }
                Err(Err::Error(_)) => return Ok((i, v)),
                Err(e) => return Err(e),
            }
        }''')],
  PRE + '''
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(5)); std::process::exit(9) });
    #[derive(Nom, Debug)]
    #[allow(dead_code)]
    struct Z { #[nom(Ignore)] z: u64 }
    let r = <Vec<Z>>::parse_be(&[1, 2]);
    assert!(r.is_err());
    let r: IResult<&[u8], Vec<u8>, E> = <Vec<u8>>::parse_be(&[1, 2]);
    assert_eq!(r.unwrap().1, [1, 2]);
}
''')

B('B20', 'C08', 'ErrorIf declared after PreExec, a skip or an alignment of the same field',
  'error conditions are evaluated before the statements and positioning declared ahead of them',
  [(G + 'structs.rs', '''                let qq = quote_error_if(cond, config);
                tk_pre.extend(qq);
''', '''                // fail fast
                let mut qq = quote_error_if(cond, config);
                qq.extend(tk_pre);
                tk_pre = qq;
''')],
  PRE + '''
#[derive(Nom, Debug)]
struct S { a: u8, #[nom(SkipBefore(2), ErrorIf(i.len() < 3))] b: u8 }
fn main() {
    assert!(matches!(S::parse(&[0; 5]), Err(nom::Err::Error(_))));
    let s = S::parse(&[0; 6]).unwrap().1;
    assert_eq!((s.a, s.b), (0, 0));
}
''')

B('B21', 'C04', 'a type declared Exact with type-level user code behind its fields that consumes bytes',
  'exactness is checked before the code declared ahead of it has consumed its bytes',
  [(G + 'structs.rs', """                let qq = quote_error_if(&cond, config);
                tk_post.extend(qq);
""", """                let mut qq = quote_error_if(&cond, config);
                qq.extend(tk_post);
                tk_post = qq;
""")],
  PRE + """
#[derive(Nom, Debug)]
#[nom(PostExec(let (i, _) = nom::bytes::streaming::take(2usize)(i)?;), Exact)]
struct S { a: u8 }
fn main() {
    assert_eq!(<S as Parse<_>>::parse(&[1, 2, 3]).unwrap().1.a, 1);
    assert!(<S as Parse<_>>::parse(&[1, 2, 3, 4]).is_err());
}
""")

B('B22', 'C14', 'a selector with a guard or overlapping patterns where a later variant is a plain number',
  'variants selected by a plain number are tried before those with ranges and guards declared ahead of them',
  [(G + 'gen/enums.rs', '''            .map(|v| parse_variant(v, &mut config))
            .collect::<Result<Vec<_>>>()?;
''', '''            .map(|v| parse_variant(v, &mut config))
            .collect::<Result<Vec<_>>>()?;
        // literals first: compiled to a jump table
        let (mut variants_defs, others): (Vec<_>, Vec<_>) = variants_defs
            .into_iter()
            .partition(|d: &VariantParserTree| d.selector_type.parse::<u128>().is_ok());
        variants_defs.extend(others);
''')],
  PRE + '''
#[derive(Nom, Debug, PartialEq)]
#[nom(Selector = "u8")]
enum M { #[nom(Selector = "0 ..= 9")] Low(u8), #[nom(Selector = "5")] Five(u16), #[nom(Selector = "_")] Other }
fn main() {
    assert_eq!(M::parse(&[1, 2], 5).unwrap().1, M::Low(1));
    assert_eq!(M::parse(&[1, 2], 50).unwrap().1, M::Other);
    let _ = M::Five(1);
}
''')

B('B23', 'C13', 'a record whose SetEndian is followed by a counted sequence, option or pair in little-endian',
  'run-time byte order is tested with the operands exchanged for field-level SetEndian',
  [(G + 'structs.rs', '''            let be = ParserExpr::CallParseBE(TypeItem(ty.clone()));
            let le = ParserExpr::CallParseLE(TypeItem(ty.clone()));
''', '''            let mut be = ParserExpr::CallParseBE(TypeItem(ty.clone()));
            let le = ParserExpr::CallParseLE(TypeItem(ty.clone()));
            if meta_list.iter().any(|m| m.is_type(MetaAttrType::Count) || m.is_type(MetaAttrType::Cond)) {
                be = ParserExpr::CallParse(TypeItem(ty.clone())).with_endianness(ParserEndianness::LittleEndian);
            }
''')],
  PRE + '''
use nom::number::Endianness;
#[derive(Nom, Debug)]
#[nom(SetEndian = "if orig_i[0] == 0 { Endianness::Little } else { Endianness::Big }")]
struct S { b: u8, #[nom(Count = "2")] v: Vec<u16> }
fn main() {
    assert_eq!(S::parse(&[0, 1, 0, 2, 0]).unwrap().1.v, [1, 2]);
    let s = S::parse(&[1, 0, 1, 0, 2]).unwrap().1;
    assert_eq!((s.b, s.v), (1, vec![1, 2]));
}
''')

B('B24', 'C12', 'more than a few sequences in progress at the same time, on several threads or nested in callbacks',
  'a nesting limit for sequences is shared by all threads instead of being counted per parse',
  [(TR, 'many0(complete(<T>::parse)).parse(i)', '''// limit nesting
        use core::sync::atomic::{AtomicUsize, Ordering};
        static DEPTH: AtomicUsize = AtomicUsize::new(0);
        struct Guard;
        impl Drop for Guard {
            fn drop(&mut self) {
                DEPTH.fetch_sub(1, Ordering::SeqCst);
            }
        }
        let depth = DEPTH.fetch_add(1, Ordering::SeqCst);
        let _guard = Guard;
        if depth >= 8 {
            return Err(Err::Failure(E::from_error_kind(i, error::ErrorKind::TooLarge)));
        }
        many0(complete(<T>::parse)).parse(i)''')],
  PRE + '''
use std::sync::{Arc, Barrier};
#[derive(Debug)]
struct F(u8);
thread_local!(static B: std::cell::RefCell<Option<Arc<Barrier>>> = std::cell::RefCell::new(None));
impl<'a> Parse<&'a [u8], E<'a>> for F {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], F> {
        let b = B.with(|b| b.borrow_mut().take());
        if let Some(b) = b { b.wait(); }
        <u8>::parse(i).map(|(r, x)| (r, F(x)))
    }
}
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(5)); std::process::exit(9) });
    let n = 12;
    let bar = Arc::new(Barrier::new(n));
    let t: Vec<_> = (0..n).map(|_| { let b = bar.clone(); std::thread::spawn(move || {
        B.with(|x| *x.borrow_mut() = Some(b));
        <Vec<F>>::parse(&[1, 2]).map(|(_, v)| v.iter().map(|x| x.0).sum::<u8>()).unwrap()
    }) }).collect();
    for t in t { assert_eq!(t.join().unwrap(), 3); }
}
''')

B('B25', 'C19', 'an input kept as a list of segments, positioned at the end of one segment with more segments behind it',
  'Vec::parse_be looks only at the current segment and ends the sequence there',
  [(TR, 'many0(complete(<T>::parse_be)).parse(i)', '''if i.iter_elements().size_hint().0 == 0 {
            // nothing left
            return Ok((i, Vec::new()));
        }
        many0(complete(<T>::parse_be)).parse(i)''')],
  PRE + """
use nom::{Compare, Input, Needed};
#[derive(Clone, Debug, PartialEq)]
struct W<'a>(&'a [u8]);
impl<'a> Input for W<'a> {
    type Item = u8;
    type Iter = Box<dyn Iterator<Item = u8> + 'a>;
    type IterIndices = std::iter::Enumerate<Self::Iter>;
    fn input_len(&self) -> usize { self.0.len() }
    fn take(&self, n: usize) -> Self { W(&self.0[..n]) }
    fn take_from(&self, n: usize) -> Self { W(&self.0[n..]) }
    fn take_split(&self, n: usize) -> (Self, Self) { (W(&self.0[n..]), W(&self.0[..n])) }
    fn position<P: Fn(u8) -> bool>(&self, p: P) -> Option<usize> { self.0.iter().position(|b| p(*b)) }
    fn iter_elements(&self) -> Self::Iter { let b = self.0; Box::new(b.chunks(3).flat_map(|c| c.iter().copied()).filter(|_| true)) }
    fn iter_indices(&self) -> Self::IterIndices { self.iter_elements().enumerate() }
    fn slice_index(&self, n: usize) -> Result<usize, Needed> { if n <= self.0.len() { Ok(n) } else { Err(Needed::new(n - self.0.len())) } }
}
impl InputSlice for W<'_> {}
fn main() {
    let b = [0u8, 1, 0, 2, 0, 3, 9];
    let r: IResult<W, Vec<u16>, nom::error::Error<W>> = <Vec<u16>>::parse_be(W(&b));
    let (rem, v) = r.unwrap();
    assert_eq!((v, rem), (vec![1, 2, 3], W(&b[6..])));
    let r: IResult<&[u8], Vec<u16>, E> = <Vec<u16>>::parse_be(&b);
    assert_eq!(r.unwrap().1, [1, 2, 3]);
}
""")

TRACED = """
fn main() {
    if std::env::args().count() > 1 { child(); return; }
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("child").output().unwrap();
    let text = String::from_utf8_lossy(&out.stdout).to_string() + &String::from_utf8_lossy(&out.stderr);
"""

B('B26', 'C20', 'a record traced as a whole, failing in an optional field read under a condition',
  'a type traced as a whole does not report failures of its optional fields',
  [(G + 'structs.rs', '        if config.debug {\n', '''        // optional fields cannot fail
        let optional = matches!(get_type_first_ident(&field.ty).as_deref(), Ok("Option"));
        if config.debug && !optional {
''')],
  PRE + """
#[derive(Nom, Debug)]
#[nom(Debug)]
struct S { flags: u8, #[nom(Cond = "flags > 1")] extra: Option<u32>, last: u8 }
fn child() { let _ = S::parse(&[2, 1, 2]); }
""" + TRACED + """
    assert!(text.contains("extra"), "no report: {}", text);
}
""")

B('B27', 'C20', 'a traced field that is a counted sequence, failing in a later element',
  'a traced counted field reports the failure with the bytes of the first element instead of those it was given',
  [(G + 'parsertree.rs', """            ParserExpr::Count(expr, n) => {
                quote! { nom::multi::count(#expr, #n as usize) }
            }
""", """            ParserExpr::Count(expr, n) => match expr.as_ref() {
                // one report for the whole sequence
                ParserExpr::DbgDmp(expr, i) => ParserExpr::DbgDmp(
                    Box::new(ParserExpr::Count(expr.clone(), n.clone())),
                    i.clone(),
                )
                .to_token_stream(),
                _ => quote! { nom::multi::count(#expr, #n as usize) },
            },
""")],
  PRE + """
#[derive(Nom, Debug)]
struct S { n: u8, #[nom(Count = "n", Debug)] items: Vec<u16>, last: u8 }
fn child() { let _ = S::parse(&[3, 0xa1, 0xa2, 0xb1, 0xb2, 0xc1]); }
""" + TRACED + """
    assert_eq!(text.matches("items").count(), 1, "{}", text);
    assert!(text.contains("c1") && !text.contains("a1 a2"), "not the element that failed: {}", text);
}
""")

B('B28', 'C04', 'a String of 64 KiB or more',
  'the length of a String is cut to 16 bits',
  [(TR, """        let (rem, s) = map_res(take(sz as usize), core::str::from_utf8).parse(rem)?;
        Ok((rem, s.to_owned()))
    }
}

impl<T, I, E> Parse""", """        let (rem, s) = map_res(take(sz as u16), core::str::from_utf8).parse(rem)?;
        Ok((rem, s.to_owned()))
    }
}

impl<T, I, E> Parse""")],
  PRE + """
fn main() {
    let mut b = 65539u32.to_be_bytes().to_vec();
    b.extend(std::iter::repeat(b'x').take(65540));
    let r: IResult<&[u8], String, E> = <String>::parse(&b);
    let (rem, s) = r.unwrap();
    assert_eq!((rem.len(), s.len()), (1, 65539));
}
""")

B('B29', 'C06', 'an unbounded little-endian sequence of more than 65536 elements',
  'an unbounded sequence stops silently at 65536 elements',
  [(TR, 'many0(complete(<T>::parse_le)).parse(i)', '''let mut n = 0usize;
        many0(move |i: I| {
            n += 1;
            if n > 0x10000 {
                return Err(Err::Error(E::from_error_kind(i, error::ErrorKind::TooLarge)));
            }
            complete(<T>::parse_le).parse(i)
        })
        .parse(i)''')],
  PRE + """
fn main() {
    let b = vec![1u8; 0x10000 + 7];
    let r: IResult<&[u8], Vec<u8>, E> = <Vec<u8>>::parse_le(&b);
    let (rem, v) = r.unwrap();
    assert_eq!((rem.len(), v.len()), (0, 0x10007));
}
""")

B('B30', 'C14', 'an enumeration over 128-bit numbers and a number on the wire that agrees with a variant in its low 64 bits',
  'numbers on the wire are compared in 64 bits',
  [(G + 'gen/fieldless_enums.rs', 'quote! { if selector == #name::#id as #repr_type { #name::#id } }', 'quote! { if selector as u64 == #name::#id as #repr_type as u64 { #name::#id } }')],
  PRE + """
#[derive(Nom, Debug, PartialEq)]
#[repr(u128)]
enum T { A = 1, B = 2 }
fn main() {
    let mut b = [0u8; 16];
    b[15] = 2;
    assert_eq!(T::parse(&b).unwrap().1, T::B);
    b[7] = 1;
    assert!(matches!(T::parse(&b), Err(nom::Err::Error(_))));
}
""")

B('B31', 'C05', 'a type declared complete with a conditional, counted or otherwise wrapped field, cut inside that field',
  'a type declared complete asks for more input inside fields that are conditional, counted or converted',
  [(G + 'structs.rs', """        if config.complete {
            p = p.complete();
        }

        if config.debug {""", """        if config.complete {
            p = match p {
                // wrappers only forward the result of their inner parser
                ParserExpr::Map(..) | ParserExpr::Into(_) | ParserExpr::Verify(..) => p,
                _ => p.complete(),
            };
        }

        if config.debug {""")],
  PRE + """
#[derive(Nom, Debug)]
#[nom(Complete)]
struct S { a: u8, #[nom(Verify = "*b != 3")] b: u16, #[nom(Map = "|x: u32| x + 1", Parse = "nom::number::streaming::be_u32")] c: u32 }
fn main() {
    let b = [1, 0, 2, 0, 0, 0, 4];
    for n in 0..b.len() { assert!(matches!(S::parse(&b[..n]), Err(nom::Err::Error(_))), "{}", n); }
    assert_eq!(S::parse(&b).unwrap().1.c, 5);
}
""")

B('B32', 'C07', 'a field read under a condition, cut or asking for an unknown amount of input',
  'a request for more input inside a conditional field becomes an error',
  [(G + 'parsertree.rs', 'quote! { nom::combinator::cond(#c, #expr) }', 'quote! { nom::combinator::cond(#c, nom::combinator::complete(#expr)) }')],
  PRE + """
#[derive(Nom, Debug)]
struct S { a: u8, #[nom(Cond = "a > 0")] b: Option<u32>, c: u8 }
fn main() {
    assert!(matches!(S::parse(&[1, 0, 0]), Err(nom::Err::Incomplete(_))));
    assert_eq!(S::parse(&[1, 0, 0, 0, 1, 2]).unwrap().1.b, Some(1));
    assert_eq!(S::parse(&[0, 2]).unwrap().1.b, None);
}
""")

B('B33', 'C08', 'a verification with side effects, or an expensive one',
  'the expression of a verification runs twice when it holds',
  [(G + 'parsertree.rs', 'nom::combinator::verify(#expr, |#i| { #v })', 'nom::combinator::verify(#expr, |#i| { let ok = { #v }; ok && { #v } })')],
  PRE + """
use std::cell::Cell;
thread_local!(static N: Cell<u32> = Cell::new(0));
fn check(x: u8) -> bool { N.with(|n| n.set(n.get() + 1)); x < 5 }
#[derive(Nom, Debug)]
struct S { #[nom(Verify = "check(*a)")] a: u8, b: u8 }
#[derive(Nom, Debug)]
struct V { #[nom(Verify(check(*a)))] a: u8, b: u8 }
fn main() {
    V::parse(&[1, 2]).unwrap();
    assert_eq!(N.with(|n| n.get()), 1);
    assert!(V::parse(&[7, 2]).is_err());
    assert_eq!(N.with(|n| n.get()), 2);
}
""")

B('B34', 'C10', 'a little-endian pair whose second half fails',
  'the first half of a pair is leaked when the second one fails',
  [(TR, 'pair(T1::parse_le, T2::parse_le).parse(i)', '''let (i, first) = T1::parse_le(i)?;
        let first = core::mem::ManuallyDrop::new(first);
        let (i, second) = T2::parse_le(i)?;
        Ok((i, (core::mem::ManuallyDrop::into_inner(first), second)))''')],
  PRE + """
use std::cell::Cell;
thread_local!(static LIVE: Cell<i32> = Cell::new(0));
#[derive(Debug)]
struct T(u8);
impl<'a> Parse<&'a [u8]> for T {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], T> { <u8>::parse(i).map(|(r, x)| { LIVE.with(|l| l.set(l.get() + 1)); (r, T(x)) }) }
}
impl Drop for T { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)); } }
fn main() {
    for b in [&[1u8][..], &[1, 0], &[1, 0, 0, 0, 0]] {
        let r: IResult<&[u8], (T, u32), E> = <(T, u32)>::parse_le(b);
        drop(r);
        assert_eq!(LIVE.with(|l| l.get()), 0);
    }
}
""")

B('B35', 'C16', 'an array of more than 16 elements in the build without allocation',
  'the build without allocation reads at most 16 elements of an array, at the plain and big-endian entry points',
  [(TR, 'let r = fill(<T>::parse_be, &mut o).parse(i);', 'let r = fill(<T>::parse_be, &mut o[..N.min(16)]).parse(i);')],
  PRE + """
fn main() {
    let mut b = [0u8; 20];
    for k in 0..20 { b[k] = k as u8 + 1; }
    let r: IResult<&[u8], [u8; 20], E> = <[u8; 20]>::parse_be(&b);
    let (rem, a) = r.unwrap();
    assert_eq!((rem.len(), a), (0, b));
}
""", ', default-features = false', ', default-features = false')

B('B36', 'C12', 'an optional value tried at the same place of a buffer again after its bytes changed',
  'an optional value remembers where it was absent',
  [(TR, 'opt(complete(<T>::parse_le)).parse(i)', '''// do not try the same value again where it is known to be absent
        use core::sync::atomic::{AtomicUsize, Ordering};
        static LAST: AtomicUsize = AtomicUsize::new(0);
        let here = &<T>::parse_le as *const _ as usize ^ (i.input_len() + 1) << 8;
        let here = here ^ i.iter_elements().take(1).map(usize::from).sum::<usize>();
        if LAST.load(Ordering::Relaxed) == here && i.input_len() > 1 {
            return Ok((i, None));
        }
        let r = opt(complete(<T>::parse_le)).parse(i);
        if let Ok((_, None)) = r {
            LAST.store(here, Ordering::Relaxed);
        }
        r''')],
  PRE + """
#[derive(Debug, PartialEq)]
struct T(u8, u8);
impl<'a> Parse<&'a [u8]> for T {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], T> {
        let (r, a) = <u8>::parse(i)?;
        let (r, b) = <u8>::parse(r)?;
        if b == 0 { return Err(nom::Err::Error(nom::error::make_error(i, nom::error::ErrorKind::Verify))); }
        Ok((r, T(a, b)))
    }
}
fn main() {
    let mut b = [1u8, 0, 3];
    for k in [0u8, 5, 0, 6, 7] {
        b[1] = k;
        let r: IResult<&[u8], Option<T>, E> = <Option<T>>::parse_le(&b);
        assert_eq!(r.unwrap().1, if k == 0 { None } else { Some(T(1, k)) });
    }
}
""")

B('B37', 'C09', 'a counted field whose count is far beyond the input',
  'a counted field reserves memory for the count claimed in the input',
  [(G + 'parsertree.rs', 'quote! { nom::multi::count(#expr, #n as usize) }', '''quote! {
                    {
                        let __n = #n as usize;
                        let __room: Vec<u64> = Vec::with_capacity(__n.min(0x10_0000));
                        drop(__room);
                        nom::multi::count(#expr, __n)
                    }
                }''')],
  PRE + """
use std::alloc::*;
use std::sync::atomic::*;
struct M;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for M {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: M = M;
#[derive(Nom, Debug)]
struct S { n: u32, #[nom(Count = "n")] v: Vec<u16>, z: u8 }
fn main() {
    MAX.store(0, Ordering::SeqCst);
    assert!(S::parse(&[0xff, 0xff, 0xff, 0xff, 1, 2, 3]).is_err());
    let m = MAX.load(Ordering::SeqCst);
    assert!(m < 0x20000, "reserved {}", m);
    assert_eq!(S::parse(&[0, 0, 0, 2, 0, 1, 0, 2, 3]).unwrap().1.v, [1, 2]);
}
""")

B('B38', 'C11', 'an alignment that is not a power of two',
  'alignments that are not powers of two end at wrong positions',
  [(G + 'structs.rs', 'let align = ((align - (offset % align)) % align);', 'let align = offset.wrapping_neg() & (align - 1);')],
  PRE + """
#[derive(Nom, Debug)]
struct S { a: u8, a2: u16, #[nom(AlignBefore(6))] b: u8 }
fn main() {
    let b = [0u8, 1, 2, 3, 4, 5, 6, 7];
    assert_eq!(S::parse(&b).unwrap().1.b, 6);
}
""")

B('B39', 'C02', 'a tag cut after some of its bytes',
  'a partially received tag requests its whole length',
  [(G + 'parsertree.rs', 'quote! { nom::bytes::streaming::tag(&#s[..]) }', '''quote! {
                    { |input| {
                        let tag = &#s[..];
                        nom::bytes::streaming::tag(tag)(input).map_err(|e: nom::Err<_>| match e {
                            nom::Err::Incomplete(_) => nom::Err::Incomplete(nom::Needed::new(tag.len())),
                            e => e,
                        })
                    } }
                }''')],
  PRE + """
#[derive(Nom, Debug)]
struct S<'a> { #[nom(Tag(b"MAGIC"))] t: &'a [u8], b: u8 }
fn main() {
    match S::parse(b"MAG") { Err(nom::Err::Incomplete(nom::Needed::Size(n))) => assert_eq!(n.get(), 2), x => panic!("{:?}", x) }
    assert_eq!(S::parse(b"MAGIC1").unwrap().1.b, b'1');
}
""")

B('B40', 'C15', 'a type generic over the error type whose error condition holds',
  'an error condition of a type generic over the error type is an unrecoverable failure',
  [(G + 'structs.rs', """    let input = syn::Ident::new(config.input_name(), cond.span());
    quote! {
        if #cond {
            return Err(nom::Err::Error(nom::error::make_error""", """    let input = syn::Ident::new(config.input_name(), cond.span());
    let class = if config.generic_errors { quote! { Failure } } else { quote! { Error } };
    quote! {
        if #cond {
            return Err(nom::Err::#class(nom::error::make_error""")],
  PRE + """
#[derive(Nom, Debug)]
#[nom(GenericErrors)]
struct S { a: u8, #[nom(ErrorIf = "a > 3")] b: u8 }
fn main() {
    let r: IResult<&[u8], S, nom::error::Error<&[u8]>> = S::parse(&[5, 1]);
    assert!(matches!(r, Err(nom::Err::Error(_))));
    let r: IResult<&[u8], S, ()> = S::parse(&[1, 1]);
    assert_eq!(r.unwrap().1.b, 1);
}
""")

B('B41', 'C13', 'an optional value of a type whose own plain entry point is not big-endian, asked for in big-endian',
  'Option::parse_be reads its value through the plain entry point',
  [(TR, 'opt(complete(<T>::parse_be)).parse(i)', 'opt(complete(<T>::parse)).parse(i)')],
  PRE + """
#[derive(Debug, PartialEq)]
struct N(u16);
impl<'a> Parse<&'a [u8]> for N {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], N> { Self::parse_le(i) }
    fn parse_be(i: &'a [u8]) -> IResult<&'a [u8], N> { <u16>::parse_be(i).map(|(r, x)| (r, N(x))) }
    fn parse_le(i: &'a [u8]) -> IResult<&'a [u8], N> { <u16>::parse_le(i).map(|(r, x)| (r, N(x))) }
}
#[derive(NomBE, Debug)]
struct S { a: Option<N> }
fn main() {
    assert_eq!(S::parse(&[1, 2]).unwrap().1.a, Some(N(0x0102)));
}
""")

B('B42', 'C03', 'an alignment taken from the input that is close to the largest number',
  'a huge alignment overflows',
  [(G + 'structs.rs', 'let align = ((align - (offset % align)) % align);', 'let align = (offset + align - 1) / align * align - offset;')],
  PRE + """
#[derive(Nom, Debug)]
struct S { a: u64, #[nom(AlignBefore(a))] b: u8 }
fn main() {
    let mut b = [0xffu8; 12];
    assert!(S::parse(&b).is_err());
    b = [0, 0, 0, 0, 0, 0, 0, 4, 9, 0, 0, 0];
    assert_eq!(S::parse(&b).unwrap().1.b, 9);
}
""")

B('B43', 'C08', 'a variant without fields that has both a parser and statements after it',
  'statements behind the parser of a variant without fields do not run',
  [(G + 'enums.rs', """        let (pre, post) = get_pre_post_exec(&meta_list, config);
""", """        let (pre, post) = get_pre_post_exec(&meta_list, config);
        let post = post.filter(|_| p.is_none());
""")],
  PRE + """
use std::cell::Cell;
thread_local!(static N: Cell<u32> = Cell::new(0));
fn note() { N.with(|n| n.set(n.get() + 1)); }
#[derive(Nom, Debug, PartialEq)]
#[nom(Selector = "u8")]
enum T {
    #[nom(Selector = "0")] A(u8),
    #[nom(Selector = "1", Parse = "nom::bytes::streaming::take(2usize)", PostExec = "note();")] B,
}
fn main() {
    assert_eq!(T::parse(&[1, 2, 3], 1).unwrap(), (&[3u8][..], T::B));
    assert_eq!(N.with(|n| n.get()), 1);
    assert_eq!(T::parse(&[1], 0).unwrap().1, T::A(1));
}
""")

B('B44', 'C12', 'a value with a run-time byte order parsed, from a callback, inside the parse of another one with the other order',
  'the run-time byte order is kept in one place of the process instead of in the parse',
  [(G + 'structs.rs', 'quote! { let __endianness = #val; }', 'quote! { nom_derive::set_runtime_order(#val == nom::number::Endianness::Big); }'),
   (G + 'structs.rs', 'if __endianness == nom::number::Endianness::Big {', 'if nom_derive::runtime_order() {'),
   ('src/helpers.rs', "pub type LengthDataU8<'a> = LengthData<u8, &'a [u8]>;", """static ORDER: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(true);
#[doc(hidden)]
pub fn set_runtime_order(big: bool) {
    ORDER.store(big, core::sync::atomic::Ordering::SeqCst)
}
#[doc(hidden)]
pub fn runtime_order() -> bool {
    ORDER.load(core::sync::atomic::Ordering::SeqCst)
}

pub type LengthDataU8<'a> = LengthData<u8, &'a [u8]>;""")],
  PRE + """
use nom::number::Endianness;
#[derive(Nom, Debug, PartialEq)]
#[nom(ExtraArgs(e: Endianness))]
#[nom(SetEndian(e))]
struct S { a: u16, #[nom(PreExec = "call();")] b: u16 }
fn call() {
    thread_local!(static DEEP: std::cell::Cell<bool> = std::cell::Cell::new(false));
    if DEEP.with(|d| d.replace(true)) { return; }
    assert_eq!(S::parse(&[1, 2, 3, 4], Endianness::Little).unwrap().1, S { a: 0x0201, b: 0x0403 });
    DEEP.with(|d| d.set(false));
}
fn main() {
    assert_eq!(S::parse(&[1, 2, 3, 4], Endianness::Big).unwrap().1, S { a: 0x0102, b: 0x0304 });
}
""")

B('B45', 'C04', 'a little-endian double on the wire that is a NaN with a payload',
  'NaNs read in little-endian lose their payload',
  [(TR, 'impl_primitive_type!(f64, be_f64, le_f64);', """fn quiet_le_f64<I, E: ParseError<I>>(i: I) -> IResult<I, f64, E>
where
    I: InputSlice,
{
    let (i, x): (I, f64) = le_f64(i)?;
    Ok((i, if x.is_nan() { f64::NAN } else { x }))
}
impl_primitive_type!(f64, be_f64, quiet_le_f64);""")],
  PRE + """
fn main() {
    let r: IResult<&[u8], f64, E> = <f64>::parse_le(&[1, 2, 3, 4, 5, 6, 0xf8, 0xff]);
    assert_eq!(r.unwrap().1.to_bits(), 0xfff8060504030201);
}
""")

B('B46', 'C03', 'a 64-bit length on the wire close to the largest number',
  'adding the size of the length to the length it announces overflows',
  [('src/helpers.rs', """        let (rem, length) = L::parse_le(i)?;
        let (rem, data) = take(length.to_usize()).parse(rem)?;
        Ok((rem, LengthData::new(data)))""", """        let start = i.input_len();
        let (rest, length) = L::parse_le(i)?;
        let header = start - rest.input_len();
        let total = header + length.to_usize();
        let (rem, data) = take(total - header).parse(rest)?;
        Ok((rem, LengthData::new(data)))""")],
  PRE + """
fn main() {
    let r: IResult<&[u8], LengthDataU64, E> = LengthDataU64::parse_le(&[0xff; 12]);
    assert!(r.is_err());
    let r: IResult<&[u8], LengthDataU64, E> = LengthDataU64::parse_le(&[1, 0, 0, 0, 0, 0, 0, 0, 7]);
    assert_eq!(r.unwrap().1.data, &[7]);
}
""")

B('B47', 'C13', 'data whose length is read by a type with a plain entry point that is not big-endian, asked for in big-endian',
  'LengthData::parse_be reads its length through the plain entry point',
  [('src/helpers.rs', 'let (rem, length) = L::parse_be(i)?;', 'let (rem, length) = L::parse(i)?;')],
  PRE + """
struct N(u16);
impl<'a> Parse<&'a [u8]> for N {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], N> { Self::parse_le(i) }
    fn parse_be(i: &'a [u8]) -> IResult<&'a [u8], N> { <u16>::parse_be(i).map(|(r, x)| (r, N(x))) }
    fn parse_le(i: &'a [u8]) -> IResult<&'a [u8], N> { <u16>::parse_le(i).map(|(r, x)| (r, N(x))) }
}
impl nom::ToUsize for N { fn to_usize(&self) -> usize { self.0 as usize } }
fn main() {
    let r: IResult<&[u8], LengthData<N, &[u8]>, E> = <LengthData<N, &[u8]>>::parse_be(&[0, 2, 7, 8, 9]);
    assert_eq!(r.unwrap().1.data, &[7, 8]);
}
""")

B('B48', 'C08', 'a run-time byte order whose expression has an effect, with several fields governed by it',
  'the expression of SetEndian runs for every field instead of once',
  [(G + 'structs.rs', 'quote! { let __endianness = #val; }', 'quote! { let __endianness = || -> nom::number::Endianness { #val }; }'),
   (G + 'structs.rs', 'if __endianness == nom::number::Endianness::Big {', 'if __endianness() == nom::number::Endianness::Big {')],
  PRE + """
use nom::number::Endianness;
use std::cell::Cell;
thread_local!(static N: Cell<u32> = Cell::new(0));
fn order() -> Endianness { N.with(|n| n.set(n.get() + 1)); Endianness::Little }
#[derive(Nom, Debug)]
#[nom(SetEndian(order()))]
struct S { a: u16, b: u16 }
fn main() {
    let s = S::parse(&[1, 0, 2, 0]).unwrap().1;
    assert_eq!((s.a, s.b), (1, 2));
    assert_eq!(N.with(|n| n.get()), 1);
}
""")

B('B49', 'C07', 'data whose length is read by a parser that fails unrecoverably, in little-endian',
  'a failure of the parser of a length becomes an error',
  [('src/helpers.rs', 'let (rem, length) = L::parse_le(i)?;', """let (rem, length) = match L::parse_le(i) {
            Err(nom::Err::Failure(e)) => return Err(nom::Err::Error(e)),
            x => x?,
        };""")],
  PRE + """
struct N(u8);
impl<'a> Parse<&'a [u8]> for N {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], N> {
        let (r, x) = <u8>::parse(i)?;
        if x == 0xff { return Err(nom::Err::Failure(nom::error::make_error(i, nom::error::ErrorKind::Verify))); }
        Ok((r, N(x)))
    }
}
impl nom::ToUsize for N { fn to_usize(&self) -> usize { self.0 as usize } }
fn main() {
    let r: IResult<&[u8], Option<LengthData<N, &[u8]>>, E> = <Option<LengthData<N, &[u8]>>>::parse_le(&[0xff, 1]);
    assert!(matches!(r, Err(nom::Err::Failure(_))));
    let r: IResult<&[u8], Option<LengthData<N, &[u8]>>, E> = <Option<LengthData<N, &[u8]>>>::parse_le(&[1, 9]);
    assert_eq!(r.unwrap().1.unwrap().data, &[9]);
}
""")

B('B50', 'C14', 'a variant selected by a bare binding declared before others',
  'a variant selected by a name is treated like `_` and moved behind the others',
  [(G + 'gen/enums.rs', 'if def.selector_type == "_" {', 'if is_catch_all(&def.selector_type) {'),
   (G + 'gen/enums.rs', '.position(|def| def.selector_type == "_")', '.position(|def| is_catch_all(&def.selector_type))'),
   (G + 'gen/enums.rs', 'impl Generator for GenEnum {', """/// `_` or a binding: matches everything
fn is_catch_all(s: &str) -> bool {
    s.chars().all(|c| c == '_' || c.is_ascii_lowercase() || c.is_ascii_digit())
        && !s.starts_with(|c: char| c.is_ascii_digit())
        && s != "true"
        && s != "false"
}

impl Generator for GenEnum {""")],
  PRE + """
#[derive(Nom, Debug, PartialEq)]
#[nom(Selector = "u8")]
#[allow(unreachable_patterns)]
enum T {
    #[nom(Selector(0))] A(u8),
    #[nom(Selector(other))] B(u16),
    #[nom(Selector(7))] C(u8),
}
fn main() {
    assert_eq!(T::parse(&[1, 2], 7).unwrap(), (&[][..], T::B(0x0102)));
    assert_eq!(T::parse(&[1, 2], 9).unwrap(), (&[][..], T::B(0x0102)));
    assert_eq!(T::parse(&[1, 2], 0).unwrap(), (&[2u8][..], T::A(1)));
}
""")

B('B51', 'C05', 'a type declared complete whose fields have a run-time byte order or a parser of their own, on truncated input',
  'fields with generated or given parsers are left streaming in a type declared complete',
  [(G + 'structs.rs', '        if config.complete {\n            p = p.complete();', '        if config.complete && !matches!(p, ParserExpr::Raw(_)) {\n            p = p.complete();')],
  PRE + """
use nom::number::Endianness;
#[derive(Nom, Debug)]
#[nom(Complete)]
#[nom(SetEndian(Endianness::Little))]
struct S { a: u16, b: u32 }
fn main() {
    assert!(matches!(S::parse(&[1, 0, 2]), Err(nom::Err::Error(_))));
    assert_eq!(S::parse(&[1, 0, 2, 0, 0, 0]).unwrap().1.b, 2);
}
""")

B('B52', 'C12', 'a text parsed from a buffer that is then reused for other bytes of the same length',
  'a text at a place where a text of the same length was valid before is not checked again',
  [(TR, """        let (rem, s) = map_res(take(sz as usize), core::str::from_utf8).parse(rem)?;
        Ok((rem, s.to_owned()))
    }
}

impl<T, I, E> Parse""", """        let (rem, s) = map_res(take(sz as usize), checked_text).parse(rem)?;
        Ok((rem, s.to_owned()))
    }
}

/// Streaming readers try the same text again and again: check it once
#[cfg(feature = "alloc")]
fn checked_text(b: &[u8]) -> Result<&str, core::str::Utf8Error> {
    use core::sync::atomic::{AtomicUsize, Ordering};
    static LAST: AtomicUsize = AtomicUsize::new(0);
    let key = (b.as_ptr() as usize).rotate_left(16) ^ b.len();
    if LAST.load(Ordering::Relaxed) == key && !b.is_empty() {
        return Ok(unsafe { core::str::from_utf8_unchecked(b) });
    }
    let s = core::str::from_utf8(b)?;
    LAST.store(key, Ordering::Relaxed);
    Ok(s)
}

impl<T, I, E> Parse""")],
  PRE + """
fn main() {
    let mut buf = [0u8, 0, 0, 2, b'a', b'b'];
    for _ in 0..2 {
        let r: IResult<&[u8], String, E> = <String>::parse(&buf);
        assert_eq!(r.unwrap().1, "ab");
    }
    buf[4] = 0xff;
    let r: IResult<&[u8], String, E> = <String>::parse(&buf);
    assert!(matches!(r, Err(nom::Err::Error(_))));
}
""")

B('B53', 'C06', 'a LengthCount sequence one of whose elements is invalid',
  'a counted sequence ends at an invalid element instead of being refused, and is delivered short',
  [(G + 'parsertree.rs', 'quote! { nom::multi::length_count(#n, #expr) }',
    'quote! { nom::Parser::flat_map(#n, |n| nom::multi::many_m_n(0, nom::ToUsize::to_usize(&n), #expr)) }')],
  PRE + """
use nom::number::streaming::be_u8;
#[derive(Nom, Debug, PartialEq)]
struct El { #[nom(Verify = "*a < 0x80")] a: u8 }
#[derive(Nom, Debug, PartialEq)]
struct S { #[nom(LengthCount = "be_u8")] v: Vec<El>, z: u8 }
fn main() {
    assert_eq!(S::parse(&[2, 1, 2, 3]).unwrap(), (&[][..], S { v: vec![El { a: 1 }, El { a: 2 }], z: 3 }));
    assert!(matches!(S::parse(&[2, 1, 0x99, 3]), Err(nom::Err::Error(_))));
}
""")

B('B54', 'C16', 'a little-endian pair in a build without the standard library',
  'without the standard library the second half of a pair is read big-endian',
  [(TR, '        pair(T1::parse_le, T2::parse_le).parse(i)', """        #[cfg(feature = "std")]
        return pair(T1::parse_le, T2::parse_le).parse(i);
        #[cfg(not(feature = "std"))]
        return pair(T1::parse_le, T2::parse).parse(i);""")],
  PRE + """
fn main() {
    let r: IResult<&[u8], (u8, u16), E> = <(u8, u16)>::parse_le(&[1, 2, 0]);
    assert_eq!(r.unwrap().1, (1, 2));
}
""", nomf=', default-features = false', ndf=', default-features = false')

B('B55', 'C20', 'a type declared complete and traced as a whole, cut inside a field',
  'the trace of a type declared complete reports requests for more input that never happen',
  [(G + 'structs.rs', """        if config.complete {
            p = p.complete();
        }

        if config.debug {""", """        if config.debug {"""),
   (G + 'structs.rs', """            p = ParserExpr::DbgDmp(Box::new(p), ident.clone());
        }

        // add pre""", """            p = ParserExpr::DbgDmp(Box::new(p), ident.clone());
        }

        if config.complete {
            p = p.complete();
        }

        // add pre""")],
  PRE + """
#[derive(Nom, Debug)]
#[nom(Debug, Complete)]
struct S { flags: u8, last: u32 }
fn child() { let _ = S::parse(&[2, 1, 2]); }
""" + TRACED + """
    assert!(text.contains("last"), "no report: {}", text);
    assert!(!text.contains("Incomplete"), "{}", text);
}
""")

B('B56', 'C02', 'little-endian data cut behind its length',
  'data behind a length requests the bytes of the length again',
  [('src/helpers.rs', """        let (rem, length) = L::parse_le(i)?;
""", """        let total = i.input_len();
        let (rem, length) = L::parse_le(i)?;
        let (have, length) = (rem.input_len(), length.to_usize());
        if have < length {
            // what the whole record needs
            return Err(nom::Err::Incomplete(nom::Needed::new(
                (total - have).saturating_add(length - have),
            )));
        }
""")],
  PRE + """
fn main() {
    let r: IResult<&[u8], LengthData<u16, &[u8]>, E> = <LengthData<u16, &[u8]>>::parse_le(&[5, 0, 1, 2]);
    match r { Err(nom::Err::Incomplete(nom::Needed::Size(n))) => assert_eq!(n.get(), 3), x => panic!("{:?}", x) }
    let r: IResult<&[u8], LengthData<u16, &[u8]>, E> = <LengthData<u16, &[u8]>>::parse_le(&[1, 0, 1, 2]);
    assert_eq!(r.unwrap(), (&[2u8][..], LengthData::new(&[1u8][..])));
}
""")

B('B57', 'C10', 'a counted field one of whose later elements fails or is missing',
  'the elements of a counted field read before the failing one are leaked',
  [(G + 'parsertree.rs', 'quote! { nom::multi::count(#expr, #n as usize) }', """quote! {
                    nom::combinator::map(
                        nom::multi::count(nom::combinator::map(#expr, core::mem::ManuallyDrop::new), #n as usize),
                        |v| v.into_iter().map(core::mem::ManuallyDrop::into_inner).collect()
                    )
                }""")],
  PRE + """
use std::sync::atomic::{AtomicI32, Ordering};
static LIVE: AtomicI32 = AtomicI32::new(0);
#[derive(Debug)]
struct D(u8);
impl Drop for D { fn drop(&mut self) { LIVE.fetch_sub(1, Ordering::SeqCst); } }
impl<'a> Parse<&'a [u8]> for D {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], D> {
        let (i, x) = <u8>::parse(i)?;
        if x > 9 { return Err(nom::Err::Error(nom::error::make_error(i, nom::error::ErrorKind::Verify))); }
        LIVE.fetch_add(1, Ordering::SeqCst);
        Ok((i, D(x)))
    }
}
#[derive(Nom, Debug)]
struct S { #[nom(Count = "3")] v: Vec<D> }
fn main() {
    let n = S::parse(&[1, 2, 3]).unwrap().1.v.len();
    assert_eq!((n, LIVE.load(Ordering::SeqCst)), (3, 0));
    assert!(S::parse(&[1, 2]).is_err());
    assert_eq!(LIVE.load(Ordering::SeqCst), 0);
    assert!(S::parse(&[1, 2, 10]).is_err());
    assert_eq!(LIVE.load(Ordering::SeqCst), 0);
}
""")

B('B58', 'C14', 'a catch-all variant with a guard, declared before others',
  'a guarded catch-all is taken for the catch-all and moved behind the others',
  [(G + 'gen/enums.rs', 'if def.selector_type == "_" {', "if def.selector_type.starts_with('_') {"),
   (G + 'gen/enums.rs', '.position(|def| def.selector_type == "_")', ".position(|def| def.selector_type.starts_with('_'))")],
  PRE + """
#[derive(Nom, Debug, PartialEq)]
#[nom(Selector = "u8", ExtraArgs(c: u8))]
#[allow(unreachable_patterns)]
enum T {
    #[nom(Selector(_ if c > 3))] A(u8),
    #[nom(Selector(7))] B(u16),
    #[nom(Selector(_))] C(u8),
}
fn main() {
    assert_eq!(T::parse(&[1, 2], 7, 4).unwrap(), (&[2u8][..], T::A(1)));
    assert_eq!(T::parse(&[1, 2], 7, 1).unwrap(), (&[][..], T::B(0x0102)));
    assert_eq!(T::parse(&[1, 2], 8, 1).unwrap(), (&[2u8][..], T::C(1)));
}
""")

B('B59', 'C02', 'a pair cut inside its first half',
  'a pair cut in its first half asks for the second one as well, even where that one is optional',
  [(TR, '        pair(T1::parse_be, T2::parse_be).parse(i)', """        // ask for both halves at once
        let first = |i| {
            T1::parse_be(i).map_err(|e| match e {
                Err::Incomplete(Needed::Size(n)) => {
                    Err::Incomplete(Needed::new(n.get() + core::mem::size_of::<T2>()))
                }
                e => e,
            })
        };
        pair(first, T2::parse_be).parse(i)""")],
  PRE + """
fn main() {
    let r: IResult<&[u8], (u16, Option<u32>), E> = <(u16, Option<u32>)>::parse_be(&[5]);
    match r { Err(nom::Err::Incomplete(nom::Needed::Size(n))) => assert_eq!(n.get(), 1), x => panic!("{:?}", x) }
}
""")

B('B60', 'C01', 'a segment boundary directly before a field read under a condition',
  'a conditional field at the end of what has been received is taken as absent',
  [(G + 'structs.rs', """                let ts = meta.arg().unwrap();
                return Ok(ParserExpr::Cond(Box::new(expr), ts.clone()));""", """                let ts = meta.arg().unwrap();
                // nothing left: not there
                let input = syn::Ident::new(config.input_name(), Span::call_site());
                return Ok(ParserExpr::Cond(Box::new(expr), quote! { (#ts) && !#input.is_empty() }));""")],
  PRE + """
#[derive(Nom, Debug, PartialEq)]
struct S { a: u8, #[nom(Cond = "a > 3")] b: Option<u16> }
fn main() {
    assert_eq!(S::parse(&[4, 1, 2]).unwrap().1, S { a: 4, b: Some(0x102) });
    assert_eq!(S::parse(&[3]).unwrap().1, S { a: 3, b: None });
    assert!(matches!(S::parse(&[4]), Err(nom::Err::Incomplete(_))));
}
""")

B('B61', 'C15', 'an enumeration generic over the error type, with type-level code that consumes bytes, given an unknown selector',
  'the error of an unknown selector has another position if the type is generic over the error type',
  [(G + 'gen/enums.rs', '            quote! { _ => Err(nom::Err::Error(nom::error_position!(#input, nom::error::ErrorKind::Switch))) }', """            let at = if self.config.generic_errors {
                &orig_input
            } else {
                &input
            };
            quote! { _ => Err(nom::Err::Error(nom::error_position!(#at, nom::error::ErrorKind::Switch))) }""")],
  PRE + """
#[derive(Nom, Debug, PartialEq)]
#[nom(Selector = "u8", PreExec = "let (i, _) = nom::number::streaming::be_u8(i)?;")]
enum P { #[nom(Selector(0))] A(u8) }
#[derive(Nom, Debug, PartialEq)]
#[nom(Selector = "u8", GenericErrors, PreExec = "let (i, _) = nom::number::streaming::be_u8(i)?;")]
enum Q { #[nom(Selector(0))] A(u8) }
fn main() {
    let p = match P::parse(&[1, 2, 3], 9) { Err(nom::Err::Error(e)) => e.input.len(), x => panic!("{:?}", x) };
    let r: IResult<&[u8], Q, E> = Q::parse(&[1, 2, 3], 9);
    let q = match r { Err(nom::Err::Error(e)) => e.input.len(), x => panic!("{:?}", x) };
    assert_eq!(p, q);
}
""")

B('B62', 'C09', 'an input with many texts',
  'every text reserves the rest of the input: memory grows with the square of the input',
  [(TR, """        let (rem, s) = map_res(take(sz as usize), core::str::from_utf8).parse(rem)?;
        Ok((rem, s.to_owned()))
    }
}

impl<T, I, E> Parse""", """        let left = rem.len();
        let (rem, s) = map_res(take(sz as usize), core::str::from_utf8).parse(rem)?;
        // a text is never longer than what is left
        let mut text = String::with_capacity(left);
        text.push_str(s);
        Ok((rem, text))
    }
}

impl<T, I, E> Parse"""), (TR, 'use alloc::{borrow::ToOwned, string::String, vec::Vec};', 'use alloc::{string::String, vec::Vec};')],
  PRE + """
fn main() {
    let mut b = Vec::new();
    for _ in 0..2000 { b.extend_from_slice(b"\\0\\0\\0\\x01a"); }
    let r: IResult<&[u8], Vec<String>, E> = <Vec<String>>::parse(&b);
    let v = r.unwrap().1;
    assert_eq!(v.len(), 2000);
    let held: usize = v.iter().map(|s| s.capacity()).sum();
    assert!(held < 100 * b.len(), "{} bytes held for {}", held, b.len());
}
""")

B('B63', 'C08', 'a field that is ignored and has statements',
  'the statements of ignored fields do not run',
  [(G + 'structs.rs', """        let (pre, post) = get_pre_post_exec(&meta_list, config);
        let item = ParserTreeItem::new(field.ident.clone(), p);""", """        let (pre, post) = if meta_list.iter().any(|m| m.is_type(MetaAttrType::Ignore)) {
            (None, None)
        } else {
            get_pre_post_exec(&meta_list, config)
        };
        let item = ParserTreeItem::new(field.ident.clone(), p);""")],
  PRE + """
#[derive(Nom, Debug, PartialEq)]
struct S { a: u8, #[nom(Ignore, SkipBefore = "1")] b: u8, c: u8 }
fn main() {
    assert_eq!(S::parse(&[4, 1, 2]).unwrap().1, S { a: 4, b: 0, c: 2 });
}
""")

B('B64', 'C06', 'an unbounded sequence whose last element asks for an unknown amount of input',
  'a torn element that does not know how much it needs makes the whole sequence ask for more',
  [(TR, '        many0(complete(<T>::parse)).parse(i)', """        // an element that is cut ends the sequence
        let element = |i: I| match T::parse(i.clone()) {
            Err(Err::Incomplete(Needed::Size(_))) => {
                Err(Err::Error(E::from_error_kind(i, nom::error::ErrorKind::Complete)))
            }
            r => r,
        };
        many0(element).parse(i)""")],
  PRE + """
#[derive(Debug, PartialEq)]
struct Line(Vec<u8>);
impl<'a> Parse<&'a [u8]> for Line {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], Line> {
        let (r, x) = nom::bytes::streaming::take_until::<_, _, nom::error::Error<&[u8]>>("\\n")(i)?;
        Ok((&r[1..], Line(x.to_vec())))
    }
}
fn main() {
    let r: IResult<&[u8], Vec<Line>, E> = <Vec<Line>>::parse(b"ab\\nc\\nd");
    assert_eq!(r.unwrap(), (&b"d"[..], vec![Line(b"ab".to_vec()), Line(b"c".to_vec())]));
}
""")
