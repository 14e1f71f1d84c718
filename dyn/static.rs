#![allow(warnings)]
// Fixed grammars for the features the random families do not draw.
use pomelo::pomelo;
fn check(p: &str, ok: bool, msg: &str) { if !ok { println!("FAIL {} {}", p, msg); } else { println!("OK {}", msg); } }

// default limit, default error code
pomelo! {
    %module lim;
    %error i32;
    %type A u32;
    %type s u32;
    %type e u32;
    s ::= e(x) B { x }
    e ::= A(x) e(y) { x + y }
    e ::= { 0 }
}
fn lim_run(n: usize) -> Result<u32, (usize, i32)> {
    let mut p = lim::Parser::new();
    for i in 0..n { if let Err(e) = p.parse(lim::Token::A(1)) { return Err((i, e)); } }
    if let Err(e) = p.parse(lim::Token::B) { return Err((n, e)); }
    p.end_of_input().map_err(|e| (n + 1, e))
}
pomelo! {
    %module limx;
    %error String;
    %extra_argument Vec<String>;
    %stack_size 0;
    %type A u32;
    %type s u32;
    %type e u32;
    %stack_overflow { panic!("overflow code with limit 0") }
    s ::= e(x) B { x }
    e ::= A(x) e(y) { x + y }
    e ::= { 0 }
}
// extra token
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Loc(u32);
pomelo! {
    %module xt;
    %include { use super::Loc; }
    %token #[derive(Debug, Clone)] pub enum Token {};
    %extra_token Loc;
    %extra_argument Vec<String>;
    %error String;
    %syntax_error { let t = token.as_ref().unwrap(); extra.push(format!("err {:?} {}", t.extra(), expected.map(|e| format!("{}{}", e.name, e.token.is_some() as u8)).collect::<Vec<_>>().join(","))); Err(format!("{:?}", token.unwrap().into_extra())) }
    %parse_fail { extra.push("fail".into()); "pf".to_string() }
    %type A u32;
    %type B String;
    %type C Loc;
    %type s String;
    s ::= A((l, x)) B((m, y)) C((n, z)) D(o) { extra.push("s".into()); format!("{:?} {} {:?} {} {:?} {:?} {:?}", l, x, m, y, n, z, o) }
}
// an extra argument by reference, generics
pomelo! {
    %module ge;
    %parser pub struct Parser<'e> {};
    %token pub enum Token<'e> {};
    %extra_argument &'e mut Vec<u32>;
    %type N &'e str;
    %type s usize;
    s ::= s(a) N(x) { extra.push(x.len() as u32); a + x.len() }
    s2 ::= ;
    %start_symbol t;
    %type t usize;
    t ::= s(a) s2 Z { a }
    s ::= { extra.push(1000); 0 }
}
// default_type, default start symbol, no extra
pomelo! {
    %module dt;
    %default_type i64;
    %type P ();
    list ::= list2(x) { x * 10 }
    list2 ::= list2(a) P(_) N(b) { a + b }
    list2 ::= N(b) { b }
}
// errors in user code, question mark
pomelo! {
    %module ue;
    %error String;
    %extra_argument u32;
    %type N u32;
    %type s u32;
    %type e u32;
    s ::= e(x) { if x > 100 { return Err(format!("big {}", x)); } x }
    e ::= e(a) N(b) { *extra += 1; a.checked_sub(b).ok_or_else(|| format!("neg {} {}", a, b))? }
    e ::= N(b) { *extra += 1; b }
}
// optional class, optional with default_type, alternatives with payload, fallback and alias
pomelo! {
    %module sg;
    %type A u32; %type B u32; %type C String;
    %token_class Num A B;
    %fallback Id Kw;
    %type s String;
    %type f u32;
    s ::= Num?(a) C?(b) Id(c) f(n) { let () = c; format!("{:?} {:?} {}", a, b, n) }
    f ::= LP A|B RP;
    f ::= Num;
}
// the error symbol with a value
pomelo! {
    %module er;
    %token #[derive(Debug, Clone)] pub enum Token {};
    %error String;
    %extra_argument Vec<String>;
    %type error u32;
    %type s String;
    %type st String;
    %type N u32;
    %syntax_error { extra.push(format!("bad {:?}", token)); if extra.len() > 3 { Err("too many".to_string()) } else { Ok(extra.len() as u32 * 100) } }
    %parse_fail { "failed".to_string() }
    s ::= { String::new() }
    s ::= s(a) st(b) { format!("{}{};", a, b) }
    st ::= N(x) Eq N(y) Semi { format!("{}={}", x, y) }
    st ::= error(e) Semi { format!("<{}>", e) }
    st ::= LP error(e) RP Semi { format!("({})", e) }
    %start_symbol top;
    %type top String;
    top ::= s(x) { x }
}
fn er_run(t: &[er::Token]) -> (Result<String, String>, Vec<String>) {
    let mut p = er::Parser::new(vec![]);
    for x in t { if let Err(e) = p.parse(x.clone()) { return (Err(e), p.into_extra()); } }
    match p.end_of_input() { Ok((v, x)) => (Ok(v), x), Err(e) => (Err(e), vec![]) }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // C10: the stack of the grammar above holds $, n tokens and an e; at most 100 entries
    check("C10", lim_run(98) == Ok(98), "98 tokens fit the default stack");
    check("C10", lim_run(99) == Err((99, 0)), "99 tokens overflow when the empty e is pushed");
    check("C10", lim_run(200) == Err((99, 0)), "the 100th token overflows");
    {
        let mut p = limx::Parser::new(vec![]);
        let ok = (0..5000).all(|_| p.parse(limx::Token::A(1)).is_ok()) && p.parse(limx::Token::B).is_ok();
        check("C10", ok && p.end_of_input().unwrap().0 == 5000, "limit 0 is no limit");
    }
    // C16, C12: extra token
    {
        use xt::*;
        let mut t = Token::A((Loc(7), 5));
        check("C16", t.extra() == &Loc(7), "extra of a typed token");
        t.extra_mut().0 = 8;
        check("C16", t.extra() == &Loc(8) && format!("{:?}", t) == "A((Loc(8), 5))", "extra_mut of a typed token");
        check("C16", t.into_extra() == Loc(8), "into_extra of a typed token");
        let mut t = Token::D(Loc(3));
        t.extra_mut().0 = 4;
        check("C16", t.extra() == &Loc(4) && t.into_extra() == Loc(4), "extra of a token without a type");
        let mut t = Token::C((Loc(1), Loc(2)));
        t.extra_mut().0 = 9;
        check("C16", t.extra() == &Loc(9) && format!("{:?}", t) == "C((Loc(9), Loc(2)))", "extra of a token whose type is the extra type");
        let mut p = Parser::new(vec!["init".to_string()]);
        let toks = [Token::A((Loc(1), 10)), Token::B((Loc(2), "b".into())), Token::C((Loc(3), Loc(33))), Token::D(Loc(4))];
        for t in toks.iter() { check("C03", p.parse(t.clone()).is_ok(), "token taken"); }
        p.extra_mut().push("mine".into());
        check("C16", p.extra().len() == 2, "extra accessor");
        let (v, x) = p.end_of_input().unwrap();
        check("C03", v == "Loc(1) 10 Loc(2) b Loc(3) Loc(33) Loc(4)", "values with extra token");
        check("C16", x == ["init", "mine", "s"], "extra is handed out");
        let mut p = Parser::new(vec![]);
        check("C16", p.parse(toks[0].clone()).is_ok(), "A");
        check("C09", p.parse(Token::D(Loc(44))) == Err("Loc(44)".to_string()), "syntax_error's Err is returned");
        check("C12", p.extra() == &["err Loc(44) B0"], "expected list with an extra token");
        check("C16", p.into_extra().len() == 1, "into_extra after a failure");
        let p = Parser::new(vec![]);
        check("C09", p.end_of_input() == Err("pf".to_string()), "parse_fail at end of input");
    }
    {
        let mut log = vec![];
        let text = String::from("ab cde f");
        let mut p = ge::Parser::new(&mut log);
        for w in text.split(' ') { p.parse(ge::Token::N(w)).unwrap(); }
        p.parse(ge::Token::Z).unwrap();
        let r = p.end_of_input().unwrap();
        check("C16", r.0 == 6 && log == [1000, 2, 3, 1], "extra by reference");
    }
    {
        let mut p = dt::Parser::new();
        for t in [dt::Token::N(1), dt::Token::P(()), dt::Token::N(20), dt::Token::P(()), dt::Token::N(300)] { check("C03", p.parse(t).is_ok(), "t"); }
        check("C03", p.end_of_input() == Ok(3210), "default_type and default start symbol");
    }
    {
        let run = |v: &[u32]| { let mut p = ue::Parser::new(0); for &x in v { if let Err(e) = p.parse(ue::Token::N(x)) { let m = *p.extra(); let q = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = p.parse(ue::Token::N(1)); })); return (Err(e), m + if q.is_err() { 1000 } else { 0 }); } } match p.end_of_input() { Ok((v, x)) => (Ok(v), x), Err(e) => (Err(e), 0) } };
        check("C03", run(&[50, 3, 2]) == (Ok(45), 3), "left to right");
        check("C09", run(&[5, 3, 9, 1]) == (Err("neg 2 9".to_string()), 1003), "an Err in an action ends the parse");
        check("C09", run(&[500]) == (Err("big 500".to_string()), 0), "an Err in the last action");
    }
    {
        use sg::*;
        let run = |v: Vec<Token>| { let mut p = Parser::new(); for x in v { if p.parse(x).is_err() { return None; } } p.end_of_input().ok() };
        check("C13", run(vec![Token::A(1), Token::C("x".into()), Token::Id, Token::B(4)]) == Some("Some(1) Some(\"x\") 4".to_string()), "optional class present");
        check("C13", run(vec![Token::B(2), Token::Id, Token::LP, Token::B(9), Token::RP]) == Some("Some(2) None 9".to_string()), "forwarded alternative");
        check("C13", run(vec![Token::Kw, Token::A(4)]) == Some("None None 4".to_string()), "optional class absent, fallback token");
        check("C01", run(vec![Token::A(1), Token::A(1), Token::Id, Token::A(4)]).is_none(), "an optional symbol occurs at most once");
    }
    {
        use er::Token::*;
        let r = er_run(&[N(1), Eq, N(2), Semi, N(3), N(4), N(5), Eq, Semi, N(6), Eq, N(7), Semi]);
        check("C09", r == (Ok("1=2;<100>;6=7;".to_string()), vec!["bad Some(N(4))".to_string()]), "recovery drops tokens silently");
        let r = er_run(&[LP, N(1), RP, Semi, Semi, LP, Eq, RP, Semi]);
        check("C09", r == (Ok("(100);<200>;".to_string()), vec!["bad Some(N(1))".to_string(), "bad Some(Semi)".to_string()]), "recovery inside parentheses, every error reported");
        let r = er_run(&[Semi, Semi, Semi, Semi, Semi, Semi, Semi]);
        check("C09", r.0 == Err("too many".to_string()) && r.1.len() == 4, "Err from syntax_error");
        let r = er_run(&[N(1), Eq]);
        check("C09", r.0 == Err("failed".to_string()), "error at end of input");
    }
    println!("DONE");
}
