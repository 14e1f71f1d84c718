@@props C01 C03 C04 C07 C08 C09 C10 C11 C12 C16
@@include prelude.vxi
@@include lr.vxi
@@raw
// ===== the user's types: nothing is assumed about them =====
#[verifier::external_body] pub struct ErrT { x: u8 }
#[verifier::external_body] pub struct RootT { x: u8 }
#[verifier::external_body] pub struct ErrorSymT { x: u8 }
#[verifier::external_body] pub struct Token { x: u8 }
#[verifier::external_body] pub struct ExtraT { x: u8 }
#[verifier::external_body] pub struct YYMinorType { x: u8 }
impl YYMinorType {
    pub uninterp spec fn dt(&self) -> int;       // which variant
    pub uninterp spec fn tree(&self) -> Tree;    // where the value comes from
}
impl Token {
    pub uninterp spec fn code(&self) -> int;
    pub uninterp spec fn payload(&self) -> YYMinorType;
}
pub uninterp spec fn minor_unit() -> YYMinorType;
pub uninterp spec fn minor_err(e: ErrorSymT) -> YYMinorType;
pub uninterp spec fn root_of(m: YYMinorType) -> RootT;
pub open spec fn root_dt() -> int { sym_dt(start()) }
/// what token_build makes of a symbol number and its value
pub uninterp spec fn build(i: int, m: YYMinorType) -> Option<Token>;

/// calls of the user's code, in order; the value of `extra` is only reachable through them
#[allow(inconsistent_fields)]
pub enum Event {
    Reduce { rule: int, args: Seq<YYMinorType>, res: Result<YYMinorType, ErrT> },
    Syntax { token: Option<Token>, state: int, first: int, res: Result<ErrorSymT, ErrT> },
    Fail { res: ErrT },
    Overflow { token: Option<Token>, res: ErrT },
}
impl ExtraT {
    /// the calls that were handed this value
    pub uninterp spec fn log(&self) -> Seq<Event>;
}
@@type YYStackEntry from=tmpl
@@type YYStatus from=tmpl
@@type Parser from=tmpl
@@type ExpectedTokens from=tmpl
@@type ExpectedToken from=tmpl
@@raw
// ===== accessors of the generated constants and tables =====
#[verifier::external_body] pub fn YYNSTATE() -> (r: i32) ensures r == c_nstate() { unimplemented!() }
#[verifier::external_body] pub fn YYNRULE() -> (r: i32) ensures r == c_nrule() { unimplemented!() }
#[verifier::external_body] pub fn YYERRORSYMBOL() -> (r: i32) ensures r == c_err() { unimplemented!() }
#[verifier::external_body] pub fn YYWILDCARD() -> (r: i32) ensures r == c_wild() { unimplemented!() }
#[verifier::external_body] pub fn YYNOCODE() -> (r: i32) ensures r == c_nocode() { unimplemented!() }
#[verifier::external_body] pub fn YYSTACKLIMIT() -> (r: usize) ensures r == c_limit() { unimplemented!() }
#[verifier::external_body] pub fn YY_SHIFT_COUNT() -> (r: i32) ensures r == c_shift_count() { unimplemented!() }
#[verifier::external_body] pub fn YY_SHIFT_USE_DFLT() -> (r: i32) ensures r == c_shift_dflt() { unimplemented!() }
#[verifier::external_body] pub fn YY_REDUCE_COUNT() -> (r: i32) ensures r == c_reduce_count() { unimplemented!() }
#[verifier::external_body] pub fn YY_REDUCE_USE_DFLT() -> (r: i32) ensures r == c_reduce_dflt() { unimplemented!() }
#[verifier::external_body] pub fn YY_ACTION() -> (r: &'static Vec<i32>) ensures r@ == t_action() { unimplemented!() }
#[verifier::external_body] pub fn YY_LOOKAHEAD() -> (r: &'static Vec<i32>) ensures r@ == t_look() { unimplemented!() }
#[verifier::external_body] pub fn YY_SHIFT_OFST() -> (r: &'static Vec<i32>) ensures r@ == t_sofs() { unimplemented!() }
#[verifier::external_body] pub fn YY_REDUCE_OFST() -> (r: &'static Vec<i32>) ensures r@ == t_rofs() { unimplemented!() }
#[verifier::external_body] pub fn YY_DEFAULT() -> (r: &'static Vec<i32>) ensures r@ == t_dflt() { unimplemented!() }
#[verifier::external_body] pub fn YY_FALLBACK() -> (r: &'static Vec<i32>) ensures r@ == t_fb() { unimplemented!() }
#[verifier::external_body] pub fn YY_RULE_INFO() -> (r: &'static Vec<i32>) ensures r@ == t_info() { unimplemented!() }
#[verifier::external_body] pub fn YY_TOKEN_NAMES() -> (r: &'static Vec<&'static str>) ensures r@ == t_names() { unimplemented!() }
#[verifier::external_body]
pub fn vx_usize_try_from(x: i32) -> (r: Result<usize, ()>) ensures r == (if x >= 0 { Ok::<usize, ()>(x as usize) } else { Err::<usize, ()>(()) }) { unimplemented!() }

// ===== generated or user-written code, by contract =====
#[verifier::external_body]
pub fn vx_minor_unit() -> (r: YYMinorType) ensures r == minor_unit(), r.dt() == 0, r.tree() == Tree::Other { unimplemented!() }
#[verifier::external_body]
pub fn vx_minor_err(e: ErrorSymT) -> (r: YYMinorType) ensures r == minor_err(e), r.dt() == sym_dt(c_err()), r.tree() == Tree::Err { unimplemented!() }
#[verifier::external_body]
pub fn token_build(i: i32, m: YYMinorType) -> (r: Option<Token>)
    ensures r == build(i as int, m), r is Some <==> is_token(i as int) && (sym_dt(i as int) == 0 || sym_dt(i as int) == m.dt()),
        r is Some ==> r->0.code() == i && (sym_dt(i as int) != 0 ==> r->0.payload() == m),
{ unimplemented!() }
#[verifier::external_body]
pub fn token_value(t: Token) -> (r: (i32, YYMinorType))
    ensures r.0 == t.code(), is_token(r.0 as int), r.1 == t.payload(), r.1.dt() == sym_dt(r.0 as int), r.1.tree() == Tree::Leaf(r.0 as int)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_is_root(m: &YYMinorType) -> (r: bool) ensures r == (m.dt() == root_dt()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_into_root(m: YYMinorType) -> (r: RootT) requires m.dt() == root_dt() ensures r == root_of(m) { unimplemented!() }
#[verifier::external_body]
pub fn user_stack_overflow(token: Option<Token>, extra: &mut ExtraT) -> (r: ErrT)
    ensures final(extra).log() == old(extra).log().push(Event::Overflow { token, res: r }) { unimplemented!() }
#[verifier::external_body]
pub fn user_parse_fail(extra: &mut ExtraT) -> (r: ErrT)
    ensures final(extra).log() == old(extra).log().push(Event::Fail { res: r }) { unimplemented!() }
#[verifier::external_body]
pub fn user_syntax_error(token: Option<Token>, extra: &mut ExtraT, expected: ExpectedTokens) -> (r: Result<ErrorSymT, ErrT>)
    ensures final(extra).log() == old(extra).log().push(Event::Syntax { token, state: expected.stateno as int, first: expected.yy_major as int, res: r }) { unimplemented!() }
/// the arm of `match yyruleno` that translate_code writes: pops one entry for each symbol of the
/// rule, binds the aliases to their values and runs the rule's code
#[verifier::external_body]
pub fn vx_rule_code(yy: &mut Parser, r: i32) -> (res: Result<YYMinorType, ErrT>)
    requires is_rule(r as int), rhslen(r as int) <= old(yy).yystack@.len(),
        // the patterns of the aliases match
        forall|i: int| 0 <= i < rhslen(r as int) ==> typed(r as int, i, #[trigger] popped(old(yy).yystack@, rhslen(r as int))[i].dt()),
    ensures
        final(yy).yystack@ == old(yy).yystack@.subrange(0, old(yy).yystack@.len() - rhslen(r as int)),
        final(yy).error_count == old(yy).error_count, final(yy).yystatus == old(yy).yystatus,
        final(yy).extra.log() == old(yy).extra.log().push(Event::Reduce { rule: r as int, args: popped(old(yy).yystack@, rhslen(r as int)), res }),
        res is Ok ==> res->Ok_0.dt() == sym_dt(lhs(r as int))
            && res->Ok_0.tree() == Tree::Node(r as int, trees(popped(old(yy).yystack@, rhslen(r as int)))),
{ unimplemented!() }

/// "Cannot call parse after failure": only when the parser is not in its normal state
#[verifier::external_body]
pub fn vx_lifecycle_panic<T>(yy: &mut Parser) -> (r: T) requires !(old(yy).yystatus is Normal) ensures false { unimplemented!() }

pub type Stack = Seq<YYStackEntry>;
/// the values of the topmost n entries, bottom first
pub open spec fn popped(s: Stack, n: int) -> Seq<YYMinorType> { Seq::new(n as nat, |i: int| s[s.len() - n + i].minor) }
pub open spec fn trees(v: Seq<YYMinorType>) -> Seq<Tree> { Seq::new(v.len(), |i: int| v[i].tree()) }
/// the trees on the stack
pub open spec fn stack_trees(s: Stack) -> Seq<Tree> { Seq::new((s.len() - 1) as nat, |i: int| s[i + 1].minor.tree()) }

// ===== a configuration and the documented steps =====
pub ghost struct Cfg { pub stack: Stack, pub ec: int, pub status: YYStatus<RootT>, pub log: Seq<Event> }
pub open spec fn cfg(p: Parser) -> Cfg { Cfg { stack: p.yystack@, ec: p.error_count as int, status: p.yystatus, log: p.extra.log() } }
pub open spec fn top_of(s: Stack) -> int { s.last().stateno as int }

/// C10: put one more entry on the stack, or overflow
pub open spec fn push_to(c: Cfg, st: int, major: int, v: YYMinorType, c2: Cfg, res: Result<(), ErrT>) -> bool {
    if c_limit() != 0 && c.stack.len() >= c_limit() {
        res is Err && c2 == (Cfg { log: c.log.push(Event::Overflow { token: build(major, v), res: res->Err_0 }), ..c })
    } else {
        res is Ok && c2 == (Cfg { stack: c.stack.push(YYStackEntry { stateno: st as i32, major: major as i32, minor: v }), ..c })
    }
}
/// run the rule's code, pop, and put the result on the stack or accept
pub open spec fn reduce_to(c: Cfg, r: int, c2: Cfg, res: Result<(), ErrT>) -> bool {
    let n = rhslen(r);
    c.log.len() < c2.log.len() && match c2.log[c.log.len() as int] {
        Event::Reduce { rule, args, res: v } => {
            let c1 = Cfg { stack: c.stack.subrange(0, c.stack.len() - n), log: c.log.push(Event::Reduce { rule: r, args: popped(c.stack, n), res: v }), ..c };
            rule == r && args == popped(c.stack, n) && match v {
                Err(e) => res == Err::<(), ErrT>(e) && c2 == c1,
                Ok(val) => val.tree() == Tree::Node(r, trees(args)) && val.dt() == sym_dt(lhs(r)) && match goto_(top_of(c1.stack), lhs(r)) {
                    Some(q) if q < c_nstate() => push_to(c1, q, lhs(r), val, c2, res),
                    _ => res is Ok && c1.stack.len() == 1 && lhs(r) == start()
                        && c2 == (Cfg { stack: Seq::empty(), status: YYStatus::Accepted(root_of(val)), ..c1 }),
                },
            }
        }
        _ => false,
    }
}
/// C09: what error recovery leaves of the stack
pub open spec fn recover(s: Stack) -> Stack decreases s.len() {
    if s.len() == 0 { s } else if s.last().major == c_err() || can_take_error(top_of(s)) { s } else { recover(s.drop_last()) }
}
pub open spec fn can_take_error(st: int) -> bool { match goto_(st, c_err()) { Some(q) => q < c_nstate(), None => false } }
pub open spec fn fail_to(c: Cfg, c2: Cfg, res: Result<(), ErrT>) -> bool {
    res is Err && c2 == (Cfg { stack: Seq::empty(), log: c.log.push(Event::Fail { res: res->Err_0 }), ..c })
}
pub open spec fn error_to(c: Cfg, tok: int, v: YYMinorType, c2: Cfg, res: Result<(), ErrT>) -> bool {
    if tok == 0 { fail_to(c, c2, res) }
    else if c_err() != 0 {
        let s = recover(c.stack);
        if s.len() == 0 { fail_to(c, c2, res) }
        else if s.last().major == c_err() { res is Ok && c2 == (Cfg { stack: s, ec: 3, ..c }) }
        else {
            // the syntax_error code runs once, with the offending token and the tokens expected where the error was found
            c.log.len() < c2.log.len() && match c2.log[c.log.len() as int] {
                Event::Syntax { token, state, first, res: e } => {
                    let c1 = Cfg { stack: s, log: c.log.push(Event::Syntax { token: build(tok, v), state: top_of(c.stack), first: 1, res: e }), ..c };
                    token == build(tok, v) && state == top_of(c.stack) && first == 1 && match e {
                        Err(x) => res == Err::<(), ErrT>(x) && c2 == c1,
                        Ok(x) => match res {
                            Ok(_) => push_to(c1, goto_(top_of(s), c_err())->0, c_err(), minor_err(x), Cfg { ec: c1.ec, ..c2 }, res) && c2.ec == 3,
                            Err(_) => push_to(c1, goto_(top_of(s), c_err())->0, c_err(), minor_err(x), c2, res),
                        },
                    }
                }
                _ => false,
            }
        }
    } else if c.ec == 0 {
        c.log.len() < c2.log.len() && match c2.log[c.log.len() as int] {
            Event::Syntax { token, state, first, res: e } => {
                let c1 = Cfg { log: c.log.push(Event::Syntax { token: build(tok, v), state: top_of(c.stack), first: 1, res: e }), ..c };
                token == build(tok, v) && state == top_of(c.stack) && first == 1 && match e {
                    Err(x) => res == Err::<(), ErrT>(x) && c2 == c1,
                    Ok(x) => res is Ok && c2 == (Cfg { ec: 3, ..c1 }),
                }
            }
            _ => false,
        }
    } else { res is Ok && c2 == (Cfg { ec: 3, ..c }) }
}
/// one reduction, asked for by the documented action for the token
pub open spec fn reduce_step(c: Cfg, tok: int, c2: Cfg) -> bool {
    let a = doc_action(top_of(c.stack), tok);
    c.status is Normal && c_nstate() <= a < c_nstate() + c_nrule() && reduce_to(c, a - c_nstate(), c2, Ok(()))
}
/// the step that ends a call
pub open spec fn last_step(c: Cfg, tok: int, v: YYMinorType, c2: Cfg, res: Result<(), ErrT>) -> bool {
    let a = doc_action(top_of(c.stack), tok);
    if !(c.status is Normal) { res is Ok && c2 == c }
    else if a < c_nstate() {
        match res {
            Ok(_) => push_to(c, a, tok, v, Cfg { ec: c.ec, ..c2 }, res) && c2.ec == if c.ec > 0 { c.ec - 1 } else { 0 },
            Err(_) => push_to(c, a, tok, v, c2, res),
        }
    } else if a < c_nstate() + c_nrule() { res is Err && reduce_to(c, a - c_nstate(), c2, res) }
    else { error_to(c, tok, v, c2, res) }
}
pub open spec fn reductions(tr: Seq<Cfg>, tok: int) -> bool {
    tr.len() > 0 && forall|i: int| 0 <= i < tr.len() - 1 ==> reduce_step(#[trigger] tr[i], tok, tr[i + 1])
}
/// a call of the parser: reductions, then one last step
#[verifier::opaque]
pub open spec fn call(c: Cfg, tok: int, v: YYMinorType, c2: Cfg, res: Result<(), ErrT>) -> bool { call_(c, tok, v, c2, res) }
pub open spec fn call_(c: Cfg, tok: int, v: YYMinorType, c2: Cfg, res: Result<(), ErrT>) -> bool {
    exists|tr: Seq<Cfg>| #[trigger] reductions(tr, tok) && tr.first() == c && last_step(tr.last(), tok, v, c2, res)
}

/// the syntax_error code is run
pub open spec fn syntax_to(c: Cfg, tok: int, v: YYMinorType, state: int, first: int, c2: Cfg, e: Result<ErrorSymT, ErrT>) -> bool {
    c2 == (Cfg { log: c.log.push(Event::Syntax { token: build(tok, v), state, first, res: e }), ..c })
}

// a whole call, seen from outside: after an Err the parser is unusable
pub open spec fn after_call(c: Cfg, tok: int, v: YYMinorType, c2: Cfg, res: Result<(), ErrT>) -> bool {
    match res {
        Ok(_) => call(c, tok, v, c2, res) && inv(c2),
        Err(_) => c2.status is Failed && inv(c2) && exists|c1: Cfg| #[trigger] call(c, tok, v, c1, res) && c2 == (Cfg { status: YYStatus::Failed, ..c1 }),
    }
}

// ===== the invariant of the stack =====
pub open spec fn entry_ok(s: Stack, i: int) -> bool {
    &&& exists|x: int| #[trigger] edge(s[i - 1].stateno as int, x, s[i].stateno as int) && stands(s[i].minor.tree(), x)
    &&& valid(s[i].minor.tree())
    &&& forall|r: int, d: int| #[trigger] item(s[i].stateno as int, r, d) && d > 0 ==> typed(r, d - 1, s[i].minor.dt())
}
pub open spec fn stack_ok(s: Stack) -> bool {
    &&& s.len() > 0 && s[0].stateno == 0
    &&& forall|i: int| 0 <= i < s.len() ==> is_state((#[trigger] s[i]).stateno as int)
    &&& forall|i: int| 0 < i < s.len() ==> #[trigger] entry_ok(s, i)
    &&& c_limit() == 0 || s.len() <= c_limit()
}
/// C01, C03: what an accepted value is
pub open spec fn accepted_ok(c: Cfg) -> bool {
    match c.status {
        YYStatus::Accepted(root) => exists|v: YYMinorType| accepts(v, root),
        _ => true,
    }
}
pub open spec fn accepts(v: YYMinorType, root: RootT) -> bool {
    root == root_of(v) && valid(v.tree()) && v.tree() is Node && lhs(v.tree()->Node_0) == start()
}
pub open spec fn inv(c: Cfg) -> bool {
    tables_ok() && (c.status is Normal ==> stack_ok(c.stack))
}
pub proof fn lemma_prefix(s: Stack, n: int)
    requires stack_ok(s), 0 < n <= s.len()
    ensures stack_ok(s.subrange(0, n))
{
    let t = s.subrange(0, n);
    assert forall|i: int| 0 < i < t.len() implies #[trigger] entry_ok(t, i) by { assert(entry_ok(s, i)); assert(t[i] == s[i] && t[i - 1] == s[i - 1]); }
}
/// walking back from an item to the state where its rule starts
pub proof fn lemma_walk(s: Stack, r: int, d: int, k: int)
    requires tables_ok(), stack_ok(s), item(top_of(s), r, d), 0 <= k <= d,
    ensures k < s.len(), item(s[s.len() - 1 - k].stateno as int, r, d - k),
        forall|j: int| 0 <= j < k ==> typed(r, d - 1 - j, #[trigger] s[s.len() - 1 - j].minor.dt()) && fits(r, d - 1 - j, s[s.len() - 1 - j].minor.tree()) && valid(s[s.len() - 1 - j].minor.tree()),
    decreases k
{
    reveal(tables_ok);
    if k > 0 {
        lemma_walk(s, r, d, k - 1);
        let i = s.len() - k;
        if i == 0 { assert(item(0, r, d - k + 1)); }
        assert(entry_ok(s, i));
        let x = choose|x: int| #[trigger] edge(s[i - 1].stateno as int, x, s[i].stateno as int) && stands(s[i].minor.tree(), x);
        assert(item(s[i].stateno as int, r, d - k + 1));
        assert(fits(r, d - k, s[i].minor.tree()));
        assert forall|j: int| 0 <= j < k implies typed(r, d - 1 - j, #[trigger] s[s.len() - 1 - j].minor.dt()) && fits(r, d - 1 - j, s[s.len() - 1 - j].minor.tree()) && valid(s[s.len() - 1 - j].minor.tree()) by {
            if j == k - 1 { assert(s.len() - 1 - j == i); }
        }
    }
}
/// putting an entry on the stack
pub proof fn lemma_push(s: Stack, e: YYStackEntry, x: int)
    requires tables_ok(), stack_ok(s), edge(top_of(s), x, e.stateno as int), stands(e.minor.tree(), x), valid(e.minor.tree()),
        forall|r: int, d: int| #[trigger] item(e.stateno as int, r, d) && d > 0 ==> typed(r, d - 1, e.minor.dt()),
        c_limit() == 0 || s.len() < c_limit(),
    ensures stack_ok(s.push(e))
{
    reveal(tables_ok);
    let t = s.push(e);
    assert forall|i: int| 0 < i < t.len() implies #[trigger] entry_ok(t, i) by {
        if i < s.len() { assert(entry_ok(s, i)); assert(t[i] == s[i] && t[i - 1] == s[i - 1]); }
        else { assert(t[i] == e && t[i - 1] == s.last()); }
    }
}
pub proof fn lemma_zero(s: Stack)
    requires tables_ok(), stack_ok(s), top_of(s) == 0,
    ensures s.len() == 1
{
    reveal(tables_ok);
    if s.len() > 1 {
        let i = s.len() - 1;
        assert(entry_ok(s, i));
        let x = choose|x: int| #[trigger] edge(s[i - 1].stateno as int, x, s[i].stateno as int) && stands(s[i].minor.tree(), x);
    }
}
/// the tree of a reduction is a derivation tree
pub proof fn lemma_node(s: Stack, r: int)
    requires tables_ok(), stack_ok(s), is_rule(r), item(top_of(s), r, rhslen(r)),
    ensures rhslen(r) < s.len(), valid(Tree::Node(r, trees(popped(s, rhslen(r)))))
{
    reveal(tables_ok);
    let n = rhslen(r);
    lemma_walk(s, r, n, n);
    let t = trees(popped(s, n));
    assert forall|i: int| 0 <= i < n implies fits(r, i, #[trigger] t[i]) && valid(t[i]) by {
        let j = n - 1 - i;
        let dt = s[s.len() - 1 - j].minor.dt();
        assert(s[s.len() - 1 - j] == s[s.len() - n + i]);
        assert(n - 1 - j == i);
    }
}
@@fn is_normal from=tmpl impl=YYStatus implas=<T>YYStatus<T>
@@ret r
@@sig
    ensures r == (*self is Normal)
@@fn unwrap from=tmpl impl=YYStatus implas=<T>YYStatus<T>
@@ret r
@@sig
    requires self is Accepted,
    ensures self == YYStatus::Accepted(r),
@@raw
// ===== C01, C03: the history of a parser =====
pub open spec fn nsyn(l: Seq<Event>) -> nat decreases l.len() {
    if l.len() == 0 { 0 } else { nsyn(l.drop_last()) + if l.last() is Syntax { 1nat } else { 0nat } }
}
/// the nodes of the derivation tree the rule code was run for, in call order
pub open spec fn runs(l: Seq<Event>) -> Seq<Tree> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else {
        match l.last() {
            Event::Reduce { rule, args, res: Ok(_) } => runs(l.drop_last()).push(Tree::Node(rule, trees(args))),
            _ => runs(l.drop_last()),
        }
    }
}
/// a parser that has taken the tokens w without reporting an error; l0: the log of `extra` at the start
pub open spec fn hist(c: Cfg, l0: Seq<Event>, w: Seq<int>) -> bool {
    &&& c.status is Normal && stack_ok(c.stack) && c.ec == 0
    &&& c_err() != 0 ==> forall|i: int| 0 <= i < c.stack.len() ==> (#[trigger] c.stack[i]).major != c_err()
    &&& toks_all(stack_trees(c.stack)) == w
    &&& runs(c.log) == runs(l0) + nodes_all(stack_trees(c.stack))
}
pub open spec fn done_with(v: YYMinorType, root: RootT, log: Seq<Event>, l0: Seq<Event>, w: Seq<int>) -> bool {
    accepts(v, root) && toks(v.tree()) == w && runs(log) == runs(l0) + nodes(v.tree())
}
pub open spec fn done_by(c: Cfg, v: YYMinorType, l0: Seq<Event>, w: Seq<int>) -> bool {
    c.status == YYStatus::Accepted(root_of(v)) && done_with(v, root_of(v), c.log, l0, w)
}
/// the same for a parser that has accepted
pub open spec fn done(c: Cfg, l0: Seq<Event>, w: Seq<int>) -> bool {
    exists|v: YYMinorType| #[trigger] done_by(c, v, l0, w)
}
pub proof fn lemma_all_add(a: Seq<Tree>, b: Seq<Tree>)
    ensures toks_all(a + b) == toks_all(a) + toks_all(b), nodes_all(a + b) == nodes_all(a) + nodes_all(b),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(toks_all(a) + Seq::<int>::empty() =~= toks_all(a)); assert(nodes_all(a) + Seq::<Tree>::empty() =~= nodes_all(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_all_add(a, b.drop_last());
        assert(toks_all(a) + toks_all(b) =~= (toks_all(a) + toks_all(b.drop_last())) + toks(b.last()));
        assert(nodes_all(a) + nodes_all(b) =~= (nodes_all(a) + nodes_all(b.drop_last())) + nodes(b.last()));
    }
}
pub proof fn lemma_all_one(t: Tree)
    ensures toks_all(seq![t]) == toks(t), nodes_all(seq![t]) == nodes(t)
{
    assert(seq![t].drop_last() =~= Seq::<Tree>::empty());
    assert(toks_all(Seq::<Tree>::empty()) + toks(t) =~= toks(t));
    assert(nodes_all(Seq::<Tree>::empty()) + nodes(t) =~= nodes(t));
    reveal_with_fuel(toks_all, 2); reveal_with_fuel(nodes_all, 2);
}
pub proof fn lemma_push_trees(s: Stack, e: YYStackEntry)
    requires s.len() > 0,
    ensures toks_all(stack_trees(s.push(e))) == toks_all(stack_trees(s)) + toks(e.minor.tree()),
        nodes_all(stack_trees(s.push(e))) == nodes_all(stack_trees(s)) + nodes(e.minor.tree()),
{
    assert(stack_trees(s.push(e)) =~= stack_trees(s) + seq![e.minor.tree()]);
    lemma_all_add(stack_trees(s), seq![e.minor.tree()]);
    lemma_all_one(e.minor.tree());
}
pub open spec fn done_out(c: Cfg, l0: Seq<Event>, w: Seq<int>) -> bool {
    exists|v: YYMinorType| #[trigger] done_with(v, c.status->Accepted_0, c.log, l0, w)
}
pub proof fn lemma_done(c: Cfg, v: YYMinorType, l0: Seq<Event>, w: Seq<int>)
    requires c.status == YYStatus::Accepted(root_of(v)), done_with(v, root_of(v), c.log, l0, w),
    ensures done(c, l0, w)
{ assert(done_by(c, v, l0, w)); }
/// a reduction keeps the tokens and adds its node
pub proof fn lemma_reduce_hist(c: Cfg, l0: Seq<Event>, w: Seq<int>, r: int, c2: Cfg)
    requires tables_ok(), hist(c, l0, w), is_rule(r), item(top_of(c.stack), r, rhslen(r)), reduce_to(c, r, c2, Ok(())),
    ensures hist(c2, l0, w) || done(c2, l0, w), nsyn(c2.log) == nsyn(c.log),
{
    reveal(tables_ok);
    let n = rhslen(r);
    let s = c.stack;
    lemma_walk(s, r, n, n);
    lemma_node(s, r);
    let base = s.subrange(0, s.len() - n);
    lemma_prefix(s, s.len() - n);
    let args = popped(s, n);
    let node = Tree::Node(r, trees(args));
    let e = c2.log[c.log.len() as int];
    let log1 = c.log.push(e);
    assert(stack_trees(s) =~= stack_trees(base) + trees(args));
    lemma_all_add(stack_trees(base), trees(args));
    assert(log1.drop_last() =~= c.log);
    assert(runs(log1) == runs(c.log).push(node));
    assert(item(top_of(base), r, 0));
    let l = lhs(r);
    let g = goto_(top_of(base), l);
    match e {
        Event::Reduce { rule, args: a, res: Ok(val) } => {
            let q = g->0;
            if q < c_nstate() {
                let en = YYStackEntry { stateno: q as i32, major: l as i32, minor: val };
                assert(c2.stack == base.push(en));
                assert(edge(top_of(base), l, q));
                assert(c_limit() == 0 || base.len() < c_limit());
                lemma_push(base, en, l);
                lemma_push_trees(base, en);
                assert(toks_all(stack_trees(c2.stack)) =~= w);
                assert(runs(c2.log) =~= runs(l0) + nodes_all(stack_trees(c2.stack)));
                assert(hist(c2, l0, w));
            } else {
                assert(stack_trees(base) =~= Seq::<Tree>::empty());
                assert(toks(node) =~= w);
                assert(runs(c2.log) =~= runs(l0) + nodes(node));
                assert(c2.status == YYStatus::Accepted(root_of(val)));
                assert(val.tree() == node);
                assert(accepts(val, root_of(val)));
                assert(done_with(val, root_of(val), c2.log, l0, w));
                lemma_done(c2, val, l0, w);
            }
        }
        _ => {}
    }
}
pub proof fn lemma_trace(tr: Seq<Cfg>, tok: int, l0: Seq<Event>, w: Seq<int>, i: int)
    requires tables_ok(), reductions(tr, tok), hist(tr.first(), l0, w), 0 <= i < tr.len(), 0 <= tok < nterm(),
    ensures hist(tr[i], l0, w) || (done(tr[i], l0, w) && tok == 0), nsyn(tr[i].log) == nsyn(tr[0].log),
    decreases i
{
    reveal(tables_ok);
    if i > 0 {
        lemma_trace(tr, tok, l0, w, i - 1);
        assert(reduce_step(tr[i - 1], tok, tr[i - 1 + 1]));
        let c = tr[i - 1];
        let r = doc_action(top_of(c.stack), tok) - c_nstate();
        lemma_action_range(top_of(c.stack), tok);
        assert(reduces_by(top_of(c.stack), r));
        lemma_reduce_hist(c, l0, w, r, tr[i]);
        if lhs(r) == start() { assert(tok == 0); }
        if tok != 0 && done(tr[i], l0, w) {
            assert(lhs(r) == start());
        }
    }
}
pub proof fn lemma_recover(s: Stack)
    requires s.len() > 0, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).major != c_err(),
    ensures recover(s).len() == 0 || recover(s).last().major != c_err()
    decreases s.len()
{
    if !can_take_error(top_of(s)) && s.len() > 1 { lemma_recover(s.drop_last()); }
    else if !can_take_error(top_of(s)) { assert(recover(s.drop_last()).len() == 0); }
}
pub proof fn lemma_reduce_ok(c: Cfg, r: int, c2: Cfg)
    requires tables_ok(), c.status is Normal, stack_ok(c.stack), is_rule(r), item(top_of(c.stack), r, rhslen(r)), reduce_to(c, r, c2, Ok(())),
    ensures (c2.status is Normal && stack_ok(c2.stack)) || (c2.status is Accepted && lhs(r) == start()),
{
    reveal(tables_ok);
    let n = rhslen(r);
    let s = c.stack;
    lemma_walk(s, r, n, n);
    lemma_node(s, r);
    let base = s.subrange(0, s.len() - n);
    lemma_prefix(s, s.len() - n);
    assert(item(top_of(base), r, 0));
    let l = lhs(r);
    let g = goto_(top_of(base), l);
    match c2.log[c.log.len() as int] {
        Event::Reduce { rule, args: a, res: Ok(val) } => {
            let q = g->0;
            if q < c_nstate() {
                let en = YYStackEntry { stateno: q as i32, major: l as i32, minor: val };
                assert(c2.stack == base.push(en));
                assert(edge(top_of(base), l, q));
                lemma_push(base, en, l);
            }
        }
        _ => {}
    }
}
pub proof fn lemma_trace_ok(tr: Seq<Cfg>, tok: int, i: int)
    requires tables_ok(), reductions(tr, tok), inv(tr.first()), tr.first().status is Normal, 0 <= i < tr.len(), 0 <= tok < nterm(),
    ensures (tr[i].status is Normal && stack_ok(tr[i].stack)) || (tr[i].status is Accepted && tok == 0),
    decreases i
{
    reveal(tables_ok);
    if i > 0 {
        lemma_trace_ok(tr, tok, i - 1);
        assert(reduce_step(tr[i - 1], tok, tr[i - 1 + 1]));
        let c = tr[i - 1];
        let r = doc_action(top_of(c.stack), tok) - c_nstate();
        lemma_action_range(top_of(c.stack), tok);
        assert(reduces_by(top_of(c.stack), r));
        lemma_reduce_ok(c, r, tr[i]);
    }
}
/// a token never ends the parse, the end of input always does
pub proof fn lemma_status(c: Cfg, tok: int, v: YYMinorType, c2: Cfg, res: Result<(), ErrT>)
    requires inv(c), c.status is Normal, 0 <= tok < nterm(), res is Ok, call(c, tok, v, c2, res),
    ensures tok != 0 ==> c2.status is Normal, tok == 0 ==> c2.status is Accepted,
{
    reveal(tables_ok); reveal(call);
    let tr = choose|tr: Seq<Cfg>| #[trigger] reductions(tr, tok) && tr.first() == c && last_step(tr.last(), tok, v, c2, res);
    let c1 = tr.last();
    lemma_trace_ok(tr, tok, tr.len() - 1);
    if c1.status is Normal { lemma_action_range(top_of(c1.stack), tok); }
}
/// C01, C03: what a call without an error does to the history
pub proof fn lemma_call(c: Cfg, tok: int, v: YYMinorType, c2: Cfg, res: Result<(), ErrT>, l0: Seq<Event>, w: Seq<int>)
    requires tables_ok(), hist(c, l0, w), 0 <= tok < nterm(), res is Ok, call(c, tok, v, c2, res), nsyn(c2.log) == nsyn(c.log),
        tok != 0 ==> v.tree() == Tree::Leaf(tok) && v.dt() == sym_dt(tok),
    ensures tok != 0 ==> hist(c2, l0, w.push(tok)), tok == 0 ==> done(c2, l0, w),
{
    reveal(tables_ok); reveal(call);
    let tr = choose|tr: Seq<Cfg>| #[trigger] reductions(tr, tok) && tr.first() == c && last_step(tr.last(), tok, v, c2, res);
    let c1 = tr.last();
    lemma_trace(tr, tok, l0, w, tr.len() - 1);
    if c1.status is Normal {
        let a = doc_action(top_of(c1.stack), tok);
        lemma_action_range(top_of(c1.stack), tok);
        if a < c_nstate() {
            let x = choose|x: int| reads(tok, x) && #[trigger] edge(top_of(c1.stack), x, a) && 0 <= x < nterm();
            let en = YYStackEntry { stateno: a as i32, major: tok as i32, minor: v };
            assert(c2.stack == c1.stack.push(en));
            lemma_push(c1.stack, en, x);
            lemma_push_trees(c1.stack, en);
            assert(toks_all(stack_trees(c2.stack)) =~= w.push(tok));
            assert(runs(c2.log) =~= runs(l0) + nodes_all(stack_trees(c2.stack)));
        } else if a < c_nstate() + c_nrule() {
        } else {
            if tok != 0 {
                if c_err() != 0 { lemma_recover(c1.stack); }
                let e = c2.log[c1.log.len() as int];
                let l1 = c1.log.push(e);
                assert(l1.drop_last() =~= c1.log);
                assert(nsyn(l1) == nsyn(c1.log) + 1);
                if c_err() != 0 { assert(c2.log == l1); }
            }
            assert(false);
        }
    }
}
@@include viable.vxi
@@fn yy_find_shift_action_2 from=tmpl
@@ret r
@@sig
    requires tables_ok(), is_state(stateno as int), 0 <= look_ahead < nterm(),
    ensures r == doc_action(stateno as int, look_ahead as int),
        0 <= r <= c_nstate() + c_nrule(),
    decreases fb_rank(look_ahead as int)
@@start
    proof { reveal(tables_ok); reveal(call); }
    proof { lemma_no_own(stateno as int, look_ahead as int); lemma_action_range(stateno as int, look_ahead as int); let x = fb(look_ahead as int); let y = act(stateno as int, look_ahead as int); let z = act(stateno as int, c_wild()); let w = dflt(stateno as int); }
@@fn yy_find_shift_action from=tmpl
@@ret r
@@sig
    requires tables_ok(), old(yy).yystack.len() > 0, is_state(top_of(old(yy).yystack@)), 0 <= look_ahead < nterm(),
    ensures *final(yy) == *old(yy), r == doc_action(top_of(old(yy).yystack@), look_ahead as int),
@@fn yy_find_reduce_action from=tmpl
@@ret r
@@sig
    requires tables_ok(), old(yy).yystack.len() > 0, is_state(top_of(old(yy).yystack@)), nterm() <= look_ahead < nlast(),
        c_err() == 0 ==> goto_(top_of(old(yy).yystack@), look_ahead as int) is Some,
    ensures *final(yy) == *old(yy),
        r == match goto_(top_of(old(yy).yystack@), look_ahead as int) { Some(q) => q, None => dflt(top_of(old(yy).yystack@)) },
@@start
    proof { reveal(tables_ok); reveal(call); }
    proof { let x = dflt(top_of(yy.yystack@)); let g = goto_(top_of(yy.yystack@), look_ahead as int); }
@@fn yy_shift from=tmpl
@@ret r
@@sig
    requires 0 <= new_state < c_nstate(), 
    ensures push_to(cfg(*old(yy)), new_state as int, yymajor as int, yyminor, cfg(*final(yy)), r),
@@fn yy_parse_failed from=tmpl
@@ret r
@@sig
    ensures fail_to(cfg(*old(yy)), cfg(*final(yy)), Err(r)),
@@fn yy_syntax_error_2 from=tmpl
@@ret r
@@sig
    ensures syntax_to(cfg(*old(yy)), yymajor as int, yyminor, expected.stateno as int, expected.yy_major as int, cfg(*final(yy)), r),
@@fn yy_syntax_error from=tmpl
@@ret r
@@sig
    ensures exists|e: Result<ErrorSymT, ErrT>| #[trigger] syntax_to(cfg(*old(yy)), yymajor as int, yyminor, expected.stateno as int, expected.yy_major as int, cfg(*final(yy)), e)
       && match e { Err(x) => r == Err::<YYMinorType, ErrT>(x), Ok(x) => r == Ok::<YYMinorType, ErrT>(minor_err(x)) && minor_err(x).dt() == sym_dt(c_err()) && minor_err(x).tree() == Tree::Err },
@@fn yy_reduce from=tmpl
@@ret r
@@sig
    requires tables_ok(), is_rule(yyruleno as int), stack_ok(old(yy).yystack@), old(yy).yystatus is Normal,
        item(top_of(old(yy).yystack@), yyruleno as int, rhslen(yyruleno as int)),
    ensures reduce_to(cfg(*old(yy)), yyruleno as int, cfg(*final(yy)), r),
       r is Ok && final(yy).yystatus is Normal ==> stack_ok(final(yy).yystack@),
@@start
    proof { reveal(tables_ok); reveal(call); }
    let ghost s0 = yy.yystack@;
    let ghost n = rhslen(yyruleno as int);
    proof {
        lemma_walk(s0, yyruleno as int, n, n);
        assert forall|i: int| 0 <= i < n implies typed(yyruleno as int, i, #[trigger] popped(s0, n)[i].dt()) by {
            let j = n - 1 - i;
            assert(s0[s0.len() - 1 - j] == s0[s0.len() - n + i]);
        }
        let l = lhs(yyruleno as int);
        assert(item(s0[s0.len() - 1 - n].stateno as int, yyruleno as int, 0));
        lemma_prefix(s0, s0.len() - n);
        lemma_node(s0, yyruleno as int);
    }
@@after-let yygotominor
    let ghost s1 = yy.yystack@;
    let ghost v = yygotominor;
    proof {
        assert(top_of(s1) == s0[s0.len() - 1 - n].stateno);
        let g = goto_(top_of(s1), lhs(yyruleno as int));
        if top_of(s1) == 0 { lemma_zero(s1); }
    }
@@after-call yy_shift
    proof {
        assert(edge(top_of(s1), lhs(yyruleno as int), yyact as int));
        lemma_push(s1, yy.yystack@.last(), lhs(yyruleno as int));
    }
@@fn yy_parse_token_2 from=tmpl
@@ret r
@@attr
#[verifier::exec_allows_no_decreases_clause]
@@sig
    requires inv(cfg(*old(yy))), 0 <= yymajor < nterm(),
        yymajor != 0 ==> yyminor.dt() == sym_dt(yymajor as int) && yyminor.tree() == Tree::Leaf(yymajor as int),
    ensures
        call(cfg(*old(yy)), yymajor as int, yyminor, cfg(*final(yy)), r),
        r is Ok ==> inv(cfg(*final(yy))),
@@start
    proof { reveal(call); }
    proof { reveal(tables_ok); reveal(call); }
    let ghost c0 = cfg(*yy);
    let ghost mut tr: Seq<Cfg> = seq![c0];
@@loop 1
    invariant_except_break
        inv(cfg(*yy)), 
        reductions(tr, yymajor as int), tr.first() == c0, tr.last() == cfg(*yy),
    invariant
        c0 == cfg(*old(yy)),
        0 <= yymajor < nterm(),
        yymajor != 0 ==> yyminor.dt() == sym_dt(yymajor as int) && yyminor.tree() == Tree::Leaf(yymajor as int),
    ensures
        inv(cfg(*yy)), call_(c0, yymajor as int, yyminor, cfg(*yy), Ok(())),
@@head 1
    let ghost c1 = cfg(*yy);
    proof { reveal(tables_ok); reveal(call); lemma_action_range(top_of(c1.stack), yymajor as int); }
@@after-call yy_shift#1
    proof {
        let x = choose|x: int| reads(yymajor as int, x) && #[trigger] edge(top_of(c1.stack), x, yyact as int) && 0 <= x < nterm();
        lemma_push(c1.stack, yy.yystack@.last(), x);
    }
@@before-call yy_reduce
    proof {
        assert(reduces_by(top_of(c1.stack), yyact - c_nstate()));
    }
@@after-call yy_reduce
    proof {
        let c2 = cfg(*yy);
        assert(reduce_step(c1, yymajor as int, c2));
        let tr2 = tr.push(c2);
        assert forall|i: int| 0 <= i < tr2.len() - 1 implies reduce_step(#[trigger] tr2[i], yymajor as int, tr2[i + 1]) by {
            if i < tr.len() - 1 { assert(tr2[i] == tr[i] && tr2[i + 1] == tr[i + 1]); } else { assert(tr2[i] == c1); }
        }
        tr = tr2;
    }
@@head 2
    let ghost c2 = cfg(*yy);
    let ghost stk = c2.stack;
    proof { reveal(tables_ok); reveal(call);
        let dd = dflt(top_of(stk)); let gg = goto_(top_of(stk), c_err());
        if stk.last().major == c_err() {
            assert(recover(stk) == stk);
            assert(last_step(c1, yymajor as int, yyminor, Cfg { ec: 3, ..c2 }, Ok(())));
        }
        if can_take_error(top_of(stk)) { assert(recover(stk) == stk); }
    }
@@after-let e
    let ghost c3 = cfg(*yy);
@@after-call yy_shift#2
    proof {
        assert(edge(top_of(stk), c_err(), yyact as int));
        lemma_push(stk, yy.yystack@.last(), c_err());
        assert(last_step(c1, yymajor as int, yyminor, Cfg { ec: 3, ..cfg(*yy) }, Ok(())));
    }
@@after-call pop
    proof {
        assert(yy.yystack@ == stk.drop_last());
        assert(stk.drop_last() == stk.subrange(0, stk.len() - 1));
        if stk.len() > 1 { lemma_prefix(stk, stk.len() - 1); }
    }
@@loop 2
    invariant_except_break
        recover(yy.yystack@) == recover(c1.stack),
        yy.yystack.len() > 0 ==> stack_ok(yy.yystack@),
        cfg(*yy) == (Cfg { stack: yy.yystack@, ..c1 }),
    invariant
        c0 == cfg(*old(yy)), reductions(tr, yymajor as int), tr.first() == c0, tr.last() == c1,
        inv(c1), c1.status is Normal, doc_action(top_of(c1.stack), yymajor as int) == c_nstate() + c_nrule(),
        tables_ok(), c_err() != 0, yymajor != 0, 0 <= yymajor < nterm(),
        expected.stateno == top_of(c1.stack), expected.yy_major == 1,
    ensures
        yy.yystack.len() > 0 ==> inv(cfg(*yy)) && call_(c0, yymajor as int, yyminor, Cfg { ec: 3, ..cfg(*yy) }, Ok(())),
        yy.yystack.len() == 0 ==> recover(c1.stack).len() == 0 && cfg(*yy) == (Cfg { stack: yy.yystack@, ..c1 }),
@@fn yy_parse_token from=tmpl lifecycle_panic
@@ret r
@@sig
    requires inv(cfg(*old(yy))), 0 <= yymajor < nterm(),
        yymajor != 0 ==> yyminor.dt() == sym_dt(yymajor as int) && yyminor.tree() == Tree::Leaf(yymajor as int),
    ensures
        // a parser that has failed or accepted does not go on
        old(yy).yystatus is Normal,
        after_call(cfg(*old(yy)), yymajor as int, yyminor, cfg(*final(yy)), r),
@@after-let res
    let ghost c1 = cfg(*yy);
    proof {
        if res is Err { assert(call(cfg(*old(yy)), yymajor as int, yyminor, c1, res)); }
    }
@@end
    proof { if vx_ret is Err { assert(cfg(*yy) == (Cfg { status: YYStatus::Failed, ..c1 })); } }
@@fn next from=tmpl impl=ExpectedTokens
@@ret r
@@sig
    requires tables_ok(), is_state(old(self).stateno as int), 0 < old(self).yy_major <= nterm(),
    ensures final(self).stateno == old(self).stateno,
        match r {
            Some(e) => old(self).yy_major <= e.yy_major < nterm() && acceptable(old(self).stateno as int, e.yy_major as int)
                && (forall|k: int| old(self).yy_major <= k < e.yy_major ==> !#[trigger] acceptable(old(self).stateno as int, k))
                && final(self).yy_major == e.yy_major + 1
                && e.name == t_names()[e.yy_major as int]
                && e.token == build(e.yy_major as int, minor_unit())
                && (e.token is Some <==> sym_dt(e.yy_major as int) == 0),
            None => forall|k: int| old(self).yy_major <= k < nterm() ==> !#[trigger] acceptable(old(self).stateno as int, k),
        },
@@loop 1
    invariant tables_ok(), is_state(self.stateno as int), old(self).yy_major <= self.yy_major <= nterm(), 0 < old(self).yy_major,
        self.stateno == old(self).stateno,
        forall|k: int| old(self).yy_major <= k < self.yy_major ==> !#[trigger] acceptable(self.stateno as int, k),
    decreases nterm() - self.yy_major
@@head 1
    proof { reveal(tables_ok); reveal(call); }
@@fn new_priv from=tmpl impl=Parser inimpl
@@ret r
@@sig
    requires tables_ok(),
    ensures r.extra == extra, inv(cfg(r)), hist(cfg(r), extra.log(), Seq::empty()),
@@start
    proof { reveal(tables_ok); }
@@end
    proof { 
        let c = cfg(vx_ret);
        assert(c.stack.len() == 1);
        assert(stack_trees(c.stack) =~= Seq::<Tree>::empty());
        assert(runs(extra.log()) + Seq::<Tree>::empty() =~= runs(extra.log()));
    }
@@fn end_of_input_priv from=tmpl impl=Parser
@@ret r
@@sig
    requires inv(cfg(self)),
    ensures self.yystatus is Normal,
        r is Ok ==> forall|l0: Seq<Event>, w: Seq<int>| #[trigger] hist(cfg(self), l0, w) ==> nsyn(r->Ok_0.1.log()) == nsyn(self.extra.log()) ==>
            exists|v: YYMinorType| #[trigger] done_with(v, r->Ok_0.0, r->Ok_0.1.log(), l0, w),
@@start
    proof { reveal(tables_ok); }
@@after-call yy_parse_token
    let ghost c = cfg(self);
    let ghost c2 = cfg(vx_self);
    proof {
        lemma_status(c, 0, minor_unit(), c2, Ok(()));
        assert forall|l0: Seq<Event>, w: Seq<int>| #[trigger] hist(c, l0, w) && nsyn(c2.log) == nsyn(c.log) implies done_out(c2, l0, w) by {
            lemma_call(c, 0, minor_unit(), c2, Ok(()), l0, w);
            let v = choose|v: YYMinorType| #[trigger] done_by(c2, v, l0, w);
            assert(done_with(v, root_of(v), c2.log, l0, w));
            assert(c2.status->Accepted_0 == root_of(v));
        }
    }
@@end
    proof {
        assert(c2.status == YYStatus::Accepted(vx_ret->Ok_0.0));
        assert(c2.status->Accepted_0 == vx_ret->Ok_0.0);
        assert(vx_ret->Ok_0.1.log() == c2.log);
        assert forall|l0: Seq<Event>, w: Seq<int>| #[trigger] hist(c, l0, w) && nsyn(c2.log) == nsyn(c.log) implies exists|v: YYMinorType| #[trigger] done_with(v, vx_ret->Ok_0.0, vx_ret->Ok_0.1.log(), l0, w) by {
            assert(done_out(c2, l0, w));
            let v = choose|v: YYMinorType| #[trigger] done_with(v, c2.status->Accepted_0, c2.log, l0, w);
            assert(done_with(v, vx_ret->Ok_0.0, vx_ret->Ok_0.1.log(), l0, w));
        }
    }
@@fn parse from=tmpl impl=Parser
@@ret r
@@sig
    requires inv(cfg(*old(self))),
    ensures old(self).yystatus is Normal,
        after_call(cfg(*old(self)), token.code(), token.payload(), cfg(*final(self)), r),
        r is Ok ==> final(self).yystatus is Normal,
        // C01, C03: without a reported error the history is extended by exactly this token
        r is Ok && nsyn(final(self).extra.log()) == nsyn(old(self).extra.log()) ==>
            forall|l0: Seq<Event>, w: Seq<int>| #[trigger] hist(cfg(*old(self)), l0, w) ==> hist(cfg(*final(self)), l0, w.push(token.code())),
        // C04: and what has been taken is then the beginning of a sentence
        r is Ok && nsyn(final(self).extra.log()) == nsyn(old(self).extra.log()) && productive_ok() && closure_ok() ==>
            forall|l0: Seq<Event>, w: Seq<int>| #[trigger] hist(cfg(*old(self)), l0, w) ==> viable(w.push(token.code())),
@@end
    proof {
        let c = cfg(*old(self)); let c2 = cfg(*self);
        if vx_ret is Ok {
            lemma_status(c, a as int, b, c2, vx_ret);
            assert forall|l0: Seq<Event>, w: Seq<int>| #[trigger] hist(c, l0, w) && nsyn(c2.log) == nsyn(c.log) implies hist(c2, l0, w.push(a as int)) by {
                lemma_call(c, a as int, b, c2, vx_ret, l0, w);
            }
            if productive_ok() && closure_ok() {
                assert forall|l0: Seq<Event>, w: Seq<int>| #[trigger] hist(c, l0, w) && nsyn(c2.log) == nsyn(c.log) implies viable(w.push(a as int)) by {
                    assert(hist(c2, l0, w.push(a as int)));
                    lemma_hist_viable(c2, l0, w.push(a as int));
                }
            }
        }
    }
@@fn new from=tmpl inimpl implas=Parser nth=1
@@ret r
@@sig
    requires tables_ok(),
    ensures r.extra == extra, inv(cfg(r)), hist(cfg(r), extra.log(), Seq::empty()),
@@fn end_of_input from=tmpl inimpl implas=Parser nth=1
@@ret r
@@sig
    requires inv(cfg(self)),
    ensures self.yystatus is Normal,
        r is Ok ==> forall|l0: Seq<Event>, w: Seq<int>| #[trigger] hist(cfg(self), l0, w) ==> nsyn(r->Ok_0.1.log()) == nsyn(self.extra.log()) ==>
            exists|v: YYMinorType| #[trigger] done_with(v, r->Ok_0.0, r->Ok_0.1.log(), l0, w),
@@fn into_extra from=tmpl inimpl implas=Parser
@@ret r
@@sig
    ensures r == self.extra
@@fn extra from=tmpl inimpl implas=Parser
@@ret r
@@sig
    ensures *r == self.extra
@@fn extra_mut from=tmpl inimpl implas=Parser
@@ret r
@@sig
    ensures *r == old(self).extra, final(self).extra == *final(r),
       final(self).yystack == old(self).yystack, final(self).yystatus == old(self).yystatus, final(self).error_count == old(self).error_count,
@@include epilogue.vxi
