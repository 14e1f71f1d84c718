@@props C02 C07 C08 C14
@@include prelude.vxi
@@include types.vxi
@@include wf.vxi
@@include doc_prec.vxi
@@raw
use ActionDetail::*;
@@include acts_fns.vxi
@@include named.vxi
@@include table.vxi
@@stubs
@@include symbol_find.sig
@@endstubs
@@include compress_spec.vxi
@@raw
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct BTreeSet<T> { x: core::marker::PhantomData<T> }
impl<T> BTreeSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    pub fn new() -> (r: BTreeSet<T>) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &T) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
}
proof fn lemma_perm_at(a: Seq<Action>, b: Seq<Action>)
    requires single_la(a), exists|f: Seq<int>, g: Seq<int>| #[trigger] is_perm(f, g, a.len()) && permuted(a, b, f),
    ensures single_la(b), forall|x: SymbolId| #[trigger] at(b, x) == at(a, x),
        forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i]),
{
    let (f, g) = choose|f: Seq<int>, g: Seq<int>| #[trigger] is_perm(f, g, a.len()) && permuted(a, b, f);
    assert forall|i: int, j: int, x: SymbolId| #[trigger] on(b, i, x) && #[trigger] on(b, j, x) implies i == j by {
        assert(b[i] == a[f[i]] && b[j] == a[f[j]]);
        assert(on(a, f[i], x) && on(a, f[j], x));
        assert(g[f[i]] == i && g[f[j]] == j);
    }
    assert forall|x: SymbolId| #[trigger] at(b, x) == at(a, x) by {
        if at(b, x) is Some {
            let i = choose|i: int| #[trigger] on(b, i, x);
            assert(b[i] == a[f[i]]); assert(on(a, f[i], x));
            lemma_at(a, f[i], x); lemma_at(b, i, x);
        }
        if at(a, x) is Some {
            let i = choose|i: int| #[trigger] on(a, i, x);
            assert(f[g[i]] == i); assert(b[g[i]] == a[f[g[i]]]); assert(on(b, g[i], x));
        }
    }
    assert forall|i: int| 0 <= i < b.len() implies a.contains(#[trigger] b[i]) by { assert(b[i] == a[f[i]]); }
}
/// the effect of the compression on one symbol
proof fn lemma_squeeze_at(p: &Pomelo, a: Seq<Action>, b: Seq<Action>, r: RuleId, i0: int, x: SymbolId)
    requires single_la(a), squeezed(p, a, b, r, i0), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).look_ahead != dflt_sym(p),
    ensures single_la(b),
        x == dflt_sym(p) ==> at(b, x) == Some(ActionDetail::Reduce(r)),
        x != dflt_sym(p) ==> match at(a, x) {
            None => at(b, x) is None,
            Some(d) => at(b, x) == Some(d) || (d == ActionDetail::Reduce(r) && at(b, x) is None
                && forall|n: nat| n >= 1 && #[trigger] fbn(p, x, n) is Some ==> calm1(a, fbn(p, x, n)->0, d)),
        },
{
    let ds = dflt_sym(p);
    assert forall|i: int, j: int, y: SymbolId| #[trigger] on(b, i, y) && #[trigger] on(b, j, y) implies i == j by {
        if i != i0 && j != i0 { assert(on(a, i, y)); assert(on(a, j, y)); }
        else if i != i0 { assert(b[i].look_ahead == a[i].look_ahead); }
        else if j != i0 { assert(b[j].look_ahead == a[j].look_ahead); }
    }
    if x == ds { assert(on(b, i0, x)); lemma_at(b, i0, x); }
    else {
        if at(b, x) is Some {
            let i = choose|i: int| #[trigger] on(b, i, x);
            assert(i != i0 && b[i] == a[i]); assert(on(a, i, x)); lemma_at(a, i, x); lemma_at(b, i, x);
        }
        if at(a, x) is Some {
            let i = choose|i: int| #[trigger] on(a, i, x);
            lemma_at(a, i, x);
            if b[i] == a[i] { assert(on(b, i, x)); lemma_at(b, i, x); }
            else { assert(gone(p, a, b, i, r)); assert(calm(p, a, i)); }
        }
    }
}
/// along a chain on which a does nothing but reduce by r, b does nothing else either
proof fn lemma_calm_seek(p: &Pomelo, a: Seq<Action>, b: Seq<Action>, r: RuleId, i0: int, x: SymbolId, f: SymbolId, m: nat, n: nat)
    requires symbols_ok(p), single_la(a), squeezed(p, a, b, r, i0), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).look_ahead != dflt_sym(p),
        forall|n: nat| n >= 1 && #[trigger] fbn(p, x, n) is Some ==> calm1(a, fbn(p, x, n)->0, ActionDetail::Reduce(r)),
        m >= 1, fbn(p, x, m) == Some(f), sym_in(p, f), f != dflt_sym(p),
    ensures seek(p, b, f, n) matches Some(d) ==> d == ActionDetail::Reduce(r),
    decreases n
{
    lemma_squeeze_at(p, a, b, r, i0, f);
    if at(b, f) is Some {
        assert(calm1(a, f, ActionDetail::Reduce(r)));
        let i = choose|i: int| #[trigger] on(a, i, f);
        lemma_at(a, i, f);
    } else if n > 0 {
        lemma_fbn_next(p, x, m);
        match sym(p, f).fallback { None => {}, Some(g) => { lemma_calm_seek(p, a, b, r, i0, x, g, m + 1, (n - 1) as nat); } }
    }
}
proof fn lemma_seek(p: &Pomelo, a: Seq<Action>, b: Seq<Action>, r: RuleId, i0: int, x: SymbolId, n: nat)
    requires symbols_ok(p), single_la(a), squeezed(p, a, b, r, i0), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).look_ahead != dflt_sym(p),
        x != dflt_sym(p), sym_in(p, x),
    ensures match seek(p, a, x, n) {
        None => seek(p, b, x, n) is None,
        Some(d) => seek(p, b, x, n) == Some(d) || (d == ActionDetail::Reduce(r) && seek(p, b, x, n) is None),
    }
    decreases n
{
    lemma_squeeze_at(p, a, b, r, i0, x);
    if at(a, x) is Some {
        if at(b, x) is None && n > 0 {
            match sym(p, x).fallback { None => {}, Some(f) => {
                lemma_fbn_next(p, x, 0); assert(fbn(p, x, 1) == Some(f));
                lemma_calm_seek(p, a, b, r, i0, x, f, 1, (n - 1) as nat);
            } }
        }
    } else if n > 0 {
        match sym(p, x).fallback { None => {}, Some(f) => { lemma_seek(p, a, b, r, i0, f, (n - 1) as nat); } }
    }
}
proof fn lemma_squeezed(p: &Pomelo, a: Seq<Action>, b: Seq<Action>, r: RuleId, i0: int)
    requires symbols_ok(p), single_la(a), squeezed(p, a, b, r, i0), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).look_ahead != dflt_sym(p),
    ensures same_behaviour(p, a, b), single_la(b)
{
    let ds = dflt_sym(p);
    lemma_squeeze_at(p, a, b, r, i0, ds);
    assert(on(a, i0, a[i0].look_ahead)); lemma_at(a, i0, a[i0].look_ahead);
    assert(does(a, ActionDetail::Reduce(r)));
    assert(at(a, ds) is None) by { if at(a, ds) is Some { let i = choose|i: int| #[trigger] on(a, i, ds); assert(a[i].look_ahead == ds); } }
    assert forall|x: SymbolId, n: nat, eoi: bool| x != ds && sym_in(p, x) && fbn(p, x, n + 1) is None implies match doc_act(p, a, x, n, eoi) {
        Some(d) => #[trigger] doc_act(p, b, x, n, eoi) == Some(d),
        None => doc_act(p, b, x, n, eoi) matches Some(d) ==> reduces_plain(p, d),
    } by {
        lemma_seek(p, a, b, r, i0, x, n);
        if p.wildcard is Some { lemma_squeeze_at(p, a, b, r, i0, p.wildcard->0); }
    }
    assert forall|x: SymbolId| x != ds implies match at(a, x) {
        Some(d) => #[trigger] at(b, x) == Some(d) || (reduces_plain(p, d) && at(b, x) is None),
        None => at(b, x) is None,
    } by { lemma_squeeze_at(p, a, b, r, i0, x); }
}
proof fn lemma_same(p: &Pomelo, a: Seq<Action>)
    requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).look_ahead != dflt_sym(p),
    ensures same_behaviour(p, a, a)
{
    assert(at(a, dflt_sym(p)) is None) by { if at(a, dflt_sym(p)) is Some { let i = choose|i: int| #[trigger] on(a, i, dflt_sym(p)); assert(a[i].look_ahead == dflt_sym(p)); } }
}
proof fn lemma_seek_same(p: &Pomelo, a: Seq<Action>, b: Seq<Action>, x: SymbolId, n: nat)
    requires forall|x: SymbolId| #[trigger] at(b, x) == at(a, x),
    ensures seek(p, a, x, n) == seek(p, b, x, n)
    decreases n
{
    assert(at(b, x) == at(a, x));
    if n > 0 { match sym(p, x).fallback { None => {}, Some(f) => { lemma_seek_same(p, a, b, f, (n - 1) as nat); } } }
}
/// sorting changes nothing
proof fn lemma_finish(p: &Pomelo, k: int, a: Seq<Action>, b: Seq<Action>)
    requires single_la(a), same_behaviour(p, acts_of(p, k), a), forall|i: int| 0 <= i < a.len() ==> action_in_range(p, #[trigger] a[i]) && sym(p, a[i].look_ahead).index <= p.default_index,
        exists|f: Seq<int>, g: Seq<int>| #[trigger] is_perm(f, g, a.len()) && permuted(a, b, f), la_sorted(p, b), a.len() < 0x7fff_0000,
    ensures finished(p, k, b)
{
    lemma_perm_at(a, b);
    let s = acts_of(p, k);
    assert forall|x: SymbolId, n: nat, eoi: bool| x != dflt_sym(p) && sym_in(p, x) && fbn(p, x, n + 1) is None implies match doc_act(p, s, x, n, eoi) {
        Some(d) => #[trigger] doc_act(p, b, x, n, eoi) == Some(d),
        None => doc_act(p, b, x, n, eoi) matches Some(d) ==> reduces_plain(p, d),
    } by {
        lemma_seek_same(p, a, b, x, n);
        assert(doc_act(p, b, x, n, eoi) == doc_act(p, a, x, n, eoi));
    }
    assert forall|x: SymbolId| x != dflt_sym(p) implies match at(s, x) {
        Some(d) => #[trigger] at(b, x) == Some(d) || (reduces_plain(p, d) && at(b, x) is None),
        None => at(b, x) is None,
    } by { assert(at(b, x) == at(a, x)); }
    assert(at(b, dflt_sym(p)) == at(a, dflt_sym(p)));
    assert forall|i: int| 0 <= i < b.len() implies action_in_range(p, #[trigger] b[i]) && sym(p, b[i].look_ahead).index <= p.default_index by {
        assert(a.contains(b[i]));
        let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i];
        assert(action_in_range(p, a[j]));
    }
}
@@include compress_tables.sig
@@sort 1
{ let vx_p = vx_snap(&*self); vx_sort_actions(&mut RECV, &vx_p) }
impl Pomelo { fn vx_cmp_compress_tables(&self, ARG0: &Action, ARG1: &Action) -> (r: Ordering)
    requires action_in_range(self, *ARG0), action_in_range(self, *ARG1),
    ensures r is Less <==> action_less(&self.the_symbols, &self.the_states, &self.the_rules, *ARG0, *ARG1),
BODY }
@@start
    let ghost p0 = *self;
@@let-type rbest
Option<RuleId>
@@let-type apbest
Option<(usize, usize)>
@@let-type nbest
i32
@@loop 1
    invariant
        p0 == *old(self), compress_pre(&p0), vx_i1 <= p0.states@.len(), def_symbol == dflt_sym(&p0),
        *self == (Pomelo { the_states: self.the_states, ..p0 }),
        self.the_states.data@.len() == p0.the_states.data@.len(),
        forall|k: int| 0 <= k < p0.states@.len() ==> only_actions(p0.the_states.data@[(#[trigger] p0.states@[k]).id as int], self.the_states.data@[p0.states@[k].id as int]),
        forall|k: int| vx_i1 <= k < p0.states@.len() ==> #[trigger] acts_of(self, k) == acts_of(&p0, k),
        forall|k: int| 0 <= k < vx_i1 ==> finished(&p0, k, #[trigger] acts_of(self, k)),
    decreases p0.states@.len() - vx_i1,
@@head 1
    let ghost k0 = vx_i1 - 1;
    let ghost id0 = p0.states@[k0].id as int;
    let ghost sa = *self;
    let ghost a = acts_of(self, k0);
    proof { assert(cstate_ok(&p0, k0)); assert(only_actions(p0.the_states.data@[p0.states@[k0].id as int], self.the_states.data@[p0.states@[k0].id as int])); lemma_same(&p0, a);
        assert(acts_of(&sa, k0) == acts_of(&p0, k0));
        assert(finished(&p0, k0, a)); }
@@loop 2
    invariant
        compress_pre(&p0), *self == sa, sa == (Pomelo { the_states: sa.the_states, ..p0 }), 0 <= k0 < p0.states@.len(),
        id0 == p0.states@[k0].id, stp__id == id0, id0 < sa.the_states.data@.len(), a == acts_of(&sa, k0), a == acts_of(&p0, k0), cstate_ok(&p0, k0),
        sa.the_states.data@.len() == p0.the_states.data@.len(),
        vx_i2 <= a.len(),
        forall|i: int| 0 <= i < vx_i2 ==> ignored_actions@.contains((#[trigger] a[i]).look_ahead) || calm(&p0, a, i),
    decreases a.len() - vx_i2,
@@head 2
    let ghost i1 = vx_i2 - 1;
    let ghost x0 = a[i1].look_ahead;
    let ghost mut n: nat = 0;
    proof { assert(action_in_range(&p0, a[i1])); }
@@loop 3
    invariant_except_break
        sym_in(&p0, sym), fbn(&p0, x0, n) == Some(sym),
        a[i1].detail is Reduce ==> forall|m: nat| 1 <= m <= n ==> #[trigger] fbn(&p0, x0, m) is Some && calm1(a, fbn(&p0, x0, m)->0, a[i1].detail),
    invariant
        compress_pre(&p0), *self == sa, sa == (Pomelo { the_states: sa.the_states, ..p0 }), 0 <= k0 < p0.states@.len(),
        id0 == p0.states@[k0].id, stp__id == id0, id0 < sa.the_states.data@.len(), a == acts_of(&sa, k0), a == acts_of(&p0, k0), cstate_ok(&p0, k0),
        sa.the_states.data@.len() == p0.the_states.data@.len(),
        0 <= i1 < a.len(), vx_i2 == i1 + 1, ap__ix == i1, x0 == a[i1].look_ahead,
        forall|i: int| 0 <= i < i1 ==> ignored_actions@.contains((#[trigger] a[i]).look_ahead) || calm(&p0, a, i),
    ensures ignored_actions@.contains(x0) || calm(&p0, a, i1),
@@head 3
    proof { lemma_fbn_next(&p0, x0, n); }
@@before-break 3
    proof {
        lemma_fbn_next(&p0, x0, n);
        if p0.the_symbols.data@[sym.id as int].fallback is None {
            assert(calm(&p0, a, i1)) by {
                if a[i1].detail is Reduce {
                    assert forall|m: nat| m >= 1 && #[trigger] fbn(&p0, x0, m) is Some implies calm1(a, fbn(&p0, x0, m)->0, a[i1].detail) by {
                        if m > n { lemma_fbn_end(&p0, x0, n + 1, m); }
                    }
                }
            }
        }
    }
@@loop 4
    invariant_except_break
        vx_r1 is None, vx_i4 <= a.len(),
        forall|j: int| 0 <= j < vx_i4 ==> (#[trigger] a[j]).look_ahead != fb,
    invariant
        compress_pre(&p0), *self == sa, sa == (Pomelo { the_states: sa.the_states, ..p0 }), 0 <= k0 < p0.states@.len(),
        id0 == p0.states@[k0].id, stp__id == id0, id0 < sa.the_states.data@.len(), a == acts_of(&sa, k0), a == acts_of(&p0, k0), cstate_ok(&p0, k0),
        sa.the_states.data@.len() == p0.the_states.data@.len(),
        0 <= i1 < a.len(), ap__ix == i1,
    ensures
        a[i1].detail is Reduce && vx_r1 != Some(false) ==> calm1(a, fb, a[i1].detail),
    decreases a.len() - vx_i4,
@@head 4
    proof {
        let j = vx_i4 - 1;
        assert(action_in_range(&p0, a[i1]) && action_in_range(&p0, a[j]));
        if a[j].look_ahead == fb && a[i1].detail is Reduce {
            assert forall|k: int| #[trigger] on(a, k, fb) && a[j].detail == a[i1].detail implies a[k].detail == a[i1].detail by { assert(on(a, j, fb)); }
            if active(a[j].detail) && !(a[j].detail is Error) && detail_rank(&p0.the_states, &p0.the_rules, a[i1].detail) == detail_rank(&p0.the_states, &p0.the_rules, a[j].detail) {
                assert(a[j].detail is Reduce);
                assert(a[j].detail->Reduce_0.id == a[i1].detail->Reduce_0.id);
                assert(a[j].detail == a[i1].detail);
            }
        }
    }
@@tail 3
    proof {
        n = n + 1;
    }
@@after-if 1
    proof {
        assert forall|i: int| 0 <= i < a.len() implies ignored_actions@.contains((#[trigger] a[i]).look_ahead) || calm(&p0, a, i) by {
            if !p0.has_fallback {
                let x0 = a[i].look_ahead;
                assert(action_in_range(&p0, a[i]));
                assert(p0.the_symbols.data@[x0.id as int].fallback is None);
                assert(fbn(&p0, x0, 1) is None);
                assert forall|m: nat| m >= 1 && #[trigger] fbn(&p0, x0, m) is Some implies false by { lemma_fbn_end(&p0, x0, 1, m); }
            }
        }
    }
@@loop 5
    invariant
        compress_pre(&p0), *self == sa, sa == (Pomelo { the_states: sa.the_states, ..p0 }), 0 <= k0 < p0.states@.len(),
        id0 == p0.states@[k0].id, stp__id == id0, id0 < sa.the_states.data@.len(), a == acts_of(&sa, k0), a == acts_of(&p0, k0), cstate_ok(&p0, k0),
        sa.the_states.data@.len() == p0.the_states.data@.len(),
        forall|i: int| 0 <= i < a.len() ==> ignored_actions@.contains((#[trigger] a[i]).look_ahead) || calm(&p0, a, i),
        vx_i5 <= a.len(), nbest >= 0, rbest is Some <==> nbest >= 1,
        rbest matches Some(r) ==> r.id < p0.the_rules.data@.len() && !p0.the_rules.data@[r.id as int].lhs_start,
        !uses_wildcard ==> forall|i: int| 0 <= i < vx_i5 ==> !(p0.wildcard == Some((#[trigger] a[i]).look_ahead) && active(a[i].detail)),
    decreases a.len() - vx_i5,
@@head 5
    proof { assert(action_in_range(&p0, a[vx_i5 - 1])); }
@@loop 6
    invariant
        compress_pre(&p0), *self == sa, sa == (Pomelo { the_states: sa.the_states, ..p0 }), 0 <= k0 < p0.states@.len(),
        id0 == p0.states@[k0].id, stp__id == id0, id0 < sa.the_states.data@.len(), a == acts_of(&sa, k0), a == acts_of(&p0, k0), cstate_ok(&p0, k0),
        sa.the_states.data@.len() == p0.the_states.data@.len(),
        iap < vx_i6 <= a.len(), 1 <= n <= vx_i6 - iap,
    decreases a.len() - vx_i6,
@@after 5
    proof {
        if !uses_wildcard && p0.wildcard is Some { assert(at(a, p0.wildcard->0) is None) by {
            if at(a, p0.wildcard->0) is Some { let i = choose|i: int| #[trigger] on(a, i, p0.wildcard->0); assert(active(a[i].detail)); }
        } }
    }
@@loop 7
    invariant_except_break
        apbest is None, vx_i7 <= a.len(),
    invariant
        compress_pre(&p0), *self == sa, sa == (Pomelo { the_states: sa.the_states, ..p0 }), 0 <= k0 < p0.states@.len(),
        id0 == p0.states@[k0].id, stp__id == id0, id0 < sa.the_states.data@.len(), a == acts_of(&sa, k0), a == acts_of(&p0, k0), cstate_ok(&p0, k0),
        sa.the_states.data@.len() == p0.the_states.data@.len(),
        forall|i: int| 0 <= i < a.len() ==> ignored_actions@.contains((#[trigger] a[i]).look_ahead) || calm(&p0, a, i),
        rbest.id < p0.the_rules.data@.len() && !p0.the_rules.data@[rbest.id as int].lhs_start,
        p0.wildcard matches Some(w) ==> at(a, w) is None,
    ensures
        apbest matches Some(y) ==> y.0 == y.1 && y.0 < a.len() && a[y.0 as int].detail == ActionDetail::Reduce(rbest) && !ignored_actions@.contains(a[y.0 as int].look_ahead),
    decreases a.len() - vx_i7,
@@loop 8
    invariant
        compress_pre(&p0), 0 <= k0 < p0.states@.len(), def_symbol == dflt_sym(&p0),
        id0 == p0.states@[k0].id, stp__id == id0, id0 < self.the_states.data@.len(), a == acts_of(&p0, k0), cstate_ok(&p0, k0),
        *self == (Pomelo { the_states: self.the_states, ..p0 }), self.the_states.data@.len() == p0.the_states.data@.len(), sa.the_states.data@.len() == p0.the_states.data@.len(),
        forall|x: int| 0 <= x < p0.the_states.data@.len() && x != id0 ==> #[trigger] self.the_states.data@[x] == sa.the_states.data@[x],
        only_actions(p0.the_states.data@[id0], self.the_states.data@[id0]),
        iap < vx_i8 <= a.len(), iap == ap,
        forall|i: int| 0 <= i < a.len() ==> ignored_actions@.contains((#[trigger] a[i]).look_ahead) || calm(&p0, a, i),
        squeezed(&p0, a, acts_of(self, k0), rbest, ap as int),
        forall|k: int| vx_i8 <= k < a.len() ==> #[trigger] acts_of(self, k0)[k] == a[k],
    decreases a.len() - vx_i8,
@@after 8
    proof {
        let b = acts_of(self, k0);
        lemma_squeezed(&p0, a, b, rbest, ap as int);
        assert(single_la(b) && same_behaviour(&p0, a, b));
        assert forall|i: int| 0 <= i < b.len() implies action_in_range(&p0, #[trigger] b[i]) && sym(&p0, b[i].look_ahead).index <= p0.default_index by { assert(action_in_range(&p0, a[i])); }
    }
@@before-call sort_by
    let ghost sb = acts_of(self, k0);
@@tail 1
    proof {
        let b = acts_of(self, k0);
        assert(single_la(sb));
        assert(same_behaviour(&p0, acts_of(&p0, k0), sb));
        assert(la_sorted(&p0, b)) by {
            assert(b == sb || is_sorted(self, b)); 
            if b != sb { lemma_la_sorted(self, b); assert forall|i: int, j: int| 0 <= i < j < b.len() implies sym(&p0, (#[trigger] b[i]).look_ahead).index <= sym(&p0, (#[trigger] b[j]).look_ahead).index by {
                assert(sym(self, b[i].look_ahead).index <= sym(self, b[j].look_ahead).index); } }
        }
        lemma_finish(&p0, k0, sb, b);
        assert forall|k: int| 0 <= k < p0.states@.len() implies only_actions(p0.the_states.data@[(#[trigger] p0.states@[k]).id as int], self.the_states.data@[p0.states@[k].id as int]) by {
            if k != k0 { assert(p0.states@[k].id != p0.states@[k0].id); assert(cstate_ok(&p0, k));
               assert(self.the_states.data@[p0.states@[k].id as int] == sa.the_states.data@[p0.states@[k].id as int]);
            }
        }
        assert forall|k: int| 0 <= k < p0.states@.len() && k != k0 implies #[trigger] acts_of(self, k) == acts_of(&sa, k) by {
            assert(p0.states@[k].id != p0.states@[k0].id);
            assert(cstate_ok(&p0, k));
        }
    }
@@include epilogue.vxi
