@@props C14 C02 C07 C08
@@include prelude.vxi
@@include types.vxi
@@include wf.vxi
@@include doc_prec.vxi
@@raw
use ActionDetail::*;
@@include acts_fns.vxi
@@include named.vxi
@@include table.vxi
@@include numbered.vxi
@@include counted.vxi
@@include acttab_fns.vxi
@@include out.vxi
@@raw
impl Type {
    #[verifier::external_body]
    pub fn span(&self) -> Span { unimplemented!() }
}
pub trait VxSpan { fn span(&self) -> Span; }
impl VxSpan for Option<Type> {
    #[verifier::external_body]
    fn span(&self) -> Span { unimplemented!() }
}
@@fn minimum_signed_type rettype=VxIntTy
@@ret r
@@sig
    requires max < 0x8000_0000,
    ensures forall|v: int| -(max as int) <= v <= max ==> #[trigger] fits_ty(r, v),
@@fn minimum_unsigned_type rettype=VxIntTy
@@ret r
@@sig
    requires max < 0x1_0000_0000,
    ensures forall|v: int| 0 <= v <= max ==> #[trigger] fits_ty(r, v),
@@type AxSet
@@fn new impl=ActTab implas=ActTab inimpl
@@ret r
@@sig
    ensures r.a_action@.len() == 0,
@@fn new impl=ActionSet implas=ActionSet inimpl
@@ret r
@@sig
    ensures r.a_lookahead@.len() == 0,
@@include emit_spec.vxi
@@raw
// ===== the set of actions inserted for a row =====
pub open spec fn sel(p: &Pomelo, s: Seq<Action>, n: int, lo: int, hi: int) -> Set_ decreases n {
    if n <= 0 { Seq::empty() }
    else if acts_on(p, s, n - 1, lo, hi) {
        sel(p, s, n - 1, lo, hi).push(LookaheadAction { lookahead: sym(p, s[n - 1].look_ahead).index, action: action_code(p, s[n - 1].detail)->0 as usize })
    } else { sel(p, s, n - 1, lo, hi) }
}
/// where an entry of the set comes from
pub open spec fn from(p: &Pomelo, s: Seq<Action>, n: int, lo: int, hi: int, m: int, i: int) -> bool {
    0 <= i < n && acts_on(p, s, i, lo, hi) && sel(p, s, n, lo, hi)[m].lookahead == sym(p, s[i].look_ahead).index
        && sel(p, s, n, lo, hi)[m].action == action_code(p, s[i].detail)->0
}
pub open spec fn has_from(p: &Pomelo, s: Seq<Action>, n: int, lo: int, hi: int, m: int) -> bool { exists|i: int| #[trigger] from(p, s, n, lo, hi, m, i) }
pub open spec fn row_ok(p: &Pomelo, s: Seq<Action>) -> bool {
    &&& numbered(p) && rules_in(p) && p.states@.len() < 0x1000_0000 && p.rules@.len() < 0x1000_0000
    &&& forall|x: int| 0 <= x < p.the_rules.data@.len() ==> (#[trigger] p.the_rules.data@[x]).index == x
    &&& single_la(s) && la_sorted(p, s)
    &&& forall|i: int| 0 <= i < s.len() ==> action_in_range(p, #[trigger] s[i]) && sym(p, s[i].look_ahead).index <= p.default_index
}
proof fn lemma_code(p: &Pomelo, a: Action)
    requires rules_in(p), action_in_range(p, a), active(a.detail), p.states@.len() < 0x1000_0000, p.rules@.len() < 0x1000_0000,
        forall|x: int| 0 <= x < p.the_rules.data@.len() ==> (#[trigger] p.the_rules.data@[x]).index == x,
    ensures action_code(p, a.detail) is Some, action_code(p, a.detail)->0 >= 0,
{}
proof fn lemma_sel(p: &Pomelo, s: Seq<Action>, n: int, lo: int, hi: int)
    requires row_ok(p, s), 0 <= n <= s.len(), 0 <= lo <= hi
    ensures
        sel(p, s, n, lo, hi).len() <= n,
        sorted(sel(p, s, n, lo, hi)),
        sel(p, s, n, lo, hi).len() > 0 <==> acts_in(p, s, n, lo, hi),
        forall|m: int| 0 <= m < sel(p, s, n, lo, hi).len() ==> #[trigger] has_from(p, s, n, lo, hi, m),
        forall|i: int| 0 <= i < n && #[trigger] acts_on(p, s, i, lo, hi) ==> exists|m: int| 0 <= m < sel(p, s, n, lo, hi).len() && #[trigger] from(p, s, n, lo, hi, m, i),
    decreases n
{
    if n > 0 {
        lemma_sel(p, s, n - 1, lo, hi);
        let a = sel(p, s, n - 1, lo, hi);
        let b = sel(p, s, n, lo, hi);
        lemma_acts_step(p, s, n - 1, lo, hi);
        if acts_on(p, s, n - 1, lo, hi) { assert(from(p, s, n, lo, hi, a.len() as int, n - 1)); }
        assert forall|m: int| 0 <= m < b.len() implies #[trigger] has_from(p, s, n, lo, hi, m) by {
            if m < a.len() { assert(has_from(p, s, n - 1, lo, hi, m)); let i = choose|i: int| #[trigger] from(p, s, n - 1, lo, hi, m, i); assert(from(p, s, n, lo, hi, m, i)); }
            else { assert(from(p, s, n, lo, hi, m, n - 1)); }
        }
        assert forall|i: int| 0 <= i < n && #[trigger] acts_on(p, s, i, lo, hi) implies exists|m: int| 0 <= m < b.len() && #[trigger] from(p, s, n, lo, hi, m, i) by {
            if i < n - 1 { let m = choose|m: int| 0 <= m < a.len() && #[trigger] from(p, s, n - 1, lo, hi, m, i); assert(from(p, s, n, lo, hi, m, i)); }
        }
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).lookahead < (#[trigger] b[j]).lookahead by {
            if j == a.len() {
                assert(has_from(p, s, n - 1, lo, hi, i));
                let c = choose|c: int| #[trigger] from(p, s, n - 1, lo, hi, i, c);
                let e = n - 1;
                assert(sym(p, s[c].look_ahead).index <= sym(p, s[e].look_ahead).index);
                if sym(p, s[c].look_ahead).index == sym(p, s[e].look_ahead).index {
                    lemma_same_index(p, s[c].look_ahead, s[e].look_ahead);
                    assert(on(s, c, s[c].look_ahead) && on(s, e, s[c].look_ahead));
                }
            }
        }
    }
}
proof fn lemma_same_index(p: &Pomelo, a: SymbolId, b: SymbolId)
    requires numbered(p), sym_in(p, a), sym_in(p, b), sym(p, a).index == sym(p, b).index
    ensures a == b
{
    assert(is_numbered(p, p.the_symbols.data@[a.id as int], a.id as int));
    assert(is_numbered(p, p.the_symbols.data@[b.id as int], b.id as int));
}
/// a row that is exact for the set gives the state's own actions
proof fn lemma_row(p: &Pomelo, k: int, lo: int, hi: int, t: Tab, ofs: int, x: int)
    requires row_ok(p, acts_of(p, k)), 0 <= lo <= x < hi <= p.default_index,
        exact(t, ofs, sel(p, acts_of(p, k), acts_of(p, k).len() as int, lo, hi)),
    ensures code_at(p, k, x) == (match lookup(t, ofs, x) { Some(a) => Some(a as int), None => None }),
{
    let s = acts_of(p, k);
    let n = s.len() as int;
    let q = sel(p, s, n, lo, hi);
    lemma_sel(p, s, n, lo, hi);
    let y = p.symbols@[x];
    assert(sym(p, p.symbols@[x]).index == x);
    match lookup(t, ofs, x) {
        Some(a) => {
            assert(has(q, x, a));
            let m = choose|m: int| 0 <= m < q.len() && (#[trigger] q[m]).lookahead == x && q[m].action == a;
            assert(has_from(p, s, n, lo, hi, m));
            let i = choose|i: int| #[trigger] from(p, s, n, lo, hi, m, i);
            assert(action_in_range(p, s[i]));
            lemma_same_index(p, s[i].look_ahead, y);
            assert(on(s, i, y));
            lemma_at(s, i, y);
            lemma_code(p, s[i]);
        }
        None => {
            if exists|i: int| #[trigger] on(s, i, y) {
                let i = choose|i: int| #[trigger] on(s, i, y);
                assert(acts_on(p, s, i, lo, hi));
                let m = choose|m: int| 0 <= m < q.len() && #[trigger] from(p, s, n, lo, hi, m, i);
                assert(q[m].lookahead == x);
            }
        }
    }
}
proof fn lemma_no_row(p: &Pomelo, k: int, lo: int, hi: int, x: int)
    requires numbered(p), 0 <= lo <= x < hi <= p.default_index,
        !acts_in(p, acts_of(p, k), acts_of(p, k).len() as int, lo, hi),
    ensures code_at(p, k, x) is None,
{
    let s = acts_of(p, k);
    let y = p.symbols@[x];
    assert(sym(p, p.symbols@[x]).index == x);
    if exists|i: int| #[trigger] on(s, i, y) {
        let i = choose|i: int| #[trigger] on(s, i, y);
        assert(i < s.len() && acts_on(p, s, i, lo, hi));
    }
}
/// another row keeps its meaning when a set is inserted
proof fn lemma_keep(t0: Tab, t1: Tab, r: int, s: Set_, ofs: int, e: Set_)
    requires exact(t1, r, s), exact(t0, ofs, e), e.len() > 0,
        forall|o: int, la: int| o != r && la >= 0 ==> #[trigger] lookup(t1, o, la) == lookup(t0, o, la),
        none_visible(t0, r) || exact(t0, r, s), sorted(s),
    ensures exact(t1, ofs, e)
{
    if ofs == r {
        let la = e[0].lookahead as int;
        assert(lookup(t0, r, la) is Some);
        assert(exact(t0, r, s));
    }
    assert forall|la: int| la >= 0 implies #[trigger] lookup(t1, ofs, la) == lookup(t0, ofs, la) by {
        if ofs == r {
            let a = lookup(t0, r, la);
            let b = lookup(t1, r, la);
            if a is Some && b is Some {
                let i = choose|m: int| 0 <= m < s.len() && (#[trigger] s[m]).lookahead == la && s[m].action == a->0;
                let j = choose|m: int| 0 <= m < s.len() && (#[trigger] s[m]).lookahead == la && s[m].action == b->0;
                assert(i == j) by { if i < j { assert(s[i].lookahead < s[j].lookahead); } if j < i { assert(s[j].lookahead < s[i].lookahead); } }
            }
        }
    }
    assert forall|la: int| la >= 0 implies match #[trigger] lookup(t1, ofs, la) {
        Some(a) => has(e, la, a),
        None => forall|m: int| 0 <= m < e.len() ==> (#[trigger] e[m]).lookahead != la,
    } by { assert(lookup(t1, ofs, la) == lookup(t0, ofs, la)); }
}
// ===== rows: number 2k is state k's tokens, 2k+1 its nonterminals =====
pub open spec fn row_state(p: &Pomelo, m: int) -> int { p.states@[m / 2].id as int }
pub open spec fn row_lo(p: &Pomelo, m: int) -> int { if m % 2 == 0 { 0 } else { p.num_terminals as int } }
pub open spec fn row_hi(p: &Pomelo, m: int) -> int { if m % 2 == 0 { p.num_terminals as int } else { p.default_index as int } }
pub open spec fn row_set(p: &Pomelo, m: int) -> Set_ { sel(p, acts_of(p, m / 2), acts_of(p, m / 2).len() as int, row_lo(p, m), row_hi(p, m)) }
pub open spec fn row_ofs(p: &Pomelo, s: &Pomelo, m: int) -> Option<i32> {
    let st = s.the_states.data@[row_state(p, m)];
    if m % 2 == 0 { st.i_tkn_ofst } else { st.i_nt_ofst }
}
pub open spec fn row_ax(p: &Pomelo, m: int) -> AxSet {
    let st = p.the_states.data@[row_state(p, m)];
    AxSet { stp: p.states@[m / 2], is_tkn: m % 2 == 0, n_action: if m % 2 == 0 { st.n_tkn_act } else { st.n_nt_act } }
}
pub open spec fn row_done(p: &Pomelo, s: &Pomelo, t: Tab, m: int, mint: int, maxt: int, minn: int, maxn: int) -> bool {
    match row_ofs(p, s, m) {
        None => row_set(p, m).len() == 0,
        Some(o) => row_set(p, m).len() > 0 && exact(t, o as int, row_set(p, m)) && (if m % 2 == 0 { mint <= o <= maxt } else { minn <= o <= maxn }),
    }
}
/// the table's entries are actions of the automaton
pub open spec fn entries_ok(p: &Pomelo, t: Tab) -> bool {
    forall|j: int| 0 <= j < t.len() && (#[trigger] t[j]) is Some ==> t[j]->0.lookahead < p.default_index && t[j]->0.action <= 0x3000_0000
}

pub struct Lims { pub mint: int, pub maxt: int, pub minn: int, pub maxn: int }
pub open spec fn row_inv(p: &Pomelo, s: &Pomelo, t: Tab, g: Seq<int>, i: int, m: int, l: Lims) -> bool {
    if g[m] < i { row_done(p, s, t, m, l.mint, l.maxt, l.minn, l.maxn) } else { row_ofs(p, s, m) is None }
}
pub open spec fn rows_inv(p: &Pomelo, s: &Pomelo, t: Tab, g: Seq<int>, i: int, l: Lims) -> bool {
    forall|m: int| 0 <= m < 2 * p.states@.len() ==> #[trigger] row_inv(p, s, t, g, i, m, l)
}
proof fn lemma_advance(p: &Pomelo, sa: &Pomelo, sb: &Pomelo, ta: Tab, tb: Tab, f: Seq<int>, g: Seq<int>, i: int, r: Option<i32>, la: Lims, lb: Lims)
    requires emit_pre(p), perm_fn(f, g, 2 * p.states@.len()), 0 <= i < 2 * p.states@.len(),
        rows_inv(p, sa, ta, g, i, la), same_but_offsets(p, sa),
        lb.mint <= la.mint, lb.minn <= la.minn, la.maxt <= lb.maxt, la.maxn <= lb.maxn,
        r is None ==> sb == sa && ta == tb && row_set(p, f[i]).len() == 0,
        r matches Some(o) ==> {
            let s = row_set(p, f[i]);
            let x = row_state(p, f[i]);
            &&& sb.the_states.data@ == sa.the_states.data@.update(x, if f[i] % 2 == 0 { State { i_tkn_ofst: r, ..sa.the_states.data@[x] } } else { State { i_nt_ofst: r, ..sa.the_states.data@[x] } })
            &&& s.len() > 0 && sorted(s) && exact(tb, o as int, s)
            &&& forall|ofs: int, la: int| ofs != o && la >= 0 ==> #[trigger] lookup(tb, ofs, la) == lookup(ta, ofs, la)
            &&& none_visible(ta, o as int) || exact(ta, o as int, s)
            &&& if f[i] % 2 == 0 { lb.mint <= o <= lb.maxt } else { lb.minn <= o <= lb.maxn }
        },
    ensures rows_inv(p, sb, tb, g, i + 1, lb)
{
    let m0 = f[i];
    assert(g[m0] == i);
    assert(row_inv(p, sa, ta, g, i, m0, la));
    assert(estate_ok(p, m0 / 2));
    assert forall|m: int| 0 <= m < 2 * p.states@.len() implies #[trigger] row_inv(p, sb, tb, g, i + 1, m, lb) by {
        assert(row_inv(p, sa, ta, g, i, m, la));
        assert(estate_ok(p, m / 2));
        if m != m0 {
            assert(g[m] != i) by { assert(f[g[m]] == m); }
            if r is Some {
                if m / 2 != m0 / 2 { assert(row_state(p, m) != row_state(p, m0)); }
                else { assert(m % 2 != m0 % 2); }
                assert(row_ofs(p, sb, m) == row_ofs(p, sa, m));
                if g[m] < i && row_ofs(p, sa, m) is Some {
                    lemma_keep(ta, tb, r->0 as int, row_set(p, m0), row_ofs(p, sa, m)->0 as int, row_set(p, m));
                }
            }
        }
    }
}
pub open spec fn hole(p: &Pomelo) -> int { (p.states@.len() + p.rules@.len() + 2) as int }
pub open spec fn ofs_or(o: Option<i32>, d: int) -> int { match o { Some(x) => x as int, None => d } }
/// reading the written tables is looking up the table
proof fn lemma_written(p: &Pomelo, s: &Pomelo, t: Tab, g: Seq<int>, l: Lims, o: VxOut)
    requires emit_pre(p), same_but_offsets(p, s), entries_ok(p, t),
        forall|m: int| 0 <= m < 2 * p.states@.len() ==> #[trigger] row_done(p, s, t, m, l.mint, l.maxt, l.minn, l.maxn),
        o.YY_ACTION@.len() == t.len(), o.YY_LOOKAHEAD@.len() == t.len(),
        forall|j: int| 0 <= j < t.len() ==> (#[trigger] o.YY_ACTION@[j]) == (match t[j] { Some(e) => e.action as int, None => hole(p) }),
        forall|j: int| 0 <= j < t.len() ==> (#[trigger] o.YY_LOOKAHEAD@[j]) == (match t[j] { Some(e) => e.lookahead as int, None => p.default_index as int }),
        o.YY_SHIFT_USE_DFLT == l.mint - 1, o.YY_REDUCE_USE_DFLT == l.minn - 1,
        -1 <= o.YY_SHIFT_COUNT < p.states@.len(), -1 <= o.YY_REDUCE_COUNT < p.states@.len(),
        o.YY_SHIFT_OFST@.len() == o.YY_SHIFT_COUNT + 1, o.YY_REDUCE_OFST@.len() == o.YY_REDUCE_COUNT + 1,
        forall|k: int| 0 <= k <= o.YY_SHIFT_COUNT ==> (#[trigger] o.YY_SHIFT_OFST@[k]) == ofs_or(row_ofs(p, s, 2 * k), l.mint - 1),
        forall|k: int| 0 <= k <= o.YY_REDUCE_COUNT ==> (#[trigger] o.YY_REDUCE_OFST@[k]) == ofs_or(row_ofs(p, s, 2 * k + 1), l.minn - 1),
        forall|k: int| o.YY_SHIFT_COUNT < k < p.states@.len() ==> row_ofs(p, s, #[trigger] (2 * k)) is None,
        forall|k: int| o.YY_REDUCE_COUNT < k < p.states@.len() ==> row_ofs(p, s, #[trigger] (2 * k) + 1) is None,
        o.YY_REDUCE_COUNT >= 0, row_ofs(p, s, 2 * o.YY_REDUCE_COUNT + 1) is Some,
    ensures
        forall|k: int, x: int| 0 <= k < p.states@.len() && 0 <= x < p.num_terminals ==> #[trigger] o_shift(o, k, x) == code_at(p, k, x),
        forall|k: int, x: int| 0 <= k < p.states@.len() && p.num_terminals <= x < p.default_index ==> #[trigger] o_reduce(o, k, x) == code_at(p, k, x),
        forall|k: int| 0 <= k <= o.YY_REDUCE_COUNT ==> #[trigger] o.YY_REDUCE_OFST@[k] != o.YY_REDUCE_USE_DFLT,
{
    assert forall|ofs: int, la: int| 0 <= la < p.default_index implies #[trigger] o_lookup(o, ofs, la) == (match lookup(t, ofs, la) { Some(a) => Some(a as int), None => None }) by {
        let j = ofs + la;
        if 0 <= j < t.len() { assert(o.YY_ACTION@[j] == (match t[j] { Some(e) => e.action as int, None => hole(p) })); assert(o.YY_LOOKAHEAD@[j] == (match t[j] { Some(e) => e.lookahead as int, None => p.default_index as int })); }
    }
    assert forall|k: int, x: int| 0 <= k < p.states@.len() && 0 <= x < p.num_terminals implies #[trigger] o_shift(o, k, x) == code_at(p, k, x) by {
        assert(estate_ok(p, k));
        let m = 2 * k;
        assert(m / 2 == k && m % 2 == 0);
        assert(row_done(p, s, t, m, l.mint, l.maxt, l.minn, l.maxn));
        let st = acts_of(p, k);
        match row_ofs(p, s, m) {
            Some(ofs) => {
                if k > o.YY_SHIFT_COUNT { assert(row_ofs(p, s, 2 * k) is None); }
                assert(o.YY_SHIFT_OFST@[k] == ofs);
                lemma_row(p, k, 0, p.num_terminals as int, t, ofs as int, x);
            }
            None => {
                lemma_sel(p, st, st.len() as int, 0, p.num_terminals as int);
                lemma_no_row(p, k, 0, p.num_terminals as int, x);
                if k <= o.YY_SHIFT_COUNT { assert(o.YY_SHIFT_OFST@[k] == l.mint - 1); }
            }
        }
    }
    assert forall|k: int| 0 <= k <= o.YY_REDUCE_COUNT implies row_ofs(p, s, #[trigger] (2 * k) + 1) is Some by {
        assert(estate_ok(p, k));
        let c = o.YY_REDUCE_COUNT as int;
        assert(estate_ok(p, c));
        let (m, mc) = (2 * k + 1, 2 * c + 1);
        assert(m / 2 == k && m % 2 == 1 && mc / 2 == c && mc % 2 == 1);
        assert(row_done(p, s, t, m, l.mint, l.maxt, l.minn, l.maxn));
        assert(row_done(p, s, t, mc, l.mint, l.maxt, l.minn, l.maxn));
        let (a, b) = (acts_of(p, k), acts_of(p, c));
        lemma_sel(p, a, a.len() as int, p.num_terminals as int, p.default_index as int);
        lemma_sel(p, b, b.len() as int, p.num_terminals as int, p.default_index as int);
        if 1 <= k < c { assert(p.the_states.data@[p.states@[k].id as int].n_nt_act >= p.the_states.data@[p.states@[c].id as int].n_nt_act); }
    }
    assert forall|k: int, x: int| 0 <= k < p.states@.len() && p.num_terminals <= x < p.default_index implies #[trigger] o_reduce(o, k, x) == code_at(p, k, x) by {
        assert(estate_ok(p, k));
        let m = 2 * k + 1;
        assert(m / 2 == k && m % 2 == 1);
        assert(row_done(p, s, t, m, l.mint, l.maxt, l.minn, l.maxn));
        let st = acts_of(p, k);
        if k <= o.YY_REDUCE_COUNT {
            assert(row_ofs(p, s, (2 * k) + 1) is Some);
            let ofs = row_ofs(p, s, m)->0;
            assert(o.YY_REDUCE_OFST@[k] == ofs);
            lemma_row(p, k, p.num_terminals as int, p.default_index as int, t, ofs as int, x);
        } else {
            assert(row_ofs(p, s, (2 * k) + 1) is None);
            lemma_sel(p, st, st.len() as int, p.num_terminals as int, p.default_index as int);
            lemma_no_row(p, k, p.num_terminals as int, p.default_index as int, x);
        }
    }
    assert forall|k: int| 0 <= k <= o.YY_REDUCE_COUNT implies #[trigger] o.YY_REDUCE_OFST@[k] != o.YY_REDUCE_USE_DFLT by {
        assert(row_ofs(p, s, (2 * k) + 1) is Some);
        let m = 2 * k + 1;
        assert(m / 2 == k && m % 2 == 1);
        assert(row_done(p, s, t, m, l.mint, l.maxt, l.minn, l.maxn));
    }
}
pub open spec fn lims_ok(p: &Pomelo, l: Lims) -> bool { -0x1000_0000 < l.mint <= 0 && 0 <= l.maxt < 0x1800_0000 && -0x1000_0000 < l.minn <= 0 && 0 <= l.maxn < 0x1800_0000 }
pub open spec fn tab_ok(p: &Pomelo, t: Tab, i: int) -> bool { bounded(t) && entries_ok(p, t) && t.len() <= i * (2 * p.symbols@.len() + 2) }
proof fn lemma_room(p: &Pomelo, i: int)
    requires emit_pre(p), 0 <= i < 2 * p.states@.len(),
    ensures i * (2 * p.symbols@.len() + 2) + (2 * p.symbols@.len() + 2) == (i + 1) * (2 * p.symbols@.len() + 2),
        (i + 1) * (2 * p.symbols@.len() + 2) < 0x1000_0000, (2 * p.symbols@.len() + 2) < 0x1000_0000,
{
    let w = 2 * p.symbols@.len() + 2;
    let n = 2 * p.states@.len();
    assert(i * w + w == (i + 1) * w) by (nonlinear_arith);
    assert((i + 1) * w <= n * w) by (nonlinear_arith) requires i + 1 <= n, w >= 0;
    assert(0 * w <= i * w) by (nonlinear_arith) requires 0 <= i, w >= 0;
}
/// the entries of a row's set are actions of the automaton
proof fn lemma_set_entries(p: &Pomelo, m: int)
    requires emit_pre(p), 0 <= m < 2 * p.states@.len(),
    ensures forall|x: int| 0 <= x < row_set(p, m).len() ==> (#[trigger] row_set(p, m)[x]).lookahead < p.default_index && row_set(p, m)[x].action <= 0x3000_0000,
        sorted(row_set(p, m)), row_set(p, m).len() > 0 <==> (row_ax(p, m).n_action != 0),
{
    let k = m / 2;
    assert(estate_ok(p, k));
    let s = acts_of(p, k);
    lemma_sel(p, s, s.len() as int, row_lo(p, m), row_hi(p, m));
    assert forall|x: int| 0 <= x < row_set(p, m).len() implies (#[trigger] row_set(p, m)[x]).lookahead < p.default_index && row_set(p, m)[x].action <= 0x3000_0000 by {
        assert(has_from(p, s, s.len() as int, row_lo(p, m), row_hi(p, m), x));
        let i = choose|i: int| #[trigger] from(p, s, s.len() as int, row_lo(p, m), row_hi(p, m), x, i);
        assert(action_in_range(p, s[i]));
    }
}
proof fn lemma_entries(p: &Pomelo, t0: Tab, t1: Tab, m: int)
    requires emit_pre(p), 0 <= m < 2 * p.states@.len(), entries_ok(p, t0),
        forall|k: int| 0 <= k < t1.len() && (#[trigger] t1[k]) is Some ==> (k < t0.len() && t1[k] == t0[k]) || in_set(row_set(p, m), t1[k]->0),
    ensures entries_ok(p, t1)
{
    lemma_set_entries(p, m);
    assert forall|j: int| 0 <= j < t1.len() && (#[trigger] t1[j]) is Some implies t1[j]->0.lookahead < p.default_index && t1[j]->0.action <= 0x3000_0000 by {
        if in_set(row_set(p, m), t1[j]->0) { let x = choose|x: int| 0 <= x < row_set(p, m).len() && #[trigger] row_set(p, m)[x] == t1[j]->0; }
    }
}
proof fn lemma_compose<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>) -> (fg: (Seq<int>, Seq<int>))
    requires reordered(a, b, 0), reordered(b, c, 0)
    ensures perm_fn(fg.0, fg.1, a.len()), picked(a, c, fg.0),
{
    let (f, g) = choose|f: Seq<int>, g: Seq<int>| #[trigger] perm_fn(f, g, a.len()) && picked(a, b, f);
    let (h, k) = choose|f: Seq<int>, g: Seq<int>| #[trigger] perm_fn(f, g, b.len()) && picked(b, c, f);
    let x = Seq::new(a.len(), |i: int| f[h[i]]);
    let y = Seq::new(a.len(), |i: int| k[g[i]]);
    assert forall|i: int| 0 <= i < a.len() implies 0 <= (#[trigger] x[i]) < a.len() && y[x[i]] == i by { assert(0 <= h[i] < a.len()); }
    assert forall|i: int| 0 <= i < a.len() implies 0 <= (#[trigger] y[i]) < a.len() && x[y[i]] == i by { assert(0 <= g[i] < a.len()); }
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] == a[x[i]] by { assert(c[i] == b[h[i]]); }
    (x, y)
}
@@raw
proof fn lemma_offset_set(p: &Pomelo, sa: &Pomelo, sb: &Pomelo, m: int, r: Option<i32>)
    requires emit_pre(p), 0 <= m < 2 * p.states@.len(), same_but_offsets(p, sa), *sb == (Pomelo { the_states: sb.the_states, ..*sa }),
        ({ let x = row_state(p, m); sb.the_states.data@ == sa.the_states.data@.update(x, if m % 2 == 0 { State { i_tkn_ofst: r, ..sa.the_states.data@[x] } } else { State { i_nt_ofst: r, ..sa.the_states.data@[x] } }) }),
    ensures same_but_offsets(p, sb)
{
    assert(estate_ok(p, m / 2));
    assert forall|x: int| 0 <= x < p.the_states.data@.len() implies only_offsets(#[trigger] p.the_states.data@[x], sb.the_states.data@[x]) by {
        assert(only_offsets(p.the_states.data@[x], sa.the_states.data@[x]));
    }
}
proof fn lemma_codes_same(p: &Pomelo, s: &Pomelo, d: ActionDetail)
    requires same_but_offsets(p, s), det_in_range2(&p.the_states, &p.the_rules, d),
    ensures action_code(s, d) == action_code(p, d), det_in_range2(&s.the_states, &s.the_rules, d),
{
    match d { ActionDetail::Shift(x) => { assert(only_offsets(p.the_states.data@[x.id as int], s.the_states.data@[x.id as int])); } _ => {} }
}
@@include generate_source.sig
@@sort 1
vx_sort_from(&mut RECVBASE, RECVLO)
@@start
    let ghost p0 = *self;
    let ghost ns = p0.states@.len() as int;
    proof { assert(is_numbered(&p0, p0.the_symbols.data@[p0.error_symbol.id as int], p0.error_symbol.id as int));
        if let Some(w) = p0.wildcard { assert(is_numbered(&p0, p0.the_symbols.data@[w.id as int], w.id as int)); }
        lemma_room(&p0, 0); }
@@let-type ax
Vec<AxSet>
@@let-type max_tkn_ofst
i32
@@let-type min_tkn_ofst
i32
@@let-type max_nt_ofst
i32
@@let-type min_nt_ofst
i32
@@loop 1
    invariant
        p0 == *old(self), *self == p0, emit_pre(&p0), ns == p0.states@.len(), vx_i1 <= ns, ax@.len() == 2 * vx_i1,
        forall|m: int| 0 <= m < ax@.len() ==> #[trigger] ax@[m] == row_ax(&p0, m),
    decreases ns - vx_i1,
@@head 1
    proof { assert(estate_ok(&p0, vx_i1 - 1)); }
@@after 1
    let ghost ax0 = ax@;
@@after-call sort_by_key
    let ghost ax1 = ax@;
@@after-call reverse
    let ghost (f, g) = lemma_compose(ax0, ax1, ax@);
@@after-let acttab
    let ghost mut lims = Lims { mint: 0, maxt: 0, minn: 0, maxn: 0 };
    proof {
        assert forall|m: int| 0 <= m < 2 * ns implies #[trigger] row_inv(&p0, self, acttab.a_action@, g, 0, m, lims) by { assert(estate_ok(&p0, m / 2)); assert(0 <= g[m]); }
    }
@@loop 2
    invariant
        p0 == *old(self), emit_pre(&p0), ns == p0.states@.len(), same_but_offsets(&p0, self),
        perm_fn(f, g, (2 * ns) as nat), ax@.len() == 2 * ns, vx_i2 <= 2 * ns,
        forall|i: int| 0 <= i < ax@.len() ==> #[trigger] ax@[i] == row_ax(&p0, f[i]),
        rows_inv(&p0, self, acttab.a_action@, g, vx_i2 as int, lims),
        tab_ok(&p0, acttab.a_action@, vx_i2 as int), lims_ok(&p0, lims),
        lims.mint == min_tkn_ofst, lims.maxt == max_tkn_ofst, lims.minn == min_nt_ofst, lims.maxn == max_nt_ofst,
    decreases 2 * ns - vx_i2,
@@head 2
    let ghost i0 = vx_i2 - 1;
    let ghost m0 = f[i0];
    let ghost sa = *self;
    let ghost ta = acttab.a_action@;
    let ghost s = acts_of(&p0, m0 / 2);
    let ghost la = lims;
    proof {
        assert(0 <= m0 < 2 * ns);
        assert(*a == row_ax(&p0, m0));
        assert(estate_ok(&p0, m0 / 2));
        assert(only_offsets(p0.the_states.data@[a.stp.id as int], self.the_states.data@[a.stp.id as int]));
        lemma_set_entries(&p0, m0);
        lemma_room(&p0, i0);
        if a.n_action == 0 { lemma_advance(&p0, &sa, &sa, ta, ta, f, g, i0, None, la, la); }
    }
@@loop 3
    invariant
        *self == sa, emit_pre(&p0), same_but_offsets(&p0, &sa), 0 <= m0 < 2 * ns, ns == p0.states@.len(), m0 % 2 == 0, *a == row_ax(&p0, m0),
        s == acts_of(&p0, m0 / 2), self.the_states.data@[a.stp.id as int].actions@ == s, estate_ok(&p0, m0 / 2), vx_i3 <= s.len(),
        actset.a_lookahead@ == sel(&p0, s, vx_i3 as int, 0, p0.num_terminals as int),
    decreases s.len() - vx_i3,
@@head 3
    proof {
        assert(action_in_range(&p0, s[vx_i3 - 1]));
        lemma_codes_same(&p0, self, s[vx_i3 - 1].detail);
    }
@@loop 4
    invariant
        *self == sa, emit_pre(&p0), same_but_offsets(&p0, &sa), 0 <= m0 < 2 * ns, ns == p0.states@.len(), m0 % 2 == 1, *a == row_ax(&p0, m0),
        s == acts_of(&p0, m0 / 2), self.the_states.data@[a.stp.id as int].actions@ == s, estate_ok(&p0, m0 / 2), vx_i4 <= s.len(),
        actset.a_lookahead@ == sel(&p0, s, vx_i4 as int, p0.num_terminals as int, p0.default_index as int),
    decreases s.len() - vx_i4,
@@head 4
    proof {
        assert(action_in_range(&p0, s[vx_i4 - 1]));
        lemma_codes_same(&p0, self, s[vx_i4 - 1].detail);
    }
@@after-call insert_action_set#1
    let ghost lb = Lims { mint: if ofs < la.mint { ofs as int } else { la.mint }, maxt: if ofs > la.maxt { ofs as int } else { la.maxt }, ..la };
@@after-call insert_action_set#2
    let ghost lb = Lims { minn: if ofs < la.minn { ofs as int } else { la.minn }, maxn: if ofs > la.maxn { ofs as int } else { la.maxn }, ..la };
@@after-assign max_tkn_ofst#1
    proof {
        lemma_advance(&p0, &sa, self, ta, acttab.a_action@, f, g, i0, Some(ofs), la, lb);
        lemma_entries(&p0, ta, acttab.a_action@, m0);
        lemma_offset_set(&p0, &sa, self, m0, Some(ofs));
        lims = lb;
    }
@@after-assign max_nt_ofst#1
    proof {
        lemma_advance(&p0, &sa, self, ta, acttab.a_action@, f, g, i0, Some(ofs), la, lb);
        lemma_entries(&p0, ta, acttab.a_action@, m0);
        lemma_offset_set(&p0, &sa, self, m0, Some(ofs));
        lims = lb;
    }
@@after 2
    let ghost t = acttab.a_action@;
    let ghost se = *self;
    proof {
        assert forall|m: int| 0 <= m < 2 * ns implies #[trigger] row_done(&p0, &se, t, m, lims.mint, lims.maxt, lims.minn, lims.maxn) by {
            assert(row_inv(&p0, &se, t, g, 2 * ns, m, lims));
        }
        lemma_room(&p0, 2 * ns - 1);
        assert(row_done(&p0, &se, t, 0, lims.mint, lims.maxt, lims.minn, lims.maxn));
        assert(row_done(&p0, &se, t, 1, lims.mint, lims.maxt, lims.minn, lims.maxn));
        let a0 = acts_of(&p0, 0);
        assert(estate_ok(&p0, 0));
        lemma_sel(&p0, a0, a0.len() as int, p0.num_terminals as int, p0.default_index as int);
        assert(row_ofs(&p0, &se, 1) is Some);
        let kt = choose|k: int| 0 <= k < p0.states@.len() && #[trigger] has_tkn(&p0, k);
        let at = acts_of(&p0, kt);
        assert(estate_ok(&p0, kt));
        lemma_sel(&p0, at, at.len() as int, 0, p0.num_terminals as int);
        assert((2 * kt) / 2 == kt && (2 * kt) % 2 == 0);
        assert(row_done(&p0, &se, t, 2 * kt, lims.mint, lims.maxt, lims.minn, lims.maxn));
        assert(row_ofs(&p0, &se, 2 * kt) is Some);
    }
@@loop 5
    invariant
        *self == se, same_but_offsets(&p0, &se), emit_pre(&p0), acttab.a_action@ == t, entries_ok(&p0, t), vx_i5 <= t.len(), vx_m1@.len() == vx_i5,
        forall|j: int| 0 <= j < vx_i5 ==> (#[trigger] vx_m1@[j]) == (match t[j] { Some(e) => e.action as int, None => hole(&p0) }),
    decreases t.len() - vx_i5,
@@loop 6
    invariant
        *self == se, same_but_offsets(&p0, &se), emit_pre(&p0), acttab.a_action@ == t, entries_ok(&p0, t), vx_i6 <= t.len(), vx_m2@.len() == vx_i6,
        forall|j: int| 0 <= j < vx_i6 ==> (#[trigger] vx_m2@[j]) == (match t[j] { Some(e) => e.lookahead as int, None => p0.default_index as int }),
    decreases t.len() - vx_i6,
@@loop 7
    invariant_except_break
        vx_r3 is None,
        forall|k: int| vx_i7 <= k < ns ==> row_ofs(&p0, &se, #[trigger] (2 * k)) is None,
    invariant
        *self == se, same_but_offsets(&p0, &se), emit_pre(&p0), ns == p0.states@.len(), vx_i7 <= ns, vx_e7 == 0,
    ensures
        vx_r3 matches Some(x) ==> x < ns && row_ofs(&p0, &se, 2 * x) is Some,
        forall|k: int| (match vx_r3 { Some(x) => x as int, None => -1 }) < k < ns ==> row_ofs(&p0, &se, #[trigger] (2 * k)) is None,
    decreases vx_i7,
@@head 7
    proof { assert(estate_ok(&p0, vx_i7 as int)); let m = 2 * vx_i7; assert(m / 2 == vx_i7 && m % 2 == 0); }
@@after 7
    proof { if vx_r3 is None { let kt = choose|k: int| 0 <= k < p0.states@.len() && #[trigger] has_tkn(&p0, k); assert(row_ofs(&p0, &se, 2 * kt) is None); } }
@@after-let n#1
    let ghost ntk = n as int;
@@loop 8
    invariant
        *self == se, same_but_offsets(&p0, &se), emit_pre(&p0), ns == p0.states@.len(), 0 <= ntk < ns, vx_e8 == ntk + 1, vx_i8 <= vx_e8,
        lims_ok(&p0, lims), lims.mint == min_tkn_ofst, vx_m4@.len() == vx_i8,
        forall|k: int| 0 <= k < vx_i8 ==> (#[trigger] vx_m4@[k]) == ofs_or(row_ofs(&p0, &se, 2 * k), lims.mint - 1),
    decreases vx_e8 - vx_i8,
@@head 8
    proof { let k = vx_i8 - 1; assert(estate_ok(&p0, k)); let m = 2 * k; assert(m / 2 == k && m % 2 == 0); }
@@loop 9
    invariant_except_break
        vx_r5 is None,
        forall|k: int| vx_i9 <= k < ns ==> row_ofs(&p0, &se, #[trigger] (2 * k) + 1) is None,
    invariant
        *self == se, same_but_offsets(&p0, &se), emit_pre(&p0), ns == p0.states@.len(), vx_i9 <= ns, vx_e9 == 0,
    ensures
        vx_r5 matches Some(x) ==> x < ns && row_ofs(&p0, &se, 2 * x + 1) is Some,
        forall|k: int| (match vx_r5 { Some(x) => x as int, None => -1 }) < k < ns ==> row_ofs(&p0, &se, #[trigger] (2 * k) + 1) is None,
    decreases vx_i9,
@@head 9
    proof { assert(estate_ok(&p0, vx_i9 as int)); let m = 2 * vx_i9 + 1; assert(m / 2 == vx_i9 && m % 2 == 1); }
@@after 9
    proof { if vx_r5 is None { assert(row_ofs(&p0, &se, (2 * 0int) + 1) is None); } }
@@after-let n#2
    let ghost nnt = n as int;
@@loop 10
    invariant
        *self == se, same_but_offsets(&p0, &se), emit_pre(&p0), ns == p0.states@.len(), 0 <= nnt < ns, vx_e10 == nnt + 1, vx_i10 <= vx_e10,
        lims_ok(&p0, lims), lims.minn == min_nt_ofst, vx_m6@.len() == vx_i10,
        forall|k: int| 0 <= k < vx_i10 ==> (#[trigger] vx_m6@[k]) == ofs_or(row_ofs(&p0, &se, 2 * k + 1), lims.minn - 1),
    decreases vx_e10 - vx_i10,
@@head 10
    proof { let k = vx_i10 - 1; assert(estate_ok(&p0, k)); let m = 2 * k + 1; assert(m / 2 == k && m % 2 == 1); }
@@loop 11
    invariant
        *self == se, same_but_offsets(&p0, &se), emit_pre(&p0), ns == p0.states@.len(), vx_i11 <= ns, vx_m7@.len() == vx_i11,
        forall|k: int| 0 <= k < vx_i11 ==> (#[trigger] vx_m7@[k]) == p0.the_states.data@[p0.states@[k].id as int].i_dflt && vx_m7@[k] <= p0.states@.len() + p0.rules@.len(),
    decreases ns - vx_i11,
@@head 11
    proof { let k = vx_i11 - 1; assert(estate_ok(&p0, k)); assert(only_offsets(p0.the_states.data@[p0.states@[k].id as int], se.the_states.data@[p0.states@[k].id as int])); }
@@loop 12
    invariant_except_break
        vx_r8 is None,
        forall|x: int| vx_i12 <= x < p0.symbols@.len() ==> sym(&p0, #[trigger] p0.symbols@[x]).fallback is None,
    invariant
        *self == se, same_but_offsets(&p0, &se), emit_pre(&p0), vx_i12 <= p0.symbols@.len(), vx_e12 == 0,
    ensures
        vx_r8 matches Some(x) ==> x < p0.num_terminals,
        forall|x: int| (match vx_r8 { Some(x) => x as int, None => -1 }) < x < p0.symbols@.len() ==> sym(&p0, #[trigger] p0.symbols@[x]).fallback is None,
    decreases vx_i12,
@@head 12
    proof { let y = p0.symbols@[vx_i12 as int]; assert(sym_in(&p0, y)); assert(fb_in(&p0, p0.the_symbols.data@[y.id as int])); }
@@after-let mx
    let ghost nfb = mx as int;
@@loop 13
    invariant
        *self == se, same_but_offsets(&p0, &se), same_but_offsets(&p0, self), p0 == *old(self), emit_pre(&p0), vx_i13 <= vx_e13, vx_e13 == nfb, nfb <= p0.num_terminals, vx_m9@.len() == vx_i13,
        forall|x: int| 0 <= x < vx_i13 ==> (#[trigger] vx_m9@[x]) == fb_of(&p0, x) && 0 <= vx_m9@[x] < 0x1000_0000,
    decreases vx_e13 - vx_i13,
@@head 13
    proof { let y = p0.symbols@[vx_i13 - 1]; assert(sym_in(&p0, y)); assert(fb_in(&p0, p0.the_symbols.data@[y.id as int]));
        if let Some(z) = sym(&p0, y).fallback { assert(is_numbered(&p0, p0.the_symbols.data@[z.id as int], z.id as int)); } }
@@loop 14
    invariant
        *self == se, same_but_offsets(&p0, &se), emit_pre(&p0), vx_i14 <= p0.rules@.len(), vx_m10@.len() == vx_i14,
        forall|r: int| 0 <= r < vx_i14 ==> (#[trigger] vx_m10@[r]) == sym(&p0, p0.the_rules.data@[r].lhs.0).index && vx_m10@[r] < p0.symbols@.len(),
    decreases p0.rules@.len() - vx_i14,
@@head 14
    proof { let r = vx_i14 - 1; assert(p0.rules@[r].id == r); assert(rule_in(&p0, p0.the_rules.data@[r])); let z = p0.the_rules.data@[r].lhs.0;
        assert(is_numbered(&p0, p0.the_symbols.data@[z.id as int], z.id as int)); }
@@end
    proof {
        let o = vx_out;
        lemma_written(&p0, &se, t, g, lims, o);
        assert forall|x: int| 0 <= x < p0.num_terminals implies #[trigger] fb_of(&p0, x) == (if x < o.YY_FALLBACK@.len() { o.YY_FALLBACK@[x] as int } else { 0 }) by {
            if x >= nfb { assert(sym(&p0, p0.symbols@[x]).fallback is None); }
        }
        assert(small(o.YY_SHIFT_OFST@)) by { assert forall|k: int| 0 <= k < o.YY_SHIFT_OFST@.len() implies -0x2000_0000 < #[trigger] o.YY_SHIFT_OFST@[k] < 0x2000_0000 by {
            let m = 2 * k; assert(m / 2 == k && m % 2 == 0); assert(row_done(&p0, &se, t, m, lims.mint, lims.maxt, lims.minn, lims.maxn)); } }
        assert(small(o.YY_REDUCE_OFST@)) by { assert forall|k: int| 0 <= k < o.YY_REDUCE_OFST@.len() implies -0x2000_0000 < #[trigger] o.YY_REDUCE_OFST@[k] < 0x2000_0000 by {
            let m = 2 * k + 1; assert(m / 2 == k && m % 2 == 1); assert(row_done(&p0, &se, t, m, lims.mint, lims.maxt, lims.minn, lims.maxn)); } }
        assert(emitted(&p0, o));
        assert forall|k: int| 0 <= k < o.YY_SHIFT_OFST@.len() implies fits_ty(o.YY_SHIFT_OFST_ty, #[trigger] o.YY_SHIFT_OFST@[k] as int) by {
            let m = 2 * k; assert(m / 2 == k && m % 2 == 0); assert(row_done(&p0, &se, t, m, lims.mint, lims.maxt, lims.minn, lims.maxn));
            assert(lims.mint - 1 <= o.YY_SHIFT_OFST@[k] <= lims.maxt);
        }
        assert(all_fit(o.YY_SHIFT_OFST_ty, o.YY_SHIFT_OFST@));
        assert forall|k: int| 0 <= k < o.YY_REDUCE_OFST@.len() implies fits_ty(o.YY_REDUCE_OFST_ty, #[trigger] o.YY_REDUCE_OFST@[k] as int) by {
            let m = 2 * k + 1; assert(m / 2 == k && m % 2 == 1); assert(row_done(&p0, &se, t, m, lims.mint, lims.maxt, lims.minn, lims.maxn));
            assert(lims.minn - 1 <= o.YY_REDUCE_OFST@[k] <= lims.maxn);
        }
        assert(all_fit(o.YY_REDUCE_OFST_ty, o.YY_REDUCE_OFST@));
    }
@@include epilogue.vxi
