@@props C05 C06 C15
@@include prelude.vxi
@@include types.vxi
@@include wf.vxi
@@include doc_prec.vxi
@@raw
use ActionDetail::*;
@@include acts_fns.vxi
@@include named.vxi
@@include table.vxi
@@include conf_spec.vxi
@@include find_rule_precedences.sig
@@start
    let ghost p0 = *self;
@@loop 1
    invariant
        p0 == *old(self), symbols_in(&p0), rules_in(&p0), vx_i1 <= p0.rules@.len(),
        *self == (Pomelo { the_rules: self.the_rules, ..p0 }),
        self.the_rules.data@.len() == p0.the_rules.data@.len(),
        forall|i: int| 0 <= i < p0.the_rules.data@.len() ==> (#[trigger] p0.the_rules.data@[i]).precedence is None,
        forall|i: int| vx_i1 <= i < p0.the_rules.data@.len() ==> #[trigger] self.the_rules.data@[i] == p0.the_rules.data@[i],
        forall|i: int| 0 <= i < vx_i1 ==> {
            &&& (#[trigger] self.the_rules.data@[i]).precedence == doc_rule_prec(&p0, p0.the_rules.data@[i])
            &&& same_but_prec(p0.the_rules.data@[i], self.the_rules.data@[i]) && rule_in(&p0, self.the_rules.data@[i])
        },
    decreases p0.rules@.len() - vx_i1,
@@head 1
    proof { assert(rule_in(&p0, p0.the_rules.data@[vx_i1 - 1])); assert(p0.rules@[vx_i1 - 1].id == vx_i1 - 1); }
    let ghost r0 = p0.the_rules.data@[vx_i1 - 1];
@@loop 2
    invariant_except_break
        self.the_rules.data@[vx_i1 - 1] == r0,
        vx_i2 <= r0.rhs@.len(),
        leftmost_prec(&p0, r0.rhs@, vx_i2 as int) == leftmost_prec(&p0, r0.rhs@, 0),
    invariant
        p0 == *old(self), symbols_in(&p0), rules_in(&p0), 0 < vx_i1 <= p0.rules@.len(),
        *self == (Pomelo { the_rules: self.the_rules, ..p0 }),
        self.the_rules.data@.len() == p0.the_rules.data@.len(),
        rp__id == vx_i1 - 1, r0 == p0.the_rules.data@[vx_i1 - 1], r0.prec_sym is None, r0.precedence is None,
        rule_in(&p0, r0),
        forall|i: int| vx_i1 <= i < p0.the_rules.data@.len() ==> #[trigger] self.the_rules.data@[i] == p0.the_rules.data@[i],
        forall|i: int| 0 <= i < vx_i1 - 1 ==> {
            &&& (#[trigger] self.the_rules.data@[i]).precedence == doc_rule_prec(&p0, p0.the_rules.data@[i])
            &&& same_but_prec(p0.the_rules.data@[i], self.the_rules.data@[i]) && rule_in(&p0, self.the_rules.data@[i])
        },
    ensures
        self.the_rules.data@[vx_i1 - 1].precedence == doc_rule_prec(&p0, r0),
        same_but_prec(r0, self.the_rules.data@[vx_i1 - 1]) && rule_in(&p0, self.the_rules.data@[vx_i1 - 1]),
    decreases r0.rhs@.len() - vx_i2,
@@head 2
    proof { assert(sym_in(&p0, r0.rhs@[vx_i2 - 1].0)); assert(typ_in(&p0, p0.the_symbols.data@[r0.rhs@[vx_i2 - 1].0.id as int].typ)); }
@@loop 3
    invariant_except_break
        vx_i3 <= sub_sym@.len(), vx_r1 is None,
        member_prec(&p0, sub_sym@, vx_i3 as int) == member_prec(&p0, sub_sym@, 0),
    invariant
        self.the_symbols == p0.the_symbols,
        forall|k: int| 0 <= k < sub_sym@.len() ==> sym_in(&p0, #[trigger] sub_sym@[k]),
    ensures vx_r1 == member_prec(&p0, sub_sym@, 0),
    decreases sub_sym@.len() - vx_i3,
@@raw
/// facts about a sorted candidate list
pub open spec fn cand_ok(p: &Pomelo, a: Seq<Action>) -> bool {
    &&& forall|x: int| 0 <= x < a.len() ==> action_in_range(p, #[trigger] a[x]) && (a[x].detail is Shift || a[x].detail is Reduce || a[x].detail is Accept)
    &&& forall|x: int, y: int| 0 <= x < a.len() && 0 <= y < a.len() && x != y && #[trigger] same_la(a, x, y) ==> !(a[x].detail is Accept)
    &&& forall|x: int, y: int| 0 <= x < y < a.len() && #[trigger] same_la(a, x, y) ==> !(a[x].detail is Reduce && a[y].detail is Shift)
    &&& forall|x: int, y: int, z: int| 0 <= x < y < z < a.len() && #[trigger] same_la(a, x, z) ==> #[trigger] same_la(a, x, y)
}
pub open spec fn err_alone(a: Seq<Action>, b: Seq<Action>) -> bool {
    forall|x: int, y: int| 0 <= x < a.len() && 0 <= y < a.len() && x != y && #[trigger] same_la(a, x, y) && b[x].detail is Error && a[y].detail is Shift ==> !active(b[y].detail)
}
pub open spec fn untouched(a: Seq<Action>, b: Seq<Action>, i: int) -> bool {
    forall|k: int| i < k < a.len() && active((#[trigger] b[k]).detail) ==> b[k].detail == a[k].detail
}
proof fn lemma_beats_trans(p: &Pomelo, la: SymbolId, v: ActionDetail, v1: ActionDetail, w: ActionDetail, w1: ActionDetail, k: ActionDetail)
    requires beats(p, la, v, v1, w), beats(p, la, w, w1, k), v is Shift || v is Reduce, w is Shift || w is Reduce, k is Shift || k is Reduce,
    ensures beats(p, la, v, v1, k),
{}
proof fn lemma_step(p: &Pomelo, a: Seq<Action>, b: Seq<Action>, b2: Seq<Action>, i: int, j: int, c: bool)
    requires
        cand_ok(p, a), settling(p, a, b), single(a, b, i, j), err_alone(a, b), untouched(a, b, i),
        0 <= i < j < a.len(), same_la(a, i, j), b2.len() == b.len(),
        forall|k: int| 0 <= k < a.len() && k != i && k != j ==> #[trigger] b2[k] == b[k],
        b2[i].look_ahead == b[i].look_ahead, b2[j].look_ahead == b[j].look_ahead,
        resolved(p, a[i].look_ahead, b[i].detail, b[j].detail, b2[i].detail, b2[j].detail, c),
    ensures
        settling(p, a, b2), single(a, b2, i, j + 1), err_alone(a, b2), untouched(a, b2, i),
        !c && all_beaten(p, a, b) ==> all_beaten(p, a, b2),
        c ==> !all_decided(p, a),
{
    let la = a[i].look_ahead;
    let x = b[i].detail; let y = b[j].detail;
    assert(action_in_range(p, a[i]) && action_in_range(p, a[j]) && action_in_range(p, b[i]) && action_in_range(p, b[j]));
    assert(b[i].look_ahead == la && b[j].look_ahead == la);
    assert(same_la(a, j, i));
    assert(!(a[i].detail is Accept) && !(a[j].detail is Accept));
    assert(!(a[i].detail is Reduce && a[j].detail is Shift));
    assert(active(x) && active(y) ==> doc_verdict(p, la, x, y) is Some);
    // what was inactive stays inactive
    assert forall|k: int| 0 <= k < a.len() && !active(b[k].detail) implies !active((#[trigger] b2[k]).detail) by {
        if k == i || k == j { }
    }
    assert forall|k: int| 0 <= k < a.len() implies (#[trigger] b2[k]).look_ahead == a[k].look_ahead && action_in_range(p, b2[k]) by {
        assert(b[k].look_ahead == a[k].look_ahead && action_in_range(p, b[k]));
    }
    let v = doc_verdict(p, la, x, y);
    if v is Some { assert(active(x) && active(y)); assert(y == a[j].detail); }
    assert forall|k: int| 0 <= k < a.len() && active((#[trigger] b2[k]).detail) implies b2[k].detail == a[k].detail || (b2[k].detail is Error && tie(p, a, b2, k)) by {
        assert(active(b[k].detail));
        if b[k].detail is Error && !(a[k].detail is Error) {
            assert(tie(p, a, b, k));
            let m = choose|m: int| 0 <= m < a.len() && #[trigger] same_la(a, m, k) && a[m].detail is Reduce && !active(b[m].detail) && lev(p, a[m].look_ahead, a[m].detail) == lev(p, a[k].look_ahead, a[k].detail);
            assert(!active(b2[m].detail));
        }
        if v == Some(Verdict::Neither) && k == i {
            assert(x is Shift && x == a[i].detail);
            assert(same_la(a, j, i) && a[j].detail is Reduce && !active(b2[j].detail));
            assert(tie(p, a, b2, i));
        }
    }
    assert(settling(p, a, b2));
    assert(single(a, b2, i, j + 1)) by {
        assert forall|s: int, t: int| 0 <= s < t < a.len() && #[trigger] same_la(a, s, t) && (s < i || (s == i && t < j + 1)) implies !active(b2[s].detail) || !active(b2[t].detail) by {
            if s == i && t == j { } else { assert(!active(b[s].detail) || !active(b[t].detail)); }
        }
    }
    assert forall|s: int, t: int| 0 <= s < a.len() && 0 <= t < a.len() && s != t && #[trigger] same_la(a, s, t) && b2[s].detail is Error && a[t].detail is Shift implies !active(b2[t].detail) by {
        if b[s].detail is Error { assert(!active(b[t].detail)); }
        else {
            assert(s == i && v == Some(Verdict::Neither));
            assert(same_la(a, t, s));
            if t > i { if t >= j { assert(same_la(a, j, t)); assert(a[j].detail is Reduce); } else { assert(same_la(a, s, t)); } }
        }
    }
    if !c && all_beaten(p, a, b) {
        assert forall|k: int| 0 <= k < a.len() && !active((#[trigger] b2[k]).detail) implies beaten(p, a, b2, k) by {
            // the winner of this pair
            let w = if active(b2[i].detail) { i } else { j };
            let l = if w == i { j } else { i };
            if v is Some {
                assert(active(b2[w].detail) && !active(b2[l].detail));
                assert(x == a[i].detail || (x is Error && tie(p, a, b, i)));
                assert(beats(p, la, a[w].detail, b2[w].detail, a[l].detail));
                assert(same_la(a, w, l));
            }
            if active(b[k].detail) { assert(k == l); }
            else {
                assert(beaten(p, a, b, k));
                let u = choose|u: int| 0 <= u < a.len() && #[trigger] same_la(a, u, k) && active(b[u].detail) && beats(p, a[k].look_ahead, a[u].detail, b[u].detail, a[k].detail);
                if v is Some && u == l {
                    assert(same_la(a, w, k));
                    if w != k {
                        assert(same_la(a, k, w)); assert(same_la(a, w, k));
                        assert(!(a[k].detail is Accept));
                        assert(action_in_range(p, a[k]));
                        lemma_beats_trans(p, la, a[w].detail, b2[w].detail, a[l].detail, b[l].detail, a[k].detail);
                    }
                } else {
                    assert(active(b2[u].detail));
                    assert(beats(p, a[k].look_ahead, a[u].detail, b2[u].detail, a[k].detail));
                }
            }
        }
    }
    if c {
        if x == a[i].detail { assert(undecided(p, a, i, j)); }
        else {
            assert(tie(p, a, b, i));
            let m = choose|m: int| 0 <= m < a.len() && #[trigger] same_la(a, m, i) && a[m].detail is Reduce && !active(b[m].detail) && lev(p, a[m].look_ahead, a[m].detail) == lev(p, a[i].look_ahead, a[i].detail);
            if lev(p, la, a[j].detail) is None { assert(undecided(p, a, i, j)); }
            else if m < j { assert(undecided(p, a, m, j)); } else { assert(undecided(p, a, j, m)); }
        }
    }
}
pub open spec fn red_upto(p: &Pomelo, st: State, c: int, j: int, a: Action) -> bool {
    exists|c1: int, j1: int| 0 <= c1 < st.configs@.len() && 0 <= j1 < p.num_terminals && (c1 < c || (c1 == c && j1 < j)) && #[trigger] reduce_item(p, st, c1, j1, a)
}
pub open spec fn aps_ok(p: &Pomelo, st: State, c: int, j: int, s: Seq<Action>) -> bool {
    &&& s.no_duplicates()
    &&& forall|a: Action| #[trigger] s.contains(a) <==> red_upto(p, st, c, j, a)
    &&& s.len() <= c * p.num_terminals + j
}
pub open spec fn phase1(p: &Pomelo, k: int, s: Seq<Action>) -> bool {
    let st = p.the_states.data@[p.states@[k].id as int];
    &&& s.no_duplicates()
    &&& forall|a: Action| #[trigger] s.contains(a) <==> st.actions@.contains(a) || reduce_cand(p, st, a)
    &&& s.len() < act_bound()
}
pub open spec fn phase2(p: &Pomelo, k: int, s: Seq<Action>) -> bool {
    candidates(p, k, s) && s.len() <= act_bound()
}
proof fn lemma_push(s: Seq<Action>, x: Action)
    requires s.no_duplicates(), !s.contains(x),
    ensures s.push(x).no_duplicates(), forall|a: Action| #[trigger] s.push(x).contains(a) <==> s.contains(a) || a == x,
{
    let t = s.push(x);
    assert forall|a: Action| #[trigger] t.contains(a) <==> s.contains(a) || a == x by {
        if s.contains(a) { let i = choose|i: int| 0 <= i < s.len() && s[i] == a; assert(t[i] == a); }
        if a == x { assert(t[s.len() as int] == a); }
        if t.contains(a) { let i = choose|i: int| 0 <= i < t.len() && t[i] == a; if i < s.len() { assert(s[i] == a); } }
    }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by {
        if i == s.len() { assert(s[j] != x) by { if s[j] == x { assert(s.contains(x)); } } }
        else if j == s.len() { assert(s[i] != x) by { if s[i] == x { assert(s.contains(x)); } } }
    }
}
proof fn lemma_concat(s: Seq<Action>, r: Seq<Action>)
    requires s.no_duplicates(), r.no_duplicates(), forall|a: Action| #[trigger] s.contains(a) ==> !r.contains(a),
    ensures (s + r).no_duplicates(), forall|a: Action| #[trigger] (s + r).contains(a) <==> s.contains(a) || r.contains(a),
{
    let t = s + r;
    assert forall|a: Action| #[trigger] t.contains(a) <==> s.contains(a) || r.contains(a) by {
        if s.contains(a) { let i = choose|i: int| 0 <= i < s.len() && s[i] == a; assert(t[i] == a); }
        if r.contains(a) { let i = choose|i: int| 0 <= i < r.len() && r[i] == a; assert(t[s.len() + i] == a); }
        if t.contains(a) { let i = choose|i: int| 0 <= i < t.len() && t[i] == a; if i < s.len() { assert(s[i] == a); } else { assert(r[i - s.len()] == a); } }
    }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by {
        if i < s.len() && j >= s.len() { assert(s.contains(t[i])); assert(r[j - s.len()] == t[j]); if t[i] == t[j] { assert(r.contains(t[i])); } }
        else if j < s.len() && i >= s.len() { assert(s.contains(t[j])); assert(r[i - s.len()] == t[i]); if t[i] == t[j] { assert(r.contains(t[j])); } }
        else if i >= s.len() { assert(r[i - s.len()] != r[j - s.len()]); }
    }
}
/// one more element (configuration c, terminal j) looked at
proof fn lemma_aps(p: &Pomelo, k: int, c: int, j: int, s: Seq<Action>, s2: Seq<Action>)
    requires auto_ok(p), 0 <= k < p.states@.len(), aps_ok(p, p.the_states.data@[p.states@[k].id as int], c, j, s),
        0 <= c < p.the_states.data@[p.states@[k].id as int].configs@.len(), 0 <= j < p.num_terminals,
        ({
            let st = p.the_states.data@[p.states@[k].id as int];
            let cf = cfg(p, st.configs@[c]);
            let a = Action { look_ahead: p.symbols@[j], detail: ActionDetail::Reduce(cf.rule) };
            if complete_item(p, cf) && cf.fws@.contains(j) { s2 == s.push(a) } else { s2 == s }
        }),
    ensures aps_ok(p, p.the_states.data@[p.states@[k].id as int], c, j + 1, s2)
{
    let st = p.the_states.data@[p.states@[k].id as int];
    let cf = cfg(p, st.configs@[c]);
    let a = Action { look_ahead: p.symbols@[j], detail: ActionDetail::Reduce(cf.rule) };
    assert(state_ok(p, k));
    if complete_item(p, cf) && cf.fws@.contains(j) {
        assert(reduce_item(p, st, c, j, a));
        if s.contains(a) {
            let (c1, j1) = choose|c1: int, j1: int| 0 <= c1 < st.configs@.len() && 0 <= j1 < p.num_terminals && (c1 < c || (c1 == c && j1 < j)) && #[trigger] reduce_item(p, st, c1, j1, a);
            assert(sym(p, p.symbols@[j]).index == j && sym(p, p.symbols@[j1]).index == j1);
            assert(cfg(p, st.configs@[c1]).rule == cf.rule);
            assert(false);
        }
        lemma_push(s, a);
    }
    assert forall|x: Action| #[trigger] s2.contains(x) <==> red_upto(p, st, c, j + 1, x) by {
        if red_upto(p, st, c, j + 1, x) {
            let (c1, j1) = choose|c1: int, j1: int| 0 <= c1 < st.configs@.len() && 0 <= j1 < p.num_terminals && (c1 < c || (c1 == c && j1 < j + 1)) && #[trigger] reduce_item(p, st, c1, j1, x);
            if c1 == c && j1 == j { assert(x == a); } else { assert(red_upto(p, st, c, j, x)); }
        }
        if s.contains(x) {
            let (c1, j1) = choose|c1: int, j1: int| 0 <= c1 < st.configs@.len() && 0 <= j1 < p.num_terminals && (c1 < c || (c1 == c && j1 < j)) && #[trigger] reduce_item(p, st, c1, j1, x);
            assert(red_upto(p, st, c, j + 1, x));
        }
    }
}
/// configuration c done
proof fn lemma_aps_next(p: &Pomelo, st: State, c: int, j: int, s: Seq<Action>)
    requires 0 <= c < st.configs@.len(), aps_ok(p, st, c, j, s),
        j == p.num_terminals || (j == 0 && !complete_item(p, cfg(p, st.configs@[c]))),
    ensures aps_ok(p, st, c + 1, 0, s),
{
    assert forall|x: Action| red_upto(p, st, c, j, x) <==> red_upto(p, st, c + 1, 0, x) by {
        if red_upto(p, st, c + 1, 0, x) {
            let (c1, j1) = choose|c1: int, j1: int| 0 <= c1 < st.configs@.len() && 0 <= j1 < p.num_terminals && (c1 < c + 1 || (c1 == c + 1 && j1 < 0)) && #[trigger] reduce_item(p, st, c1, j1, x);
            assert(c1 < c || (c1 == c && j1 < j));
        }
        if red_upto(p, st, c, j, x) {
            let (c1, j1) = choose|c1: int, j1: int| 0 <= c1 < st.configs@.len() && 0 <= j1 < p.num_terminals && (c1 < c || (c1 == c && j1 < j)) && #[trigger] reduce_item(p, st, c1, j1, x);
            assert(c1 < c + 1);
        }
    }
    assert((c + 1) * p.num_terminals == c * p.num_terminals + p.num_terminals) by (nonlinear_arith);
}
proof fn lemma_phase1(p: &Pomelo, k: int, aps: Seq<Action>)
    requires auto_ok(p), 0 <= k < p.states@.len(),
        ({ let st = p.the_states.data@[p.states@[k].id as int]; aps_ok(p, st, st.configs@.len() as int, 0, aps) }),
    ensures phase1(p, k, acts_of(p, k) + aps)
{
    let st = p.the_states.data@[p.states@[k].id as int];
    assert(state_ok(p, k));
    let s = st.actions@;
    assert forall|a: Action| #[trigger] s.contains(a) implies !aps.contains(a) by {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == a;
        assert(a.detail is Shift);
        if aps.contains(a) {
            let (c1, j1) = choose|c1: int, j1: int| 0 <= c1 < st.configs@.len() && 0 <= j1 < p.num_terminals && (c1 < st.configs@.len() || (c1 == st.configs@.len() && j1 < 0)) && #[trigger] reduce_item(p, st, c1, j1, a);
        }
    }
    lemma_concat(s, aps);
    assert forall|a: Action| #[trigger] aps.contains(a) <==> reduce_cand(p, st, a) by {
        if reduce_cand(p, st, a) {
            let (c1, j1) = choose|c1: int, j1: int| 0 <= c1 < st.configs@.len() && 0 <= j1 < p.num_terminals && #[trigger] reduce_item(p, st, c1, j1, a);
            assert(red_upto(p, st, st.configs@.len() as int, 0, a));
        }
    }
}
/// facts about each candidate
proof fn lemma_cand_elem(p: &Pomelo, k: int, a: Action)
    requires auto_ok(p), 0 <= k < p.states@.len(), is_cand(p, k, a),
    ensures action_in_range(p, a), a.detail is Shift || a.detail is Reduce || a.detail is Accept,
        (a.detail is Accept) <==> a.look_ahead == p.start->0,
        a.detail is Accept ==> a == (Action { look_ahead: p.start->0, detail: ActionDetail::Accept }),
{
    let st = p.the_states.data@[p.states@[k].id as int];
    assert(state_ok(p, k));
    if st.actions@.contains(a) {
        let i = choose|i: int| 0 <= i < st.actions@.len() && st.actions@[i] == a;
        assert(action_in_range(p, st.actions@[i]));
    } else if reduce_cand(p, st, a) {
        let (c1, j1) = choose|c1: int, j1: int| 0 <= c1 < st.configs@.len() && 0 <= j1 < p.num_terminals && #[trigger] reduce_item(p, st, c1, j1, a);
        assert(config_in(p, st.configs@[c1]));
        assert(sym_in(p, p.symbols@[j1]));
        assert(sym(p, p.symbols@[j1]).index == j1);
    }
}
proof fn lemma_sorted_cands(p: &Pomelo, q: &Pomelo, k: int, s: Seq<Action>, a: Seq<Action>)
    requires auto_ok(p), 0 <= k < p.states@.len(), phase2(p, k, s), is_sorted(q, a),
        q.the_symbols == p.the_symbols, q.the_rules == p.the_rules,
        exists|f: Seq<int>, g: Seq<int>| #[trigger] is_perm(f, g, s.len()) && permuted(s, a, f),
    ensures phase2(p, k, a), cand_ok(p, a), a.len() == s.len(), la_sorted(p, a),
{
    let (f, g) = choose|f: Seq<int>, g: Seq<int>| #[trigger] is_perm(f, g, s.len()) && permuted(s, a, f);
    lemma_la_sorted(q, a);
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies sym(p, (#[trigger] a[i]).look_ahead).index <= sym(p, (#[trigger] a[j]).look_ahead).index by {
        assert(sym(q, a[i].look_ahead).index <= sym(q, a[j].look_ahead).index); }
    assert forall|x: Action| #[trigger] a.contains(x) <==> s.contains(x) by {
        if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(s[f[i]] == x); }
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(f[g[i]] == i); assert(a[g[i]] == s[f[g[i]]]); }
    }
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by {
        assert(a[i] == s[f[i]] && a[j] == s[f[j]]);
        assert(g[f[i]] == i && g[f[j]] == j);
    }
    assert(candidates(p, k, a)) by {
        assert forall|x: Action| #[trigger] a.contains(x) <==> is_cand(p, k, x) by { assert(s.contains(x) <==> is_cand(p, k, x)); }
    }
    assert forall|x: int| 0 <= x < a.len() implies action_in_range(p, #[trigger] a[x]) && (a[x].detail is Shift || a[x].detail is Reduce || a[x].detail is Accept)
        && ((a[x].detail is Accept) <==> a[x].look_ahead == p.start->0) && (a[x].detail is Accept ==> a[x] == (Action { look_ahead: p.start->0, detail: ActionDetail::Accept })) by {
        assert(a.contains(a[x]));
        lemma_cand_elem(p, k, a[x]);
    }
    assert forall|x: int, y: int, z: int| 0 <= x < y < z < a.len() && #[trigger] same_la(a, x, z) implies #[trigger] same_la(a, x, y) by {
        assert(!action_less(&q.the_symbols, &q.the_states, &q.the_rules, a[y], a[x]));
        assert(!action_less(&q.the_symbols, &q.the_states, &q.the_rules, a[z], a[y]));
        let ix = p.the_symbols.data@[a[x].look_ahead.id as int].index; let iy = p.the_symbols.data@[a[y].look_ahead.id as int].index;
        assert(ix == iy);
        assert(a[x].look_ahead.id == a[y].look_ahead.id) by {
            if a[x].look_ahead.id < a[y].look_ahead.id { } else if a[y].look_ahead.id < a[x].look_ahead.id { }
        }
    }
    assert forall|x: int, y: int| 0 <= x < y < a.len() && #[trigger] same_la(a, x, y) implies !(a[x].detail is Reduce && a[y].detail is Shift) by {
        assert(!action_less(&q.the_symbols, &q.the_states, &q.the_rules, a[y], a[x]));
    }
}
/// state k is finished: s is what is left of its candidates
pub open spec fn done(p: &Pomelo, k: int, s: Seq<Action>, conflict: bool) -> bool {
    exists|a: Seq<Action>| #[trigger] candidates(p, k, a) && resolved_state(p, a, s, conflict) && a.len() <= act_bound()
}
pub open spec fn some_undecided(p: &Pomelo) -> bool {
    exists|k: int| 0 <= k < p.states@.len() && #[trigger] has_undecided(p, k)
}
pub open spec fn red_before(p: &Pomelo, k0: int, i0: int, r: int) -> bool {
    exists|k: int, i: int| 0 <= k < p.states@.len() && (k < k0 || (k == k0 && i < i0)) && #[trigger] reduces_at(p, k, i, r)
}
proof fn lemma_phase2(p: &Pomelo, k: int, s: Seq<Action>, s2: Seq<Action>)
    requires auto_ok(p), 0 <= k < p.states@.len(), phase1(p, k, s),
        s2 == if k == 0 { s.push(Action { look_ahead: p.start->0, detail: ActionDetail::Accept }) } else { s },
    ensures phase2(p, k, s2)
{
    let acc = Action { look_ahead: p.start->0, detail: ActionDetail::Accept };
    let st = p.the_states.data@[p.states@[k].id as int];
    assert(state_ok(p, k));
    if k == 0 {
        if s.contains(acc) {
            assert(st.actions@.contains(acc) || reduce_cand(p, st, acc));
            if st.actions@.contains(acc) { let i = choose|i: int| 0 <= i < st.actions@.len() && st.actions@[i] == acc; }
            else { let (c1, j1) = choose|c1: int, j1: int| 0 <= c1 < st.configs@.len() && 0 <= j1 < p.num_terminals && #[trigger] reduce_item(p, st, c1, j1, acc); }
            assert(false);
        }
        lemma_push(s, acc);
    }
    assert forall|a: Action| #[trigger] s2.contains(a) <==> is_cand(p, k, a) by {
        assert(s.contains(a) <==> (st.actions@.contains(a) || reduce_cand(p, st, a)));
    }
}
proof fn lemma_begin(p: &Pomelo, a: Seq<Action>)
    requires cand_ok(p, a)
    ensures settling(p, a, a), single(a, a, 0, 0), err_alone(a, a), untouched(a, a, -1), all_beaten(p, a, a)
{
    assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).look_ahead == a[k].look_ahead && action_in_range(p, a[k]) && active(a[k].detail) by { }
}
@@include find_actions.sig
@@sort 1
vx_sort_actions(&mut RECV, self)
impl Pomelo { fn vx_cmp_find_actions(&self, ARG0: &Action, ARG1: &Action) -> (r: Ordering)
    requires action_in_range(self, *ARG0), action_in_range(self, *ARG1),
    ensures r is Less <==> action_less(&self.the_symbols, &self.the_states, &self.the_rules, *ARG0, *ARG1),
BODY }
@@start
    let ghost p0 = *self;
    let ghost b = act_bound();
@@loop 1
    invariant
        p0 == *old(self), auto_ok(&p0), vx_i1 <= p0.states@.len(),
        *self == (Pomelo { the_states: self.the_states, ..p0 }),
        self.the_states.data@.len() == p0.the_states.data@.len(),
        forall|k: int| 0 <= k < p0.states@.len() ==> only_actions(p0.the_states.data@[p0.states@[k].id as int], #[trigger] self.the_states.data@[p0.states@[k].id as int]),
        forall|k: int| vx_i1 <= k < p0.states@.len() ==> #[trigger] self.the_states.data@[p0.states@[k].id as int] == p0.the_states.data@[p0.states@[k].id as int],
        forall|k: int| 0 <= k < vx_i1 ==> phase1(&p0, k, #[trigger] acts_of(self, k)),
    decreases p0.states@.len() - vx_i1,
@@head 1
    let ghost k0 = vx_i1 - 1;
    let ghost id0 = p0.states@[k0].id as int;
    let ghost st0 = p0.the_states.data@[id0];
    let ghost sa = *self;
    proof { assert(state_ok(&p0, k0)); assert(self.the_states.data@[p0.states@[k0].id as int] == st0); }
@@loop 2
    invariant
        p0 == *old(self), auto_ok(&p0), 0 <= k0 < p0.states@.len(), id0 == p0.states@[k0].id, stp__id == id0, st0 == p0.the_states.data@[id0],
        *self == sa, sa == (Pomelo { the_states: sa.the_states, ..p0 }),
        sa.the_states.data@.len() == p0.the_states.data@.len(), id0 < p0.the_states.data@.len(),
        sa.the_states.data@[id0] == st0, vx_i2 <= st0.configs@.len(),
        aps_ok(&p0, st0, vx_i2 as int, 0, aps@),
    decreases st0.configs@.len() - vx_i2,
@@head 2
    proof { assert(state_ok(&p0, k0)); assert(config_in(&p0, st0.configs@[vx_i2 - 1])); }
@@loop 3
    invariant
        p0 == *old(self), auto_ok(&p0), 0 <= k0 < p0.states@.len(), id0 == p0.states@[k0].id, st0 == p0.the_states.data@[id0],
        *self == sa, sa == (Pomelo { the_states: sa.the_states, ..p0 }),
        0 < vx_i2 <= st0.configs@.len(), vx_e3 == p0.num_terminals, vx_i3 <= vx_e3,
        cfp == cfg(&p0, st0.configs@[vx_i2 - 1]), complete_item(&p0, cfp),
        aps_ok(&p0, st0, vx_i2 - 1, vx_i3 as int, aps@),
    decreases vx_e3 - vx_i3,
@@head 3
    let ghost s1 = aps@;
@@tail 3
    proof { lemma_aps(&p0, k0, vx_i2 - 1, j as int, s1, aps@); }
@@tail 2
    proof { lemma_aps_next(&p0, st0, vx_i2 - 1, if complete_item(&p0, cfg(&p0, st0.configs@[vx_i2 - 1])) { p0.num_terminals as int } else { 0 }, aps@); }
@@after 2
    proof { lemma_phase1(&p0, k0, aps@); }
@@tail 1
    proof {
        assert forall|k: int| 0 <= k < vx_i1 implies phase1(&p0, k, #[trigger] acts_of(self, k)) by {
            if k < k0 { assert(p0.states@[k].id != p0.states@[k0].id); assert(acts_of(self, k) == acts_of(&sa, k)); }
        }
        assert forall|k: int| vx_i1 <= k < p0.states@.len() implies #[trigger] self.the_states.data@[p0.states@[k].id as int] == p0.the_states.data@[p0.states@[k].id as int] by {
            assert(p0.states@[k0].id != p0.states@[k].id);
        }
        assert forall|k: int| 0 <= k < p0.states@.len() implies only_actions(p0.the_states.data@[p0.states@[k].id as int], #[trigger] self.the_states.data@[p0.states@[k].id as int]) by {
            assert(only_actions(p0.the_states.data@[p0.states@[k].id as int], sa.the_states.data@[p0.states@[k].id as int]));
        }
    }
@@after-let nconflict
    proof {
        let acc = Action { look_ahead: p0.start->0, detail: ActionDetail::Accept };
        assert(state_ok(&p0, 0));
        assert forall|k: int| 0 <= k < p0.states@.len() implies phase2(&p0, k, #[trigger] acts_of(self, k)) by {
            let sk = if k == 0 { acts_of(self, 0).drop_last() } else { acts_of(self, k) };
            if k != 0 { assert(p0.states@[0].id != p0.states@[k].id); } else { assert(sk.push(acc) =~= acts_of(self, 0)); }
            assert(phase1(&p0, k, acts_of(&sz, k)));
            assert(sk =~= acts_of(&sz, k));
            lemma_phase2(&p0, k, sk, acts_of(self, k));
        }
        assert forall|k: int| 0 <= k < p0.states@.len() implies only_actions(p0.the_states.data@[p0.states@[k].id as int], #[trigger] self.the_states.data@[p0.states@[k].id as int]) by {
            assert(only_actions(p0.the_states.data@[p0.states@[k].id as int], sz.the_states.data@[p0.states@[k].id as int]));
        }
    }
@@after-let sp
    let ghost sz = *self;
    proof { assert(state_ok(&p0, 0)); }
@@loop 4
    invariant
        p0 == *old(self), auto_ok(&p0), vx_i4 <= p0.states@.len(), b == act_bound(),
        *self == (Pomelo { the_states: self.the_states, ..p0 }),
        self.the_states.data@.len() == p0.the_states.data@.len(),
        forall|k: int| 0 <= k < p0.states@.len() ==> only_actions(p0.the_states.data@[p0.states@[k].id as int], #[trigger] self.the_states.data@[p0.states@[k].id as int]),
        forall|k: int| vx_i4 <= k < p0.states@.len() ==> phase2(&p0, k, #[trigger] acts_of(self, k)),
        forall|k: int| 0 <= k < vx_i4 ==> done(&p0, k, #[trigger] acts_of(self, k), nconflict > 0),
        nconflict > 0 ==> some_undecided(&p0),
        0 <= nconflict <= vx_i4 * (b * b),
        0 <= p0.nconflict, p0.nconflict + p0.states@.len() * (b * b) < 0x7fff_ffff,
    decreases p0.states@.len() - vx_i4,
@@head 4
    let ghost k0 = vx_i4 - 1;
    let ghost id0 = p0.states@[k0].id as int;
    let ghost sb = *self;
    let ghost s = acts_of(self, k0);
    let ghost n0 = nconflict > 0;
    proof {
        assert(state_ok(&p0, k0));
        assert forall|i: int| 0 <= i < s.len() implies action_in_range(&p0, #[trigger] s[i]) by { assert(s.contains(s[i])); lemma_cand_elem(&p0, k0, s[i]); }
    }
@@after-let actions
    let ghost mid = *self;
    proof {
        assert forall|i: int| 0 <= i < actions@.len() implies action_in_range(self, #[trigger] actions@[i]) by { assert(action_in_range(&p0, s[i])); }
    }
@@after-let len
    let ghost a = acts_of(self, k0);
    proof { lemma_sorted_cands(&p0, &mid, k0, s, a); lemma_begin(&p0, a);
        assert(k0 * (b * b) + 0 * b <= k0 * (b * b)) by (nonlinear_arith);
    }
@@loop 5
    invariant
        p0 == *old(self), auto_ok(&p0), 0 <= k0 < p0.states@.len(), vx_i4 == k0 + 1, b == act_bound(), id0 == p0.states@[k0].id, stp__id == id0,
        *self == (Pomelo { the_states: self.the_states, ..p0 }), id0 < p0.the_states.data@.len(),
        self.the_states.data@.len() == p0.the_states.data@.len(), sb.the_states.data@.len() == p0.the_states.data@.len(),
        forall|x: int| 0 <= x < p0.the_states.data@.len() && x != id0 ==> #[trigger] self.the_states.data@[x] == sb.the_states.data@[x],
        only_actions(p0.the_states.data@[id0], self.the_states.data@[id0]),
        candidates(&p0, k0, a), cand_ok(&p0, a), la_sorted(&p0, a), a.len() <= b, vx_e5 == len, len == a.len(), vx_i5 <= len,
        settling(&p0, a, acts_of(self, k0)), single(a, acts_of(self, k0), vx_i5 as int, 0), err_alone(a, acts_of(self, k0)), untouched(a, acts_of(self, k0), vx_i5 - 1),
        nconflict == 0 ==> all_beaten(&p0, a, acts_of(self, k0)),
        nconflict > 0 ==> some_undecided(&p0), n0 ==> nconflict > 0,
        0 <= nconflict <= k0 * (b * b) + vx_i5 * b,
        0 <= p0.nconflict, p0.nconflict + p0.states@.len() * (b * b) < 0x7fff_ffff,
    decreases len - vx_i5,
@@loop 6
    invariant_except_break
        single(a, acts_of(self, k0), i as int, vx_i6 as int),
    invariant
        p0 == *old(self), auto_ok(&p0), 0 <= k0 < p0.states@.len(), vx_i4 == k0 + 1, b == act_bound(), id0 == p0.states@[k0].id, stp__id == id0,
        *self == (Pomelo { the_states: self.the_states, ..p0 }), id0 < p0.the_states.data@.len(),
        self.the_states.data@.len() == p0.the_states.data@.len(), sb.the_states.data@.len() == p0.the_states.data@.len(),
        forall|x: int| 0 <= x < p0.the_states.data@.len() && x != id0 ==> #[trigger] self.the_states.data@[x] == sb.the_states.data@[x],
        only_actions(p0.the_states.data@[id0], self.the_states.data@[id0]),
        candidates(&p0, k0, a), cand_ok(&p0, a), la_sorted(&p0, a), a.len() <= b, vx_e6 == len, len == a.len(), i < len, vx_i5 == i + 1, vx_i6 <= len, i < vx_i6, ap == i,
        settling(&p0, a, acts_of(self, k0)), err_alone(a, acts_of(self, k0)), untouched(a, acts_of(self, k0), i as int),
        nconflict == 0 ==> all_beaten(&p0, a, acts_of(self, k0)),
        nconflict > 0 ==> some_undecided(&p0), n0 ==> nconflict > 0,
        0 <= nconflict <= k0 * (b * b) + i * b + (vx_i6 - i - 1),
        0 <= p0.nconflict, p0.nconflict + p0.states@.len() * (b * b) < 0x7fff_ffff,
    ensures single(a, acts_of(self, k0), i + 1, 0),
    decreases len - vx_i6,
@@head 6
    let ghost b0 = acts_of(self, k0);
    let ghost nc0 = nconflict;
    proof {
        if !same_la(a, i as int, j as int) {
            assert(single(a, b0, i + 1, 0)) by {
                assert forall|x: int, y: int| 0 <= x < y < a.len() && #[trigger] same_la(a, x, y) && (x < i + 1 || (x == i + 1 && y < 0)) implies !active(b0[x].detail) || !active(b0[y].detail) by {
                    if x == i && y >= j { if y > j { assert(same_la(a, i as int, j as int)); } }
                }
            }
        }
        assert(b0[i as int].look_ahead == a[i as int].look_ahead && b0[j as int].look_ahead == a[j as int].look_ahead);
        assert(action_in_range(self, b0[i as int])) by { assert(action_in_range(&p0, b0[i as int])); }
        assert(action_in_range(self, b0[j as int])) by { assert(action_in_range(&p0, b0[j as int])); }
        assert(k0 * (b * b) + i * b + (j - i) + 1 <= (k0 + 1) * (b * b)) by (nonlinear_arith) requires i < j, j < a.len(), a.len() <= b, k0 >= 0;
        assert((k0 + 1) * (b * b) <= p0.states@.len() * (b * b)) by (nonlinear_arith) requires k0 + 1 <= p0.states@.len(), b * b >= 0;
        assert(b * b >= 0) by (nonlinear_arith);
    }
@@tail 6
    proof {
        let b2 = acts_of(self, k0);
        lemma_step(&p0, a, b0, b2, i as int, j as int, nconflict > nc0);
        if nconflict > nc0 { assert(has_undecided(&p0, k0)); }
    }
@@after 6
    proof { assert(k0 * (b * b) + i * b + (len - i - 1) <= k0 * (b * b) + (i + 1) * b) by (nonlinear_arith) requires len <= b, 0 <= i; }
@@after 5
    proof {
        assert(k0 * (b * b) + len * b <= (k0 + 1) * (b * b)) by (nonlinear_arith) requires len <= b, 0 <= len, k0 >= 0;
        let fin = acts_of(self, k0);
        assert forall|i: int, j: int| 0 <= i < j < fin.len() implies sym(&p0, (#[trigger] fin[i]).look_ahead).index <= sym(&p0, (#[trigger] fin[j]).look_ahead).index by {
            assert(fin[i].look_ahead == a[i].look_ahead && fin[j].look_ahead == a[j].look_ahead); }
        assert(resolved_state(&p0, a, acts_of(self, k0), nconflict > 0));
        assert forall|k: int| 0 <= k < vx_i4 implies done(&p0, k, #[trigger] acts_of(self, k), nconflict > 0) by {
            if k != k0 { assert(p0.states@[k].id != p0.states@[k0].id); assert(state_ok(&p0, k));
                assert(acts_of(self, k) == acts_of(&sb, k));
                assert(done(&p0, k, acts_of(&sb, k), n0));
                let aa = choose|aa: Seq<Action>| #[trigger] candidates(&p0, k, aa) && resolved_state(&p0, aa, acts_of(&sb, k), n0) && aa.len() <= act_bound();
                assert(resolved_state(&p0, aa, acts_of(self, k), nconflict > 0));
            }
        }
        assert forall|k: int| vx_i4 <= k < p0.states@.len() implies phase2(&p0, k, #[trigger] acts_of(self, k)) by {
            assert(p0.states@[k0].id != p0.states@[k].id); assert(state_ok(&p0, k)); assert(acts_of(self, k) == acts_of(&sb, k));
        }
        assert forall|k: int| 0 <= k < p0.states@.len() implies only_actions(p0.the_states.data@[p0.states@[k].id as int], #[trigger] self.the_states.data@[p0.states@[k].id as int]) by {
            assert(state_ok(&p0, k));
            if k != k0 { assert(only_actions(p0.the_states.data@[p0.states@[k].id as int], sb.the_states.data@[p0.states@[k].id as int])); }
        }
    }
@@after 4
    let ghost se = *self;
    proof {
        assert forall|k: int| 0 <= k < p0.states@.len() implies (#[trigger] p0.states@[k]).id < se.the_states.data@.len() && only_actions(p0.the_states.data@[p0.states@[k].id as int], se.the_states.data@[p0.states@[k].id as int]) by {
            assert(state_ok(&p0, k));
            assert(only_actions(p0.the_states.data@[p0.states@[k].id as int], self.the_states.data@[p0.states@[k].id as int]));
        }
    }
@@loop 7
    invariant
        p0 == *old(self), auto_ok(&p0), vx_i7 <= p0.states@.len(), b == act_bound(), p0.states == se.states, p0.the_rules == se.the_rules, self.nconflict >= p0.nconflict,
        se == (Pomelo { the_states: se.the_states, ..p0 }), se.the_states.data@.len() == p0.the_states.data@.len(),
        *self == (Pomelo { the_rules: self.the_rules, nconflict: self.nconflict, ..se }),
        rules_but_flag(p0.the_rules.data@, self.the_rules.data@),
        forall|k: int| 0 <= k < p0.states@.len() ==> done(&p0, k, #[trigger] acts_of(&se, k), self.nconflict > p0.nconflict),
        forall|k: int| 0 <= k < p0.states@.len() ==> (#[trigger] p0.states@[k]).id < se.the_states.data@.len() && only_actions(p0.the_states.data@[p0.states@[k].id as int], se.the_states.data@[p0.states@[k].id as int]),
        self.nconflict > p0.nconflict ==> some_undecided(&p0),
        forall|r: int| 0 <= r < p0.the_rules.data@.len() ==> ((#[trigger] self.the_rules.data@[r]).can_reduce <==> red_before(&se, vx_i7 as int, 0, r)),
    decreases p0.states@.len() - vx_i7,
@@head 7
    let ghost k1 = vx_i7 - 1;
@@loop 8
    invariant
        p0 == *old(self), auto_ok(&p0), 0 <= k1 < p0.states@.len(), b == act_bound(), p0.states == se.states, p0.the_rules == se.the_rules, self.nconflict >= p0.nconflict,
        se == (Pomelo { the_states: se.the_states, ..p0 }), se.the_states.data@.len() == p0.the_states.data@.len(),
        vx_i7 == k1 + 1, *stp == p0.states@[k1],
        *self == (Pomelo { the_rules: self.the_rules, nconflict: self.nconflict, ..se }),
        rules_but_flag(p0.the_rules.data@, self.the_rules.data@),
        forall|k: int| 0 <= k < p0.states@.len() ==> done(&p0, k, #[trigger] acts_of(&se, k), self.nconflict > p0.nconflict),
        forall|k: int| 0 <= k < p0.states@.len() ==> (#[trigger] p0.states@[k]).id < se.the_states.data@.len() && only_actions(p0.the_states.data@[p0.states@[k].id as int], se.the_states.data@[p0.states@[k].id as int]),
        self.nconflict > p0.nconflict ==> some_undecided(&p0),
        vx_i8 <= acts_of(&se, k1).len(),
        forall|r: int| 0 <= r < p0.the_rules.data@.len() ==> ((#[trigger] self.the_rules.data@[r]).can_reduce <==> red_before(&se, k1, vx_i8 as int, r)),
    decreases acts_of(&se, k1).len() - vx_i8,
@@head 8
    let ghost rb = self.the_rules.data@;
    proof {
        assert(done(&p0, k1, acts_of(&se, k1), self.nconflict > p0.nconflict));
        assert(action_in_range(&p0, acts_of(&se, k1)[vx_i8 - 1]));
    }
@@tail 8
    proof {
        assert forall|r: int| 0 <= r < p0.the_rules.data@.len() implies ((#[trigger] self.the_rules.data@[r]).can_reduce <==> red_before(&se, k1, vx_i8 as int, r)) by {
            assert(rb[r].can_reduce <==> red_before(&se, k1, vx_i8 - 1, r));
            if reduces_at(&se, k1, vx_i8 - 1, r) { assert(red_before(&se, k1, vx_i8 as int, r)); }
            if red_before(&se, k1, vx_i8 - 1, r) {
                let (k, i) = choose|k: int, i: int| 0 <= k < se.states@.len() && (k < k1 || (k == k1 && i < vx_i8 - 1)) && #[trigger] reduces_at(&se, k, i, r);
                assert(red_before(&se, k1, vx_i8 as int, r));
            }
            if red_before(&se, k1, vx_i8 as int, r) {
                let (k, i) = choose|k: int, i: int| 0 <= k < se.states@.len() && (k < k1 || (k == k1 && i < vx_i8)) && #[trigger] reduces_at(&se, k, i, r);
                if !(k == k1 && i == vx_i8 - 1) { assert(red_before(&se, k1, vx_i8 - 1, r)); }
            }
        }
    }
@@tail 7
    proof {
        assert forall|r: int| 0 <= r < p0.the_rules.data@.len() implies ((#[trigger] self.the_rules.data@[r]).can_reduce <==> red_before(&se, vx_i7 as int, 0, r)) by {
            let n = acts_of(&se, k1).len() as int;
            if red_before(&se, k1, n, r) {
                let (k, i) = choose|k: int, i: int| 0 <= k < se.states@.len() && (k < k1 || (k == k1 && i < n)) && #[trigger] reduces_at(&se, k, i, r);
                assert(red_before(&se, vx_i7 as int, 0, r));
            }
            if red_before(&se, vx_i7 as int, 0, r) {
                let (k, i) = choose|k: int, i: int| 0 <= k < se.states@.len() && (k < vx_i7 || (k == vx_i7 && i < 0)) && #[trigger] reduces_at(&se, k, i, r);
                assert(red_before(&se, k1, n, r));
            }
        }
    }
@@after 7
    proof {
        assert forall|k: int| 0 <= k < p0.states@.len() implies #[trigger] final_state(&p0, self, k) by {
            assert(done(&p0, k, acts_of(&se, k), self.nconflict > p0.nconflict));
            assert(only_actions(p0.the_states.data@[p0.states@[k].id as int], se.the_states.data@[p0.states@[k].id as int]));
        }
        assert forall|r: int| 0 <= r < p0.the_rules.data@.len() implies ((#[trigger] self.the_rules.data@[r]).can_reduce <==> reduced_somewhere(self, r)) by {
            let n = p0.states@.len() as int;
            if reduced_somewhere(self, r) {
                let (k, i) = choose|k: int, i: int| 0 <= k < self.states@.len() && #[trigger] reduces_at(self, k, i, r);
                assert(reduces_at(&se, k, i, r));
            }
            if red_before(&se, n, 0, r) {
                let (k, i) = choose|k: int, i: int| 0 <= k < se.states@.len() && (k < n || (k == n && i < 0)) && #[trigger] reduces_at(&se, k, i, r);
                assert(reduces_at(self, k, i, r));
            }
        }
    }
    let ghost sf = *self;
@@loop 9
    invariant
        p0 == *old(self), *self == sf, sf == (Pomelo { the_states: sf.the_states, the_rules: sf.the_rules, nconflict: sf.nconflict, ..p0 }), auto_ok(&p0), sf.nconflict >= p0.nconflict,
        sf.the_states.data@.len() == p0.the_states.data@.len(), rules_but_flag(p0.the_rules.data@, sf.the_rules.data@), vx_i9 <= p0.rules@.len(), sf.the_rules.data@.len() == p0.the_rules.data@.len(),
        forall|r: int| 0 <= r < p0.the_rules.data@.len() ==> ((#[trigger] sf.the_rules.data@[r]).can_reduce <==> reduced_somewhere(&sf, r)),
        forall|r: int| 0 <= r < vx_i9 ==> (#[trigger] sf.the_rules.data@[r]).can_reduce,
        forall|k: int| 0 <= k < p0.states@.len() ==> #[trigger] final_state(&p0, &sf, k),
        sf.nconflict > p0.nconflict ==> some_undecided(&p0),
    decreases p0.rules@.len() - vx_i9,
@@head 9
    proof { assert(p0.rules@[vx_i9 - 1].id == vx_i9 - 1); assert(sf.the_rules.data@[vx_i9 - 1].can_reduce <==> reduced_somewhere(&sf, vx_i9 - 1)); }
@@after 9
    proof { assert forall|i: int| 0 <= i < p0.the_rules.data@.len() implies #[trigger] reduced_somewhere(self, i) by { assert(sf.the_rules.data@[i].can_reduce); } }
@@include epilogue.vxi
