@@props C02 C04 C15
@@include prelude.vxi
@@include types.vxi
@@include wf.vxi
@@include grammar.vxi
@@include lalr.vxi
@@include items.vxi
@@raw
pub open spec fn key_of(p: &Pomelo, c: ConfigId) -> LrItem { (p.the_rules.data@[lcfg(p, c.id as int).rule.id as int].index as int, lcfg(p, c.id as int).dot as int) }
@@fn get_non_terminal_rules impl=Symbol
@@ret r
@@sig
    ensures match self.typ { SymbolType::NonTerminal { rules, .. } => r is Some && r->0@ == rules@, _ => r is None }
@@fn config_cmp_key
@@ret r
@@sig
    requires is_cfg(data, a.id as int), lcfg(data, a.id as int).rule.id < data.the_rules.data@.len(),
    ensures r is Less <==> item_less(key_of(data, a), (index as int, dot as int)), r is Equal <==> key_of(data, a) == (index as int, dot as int),
@@include add_config.sig
@@loop 1
    invariant_except_break
        vx_i1 <= cfgs@.len(), vx_r1 is None,
        forall|i: int| 0 <= i < vx_i1 ==> #[trigger] nth_item(self, cfgs@, i) != (rule.id as int, dot as int),
    invariant
        ids_in(self, cfgs@), cfgs_ok(self), rules_numbered(self), rule.id < self.the_rules.data@.len(), cfgs@ == old(cfgs)@, *self == *old(self),
    ensures
        vx_r1 matches Some(i) ==> i < cfgs@.len() && nth_item(self, cfgs@, i as int) == (rule.id as int, dot as int),
        vx_r1 is None ==> !has_item(self, cfgs@, (rule.id as int, dot as int)),
    decreases cfgs@.len() - vx_i1,
@@head 1
    proof { assert(is_cfg(self, cfgs@[vx_i1 - 1].id as int)); assert(cfg_ok(self, lcfg(self, cfgs@[vx_i1 - 1].id as int))); assert(nth_item(self, cfgs@, vx_i1 - 1) == key_of(self, cfgs@[vx_i1 - 1])); }
@@include configlist_closure.sig
@@start
    let ghost p0 = *self;
    let ghost cur0 = cur@;
    proof { lemma_start(&p0, cur0); }
@@loop 1
    invariant
        grammar_ok(&p0), cfgs_ok(&p0), i <= cur@.len(),
        clos(&p0, self, cur0, cur@, i as int, 0),
@@head 1
    let ghost qa = *self;
    let ghost cura = cur@;
    let ghost x = nth_item(&qa, cura, i as int);
    proof {
        assert(is_cfg(&qa, cura[i as int].id as int));
        assert(cfg_ok(&qa, lcfg(&qa, cura[i as int].id as int)));
        assert(rule_in(&p0, p0.the_rules.data@[x.0]));
        if x.1 < rhs_of(&p0, x.0).len() { assert(sym_in(&p0, rhs_of(&p0, x.0)[x.1].0)); }
    }
@@loop 2
    invariant
        grammar_ok(&p0), cfgs_ok(&p0), i < cur@.len(), vx_i2 <= rules@.len(), x == nth_item(self, cur@, i as int), cfp == cur@[i as int],
        dot < rhs.len(), rules@ == own_rules(&p0, next_sym(&p0, x)), can_step(&p0, x), x.1 == dot, rhs@ == rhs_of(&p0, x.0), sym_in(&p0, next_sym(&p0, x)), sym(&p0, next_sym(&p0, x)).typ is NonTerminal,
        rule_in(&p0, p0.the_rules.data@[x.0]),
        clos(&p0, self, cur0, cur@, i as int, vx_i2 as int),
    decreases rules@.len() - vx_i2,
@@head 2
    let ghost m0 = vx_i2 - 1;
    let ghost q2 = *self;
    let ghost cur2 = cur@;
    let ghost r2 = newrp.id as int;
    proof { assert(own_rules(&p0, next_sym(&p0, x))[m0].id == r2); assert(is_rule(&p0, r2)); assert(asks(&p0, x, r2)); }
@@after-let newcfp
    let ghost qb = *self;
    let ghost d = newcfp.id as int;
    proof { lemma_add(&p0, &q2, &qb, cur0, cur2, cur@, i as int, m0, newrp, newcfp); }
@@loop 3
    invariant_except_break
        dot < vx_i3 <= rhs@.len(), !broken, lam_upto(&p0, rhs@, dot + 1, vx_i3 as int),
        forall|t: int| #[trigger] lcfg(self, d).fws@.contains(t) <==> lcfg(&qb, d).fws@.contains(t) || leads_before(&p0, rhs@, dot + 1, vx_i3 as int, t),
    invariant
        grammar_ok(&p0), only_fws(&qb, self, d), is_cfg(&qb, d), newcfp.id == d, qb.the_symbols == p0.the_symbols,
        rule_in(&p0, p0.the_rules.data@[x.0]), rhs@ == rhs_of(&p0, x.0), is_rule(&p0, x.0),
    ensures
        broken <==> !lam_upto(&p0, rhs@, dot + 1, rhs@.len() as int),
        forall|t: int| #[trigger] lcfg(self, d).fws@.contains(t) <==> lcfg(&qb, d).fws@.contains(t) || leads_before(&p0, rhs@, dot + 1, rhs@.len() as int, t),
    decreases rhs@.len() - vx_i3,
@@head 3
    let ghost j3 = vx_i3 - 1;
    let ghost q3 = *self;
    let ghost x3 = rhs@[vx_i3 - 1].0;
    proof { assert(sym_in(&p0, rhs_of(&p0, x.0)[j3].0)); assert(typ_in(&p0, p0.the_symbols.data@[x3.id as int].typ)); }
@@at-break 3
    proof {
        assert forall|c: int| is_cfg(&qb, c) && c != d implies #[trigger] lcfg(self, c) == lcfg(&qb, c) by { assert(lcfg(&q3, c) == lcfg(&qb, c)); }
        assert(lcfg(self, d) == (Config { fws: lcfg(self, d).fws, ..lcfg(&qb, d) }));
        assert forall|t: int| #[trigger] lcfg(self, d).fws@.contains(t) <==> lcfg(&qb, d).fws@.contains(t) || leads_before(&p0, rhs@, dot + 1, rhs@.len() as int, t) by {
            lemma_leads_step(&p0, rhs@, dot + 1, j3, t);
            lemma_leads_stop(&p0, rhs@, dot + 1, j3, t);
            assert(lcfg(&q3, d).fws@.contains(t) <==> lcfg(&qb, d).fws@.contains(t) || leads_before(&p0, rhs@, dot + 1, j3, t));
        }
        assert(!lam(&p0, rhs@[j3].0));
    }
@@tail 3
    proof {
        assert forall|c: int| is_cfg(&qb, c) && c != d implies #[trigger] lcfg(self, c) == lcfg(&qb, c) by { assert(lcfg(&q3, c) == lcfg(&qb, c)); }
        assert(lcfg(self, d) == (Config { fws: lcfg(self, d).fws, ..lcfg(&qb, d) }));
        assert forall|t: int| #[trigger] lcfg(self, d).fws@.contains(t) <==> lcfg(&qb, d).fws@.contains(t) || leads_before(&p0, rhs@, dot + 1, vx_i3 as int, t) by {
            lemma_leads_step(&p0, rhs@, dot + 1, j3, t);
            assert(lcfg(&q3, d).fws@.contains(t) <==> lcfg(&qb, d).fws@.contains(t) || leads_before(&p0, rhs@, dot + 1, j3, t));
        }
    }
@@loop 4
    invariant
        grammar_ok(&p0), only_fws(&qb, self, d), is_cfg(&qb, d), newcfp.id == d, newcfp__id == d, qb.the_symbols == p0.the_symbols, vx_i4 <= sub_sym@.len(),
        xsp.typ == SymbolType::MultiTerminal(*sub_sym), sym(&p0, x3).typ == xsp.typ, typ_in(&p0, sym(&p0, x3).typ),
        forall|t: int| #[trigger] lcfg(self, d).fws@.contains(t) <==> lcfg(&q3, d).fws@.contains(t) || has_index(&p0, sub_sym@, vx_i4 as int, t),
    decreases sub_sym@.len() - vx_i4,
@@head 4
    let ghost q4 = *self;
    proof { assert(sym_in(&p0, sym(&p0, x3).typ->MultiTerminal_0@[vx_i4 - 1])); }
@@tail 4
    proof {
        assert forall|c: int| is_cfg(&qb, c) && c != d implies #[trigger] lcfg(self, c) == lcfg(&qb, c) by { assert(lcfg(&q4, c) == lcfg(&qb, c)); }
        assert(lcfg(self, d) == (Config { fws: lcfg(self, d).fws, ..lcfg(&qb, d) }));
        assert forall|t: int| #[trigger] lcfg(self, d).fws@.contains(t) <==> lcfg(&q3, d).fws@.contains(t) || has_index(&p0, sub_sym@, vx_i4 as int, t) by {
            assert(lcfg(&q4, d).fws@.contains(t) <==> lcfg(&q3, d).fws@.contains(t) || has_index(&p0, sub_sym@, vx_i4 - 1, t));
            if has_index(&p0, sub_sym@, vx_i4 as int, t) { let j = choose|j: int| 0 <= j < vx_i4 && sym(&p0, #[trigger] sub_sym@[j]).index == t; if j < vx_i4 - 1 { assert(has_index(&p0, sub_sym@, vx_i4 - 1, t)); } }
            if sym(&p0, sub_sym@[vx_i4 - 1]).index == t { assert(has_index(&p0, sub_sym@, vx_i4 as int, t)); }
        }
    }
@@after 3
    let ghost qc = *self;
@@tail 2
    proof { lemma_feed(&p0, &qb, &qc, self, cur0, cur@, i as int, m0, newcfp); }
@@tail 1
    proof { lemma_next(&p0, self, cur0, cur@, i - 1, own_rules(&p0, next_sym(&p0, x)).len() as int); }
@@end
    proof { lemma_done(&p0, self, cur0, vx_ret->Ok_0@); }
@@raw
pub open spec fn listed_upto(p: &Pomelo, s: SymbolId, m: int, r: int) -> bool { exists|k: int| 0 <= k < m && k < own_rules(p, s).len() && (#[trigger] own_rules(p, s)[k]).id == r }
/// the place i1 of the list has been asked about rule r when the closure is at rule number m of place i
pub open spec fn hand(p: &Pomelo, q: &Pomelo, cur: Seq<ConfigId>, i: int, m: int, i1: int, r: int) -> bool {
    &&& 0 <= i1 <= i && i1 < cur.len() && asks(p, nth_item(q, cur, i1), r)
    &&& i1 < i || listed_upto(p, next_sym(p, nth_item(q, cur, i)), m, r)
}
pub open spec fn fed(p: &Pomelo, q: &Pomelo, cur: Seq<ConfigId>, i: int, m: int, j: int, t: int) -> bool {
    nth_item(q, cur, j).1 == 0 && exists|i1: int| #[trigger] hand(p, q, cur, i, m, i1, nth_item(q, cur, j).0) && rest_first(p, nth_item(q, cur, i1), t)
}
pub open spec fn clos(p: &Pomelo, q: &Pomelo, cur0: Seq<ConfigId>, cur: Seq<ConfigId>, i: int, m: int) -> bool {
    &&& closure_frame(p, q, cur0) && cfgs_ok(q) && ids_in(q, cur) && distinct_items(q, cur) && ids_in(p, cur0)
    &&& cur.len() >= cur0.len() && cur.subrange(0, cur0.len() as int) == cur0
    &&& forall|j: int| cur0.len() <= j < cur.len() ==> (#[trigger] cur[j]).id >= p.the_configs.data@.len() && nth_item(q, cur, j).1 == 0 && lcfg(q, cur[j].id as int).bplp@.len() == 0
    &&& forall|j: int| 0 <= j < cur.len() ==> in_closure(p, cur0, #[trigger] nth_item(q, cur, j))
    &&& forall|i1: int, r: int| #[trigger] hand(p, q, cur, i, m, i1, r) ==> has_item(q, cur, (r, 0int))
    &&& forall|j: int, t: int| 0 <= j < cur.len() ==> (#[trigger] lcfg(q, cur[j].id as int).fws@.contains(t) <==> old_fws(p, cur[j].id as int, t) || fed(p, q, cur, i, m, j, t))
    &&& forall|j: int, d: int| 0 <= j < cur.len() ==> (#[trigger] has_id(lcfg(q, cur[j].id as int).fplp@, d) <==>
            old_link(p, cur[j].id as int, d) || (has_id(cur, d) && item_of(q, d).1 == 0 && hand(p, q, cur, i, m, j, item_of(q, d).0) && rest_empty(p, nth_item(q, cur, j))))
}
pub open spec fn only_fws(p: &Pomelo, q: &Pomelo, d: int) -> bool {
    &&& cfgs_only(p, q)
    &&& forall|c: int| is_cfg(p, c) && c != d ==> #[trigger] lcfg(q, c) == lcfg(p, c)
    &&& lcfg(q, d) == (Config { fws: lcfg(q, d).fws, ..lcfg(p, d) })
}
pub open spec fn leads_before(p: &Pomelo, rhs: Seq<SymbolAlias>, i: int, k: int, t: int) -> bool { exists|j: int| #[trigger] rest_leads(p, rhs, i, j, t) && j < k }
proof fn lemma_leads_step(p: &Pomelo, rhs: Seq<SymbolAlias>, i: int, k: int, t: int)
    requires i <= k < rhs.len(), lam_upto(p, rhs, i, k)
    ensures leads_before(p, rhs, i, k + 1, t) <==> leads_before(p, rhs, i, k, t) || ann_begins(p, rhs[k].0, t)
{
    if ann_begins(p, rhs[k].0, t) { assert(rest_leads(p, rhs, i, k, t)); }
    if leads_before(p, rhs, i, k + 1, t) { let j = choose|j: int| #[trigger] rest_leads(p, rhs, i, j, t) && j < k + 1; assert(rest_leads(p, rhs, i, j, t)); }
    if leads_before(p, rhs, i, k, t) { let j = choose|j: int| #[trigger] rest_leads(p, rhs, i, j, t) && j < k; assert(rest_leads(p, rhs, i, j, t)); }
}
proof fn lemma_leads_stop(p: &Pomelo, rhs: Seq<SymbolAlias>, i: int, k: int, t: int)
    requires i <= k < rhs.len(), !lam(p, rhs[k].0)
    ensures leads_before(p, rhs, i, k + 1, t) <==> leads_before(p, rhs, i, rhs.len() as int, t)
{
    if leads_before(p, rhs, i, rhs.len() as int, t) { let j = choose|j: int| #[trigger] rest_leads(p, rhs, i, j, t) && j < rhs.len(); assert(rest_leads(p, rhs, i, j, t)); if j > k { assert(lam(p, rhs[k].0)); } }
    if leads_before(p, rhs, i, k + 1, t) { let j = choose|j: int| #[trigger] rest_leads(p, rhs, i, j, t) && j < k + 1; assert(rest_leads(p, rhs, i, j, t)); }
}
proof fn lemma_start(p: &Pomelo, cur: Seq<ConfigId>)
    requires grammar_ok(p), cfgs_ok(p), ids_in(p, cur), distinct_items(p, cur)
    ensures clos(p, p, cur, cur, 0, 0)
{
    assert forall|j: int| 0 <= j < cur.len() implies in_closure(p, cur, #[trigger] nth_item(p, cur, j)) by { assert(has_item(p, cur, nth_item(p, cur, j))); }
    assert forall|i1: int, r: int| !#[trigger] hand(p, p, cur, 0, 0, i1, r) by {}
    assert(cur.subrange(0, cur.len() as int) =~= cur);
    assert forall|j: int, t: int| 0 <= j < cur.len() implies (#[trigger] lcfg(p, cur[j].id as int).fws@.contains(t) <==> old_fws(p, cur[j].id as int, t) || fed(p, p, cur, 0, 0, j, t)) by { assert(is_cfg(p, cur[j].id as int)); }
    assert forall|j: int, d: int| 0 <= j < cur.len() implies (#[trigger] has_id(lcfg(p, cur[j].id as int).fplp@, d) <==> old_link(p, cur[j].id as int, d)) by { assert(is_cfg(p, cur[j].id as int)); }
}
proof fn lemma_same_id(q: &Pomelo, cur: Seq<ConfigId>, i: int, j: int)
    requires distinct_items(q, cur), 0 <= i < cur.len(), 0 <= j < cur.len(), cur[i].id == cur[j].id
    ensures i == j
{
    assert(nth_item(q, cur, i) == nth_item(q, cur, j));
}
proof fn lemma_add(p: &Pomelo, q: &Pomelo, q2: &Pomelo, cur0: Seq<ConfigId>, cur: Seq<ConfigId>, cur2: Seq<ConfigId>, i: int, m: int, rule: RuleId, d: ConfigId)
    requires grammar_ok(p), cfgs_ok(p), clos(p, q, cur0, cur, i, m), 0 <= i < cur.len(), asks(p, nth_item(q, cur, i), rule.id as int), added(q, cur, q2, cur2, rule, 0, d),
    ensures clos(p, q2, cur0, cur2, i, m), has_id(cur2, d.id as int), item_of(q2, d.id as int) == (rule.id as int, 0int), cur2.len() >= cur.len(),
        forall|j: int| 0 <= j < cur.len() ==> #[trigger] cur2[j] == cur[j], nth_item(q2, cur2, i) == nth_item(q, cur, i), is_cfg(q2, d.id as int), closure_frame(p, q2, cur0),
{
    let r = rule.id as int;
    if has_item(q, cur, (r, 0int)) {
        let k = choose|k: int| 0 <= k < cur.len() && #[trigger] nth_item(q, cur, k) == (r, 0int) && cur[k] == d;
        assert(cur2[k].id == d.id);
        assert(is_cfg(q2, cur2[k].id as int));
    } else {
        let n = q.the_configs.data@.len() as int;
        let l = cur.len() as int;
        assert(cur2[l].id == n);
        assert forall|c: int| is_cfg(q, c) implies #[trigger] lcfg(q2, c) == lcfg(q, c) by {}
        assert forall|j: int| 0 <= j < l implies #[trigger] cur2[j] == cur[j] && is_cfg(q, cur[j].id as int) && nth_item(q2, cur2, j) == nth_item(q, cur, j) by { assert(is_cfg(q, cur[j].id as int)); }
        assert(nth_item(q2, cur2, l) == (r, 0int));
        assert(has_id(cur2, n)) by { assert(cur2[l].id == n); }
        assert(closure_frame(p, q2, cur0)) by {
            assert forall|c: int| is_cfg(p, c) && !has_id(cur0, c) implies #[trigger] lcfg(q2, c) == lcfg(p, c) by { assert(lcfg(q, c) == lcfg(p, c)); }
            assert forall|c: int| is_cfg(p, c) implies same_place(lcfg(p, c), #[trigger] lcfg(q2, c)) by { assert(same_place(lcfg(p, c), lcfg(q, c))); }
        }
        assert forall|c: int| is_cfg(q2, c) implies cfg_ok(q2, #[trigger] lcfg(q2, c)) by { if c < n { assert(cfg_ok(q, lcfg(q, c))); } }
        assert forall|j: int| 0 <= j < cur2.len() implies is_cfg(q2, (#[trigger] cur2[j]).id as int) by { if j < l { assert(cur2[j] == cur[j]); } }
        assert forall|a: int, b: int| 0 <= a < b < cur2.len() implies #[trigger] nth_item(q2, cur2, a) != #[trigger] nth_item(q2, cur2, b) by {
            assert(cur2[a] == cur[a]); assert(nth_item(q2, cur2, a) == nth_item(q, cur, a));
            if b == l { if nth_item(q, cur, a) == (r, 0int) { assert(has_item(q, cur, (r, 0int))); } } else { assert(cur2[b] == cur[b]); assert(nth_item(q2, cur2, b) == nth_item(q, cur, b)); }
        }
        assert(cur2.subrange(0, cur0.len() as int) =~= cur.subrange(0, cur0.len() as int));
        assert forall|j: int| cur0.len() <= j < cur2.len() implies (#[trigger] cur2[j]).id >= p.the_configs.data@.len() && nth_item(q2, cur2, j).1 == 0 && lcfg(q2, cur2[j].id as int).bplp@.len() == 0 by {
            if j < l { assert(cur2[j] == cur[j]); assert(cur[j].id >= p.the_configs.data@.len()); assert(nth_item(q2, cur2, j) == nth_item(q, cur, j)); }
        }
        assert forall|j: int| 0 <= j < cur2.len() implies in_closure(p, cur0, #[trigger] nth_item(q2, cur2, j)) by {
            if j < l { assert(cur2[j] == cur[j]); assert(in_closure(p, cur0, nth_item(q, cur, j))); }
            else {
                assert(in_closure(p, cur0, nth_item(q, cur, i)));
                assert forall|z: ISet<LrItem>| #[trigger] asked_closed(p, cur0, z) implies z.contains((r, 0int)) by { assert(z.contains(nth_item(q, cur, i))); }
            }
        }
        assert(cur2[i] == cur[i]);
        assert forall|i1: int, r1: int| #[trigger] hand(p, q2, cur2, i, m, i1, r1) == hand(p, q, cur, i, m, i1, r1) by {
            if 0 <= i1 < l { assert(cur2[i1] == cur[i1]); assert(nth_item(q2, cur2, i1) == nth_item(q, cur, i1)); }
        }
        assert forall|i1: int| !#[trigger] hand(p, q2, cur2, i, m, i1, r) by { if hand(p, q, cur, i, m, i1, r) { assert(has_item(q, cur, (r, 0int))); } }
        assert forall|i1: int, r1: int| #[trigger] hand(p, q2, cur2, i, m, i1, r1) implies has_item(q2, cur2, (r1, 0int)) by {
            assert(hand(p, q, cur, i, m, i1, r1));
            let k = choose|k: int| 0 <= k < cur.len() && #[trigger] nth_item(q, cur, k) == (r1, 0int);
            assert(cur2[k] == cur[k]); assert(nth_item(q2, cur2, k) == (r1, 0int));
        }
        assert forall|j: int, t: int| 0 <= j < cur2.len() implies (#[trigger] lcfg(q2, cur2[j].id as int).fws@.contains(t) <==> old_fws(p, cur2[j].id as int, t) || fed(p, q2, cur2, i, m, j, t)) by {
            if j < l {
                assert(cur2[j] == cur[j]);
                assert(lcfg(q, cur[j].id as int).fws@.contains(t) <==> old_fws(p, cur[j].id as int, t) || fed(p, q, cur, i, m, j, t));
                let rj = nth_item(q, cur, j).0;
                if fed(p, q, cur, i, m, j, t) { let i1 = choose|i1: int| #[trigger] hand(p, q, cur, i, m, i1, rj) && rest_first(p, nth_item(q, cur, i1), t); assert(hand(p, q2, cur2, i, m, i1, rj)); assert(cur2[i1] == cur[i1]); assert(nth_item(q2, cur2, i1) == nth_item(q, cur, i1)); }
                if fed(p, q2, cur2, i, m, j, t) { let i1 = choose|i1: int| #[trigger] hand(p, q2, cur2, i, m, i1, rj) && rest_first(p, nth_item(q2, cur2, i1), t); assert(hand(p, q, cur, i, m, i1, rj)); assert(cur2[i1] == cur[i1]); assert(nth_item(q2, cur2, i1) == nth_item(q, cur, i1)); }
            } else {
                assert(nth_item(q2, cur2, j).0 == r);
            }
        }
        assert forall|j: int, e: int| 0 <= j < cur2.len() implies (#[trigger] has_id(lcfg(q2, cur2[j].id as int).fplp@, e) <==>
            old_link(p, cur2[j].id as int, e) || (has_id(cur2, e) && item_of(q2, e).1 == 0 && hand(p, q2, cur2, i, m, j, item_of(q2, e).0) && rest_empty(p, nth_item(q2, cur2, j)))) by {
            if j < l {
                assert(cur2[j] == cur[j]);
                assert(has_id(lcfg(q, cur[j].id as int).fplp@, e) <==> old_link(p, cur[j].id as int, e) || (has_id(cur, e) && item_of(q, e).1 == 0 && hand(p, q, cur, i, m, j, item_of(q, e).0) && rest_empty(p, nth_item(q, cur, j))));
                if e == n {
                    if has_id(cur, n) { let k = choose|k: int| 0 <= k < cur.len() && (#[trigger] cur[k]).id == n; assert(is_cfg(q, cur[k].id as int)); }
                    assert(item_of(q2, e).0 == r);
                } else {
                    if has_id(cur, e) { let k = choose|k: int| 0 <= k < cur.len() && (#[trigger] cur[k]).id == e; assert(cur2[k].id == e); assert(is_cfg(q, cur[k].id as int)); }
                    if has_id(cur2, e) { let k = choose|k: int| 0 <= k < cur2.len() && (#[trigger] cur2[k]).id == e; assert(k < l); assert(cur2[k] == cur[k]); assert(cur[k].id == e); assert(is_cfg(q, cur[k].id as int)); }
                }
                assert(nth_item(q2, cur2, j) == nth_item(q, cur, j));
            } else {
                assert(!hand(p, q2, cur2, i, m, j, item_of(q2, e).0));
            }
        }
    }
}
/// the rule number m of place i has been dealt with: its configuration is d
proof fn lemma_feed(p: &Pomelo, q: &Pomelo, qc: &Pomelo, q2: &Pomelo, cur0: Seq<ConfigId>, cur: Seq<ConfigId>, i: int, m: int, d: ConfigId)
    requires grammar_ok(p), cfgs_ok(p), clos(p, q, cur0, cur, i, m), 0 <= i < cur.len(), has_id(cur, d.id as int), item_of(q, d.id as int).1 == 0, asks(p, nth_item(q, cur, i), item_of(q, d.id as int).0),
        sym_in(p, next_sym(p, nth_item(q, cur, i))),
        0 <= m < own_rules(p, next_sym(p, nth_item(q, cur, i))).len(), own_rules(p, next_sym(p, nth_item(q, cur, i)))[m].id == item_of(q, d.id as int).0,
        only_fws(q, qc, d.id as int),
        forall|t: int| #[trigger] lcfg(qc, d.id as int).fws@.contains(t) <==> lcfg(q, d.id as int).fws@.contains(t) || rest_first(p, nth_item(q, cur, i), t),
        cfgs_only(qc, q2),
        forall|c: int| is_cfg(qc, c) && c != cur[i].id ==> #[trigger] lcfg(q2, c) == lcfg(qc, c),
        lcfg(q2, cur[i].id as int) == (Config { fplp: lcfg(q2, cur[i].id as int).fplp, ..lcfg(qc, cur[i].id as int) }),
        if rest_empty(p, nth_item(q, cur, i)) { lcfg(q2, cur[i].id as int).fplp@ == lcfg(qc, cur[i].id as int).fplp@.push(d) } else { lcfg(q2, cur[i].id as int).fplp@ == lcfg(qc, cur[i].id as int).fplp@ },
    ensures clos(p, q2, cur0, cur, i, m + 1), nth_item(q2, cur, i) == nth_item(q, cur, i)
{
    let r = item_of(q, d.id as int).0;
    let x = nth_item(q, cur, i);
    let jd = choose|k: int| 0 <= k < cur.len() && (#[trigger] cur[k]).id == d.id;
    assert forall|c: int| is_cfg(q, c) implies (#[trigger] lcfg(q2, c)).rule == lcfg(q, c).rule && lcfg(q2, c).dot == lcfg(q, c).dot && lcfg(q2, c).bplp == lcfg(q, c).bplp && lcfg(q2, c).status == lcfg(q, c).status
        && (c != d.id ==> lcfg(q2, c).fws == lcfg(q, c).fws) && (c != cur[i].id ==> lcfg(q2, c).fplp == lcfg(q, c).fplp) by { assert(is_cfg(qc, c)); if c != d.id { assert(lcfg(qc, c) == lcfg(q, c)); } }
    assert forall|j: int| 0 <= j < cur.len() implies is_cfg(q, (#[trigger] cur[j]).id as int) && nth_item(q2, cur, j) == nth_item(q, cur, j) by {}
    assert(closure_frame(p, q2, cur0)) by {
        assert forall|c: int| is_cfg(p, c) && !has_id(cur0, c) implies #[trigger] lcfg(q2, c) == lcfg(p, c) by {
            assert(lcfg(q, c) == lcfg(p, c));
            if c == d.id { lemma_old_place(p, q, cur0, cur, jd); }
            if c == cur[i].id { lemma_old_place(p, q, cur0, cur, i); }
            assert(lcfg(qc, c) == lcfg(q, c));
        }
        assert forall|c: int| is_cfg(p, c) implies same_place(lcfg(p, c), #[trigger] lcfg(q2, c)) by { assert(same_place(lcfg(p, c), lcfg(q, c))); assert(is_cfg(q, c)); }
    }
    assert forall|c: int| is_cfg(q2, c) implies cfg_ok(q2, #[trigger] lcfg(q2, c)) by { assert(cfg_ok(q, lcfg(q, c))); }
    assert forall|j: int| cur0.len() <= j < cur.len() implies (#[trigger] cur[j]).id >= p.the_configs.data@.len() && nth_item(q2, cur, j).1 == 0 && lcfg(q2, cur[j].id as int).bplp@.len() == 0 by { assert(is_cfg(q, cur[j].id as int)); }
    assert forall|j: int| 0 <= j < cur.len() implies in_closure(p, cur0, #[trigger] nth_item(q2, cur, j)) by { assert(in_closure(p, cur0, nth_item(q, cur, j))); assert(is_cfg(q, cur[j].id as int)); }
    assert forall|i1: int, r1: int| #[trigger] hand(p, q2, cur, i, m + 1, i1, r1) <==> hand(p, q, cur, i, m, i1, r1) || (i1 == i && r1 == r) by {
        assert(is_cfg(q, cur[i].id as int));
        if 0 <= i1 < cur.len() { assert(is_cfg(q, cur[i1].id as int)); }
        let s = next_sym(p, x);
        if listed_upto(p, s, m + 1, r1) { let k = choose|k: int| 0 <= k < m + 1 && k < own_rules(p, s).len() && (#[trigger] own_rules(p, s)[k]).id == r1; if k < m { assert(listed_upto(p, s, m, r1)); } }
        if listed_upto(p, s, m, r1) { let k = choose|k: int| 0 <= k < m && k < own_rules(p, s).len() && (#[trigger] own_rules(p, s)[k]).id == r1; assert(own_rules(p, s)[k].id == r1); assert(listed_upto(p, s, m + 1, r1)); }
        if r1 == r { assert(own_rules(p, s)[m].id == r); assert(listed_upto(p, s, m + 1, r)); }
    }
    assert forall|i1: int, r1: int| #[trigger] hand(p, q2, cur, i, m + 1, i1, r1) implies has_item(q2, cur, (r1, 0int)) by {
        if hand(p, q, cur, i, m, i1, r1) {
            let k = choose|k: int| 0 <= k < cur.len() && #[trigger] nth_item(q, cur, k) == (r1, 0int);
            assert(is_cfg(q, cur[k].id as int)); assert(nth_item(q2, cur, k) == (r1, 0int));
        } else { assert(is_cfg(q, cur[jd].id as int)); assert(nth_item(q2, cur, jd) == (r, 0int)); }
    }
    assert forall|j: int, t: int| 0 <= j < cur.len() implies (#[trigger] lcfg(q2, cur[j].id as int).fws@.contains(t) <==> old_fws(p, cur[j].id as int, t) || fed(p, q2, cur, i, m + 1, j, t)) by {
        assert(is_cfg(q, cur[j].id as int));
        assert(lcfg(q, cur[j].id as int).fws@.contains(t) <==> old_fws(p, cur[j].id as int, t) || fed(p, q, cur, i, m, j, t));
        let rj = nth_item(q, cur, j).0;
        if cur[j].id == d.id { assert(lcfg(qc, d.id as int).fws@.contains(t) <==> lcfg(q, d.id as int).fws@.contains(t) || rest_first(p, x, t)); assert(is_cfg(qc, cur[j].id as int)); assert(lcfg(q2, cur[j].id as int).fws == lcfg(qc, d.id as int).fws); }
        if fed(p, q, cur, i, m, j, t) { let i1 = choose|i1: int| #[trigger] hand(p, q, cur, i, m, i1, rj) && rest_first(p, nth_item(q, cur, i1), t); assert(hand(p, q2, cur, i, m + 1, i1, rj)); assert(is_cfg(q, cur[i1].id as int)); assert(nth_item(q2, cur, i1) == nth_item(q, cur, i1)); assert(fed(p, q2, cur, i, m + 1, j, t)); }
        if cur[j].id == d.id && rest_first(p, x, t) { assert(hand(p, q2, cur, i, m + 1, i, r)); assert(nth_item(q2, cur, i) == x); assert(fed(p, q2, cur, i, m + 1, j, t)); }
        if fed(p, q2, cur, i, m + 1, j, t) {
            let i1 = choose|i1: int| #[trigger] hand(p, q2, cur, i, m + 1, i1, rj) && rest_first(p, nth_item(q2, cur, i1), t);
            assert(is_cfg(q, cur[i1].id as int)); assert(nth_item(q2, cur, i1) == nth_item(q, cur, i1));
            if hand(p, q, cur, i, m, i1, rj) { assert(fed(p, q, cur, i, m, j, t)); }
            else { assert(i1 == i && rj == r); assert(nth_item(q, cur, j) == nth_item(q, cur, jd)); if j < jd {} else if jd < j {} assert(j == jd); }
        }
    }
    assert forall|j: int, e: int| 0 <= j < cur.len() implies (#[trigger] has_id(lcfg(q2, cur[j].id as int).fplp@, e) <==>
        old_link(p, cur[j].id as int, e) || (has_id(cur, e) && item_of(q2, e).1 == 0 && hand(p, q2, cur, i, m + 1, j, item_of(q2, e).0) && rest_empty(p, nth_item(q2, cur, j)))) by {
        assert(is_cfg(q, cur[j].id as int));
        assert(has_id(lcfg(q, cur[j].id as int).fplp@, e) <==> old_link(p, cur[j].id as int, e) || (has_id(cur, e) && item_of(q, e).1 == 0 && hand(p, q, cur, i, m, j, item_of(q, e).0) && rest_empty(p, nth_item(q, cur, j))));
        if has_id(cur, e) { let k = choose|k: int| 0 <= k < cur.len() && (#[trigger] cur[k]).id == e; assert(is_cfg(q, cur[k].id as int)); assert(item_of(q2, e) == item_of(q, e));
            if item_of(q, e) == (r, 0int) { assert(nth_item(q, cur, k) == nth_item(q, cur, jd)); if k < jd {} else if jd < k {} assert(k == jd); } }
        if cur[j].id == cur[i].id {
            lemma_same_id(q, cur, i, j);
            lemma_has_push(lcfg(q, cur[i].id as int).fplp@, d, e);
            assert(is_cfg(qc, cur[i].id as int));
            assert(lcfg(qc, cur[i].id as int).fplp == lcfg(q, cur[i].id as int).fplp);
        }
        assert(nth_item(q2, cur, j) == nth_item(q, cur, j));
    }
}
/// a place of the list that holds an old configuration is one of the first
proof fn lemma_old_place(p: &Pomelo, q: &Pomelo, cur0: Seq<ConfigId>, cur: Seq<ConfigId>, j: int)
    requires 0 <= j < cur.len(), cur[j].id < p.the_configs.data@.len(), cur.len() >= cur0.len(), cur.subrange(0, cur0.len() as int) == cur0,
        forall|j: int| cur0.len() <= j < cur.len() ==> (#[trigger] cur[j]).id >= p.the_configs.data@.len()
    ensures has_id(cur0, cur[j].id as int)
{
    assert(j < cur0.len());
    assert(cur0[j] == cur.subrange(0, cur0.len() as int)[j]);
    assert(cur0[j].id == cur[j].id);
}
proof fn lemma_has_push(v: Seq<ConfigId>, x: ConfigId, d: int)
    ensures has_id(v.push(x), d) <==> has_id(v, d) || x.id == d
{
    if has_id(v, d) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).id == d; assert(v.push(x)[i].id == d); }
    if x.id == d { assert(v.push(x)[v.len() as int].id == d); }
    if has_id(v.push(x), d) { let i = choose|i: int| 0 <= i < v.push(x).len() && (#[trigger] v.push(x)[i]).id == d; if i < v.len() { assert(v[i].id == d); } }
}
/// on to the next place of the list
proof fn lemma_next(p: &Pomelo, q: &Pomelo, cur0: Seq<ConfigId>, cur: Seq<ConfigId>, i: int, m: int)
    requires grammar_ok(p), cfgs_ok(p), 0 <= i < cur.len(),
        ({ let x = nth_item(q, cur, i); if can_step(p, x) && sym(p, next_sym(p, x)).typ is NonTerminal { clos(p, q, cur0, cur, i, m) && m == own_rules(p, next_sym(p, x)).len() } else { clos(p, q, cur0, cur, i, 0) } }),
    ensures clos(p, q, cur0, cur, i + 1, 0)
{
    let x = nth_item(q, cur, i);
    let mm = if can_step(p, x) && sym(p, next_sym(p, x)).typ is NonTerminal { m } else { 0 };
    assert forall|i1: int, r: int| #[trigger] hand(p, q, cur, i + 1, 0, i1, r) <==> hand(p, q, cur, i, mm, i1, r) by {
        if i1 == i && asks(p, x, r) { 
            let k = choose|k: int| 0 <= k < own_rules(p, lhs_of(p, r)).len() && (#[trigger] own_rules(p, lhs_of(p, r))[k]).id == r;
            assert(own_rules(p, next_sym(p, x))[k].id == r);
            assert(listed_upto(p, next_sym(p, x), m, r));
        }
    }
    assert forall|i1: int, r: int| #[trigger] hand(p, q, cur, i + 1, 0, i1, r) implies has_item(q, cur, (r, 0int)) by { assert(hand(p, q, cur, i, mm, i1, r)); }
    assert forall|j: int, t: int| 0 <= j < cur.len() implies (#[trigger] lcfg(q, cur[j].id as int).fws@.contains(t) <==> old_fws(p, cur[j].id as int, t) || fed(p, q, cur, i + 1, 0, j, t)) by {
        let rj = nth_item(q, cur, j).0;
        assert(lcfg(q, cur[j].id as int).fws@.contains(t) <==> old_fws(p, cur[j].id as int, t) || fed(p, q, cur, i, mm, j, t));
        if fed(p, q, cur, i, mm, j, t) { let i1 = choose|i1: int| #[trigger] hand(p, q, cur, i, mm, i1, rj) && rest_first(p, nth_item(q, cur, i1), t); assert(hand(p, q, cur, i + 1, 0, i1, rj)); }
        if fed(p, q, cur, i + 1, 0, j, t) { let i1 = choose|i1: int| #[trigger] hand(p, q, cur, i + 1, 0, i1, rj) && rest_first(p, nth_item(q, cur, i1), t); assert(hand(p, q, cur, i, mm, i1, rj)); }
    }
    assert forall|j: int, d: int| 0 <= j < cur.len() implies (#[trigger] has_id(lcfg(q, cur[j].id as int).fplp@, d) <==>
            old_link(p, cur[j].id as int, d) || (has_id(cur, d) && item_of(q, d).1 == 0 && hand(p, q, cur, i + 1, 0, j, item_of(q, d).0) && rest_empty(p, nth_item(q, cur, j)))) by {
        assert(hand(p, q, cur, i + 1, 0, j, item_of(q, d).0) <==> hand(p, q, cur, i, mm, j, item_of(q, d).0));
    }
}
proof fn lemma_done(p: &Pomelo, q: &Pomelo, cur0: Seq<ConfigId>, cur: Seq<ConfigId>)
    requires grammar_ok(p), cfgs_ok(p), clos(p, q, cur0, cur, cur.len() as int, 0)
    ensures closed_list(p, q, cur0, cur), seeds_ok(p, q, cur)
{
    let n = cur.len() as int;
    assert forall|x: LrItem, r: int| #[trigger] asks(q, x, r) == asks(p, x, r) by {}
    assert forall|x: LrItem| #[trigger] has_item(q, cur, x) <==> in_closure(p, cur0, x) by {
        let z = ISet::new(|x: LrItem| has_item(q, cur, x));
        assert(asked_closed(p, cur0, z)) by {
            assert forall|x: LrItem| #[trigger] has_item(p, cur0, x) implies z.contains(x) by {
                let k = choose|k: int| 0 <= k < cur0.len() && #[trigger] nth_item(p, cur0, k) == x;
                assert(cur0[k] == cur.subrange(0, cur0.len() as int)[k]);
                assert(is_cfg(p, cur0[k].id as int));
                assert(same_place(lcfg(p, cur0[k].id as int), lcfg(q, cur0[k].id as int)));
                assert(nth_item(q, cur, k) == x);
            }
            assert forall|x: LrItem, r: int| #[trigger] asks(p, x, r) && z.contains(x) implies z.contains((r, 0int)) by {
                let k = choose|k: int| 0 <= k < cur.len() && #[trigger] nth_item(q, cur, k) == x;
                assert(hand(p, q, cur, n, 0, k, r));
            }
        }
        if in_closure(p, cur0, x) { assert(z.contains(x)); }
        if has_item(q, cur, x) { let k = choose|k: int| 0 <= k < cur.len() && #[trigger] nth_item(q, cur, k) == x; assert(in_closure(p, cur0, nth_item(q, cur, k))); }
    }
    assert forall|i1: int, r: int| #[trigger] hand(p, q, cur, n, 0, i1, r) <==> 0 <= i1 < n && asks(q, nth_item(q, cur, i1), r) by {}
    assert forall|x: LrItem, t: int| #[trigger] rest_first(q, x, t) == rest_first(p, x, t) by { lemma_rest_same(p, q, x, t); }
    assert forall|j: int, t: int| 0 <= j < cur.len() implies (#[trigger] lcfg(q, cur[j].id as int).fws@.contains(t) <==> old_fws(p, cur[j].id as int, t) || seeded(p, q, cur, cur[j].id as int, t)) by {
        let d = cur[j].id as int;
        let rj = nth_item(q, cur, j).0;
        assert(lcfg(q, d).fws@.contains(t) <==> old_fws(p, d, t) || fed(p, q, cur, n, 0, j, t));
        if fed(p, q, cur, n, 0, j, t) { let i1 = choose|i1: int| #[trigger] hand(p, q, cur, n, 0, i1, rj) && rest_first(p, nth_item(q, cur, i1), t); assert(feeds(q, cur[i1].id as int, d)); assert(rest_first(q, nth_item(q, cur, i1), t)); }
        if seeded(p, q, cur, d, t) { let i1 = choose|i1: int| 0 <= i1 < cur.len() && #[trigger] feeds(q, cur[i1].id as int, d) && rest_first(q, nth_item(q, cur, i1), t); assert(hand(p, q, cur, n, 0, i1, rj)); assert(rest_first(p, nth_item(q, cur, i1), t)); }
    }
    assert forall|i: int, d: int| 0 <= i < cur.len() implies (#[trigger] has_id(lcfg(q, cur[i].id as int).fplp@, d) <==>
            old_link(p, cur[i].id as int, d) || (has_id(cur, d) && feeds(q, cur[i].id as int, d) && rest_empty(q, nth_item(q, cur, i)))) by {
        assert(hand(p, q, cur, n, 0, i, item_of(q, d).0) <==> asks(q, nth_item(q, cur, i), item_of(q, d).0));
        assert(rest_empty(q, nth_item(q, cur, i)) == rest_empty(p, nth_item(q, cur, i))) by { lemma_rest_same(p, q, nth_item(q, cur, i), 0); }
    }
}
proof fn lemma_rest_same(p: &Pomelo, q: &Pomelo, x: LrItem, t: int)
    requires q.the_rules == p.the_rules, q.the_symbols == p.the_symbols
    ensures rest_first(q, x, t) == rest_first(p, x, t), rest_empty(q, x) == rest_empty(p, x)
{
    assert forall|j: int| #[trigger] rest_leads(q, rhs_of(q, x.0), x.1 + 1, j, t) == rest_leads(p, rhs_of(p, x.0), x.1 + 1, j, t) by {}
    if rest_first(p, x, t) { let j = choose|j: int| #[trigger] rest_leads(p, rhs_of(p, x.0), x.1 + 1, j, t); assert(rest_leads(q, rhs_of(q, x.0), x.1 + 1, j, t)); }
    if rest_first(q, x, t) { let j = choose|j: int| #[trigger] rest_leads(q, rhs_of(q, x.0), x.1 + 1, j, t); assert(rest_leads(p, rhs_of(p, x.0), x.1 + 1, j, t)); }
}
@@include epilogue.vxi
