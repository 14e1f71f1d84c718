@@props C02 C04 C15
@@include prelude.vxi
@@include types.vxi
@@include wf.vxi
@@include grammar.vxi
@@include lalr.vxi
@@include items.vxi
@@stubs
@@include add_config.sig
@@include configlist_closure.sig
@@endstubs
@@include auto.vxi
@@raw
use ActionDetail::*;
/// a basis under construction: configurations of no state yet, with links to where they come from
pub open spec fn new_basis(p: &Pomelo, cur: Seq<ConfigId>) -> bool {
    &&& ids_in(p, cur) && distinct_items(p, cur)
    &&& forall|i: int| 0 <= i < cur.len() ==> !in_state(p, (#[trigger] cur[i]).id as int)
    &&& forall|i: int| 0 <= i < cur.len() ==> lcfg(p, (#[trigger] cur[i]).id as int).fplp@.len() == 0
    &&& forall|i: int, t: int| 0 <= i < cur.len() ==> (#[trigger] lcfg(p, cur[i].id as int).fws@.contains(t) <==> starter(p.the_states.data@.len() as int, t))
    &&& blinks_ok(p, cur)
    &&& p.the_states.data@.len() > 0 ==> stepped_list(p, cur)
}
pub open spec fn only_shifts(a: State, b: State) -> bool { b == (State { actions: b.actions, ..a }) }
@@fn get_non_terminal_rules impl=Symbol
@@ret r
@@sig
    ensures match self.typ { SymbolType::NonTerminal { rules, .. } => r is Some && r->0@ == rules@, _ => r is None }
@@fn config_cmp_key
@@ret r
@@sig
    requires is_cfg(data, a.id as int), lcfg(data, a.id as int).rule.id < data.the_rules.data@.len(),
    ensures r is Less <==> item_less(key_of(data, a), (index as int, dot as int)), r is Equal <==> key_of(data, a) == (index as int, dot as int),
@@fn config_cmp
@@ret r
@@sig
    requires is_cfg(data, a.id as int), lcfg(data, a.id as int).rule.id < data.the_rules.data@.len(), is_cfg(data, b.id as int), lcfg(data, b.id as int).rule.id < data.the_rules.data@.len(),
    ensures r is Less <==> item_less(key_of(data, a), key_of(data, b)), r is Equal <==> key_of(data, a) == key_of(data, b),
@@fn state_find impl=Pomelo
@@ret r
@@sig
    requires auto(old(self)), ids_in(old(self), bp@), sorted_items(old(self), bp@),
    ensures *final(self) == *old(self),
        r matches Some(t) ==> is_st(old(self), t.id as int) && same_list(old(self), basis_of(old(self), t.id as int), bp@),
        r is None ==> forall|k: int| #[trigger] is_st(old(self), k) ==> !same_list(old(self), basis_of(old(self), k), bp@),
@@let-type vx_r2
Option<&StateId>
@@loop 1
    invariant_except_break
        vx_i1 <= self.states@.len(), vx_r2 is None,
        forall|k: int| 0 <= k < vx_i1 && #[trigger] is_st(self, k) ==> !same_list(self, basis_of(self, k), bp@),
    invariant
        *self == *old(self), auto(self), ids_in(self, bp@),
    ensures
        vx_r2 matches Some(t) ==> is_st(self, t.id as int) && same_list(self, basis_of(self, t.id as int), bp@),
        vx_r2 is None ==> forall|k: int| #[trigger] is_st(self, k) ==> !same_list(self, basis_of(self, k), bp@),
    decreases self.states@.len() - vx_i1,
@@head 1
    let ghost k1 = vx_i1 - 1;
    proof { assert(is_st(self, k1)); assert(s.id == k1); assert(st_ok(self, k1)); }
@@tail 1
    proof { if !vx_c1 { assert(!same_list(self, basis_of(self, k1), bp@)); } }
@@loop 2
    invariant
        *self == *old(self), auto(self), ids_in(self, bp@), is_st(self, k1), s.id == k1, st_ok(self, k1),
    ensures
        vx_c1 <==> same_list(self, basis_of(self, k1), bp@),
    decreases 0int,
@@loop 3
    invariant
        *self == *old(self), auto(self), ids_in(self, bp@), is_st(self, k1), s.id == k1, st_ok(self, k1), sbp@ == basis_of(self, k1), sbp@.len() == bp@.len(), vx_i3 <= bp@.len(),
        forall|i: int| 0 <= i < vx_i3 ==> #[trigger] nth_item(self, sbp@, i) == nth_item(self, bp@, i),
    decreases bp@.len() - vx_i3,
@@head 3
    proof { assert(is_cfg(self, sbp@[vx_i3 - 1].id as int)); assert(is_cfg(self, bp@[vx_i3 - 1].id as int)); assert(nth_item(self, sbp@, vx_i3 - 1) == nth_item(self, bp@, vx_i3 - 1) ==> lcfg(self, a.id as int).rule.id == lcfg(self, b.id as int).rule.id && lcfg(self, a.id as int).dot == lcfg(self, b.id as int).dot); }
@@include get_state.sig
@@sort 1
vx_sort_configs(&mut RECV, &*self)
impl Pomelo { fn vx_cmp_basis(&self, ARG0: &ConfigId, ARG1: &ConfigId) -> (r: Ordering)
    requires is_cfg(self, ARG0.id as int), is_cfg(self, ARG1.id as int), cfgs_ok(self),
    ensures r is Less <==> item_less(key_of(self, *ARG0), key_of(self, *ARG1)),
BODY }
@@sort 2
vx_sort_configs(&mut RECV, &*self)
impl Pomelo { fn vx_cmp_closure(&self, ARG0: &ConfigId, ARG1: &ConfigId) -> (r: Ordering)
    requires is_cfg(self, ARG0.id as int), is_cfg(self, ARG1.id as int), cfgs_ok(self),
    ensures r is Less <==> item_less(key_of(self, *ARG0), key_of(self, *ARG1)),
BODY }
@@start
    let ghost p0 = *self;
    let ghost cur0 = cur@;
    let ghost n = p0.the_states.data@.len() as int;
@@after-call sort_by#1
    proof { lemma_sorted(&p0, cur0, bp@); }
@@loop 1
    invariant
        auto(&p0), is_st(&p0, bstp__id as int), ids_in(&p0, bp@), same_list(&p0, basis_of(&p0, bstp__id as int), bp@),
        forall|i: int| 0 <= i < bp@.len() ==> !in_state(&p0, (#[trigger] bp@[i]).id as int),
        copied(&p0, self, bstp__id as int, bp@, vx_i1 as int),
    decreases bp@.len() - vx_i1,
@@head 1
    let ghost qa = *self;
    let ghost m0 = vx_i1 - 1;
    proof { lemma_copy_ids(&p0, &qa, bstp__id as int, bp@, m0); }
@@tail 1
    proof { lemma_copy(&p0, &qa, self, bstp__id as int, bp@, m0); }
@@after 1
    proof { lemma_copied(&p0, self, bstp__id as int, cur0, bp@); }
@@after-let configs
    let ghost p1 = *self;
    let ghost out = configs@;
@@after-call sort_by#2
    proof { lemma_perm(&p1, out, configs@); }
    let ghost out2 = configs@;
@@before-call build_shifts
    let ghost p2 = *self;
    proof { lemma_members(&p0, &p2); lemma_pushed(&p0, &p1, &p2, cur0, bp@, out, out2); }
@@after-call build_shifts
    proof { lemma_made(&p0, &p2, self, cur0, bp@, out2); }
@@include build_shifts.sig
@@start
    let ghost p0 = *self;
    let ghost s = state.id as int;
    let ghost v = cfgs_of(self, s);
    proof { assert(is_st(&p0, s)); assert(st_ok(&p0, s)); }
@@loop 1
    invariant
        auto(&p0), is_st(&p0, s), st_ok(&p0, s), s == state.id, v == cfgs_of(&p0, s), vx_i1 <= v.len(), restatus(&p0, self, s),
        forall|i: int| 0 <= i < vx_i1 ==> !is_done(self, (#[trigger] v[i]).id as int),
    decreases v.len() - vx_i1,
@@head 1
    let ghost q1 = *self;
    proof { assert(is_cfg(&p0, v[vx_i1 - 1].id as int)); }
@@tail 1
    proof {
        let c = v[vx_i1 - 1].id as int;
        assert(has_id(v, c));
        assert forall|e: int| is_cfg(&p0, e) implies status_only(lcfg(&p0, e), #[trigger] lcfg(self, e)) by { assert(status_only(lcfg(&p0, e), lcfg(&q1, e))); }
        assert forall|e: int| is_cfg(&p0, e) && !has_id(v, e) implies #[trigger] lcfg(self, e) == lcfg(&p0, e) by { assert(lcfg(&q1, e) == lcfg(&p0, e)); }
        assert forall|i: int| 0 <= i < vx_i1 implies !is_done(self, (#[trigger] v[i]).id as int) by { assert(is_cfg(&p0, v[i].id as int)); if i < vx_i1 - 1 { assert(!is_done(&q1, v[i].id as int)); } }
    }
@@after 1
    let ghost mut px = Set::<SymbolId>::empty();
    proof { lemma_shift_start(&p0, self, s); }
@@let-type aps
Vec<Action>
@@loop 2
    invariant
        auto(&p0), members_differ(&p0), s == state.id, s + 1 == p0.the_states.data@.len(), v == cfgs_of(&p0, s), configs@ == v, vx_i2 <= v.len(),
        shifting(&p0, self, s, px, aps@, vx_i2 as int),
    decreases v.len() - vx_i2,
@@head 2
    let ghost i0 = vx_i2 - 1;
    let ghost q2 = *self;
    let ghost a2 = aps@;
    proof {
        assert(q2.the_states.data@[s] == p0.the_states.data@[s]); assert(is_st(&q2, s)); assert(st_ok(&q2, s)); assert(is_cfg(&q2, cfgs_of(&q2, s)[i0].id as int));
        assert(cfg_ok(&q2, lcfg(&q2, v[i0].id as int)));
    }
@@at-continue 2
    proof { lemma_shift_skip(&p0, &q2, s, px, a2, i0); }
@@after-let basis
    proof { assert(steps_on(&q2, s, i0, sp)); assert(!px.contains(sp)); lemma_step_start(&q2, s, sp, px, i0); }
@@loop 3
    invariant
        auto(&q2), is_st(&q2, s), s == state.id, st_ok(&q2, s), v == cfgs_of(&q2, s), 0 <= i0 < v.len(), state_configs@ == v.subrange(i0, v.len() as int), vx_i3 <= state_configs@.len(),
        stepping(&q2, self, s, sp, px, i0, i0 + vx_i3, basis@), !px.contains(sp),
    decreases state_configs@.len() - vx_i3,
@@head 3
    let ghost q3 = *self;
    let ghost b3 = basis@;
    let ghost j3 = i0 + vx_i3 - 1;
    proof {
        assert(bcfp_ == v[j3]); assert(is_cfg(&q2, v[j3].id as int)); assert(status_only(lcfg(&q2, v[j3].id as int), lcfg(&q3, v[j3].id as int)));
        assert(cfg_ok(&q3, lcfg(&q3, v[j3].id as int)));
    }
@@at-continue 3
    proof { lemma_step_skip(&q2, &q3, s, sp, px, i0, j3, b3); }
@@after-let newcfg
    let ghost qa = *self;
    proof { assert(steps_on(&q2, s, j3, sp)); }
@@tail 3
    proof { lemma_step(&q2, &q3, &qa, self, s, sp, px, i0, j3, b3, basis@, newcfg); }
@@after 3
    let ghost qb = *self;
    let ghost bb = basis@;
    proof { lemma_basis(&q2, self, s, sp, px, i0, basis@); lemma_members(&p0, self); }
@@after-let newstp
    let ghost qc = *self;
@@loop 4
    invariant
        bsp.typ == SymbolType::MultiTerminal(*sub_sym), vx_i4 <= sub_sym@.len(), more_acts(a2, aps@, sub_sym@, vx_i4 as int, newstp.id as int),
    decreases sub_sym@.len() - vx_i4,
@@tail 2
    proof {
        let ss = match bsp.typ { SymbolType::MultiTerminal(x) => x@, _ => seq![sp] };
        assert(sym(&p0, sp) == bsp);
        assert(sym_in(&p0, sp)) by { assert(rule_in(&q2, q2.the_rules.data@[lcfg(&q2, v[i0].id as int).rule.id as int])); }
        assert(ss.no_duplicates());
        assert forall|la: SymbolId| #[trigger] stands_for(&q2, sp, la) <==> ss.contains(la) by { if bsp.typ is MultiTerminal {} else { assert(ss[0] == sp); } }
        lemma_shift_next(&p0, &q2, &qb, self, s, sp, px, i0, bb, newstp.id as int, a2, aps@, ss);
        px = px.insert(sp);
    }
@@after 2
    let ghost qe = *self;
    let ghost ae = aps@;
@@end
    proof { lemma_shift_end(&p0, &qe, self, s, px, ae); }
@@include find_states.sig
@@start
    let ghost p0 = *self;
    let ghost st = p0.start->0;
@@loop 1
    invariant
        *self == p0, grammar_ok(&p0), vx_i1 <= p0.rules@.len(), *sp == st, p0.start is Some,
        forall|r: int, i: int| 0 <= r < vx_i1 && 0 <= i < rhs_of(&p0, r).len() ==> (#[trigger] rhs_of(&p0, r)[i]).0 != st,
    decreases p0.rules@.len() - vx_i1,
@@head 1
    let ghost r1 = vx_i1 - 1;
    proof { assert(p0.rules@[r1].id == r1); }
@@loop 2
    invariant
        *self == p0, grammar_ok(&p0), *sp == st, 0 <= r1 < p0.the_rules.data@.len(), rp__id == r1, vx_i2 <= rhs_of(&p0, r1).len(),
        forall|i: int| 0 <= i < vx_i2 ==> (#[trigger] rhs_of(&p0, r1)[i]).0 != st,
    decreases rhs_of(&p0, r1).len() - vx_i2,
@@loop 3
    invariant
        grammar_ok(&p0), sym_in(&p0, st), rules@ == own_rules(&p0, st), vx_i3 <= rules@.len(), p0.the_configs.data@.len() == 0,
        starting(&p0, self, st, vx_i3 as int, basis@),
    decreases rules@.len() - vx_i3,
@@head 3
    let ghost m3 = vx_i3 - 1;
    let ghost q3 = *self;
    let ghost b3 = basis@;
    proof { assert(own_rules(&p0, st)[m3] == rp); assert(is_rule(&p0, rp.id as int)); }
@@before-call add_config
    let ghost qm = *self;
    proof { lemma_mark(&p0, &q3, self, st, m3, b3, rp); }
@@after-let cfg
    let ghost qa = *self;
@@tail 3
    proof { lemma_first(&p0, &qm, &qa, self, st, m3, b3, basis@, rp, cfg); }
@@before-call get_state
    let ghost qs = *self;
    let ghost bs = basis@;
    proof { lemma_started(&p0, self, st, basis@); lemma_members(&p0, self); }
@@end
    proof {
        let q = &*self;
        lemma_went_start(&p0, &qs, self, st, bs);
    }
@@raw
pub open spec fn key_of(p: &Pomelo, c: ConfigId) -> LrItem { (p.the_rules.data@[lcfg(p, c.id as int).rule.id as int].index as int, lcfg(p, c.id as int).dot as int) }
pub open spec fn same_list(p: &Pomelo, v: Seq<ConfigId>, w: Seq<ConfigId>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] nth_item(p, v, i) == nth_item(p, w, i) }
/// slice::sort_by with a comparison that answers as config_cmp (proved of the closures)
#[verifier::external_body]
pub fn vx_sort_configs(v: &mut Vec<ConfigId>, p: &Pomelo)
    requires ids_in(p, old(v)@), cfgs_ok(p),
    ensures forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> !item_less(key_of(p, #[trigger] final(v)@[j]), key_of(p, #[trigger] final(v)@[i])),
        reordered(old(v)@, final(v)@, 0),
{ unimplemented!() }
@@include auto_frames.vxi
@@include auto_get.vxi
@@include auto_push.vxi
@@include auto_shift.vxi
@@include auto_start.vxi
@@raw
@@include epilogue.vxi
