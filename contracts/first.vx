@@props C02 C04 C15
@@include prelude.vxi
@@include types.vxi
@@include wf.vxi
@@include grammar.vxi
@@fn is_lambda impl=Symbol
@@ret r
@@sig
    ensures r == (self.typ matches SymbolType::NonTerminal { lambda, .. } && lambda),
@@raw
pub open spec fn lamset(p: &Pomelo) -> ISet<SymbolId> { ISet::new(|s: SymbolId| sym_in(p, s) && lam(p, s)) }
pub open spec fn fstset(p: &Pomelo) -> ISet<(SymbolId, int)> { ISet::new(|x: (SymbolId, int)| sym_in(p, x.0) && fst(p, x.0, x.1)) }
pub open spec fn lam_done(p: &Pomelo, r: int) -> bool { all_in(p, r, rhs_of(p, r).len() as int, lamset(p)) ==> lam(p, lhs_of(p, r)) }
pub open spec fn fst_done(p: &Pomelo, q: &Pomelo, r: int, k: int) -> bool {
    forall|j: int, t: int| j < k && #[trigger] leads(p, fstset(q), r, j, t) ==> fst(q, lhs_of(p, r), t)
}
pub open spec fn pre(p: &Pomelo) -> bool {
    &&& symbols_in(p) && rules_in(p) && lhs_nt(p)
    &&& forall|s: SymbolId, t: int| sym_in(p, s) ==> !#[trigger] fst(p, s, t)
    &&& forall|s: SymbolId| sym_in(p, s) ==> !#[trigger] lam(p, s)
}
/// while the nullable symbols are sought
pub open spec fn ph1(p: &Pomelo, q: &Pomelo) -> bool {
    &&& pre(p) && noted(p, q)
    &&& forall|s: SymbolId| sym_in(p, s) && #[trigger] lam(q, s) ==> nullable(p, s)
    &&& forall|s: SymbolId, t: int| sym_in(p, s) ==> !#[trigger] fst(q, s, t)
}
/// while the first sets are built
pub open spec fn ph2(p: &Pomelo, q: &Pomelo) -> bool {
    &&& pre(p) && noted(p, q)
    &&& forall|s: SymbolId| sym_in(p, s) ==> #[trigger] lam(q, s) == nullable(p, s)
    &&& forall|s: SymbolId, t: int| sym_in(p, s) && #[trigger] fst(q, s, t) ==> first(p, s, t)
}
pub open spec fn same_fst(p: &Pomelo, q: &Pomelo, q2: &Pomelo) -> bool { forall|s: SymbolId, t: int| sym_in(p, s) ==> #[trigger] fst(q2, s, t) == fst(q, s, t) }
/// only the first set of lh has grown, by what it can start with
pub open spec fn grew(p: &Pomelo, q: &Pomelo, q2: &Pomelo, lh: SymbolId) -> bool {
    &&& noted(p, q2)
    &&& forall|x: int| 0 <= x < p.the_symbols.data@.len() && x != lh.id ==> #[trigger] q2.the_symbols.data@[x] == q.the_symbols.data@[x]
    &&& lam(q2, lh) == lam(q, lh)
    &&& forall|t: int| #[trigger] fst(q, lh, t) ==> fst(q2, lh, t)
    &&& forall|t: int| #[trigger] fst(q2, lh, t) ==> fst(q, lh, t) || first(p, lh, t)
}
proof fn lemma_grew(p: &Pomelo, q: &Pomelo, q2: &Pomelo, lh: SymbolId)
    requires ph2(p, q), grew(p, q, q2, lh)
    ensures ph2(p, q2)
{
    assert forall|s: SymbolId| sym_in(p, s) implies #[trigger] lam(q2, s) == nullable(p, s) by {
        assert(lam(q, s) == nullable(p, s));
        if s.id == lh.id { assert(s == lh); } else { assert(q2.the_symbols.data@[s.id as int] == q.the_symbols.data@[s.id as int]); }
    }
    assert forall|s: SymbolId, t: int| sym_in(p, s) && #[trigger] fst(q2, s, t) implies first(p, s, t) by {
        if s.id == lh.id { assert(s == lh); if fst(q, lh, t) {} } else { assert(q2.the_symbols.data@[s.id as int] == q.the_symbols.data@[s.id as int]); assert(fst(q, s, t)); }
    }
}
/// what leads a rule starts its left-hand side
proof fn lemma_lead(p: &Pomelo, q: &Pomelo, r: int, k: int, t: int)
    requires ph2(p, q), is_rule(p, r), 0 <= k < rhs_of(p, r).len(), sym_in(p, rhs_of(p, r)[k].0), nullable_upto(p, rhs_of(p, r), 0, k), begins(p, fstset(q), rhs_of(p, r)[k].0, t)
    ensures first(p, lhs_of(p, r), t)
{
    let x = rhs_of(p, r)[k].0;
    assert forall|z: ISet<(SymbolId, int)>| #[trigger] first_closed(p, z) implies z.contains((lhs_of(p, r), t)) by {
        if sym(p, x).typ is NonTerminal { assert(fst(q, x, t)); assert(first(p, x, t)); assert(z.contains((x, t))); }
        assert(leads(p, z, r, k, t));
    }
}
/// one more symbol of rule r looked at
pub open spec fn step6(p: &Pomelo, sc: &Pomelo, q: &Pomelo, r: int, k: int, pg1: bool, pg: bool) -> bool {
    let lh = lhs_of(p, r); let x = rhs_of(p, r)[k].0;
    &&& grew(p, sc, q, lh)
    &&& pg1 ==> pg
    &&& !pg ==> forall|t: int| #[trigger] fst(q, lh, t) ==> fst(sc, lh, t)
    &&& x == lh || forall|t: int| begins(p, fstset(sc), x, t) ==> #[trigger] fst(q, lh, t)
}
proof fn lemma_step6(p: &Pomelo, sb: &Pomelo, sc: &Pomelo, q: &Pomelo, r: int, k: int, pg1: bool, pg: bool)
    requires ph2(p, sc), is_rule(p, r), rule_in(p, p.the_rules.data@[r]), 0 <= k < rhs_of(p, r).len(), step6(p, sc, q, r, k, pg1, pg),
        nullable_upto(p, rhs_of(p, r), 0, k), !pg1 ==> same_fst(p, sb, sc) && fst_done(p, sc, r, k),
    ensures ph2(p, q), !pg ==> same_fst(p, sb, q) && fst_done(p, q, r, k + 1),
        !pg && !nullable(p, rhs_of(p, r)[k].0) ==> fst_done(p, q, r, rhs_of(p, r).len() as int),
        nullable(p, rhs_of(p, r)[k].0) ==> nullable_upto(p, rhs_of(p, r), 0, k + 1),
{
    let lh = lhs_of(p, r); let x = rhs_of(p, r)[k].0;
    lemma_grew(p, sc, q, lh);
    if !pg {
        assert(same_fst(p, sc, q)) by {
            assert forall|s: SymbolId, t: int| sym_in(p, s) implies #[trigger] fst(q, s, t) == fst(sc, s, t) by {
                if s.id == lh.id { assert(s == lh); if fst(sc, lh, t) {} } else { assert(q.the_symbols.data@[s.id as int] == sc.the_symbols.data@[s.id as int]); }
            }
        }
        assert forall|s: SymbolId, t: int| sym_in(p, s) implies #[trigger] fst(q, s, t) == fst(sb, s, t) by { assert(fst(sc, s, t) == fst(sb, s, t)); }
        assert forall|j: int, t: int| j < rhs_of(p, r).len() && #[trigger] leads(p, fstset(q), r, j, t) && (j <= k || !nullable(p, x)) implies fst(q, lh, t) by {
            if j > k { assert(nullable(p, rhs_of(p, r)[k].0)); }
            let y = rhs_of(p, r)[j].0;
            assert(sym_in(p, y));
            assert(begins(p, fstset(sc), y, t)) by { assert(fst(q, y, t) == fst(sc, y, t)); }
            if j < k { assert(leads(p, fstset(sc), r, j, t)); assert(fst(sc, lh, t)); }
            else if x == lh { assert(sym(p, x).typ is NonTerminal); }
        }
    }
}
@@include find_first_sets.sig
@@start
    let ghost p0 = *self;
@@loop 1
    invariant
        ph1(&p0, self),
    ensures
        forall|r: int| #[trigger] is_rule(&p0, r) ==> lam_done(self, r),
@@loop 2
    invariant
        ph1(&p0, self), vx_i2 <= p0.rules@.len(),
        !progress ==> forall|r: int| 0 <= r < vx_i2 && #[trigger] is_rule(&p0, r) ==> lam_done(self, r),
    decreases p0.rules@.len() - vx_i2,
@@head 2
    let ghost r0 = vx_i2 - 1;
    let ghost sa = *self;
    proof { assert(rule_in(&p0, p0.the_rules.data@[r0])); assert(is_rule(&p0, r0)); assert(p0.rules@[r0].id == r0);
        assert(sym_noted(p0.the_symbols.data@[lhs_of(&p0, r0).id as int], self.the_symbols.data@[lhs_of(&p0, r0).id as int])); }
@@loop 3
    invariant_except_break
        all_lambda, vx_i3 <= rp.rhs@.len(),
        all_in(&p0, r0, vx_i3 as int, lamset(&sa)),
    invariant
        *self == sa, ph1(&p0, &sa), is_rule(&p0, r0), rp == p0.the_rules.data@[r0], rule_in(&p0, rp),
    ensures
        all_lambda <==> all_in(&p0, r0, rp.rhs@.len() as int, lamset(&sa)),
    decreases rp.rhs@.len() - vx_i3,
@@head 3
    proof { assert(sym_in(&p0, rp.rhs@[vx_i3 - 1].0)); assert(rhs_of(&p0, r0)[vx_i3 - 1] == rp.rhs@[vx_i3 - 1]); }
@@tail 2
    proof {
        let s = lhs_of(&p0, r0);
        if all_lambda {
            assert(nullable(&p0, s)) by {
                assert forall|z: ISet<SymbolId>| #[trigger] null_closed(&p0, z) implies z.contains(s) by {
                    assert(all_in(&p0, r0, rhs_of(&p0, r0).len() as int, z)) by {
                        assert forall|j: int| 0 <= j < rhs_of(&p0, r0).len() implies z.contains((#[trigger] rhs_of(&p0, r0)[j]).0) by {
                            assert(lamset(&sa).contains(rhs_of(&p0, r0)[j].0));
                            assert(lam(&sa, rhs_of(&p0, r0)[j].0));
                            assert(nullable(&p0, rhs_of(&p0, r0)[j].0));
                        }
                    }
                }
            }
            assert forall|x: SymbolId| sym_in(&p0, x) && #[trigger] lam(self, x) implies nullable(&p0, x) by { if x.id != s.id { assert(lam(&sa, x)); } else { assert(x == s); } }
            assert forall|x: SymbolId, t: int| sym_in(&p0, x) implies !#[trigger] fst(self, x, t) by { assert(!fst(&sa, x, t)); }
            assert forall|x: int| 0 <= x < p0.the_symbols.data@.len() implies sym_noted(p0.the_symbols.data@[x], #[trigger] self.the_symbols.data@[x]) by {
                assert(sym_noted(p0.the_symbols.data@[x], sa.the_symbols.data@[x])); }
        } else {
            assert(rhs_of(self, r0) == rhs_of(&p0, r0));
            assert(lam_done(self, r0));
        }
    }
@@after 1
    let ghost s1_ = *self;
    proof {
        assert(null_closed(&p0, lamset(self))) by {
            assert forall|r: int| #[trigger] is_rule(&p0, r) && all_in(&p0, r, rhs_of(&p0, r).len() as int, lamset(self)) implies lamset(self).contains(lhs_of(&p0, r)) by {
                assert(lam_done(self, r)); assert(rule_in(&p0, p0.the_rules.data@[r])); assert(rhs_of(self, r) == rhs_of(&p0, r));
            }
        }
        assert forall|s: SymbolId| sym_in(&p0, s) implies #[trigger] lam(self, s) == nullable(&p0, s) by {
            if nullable(&p0, s) { assert(lamset(self).contains(s)); }
        }
    }
@@loop 4
    invariant
        ph2(&p0, self),
    ensures
        forall|r: int| #[trigger] is_rule(&p0, r) ==> fst_done(&p0, self, r, rhs_of(&p0, r).len() as int),
@@after 4
    proof {
        let z = fstset(self);
        assert(first_closed(&p0, z)) by {
            assert forall|r: int, k: int, t: int| is_rule(&p0, r) && #[trigger] leads(&p0, z, r, k, t) implies z.contains((lhs_of(&p0, r), t)) by {
                assert(fst_done(&p0, self, r, rhs_of(&p0, r).len() as int));
                assert(rule_in(&p0, p0.the_rules.data@[r]));
                assert(fst(self, lhs_of(&p0, r), t));
            }
        }
        assert forall|s: SymbolId, t: int| sym_in(&p0, s) && sym(&p0, s).typ is NonTerminal implies #[trigger] fst(self, s, t) == first(&p0, s, t) by {
            if first(&p0, s, t) { assert(z.contains((s, t))); }
        }
    }
@@loop 5
    invariant
        ph2(&p0, self), vx_i5 <= p0.rules@.len(),
        !progress ==> forall|r: int| 0 <= r < vx_i5 && #[trigger] is_rule(&p0, r) ==> fst_done(&p0, self, r, rhs_of(&p0, r).len() as int),
    decreases p0.rules@.len() - vx_i5,
@@head 5
    let ghost r0 = vx_i5 - 1;
    let ghost sb = *self;
    let ghost pg0 = progress;
    let ghost lh = lhs_of(&p0, r0);
    proof { assert(rule_in(&p0, p0.the_rules.data@[r0])); assert(is_rule(&p0, r0)); assert(p0.rules@[r0].id == r0); }
@@loop 6
    invariant_except_break
        vx_i6 <= rp.rhs@.len(),
        nullable_upto(&p0, rp.rhs@, 0, vx_i6 as int),
        !progress ==> fst_done(&p0, self, r0, vx_i6 as int),
    invariant
        ph2(&p0, self), is_rule(&p0, r0), rp == p0.the_rules.data@[r0], rule_in(&p0, rp), *s1 == lh, lh == lhs_of(&p0, r0), sym_in(&p0, lh),
        pg0 ==> progress, !progress ==> same_fst(&p0, &sb, self), ph2(&p0, &sb),
    ensures
        !progress ==> fst_done(&p0, self, r0, rp.rhs@.len() as int),
    decreases rp.rhs@.len() - vx_i6,
@@head 6
    let ghost k0 = vx_i6 - 1;
    let ghost sc = *self;
    let ghost x2 = rp.rhs@[vx_i6 - 1].0;
    let ghost pg1 = progress;
    proof { assert(sym_in(&p0, x2)); assert(rhs_of(&p0, r0) == rp.rhs@); assert(rp.rhs@[k0] == rhs_of(&p0, r0)[k0]);
        assert(sym_noted(p0.the_symbols.data@[x2.id as int], self.the_symbols.data@[x2.id as int]));
        assert(sym_noted(p0.the_symbols.data@[lh.id as int], self.the_symbols.data@[lh.id as int]));
        assert(typ_in(&p0, p0.the_symbols.data@[x2.id as int].typ));
        assert(lam(self, x2) == nullable(&p0, x2));
        assert(lam(self, lh) == nullable(&p0, lh));
    }
    let ghost fin6 = sc.the_symbols.data@[lh.id as int].typ;
@@at-break 6
    proof {
        assert forall|x: int| 0 <= x < p0.the_symbols.data@.len() && x != lh.id implies #[trigger] self.the_symbols.data@[x] == sc.the_symbols.data@[x] by {}
        assert(lam(self, lh) == lam(&sc, lh));
        assert forall|t: int| #[trigger] fst(&sc, lh, t) implies fst(self, lh, t) by {}
        assert forall|t: int| #[trigger] fst(self, lh, t) implies fst(&sc, lh, t) || first(&p0, lh, t) by {
            if !fst(&sc, lh, t) { assert(begins(&p0, fstset(&sc), x2, t)); lemma_lead(&p0, &sc, r0, k0, t); }
        }
        assert forall|x: int| 0 <= x < p0.the_symbols.data@.len() implies sym_noted(p0.the_symbols.data@[x], #[trigger] self.the_symbols.data@[x]) by {
            assert(sym_noted(p0.the_symbols.data@[x], sc.the_symbols.data@[x])); }
        assert(noted(&p0, self));
        assert(x2 == lh || forall|t: int| begins(&p0, fstset(&sc), x2, t) ==> #[trigger] fst(self, lh, t));
        lemma_step6(&p0, &sb, &sc, self, r0, k0, pg1, progress);
    }
@@at-continue 6
    proof {
        assert forall|x: int| 0 <= x < p0.the_symbols.data@.len() && x != lh.id implies #[trigger] self.the_symbols.data@[x] == sc.the_symbols.data@[x] by {}
        assert(lam(self, lh) == lam(&sc, lh));
        assert forall|t: int| #[trigger] fst(&sc, lh, t) implies fst(self, lh, t) by {}
        assert forall|t: int| #[trigger] fst(self, lh, t) implies fst(&sc, lh, t) || first(&p0, lh, t) by {
            if !fst(&sc, lh, t) { assert(begins(&p0, fstset(&sc), x2, t)); lemma_lead(&p0, &sc, r0, k0, t); }
        }
        assert forall|x: int| 0 <= x < p0.the_symbols.data@.len() implies sym_noted(p0.the_symbols.data@[x], #[trigger] self.the_symbols.data@[x]) by {
            assert(sym_noted(p0.the_symbols.data@[x], sc.the_symbols.data@[x])); }
        assert(noted(&p0, self));
        assert(x2 == lh || forall|t: int| begins(&p0, fstset(&sc), x2, t) ==> #[trigger] fst(self, lh, t));
        lemma_step6(&p0, &sb, &sc, self, r0, k0, pg1, progress);
    }
@@tail 6
    proof {
        assert forall|x: int| 0 <= x < p0.the_symbols.data@.len() && x != lh.id implies #[trigger] self.the_symbols.data@[x] == sc.the_symbols.data@[x] by {}
        assert(lam(self, lh) == lam(&sc, lh));
        assert forall|t: int| #[trigger] fst(&sc, lh, t) implies fst(self, lh, t) by {}
        assert forall|t: int| #[trigger] fst(self, lh, t) implies fst(&sc, lh, t) || first(&p0, lh, t) by {
            if !fst(&sc, lh, t) { assert(begins(&p0, fstset(&sc), x2, t)); lemma_lead(&p0, &sc, r0, k0, t); }
        }
        assert forall|x: int| 0 <= x < p0.the_symbols.data@.len() implies sym_noted(p0.the_symbols.data@[x], #[trigger] self.the_symbols.data@[x]) by {
            assert(sym_noted(p0.the_symbols.data@[x], sc.the_symbols.data@[x])); }
        assert(noted(&p0, self));
        assert(x2 == lh || forall|t: int| begins(&p0, fstset(&sc), x2, t) ==> #[trigger] fst(self, lh, t));
        lemma_step6(&p0, &sb, &sc, self, r0, k0, pg1, progress);
    }
@@after 6
    proof {
        if !progress {
            assert forall|r: int| 0 <= r < vx_i5 && #[trigger] is_rule(&p0, r) implies fst_done(&p0, self, r, rhs_of(&p0, r).len() as int) by {
                if r < r0 {
                    assert(fst_done(&p0, &sb, r, rhs_of(&p0, r).len() as int));
                    assert(rule_in(&p0, p0.the_rules.data@[r]));
                    assert forall|j: int, t: int| j < rhs_of(&p0, r).len() && #[trigger] leads(&p0, fstset(self), r, j, t) implies fst(self, lhs_of(&p0, r), t) by {
                        let y = rhs_of(&p0, r)[j].0;
                        assert(sym_in(&p0, y));
                        assert(fst(self, y, t) == fst(&sb, y, t));
                        assert(leads(&p0, fstset(&sb), r, j, t));
                        assert(fst(&sb, lhs_of(&p0, r), t));
                    }
                }
            }
        }
    }
@@loop 7
    invariant
        ph2(&p0, &sc), vx_i7 <= sub_sym@.len(), pg1 ==> progress, is_rule(&p0, r0), x2 == rhs_of(&p0, r0)[k0].0, 0 <= k0 < rhs_of(&p0, r0).len(), sym_in(&p0, x2), sym_in(&p0, lh), lh == lhs_of(&p0, r0), symbols_in(&p0), rules_in(&p0),
        vx_pre == sc.the_symbols, sym(&p0, x2).typ == SymbolType::MultiTerminal(*sub_sym), typ_in(&p0, sym(&p0, x2).typ), nullable_upto(&p0, rhs_of(&p0, r0), 0, k0),
        *final(s1_first_set) == fin,
        forall|t: int| fst(&sc, lh, t) ==> #[trigger] s1_first_set@.contains(t),
        forall|t: int| #[trigger] s1_first_set@.contains(t) ==> fst(&sc, lh, t) || has_index(&p0, sub_sym@, vx_i7 as int, t),
        forall|t: int| has_index(&p0, sub_sym@, vx_i7 as int, t) ==> #[trigger] s1_first_set@.contains(t),
        !progress ==> forall|t: int| #[trigger] s1_first_set@.contains(t) ==> fst(&sc, lh, t),
    decreases sub_sym@.len() - vx_i7,
@@head 7
    proof { let ss = sub_sym@[vx_i7 - 1]; assert(sym(&p0, x2).typ->MultiTerminal_0@[vx_i7 - 1] == ss); assert(sym_in(&p0, ss)); assert(sym_noted(p0.the_symbols.data@[ss.id as int], sc.the_symbols.data@[ss.id as int])); }
@@before 7
    let ghost fin = *final(s1_first_set);
@@include epilogue.vxi
