@@props C02 C04 C15
@@include prelude.vxi
@@include types.vxi
@@include wf.vxi
@@include lalr.vxi
@@raw
/// the first m links of the i-th configuration of state k come before position (k1, i1, m1)
pub open spec fn blink_at(p: &Pomelo, k: int, i: int, m: int, c: int, d: int) -> bool {
    holds_at(p, k, i, d) && 0 <= m < lcfg(p, d).bplp@.len() && lcfg(p, d).bplp@[m].id == c
}
pub open spec fn before3(k: int, i: int, m: int, k1: int, i1: int, m1: int) -> bool { k < k1 || (k == k1 && (i < i1 || (i == i1 && m < m1))) }
pub open spec fn linked_upto(p: &Pomelo, q: &Pomelo, k1: int, i1: int, m1: int) -> bool {
    &&& cfgs_only(p, q)
    &&& forall|c: int| is_cfg(p, c) ==> fplp_only(lcfg(p, c), #[trigger] lcfg(q, c))
    &&& forall|c: int, d: int| is_cfg(p, c) && has_id(lcfg(p, c).fplp@, d) ==> #[trigger] has_id(lcfg(q, c).fplp@, d)
    &&& forall|c: int, d: int, k: int, i: int, m: int| is_cfg(p, c) && #[trigger] blink_at(p, k, i, m, c, d) && before3(k, i, m, k1, i1, m1) ==> has_id(lcfg(q, c).fplp@, d)
    &&& forall|c: int, d: int| is_cfg(p, c) && #[trigger] has_id(lcfg(q, c).fplp@, d) ==>
            has_id(lcfg(p, c).fplp@, d) || held(p, d) && has_id(lcfg(p, d).bplp@, c)
}
proof fn lemma_has_push(v: Seq<ConfigId>, x: ConfigId, d: int)
    ensures has_id(v.push(x), d) <==> has_id(v, d) || x.id == d
{
    if has_id(v, d) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).id == d; assert(v.push(x)[i].id == d); }
    if x.id == d { assert(v.push(x)[v.len() as int].id == d); }
    if has_id(v.push(x), d) { let i = choose|i: int| 0 <= i < v.push(x).len() && (#[trigger] v.push(x)[i]).id == d; if i < v.len() { assert(v[i].id == d); } }
}
@@include find_links.sig
@@start
    let ghost p0 = *self;
@@loop 1
    invariant
        states_in(&p0), blinks_in(&p0), vx_i1 <= p0.states@.len(),
        linked_upto(&p0, self, vx_i1 as int, 0, 0),
    decreases p0.states@.len() - vx_i1,
@@head 1
    let ghost k0 = vx_i1 - 1;
@@loop 2
    invariant
        states_in(&p0), blinks_in(&p0), 0 <= k0 < p0.states@.len(), *stp == p0.states@[k0], vx_i2 <= items_of(&p0, k0).len(), vx_i1 == k0 + 1,
        linked_upto(&p0, self, k0, vx_i2 as int, 0),
    decreases items_of(&p0, k0).len() - vx_i2,
@@head 2
    let ghost i0 = vx_i2 - 1;
    let ghost c2 = items_of(&p0, k0)[i0];
    proof { assert(*cfp == c2); assert(is_cfg(&p0, items_of(&p0, k0)[i0].id as int)); assert(fplp_only(lcfg(&p0, c2.id as int), lcfg(self, c2.id as int))); assert(holds_at(&p0, k0, i0, c2.id as int)); }
@@loop 3
    invariant
        states_in(&p0), blinks_in(&p0), 0 <= k0 < p0.states@.len(), *stp == p0.states@[k0], 0 <= i0 < items_of(&p0, k0).len(), vx_i1 == k0 + 1,
        *cfp == c2, c2 == items_of(&p0, k0)[i0], is_cfg(&p0, c2.id as int), holds_at(&p0, k0, i0, c2.id as int),
        vx_i3 <= lcfg(&p0, c2.id as int).bplp@.len(), lcfg(self, c2.id as int).bplp == lcfg(&p0, c2.id as int).bplp,
        linked_upto(&p0, self, k0, i0, vx_i3 as int),
    decreases lcfg(&p0, c2.id as int).bplp@.len() - vx_i3,
@@head 3
    let ghost q0 = *self;
    let ghost m0 = vx_i3 - 1;
    let ghost b3 = lcfg(&p0, c2.id as int).bplp@[m0];
    proof { assert(held(&p0, c2.id as int)); assert(ids_in(&p0, lcfg(&p0, c2.id as int).bplp@)); assert(is_cfg(&p0, b3.id as int)); assert(fplp_only(lcfg(&p0, b3.id as int), lcfg(&q0, b3.id as int))); }
@@tail 3
    proof {
        let b = b3.id as int;
        assert forall|d: int| has_id(lcfg(self, b).fplp@, d) <==> has_id(lcfg(&q0, b).fplp@, d) || c2.id == d by { lemma_has_push(lcfg(&q0, b).fplp@, c2, d); }
        assert forall|c: int| is_cfg(&p0, c) && c != b implies lcfg(self, c) == lcfg(&q0, c) by {}
        assert forall|c: int| is_cfg(&p0, c) implies fplp_only(lcfg(&p0, c), #[trigger] lcfg(self, c)) by { assert(fplp_only(lcfg(&p0, c), lcfg(&q0, c))); }
        assert forall|c: int, d: int| is_cfg(&p0, c) && has_id(lcfg(&p0, c).fplp@, d) implies #[trigger] has_id(lcfg(self, c).fplp@, d) by { assert(has_id(lcfg(&q0, c).fplp@, d)); }
        assert forall|c: int, d: int| is_cfg(&p0, c) && #[trigger] has_id(lcfg(self, c).fplp@, d) implies has_id(lcfg(&p0, c).fplp@, d) || held(&p0, d) && has_id(lcfg(&p0, d).bplp@, c) by {
            if !has_id(lcfg(&q0, c).fplp@, d) { assert(c == b && d == c2.id); assert(lcfg(&p0, d).bplp@[m0].id == c); }
        }
        assert forall|c: int, d: int, k: int, i: int, m: int| is_cfg(&p0, c) && #[trigger] blink_at(&p0, k, i, m, c, d) && before3(k, i, m, k0, i0, m0 + 1) implies has_id(lcfg(self, c).fplp@, d) by {
            if before3(k, i, m, k0, i0, m0) { assert(has_id(lcfg(&q0, c).fplp@, d)); }
            else { assert(d == c2.id); assert(c == b); lemma_has_push(lcfg(&q0, b).fplp@, c2, d); }
        }
    }
@@end
    proof {
        assert forall|c: int, d: int| is_cfg(&p0, c) implies (#[trigger] has_id(lcfg(self, c).fplp@, d) <==> has_id(lcfg(&p0, c).fplp@, d) || held(&p0, d) && has_id(lcfg(&p0, d).bplp@, c)) by {
            if held(&p0, d) && has_id(lcfg(&p0, d).bplp@, c) {
                let (k, i) = choose|k: int, i: int| #[trigger] holds_at(&p0, k, i, d);
                let m = choose|m: int| 0 <= m < lcfg(&p0, d).bplp@.len() && (#[trigger] lcfg(&p0, d).bplp@[m]).id == c;
                assert(blink_at(&p0, k, i, m, c, d));
            }
        }
    }
@@raw
pub open spec fn flowing(p: &Pomelo, q: &Pomelo) -> bool {
    &&& cfgs_only(p, q)
    &&& forall|c: int| is_cfg(p, c) ==> fws_only(lcfg(p, c), #[trigger] lcfg(q, c))
    &&& forall|c: int, t: int| is_cfg(p, c) && lcfg(p, c).fws@.contains(t) ==> #[trigger] lcfg(q, c).fws@.contains(t)
    &&& forall|c: int, t: int| is_cfg(p, c) && #[trigger] lcfg(q, c).fws@.contains(t) ==> follow(p, c, t)
}
pub open spec fn passed_on(p: &Pomelo, q: &Pomelo, c: int, d: int) -> bool { forall|t: int| #[trigger] lcfg(q, c).fws@.contains(t) ==> lcfg(q, d).fws@.contains(t) }
/// a configuration marked complete has handed on all it has
pub open spec fn settled(p: &Pomelo, q: &Pomelo) -> bool {
    forall|c: int, d: int| #[trigger] flink(p, c, d) && lcfg(q, c).status is Complete ==> passed_on(p, q, c, d)
}
pub open spec fn seen_complete(p: &Pomelo, q: &Pomelo, k1: int, i1: int) -> bool {
    forall|k: int, i: int, c: int| #[trigger] holds_at(p, k, i, c) && (k < k1 || (k == k1 && i < i1)) ==> lcfg(q, c).status is Complete
}
pub open spec fn seen_incomplete(p: &Pomelo, q: &Pomelo, k1: int, i1: int) -> bool {
    forall|k: int, i: int, c: int| #[trigger] holds_at(p, k, i, c) && (k < k1 || (k == k1 && i < i1)) ==> lcfg(q, c).status is Incomplete
}
pub open spec fn fpre(p: &Pomelo) -> bool {
    states_in(p) && flinks_in(p) && forall|c: int, d: int| #[trigger] flink(p, c, d) ==> held(p, d)
}
proof fn lemma_follow_step(p: &Pomelo, c: int, d: int, t: int)
    requires follow(p, c, t), flink(p, c, d)
    ensures follow(p, d, t)
{
    assert forall|z: ISet<(int, int)>| #[trigger] flow_closed(p, z) implies z.contains((d, t)) by { assert(z.contains((c, t))); }
}
proof fn lemma_follow_own(p: &Pomelo, c: int, t: int)
    requires is_cfg(p, c), lcfg(p, c).fws@.contains(t)
    ensures follow(p, c, t)
{}
pub open spec fn fwset(q: &Pomelo) -> ISet<(int, int)> { ISet::new(|x: (int, int)| is_cfg(q, x.0) && lcfg(q, x.0).fws@.contains(x.1)) }
@@include find_follow_sets.sig
@@start
    let ghost p0 = *self;
    proof { assert forall|c: int, t: int| is_cfg(&p0, c) && #[trigger] lcfg(self, c).fws@.contains(t) implies follow(&p0, c, t) by { lemma_follow_own(&p0, c, t); } }
@@loop 1
    invariant
        fpre(&p0), vx_i1 <= p0.states@.len(), flowing(&p0, self), seen_incomplete(&p0, self, vx_i1 as int, 0),
    decreases p0.states@.len() - vx_i1,
@@head 1
    let ghost k0 = vx_i1 - 1;
@@loop 2
    invariant
        fpre(&p0), 0 <= k0 < p0.states@.len(), *stp == p0.states@[k0], vx_i2 <= items_of(&p0, k0).len(), vx_i1 == k0 + 1,
        flowing(&p0, self), seen_incomplete(&p0, self, k0, vx_i2 as int),
    decreases items_of(&p0, k0).len() - vx_i2,
@@head 2
    let ghost q2 = *self;
    let ghost c2 = cfp.id as int;
    proof { assert(*cfp == items_of(&p0, k0)[vx_i2 - 1]); assert(is_cfg(&p0, items_of(&p0, k0)[vx_i2 - 1].id as int)); }
@@tail 2
    proof {
        assert forall|c: int| is_cfg(&p0, c) implies fws_only(lcfg(&p0, c), #[trigger] lcfg(self, c)) && lcfg(self, c).fws == lcfg(&q2, c).fws by { assert(fws_only(lcfg(&p0, c), lcfg(&q2, c))); }
        assert forall|c: int, t: int| is_cfg(&p0, c) && lcfg(&p0, c).fws@.contains(t) implies #[trigger] lcfg(self, c).fws@.contains(t) by { assert(lcfg(&q2, c).fws@.contains(t)); }
        assert forall|c: int, t: int| is_cfg(&p0, c) && #[trigger] lcfg(self, c).fws@.contains(t) implies follow(&p0, c, t) by { assert(lcfg(&q2, c).fws@.contains(t)); }
        assert forall|k: int, i: int, c: int| #[trigger] holds_at(&p0, k, i, c) && (k < k0 || (k == k0 && i < vx_i2)) implies lcfg(self, c).status is Incomplete by {
            assert(is_cfg(&p0, items_of(&p0, k)[i].id as int));
            if k < k0 || i < vx_i2 - 1 { assert(lcfg(&q2, c).status is Incomplete); }
        }
    }
@@after 1
    proof {
        assert forall|c: int, d: int| #[trigger] flink(&p0, c, d) && lcfg(self, c).status is Complete implies passed_on(&p0, self, c, d) by {
            let (k, i) = choose|k: int, i: int| #[trigger] holds_at(&p0, k, i, c);
            assert(lcfg(self, c).status is Incomplete);
        }
    }
@@loop 3
    invariant
        fpre(&p0), flowing(&p0, self), settled(&p0, self),
        !progress ==> seen_complete(&p0, self, p0.states@.len() as int, 0),
@@loop 4
    invariant
        fpre(&p0), flowing(&p0, self), settled(&p0, self), vx_i4 <= p0.states@.len(),
        !progress ==> seen_complete(&p0, self, vx_i4 as int, 0),
    decreases p0.states@.len() - vx_i4,
@@head 4
    let ghost k4 = vx_i4 - 1;
@@loop 5
    invariant
        fpre(&p0), flowing(&p0, self), settled(&p0, self), 0 <= k4 < p0.states@.len(), *stp == p0.states@[k4], vx_i5 <= items_of(&p0, k4).len(), vx_i4 == k4 + 1,
        !progress ==> seen_complete(&p0, self, k4, vx_i5 as int),
    decreases items_of(&p0, k4).len() - vx_i5,
@@head 5
    let ghost i5 = vx_i5 - 1;
    let ghost c5 = cfp.id as int;
    proof { assert(*cfp == items_of(&p0, k4)[i5]); assert(is_cfg(&p0, items_of(&p0, k4)[i5].id as int)); assert(holds_at(&p0, k4, i5, c5)); assert(held(&p0, c5));
        assert(fws_only(lcfg(&p0, c5), lcfg(self, c5))); }
@@loop 6
    invariant
        fpre(&p0), flowing(&p0, self), settled(&p0, self), is_cfg(&p0, c5), held(&p0, c5), cfp.id == c5, vx_i6 <= fplp@.len(), fplp == lcfg(&p0, c5).fplp,
        lcfg(self, c5).fws@ == fws@,
        forall|m: int, t: int| 0 <= m < vx_i6 && fws@.contains(t) ==> #[trigger] lcfg(self, fplp@[m].id as int).fws@.contains(t),
        !progress ==> seen_complete(&p0, self, k4, i5),
    decreases fplp@.len() - vx_i6,
@@head 6
    let ghost q6 = *self;
    let ghost d6 = fplp@[vx_i6 - 1].id as int;
    proof { assert(ids_in(&p0, lcfg(&p0, c5).fplp@)); assert(is_cfg(&p0, d6)); assert(has_id(lcfg(&p0, c5).fplp@, d6)); assert(flink(&p0, c5, d6)); assert(fws_only(lcfg(&p0, d6), lcfg(self, d6))); }
@@tail 6
    proof {
        assert forall|c: int| is_cfg(&p0, c) && c != d6 implies #[trigger] lcfg(self, c) == lcfg(&q6, c) by {}
        assert forall|t: int| fws@.contains(t) || lcfg(&q6, d6).fws@.contains(t) implies #[trigger] lcfg(self, d6).fws@.contains(t) by {}
        assert forall|t: int| #[trigger] lcfg(self, d6).fws@.contains(t) implies follow(&p0, d6, t) by {
            if !lcfg(&q6, d6).fws@.contains(t) { assert(lcfg(&q6, c5).fws@.contains(t)); lemma_follow_step(&p0, c5, d6, t); }
        }
        assert forall|c: int| is_cfg(&p0, c) implies fws_only(lcfg(&p0, c), #[trigger] lcfg(self, c)) by { assert(fws_only(lcfg(&p0, c), lcfg(&q6, c))); }
        assert forall|c: int, t: int| is_cfg(&p0, c) && lcfg(&p0, c).fws@.contains(t) implies #[trigger] lcfg(self, c).fws@.contains(t) by { assert(lcfg(&q6, c).fws@.contains(t)); }
        assert forall|c: int, t: int| is_cfg(&p0, c) && #[trigger] lcfg(self, c).fws@.contains(t) implies follow(&p0, c, t) by { if c != d6 { assert(lcfg(&q6, c).fws@.contains(t)); } }
        assert(flowing(&p0, self));
        assert forall|c: int, t: int| is_cfg(&p0, c) && lcfg(&q6, c).fws@.contains(t) implies #[trigger] lcfg(self, c).fws@.contains(t) by {}
        assert forall|c: int, d: int| #[trigger] flink(&p0, c, d) && lcfg(self, c).status is Complete implies passed_on(&p0, self, c, d) by {
            let (k, i) = choose|k: int, i: int| #[trigger] holds_at(&p0, k, i, c);
            assert(is_cfg(&p0, items_of(&p0, k)[i].id as int));
            assert(ids_in(&p0, lcfg(&p0, c).fplp@));
            assert(passed_on(&p0, &q6, c, d));
            assert forall|t: int| #[trigger] lcfg(self, c).fws@.contains(t) implies lcfg(self, d).fws@.contains(t) by {
                assert(lcfg(&q6, c).fws@.contains(t));
                assert(lcfg(&q6, d).fws@.contains(t));
            }
        }
        if d6 == c5 { assert(lcfg(&q6, d6).fws@.union(fws@) =~= fws@); assert(lcfg(self, c5).fws@ =~= fws@); }
        assert forall|m: int, t: int| 0 <= m < vx_i6 && fws@.contains(t) implies #[trigger] lcfg(self, fplp@[m].id as int).fws@.contains(t) by {
            assert(is_cfg(&p0, fplp@[m].id as int));
            if m < vx_i6 - 1 { assert(lcfg(&q6, fplp@[m].id as int).fws@.contains(t)); }
        }
        if !progress {
            assert forall|k: int, i: int, c: int| #[trigger] holds_at(&p0, k, i, c) && (k < k4 || (k == k4 && i < i5)) implies lcfg(self, c).status is Complete by {
                assert(is_cfg(&p0, items_of(&p0, k)[i].id as int));
                assert(lcfg(&q6, c).status is Complete);
            }
        }
    }
@@after 6
    let ghost q7 = *self;
@@tail 5
    proof {
        assert forall|c: int| is_cfg(&p0, c) implies fws_only(lcfg(&p0, c), #[trigger] lcfg(self, c)) && lcfg(self, c).fws == lcfg(&q7, c).fws by { assert(fws_only(lcfg(&p0, c), lcfg(&q7, c))); }
        assert forall|c: int, t: int| is_cfg(&p0, c) && lcfg(&p0, c).fws@.contains(t) implies #[trigger] lcfg(self, c).fws@.contains(t) by { assert(lcfg(&q7, c).fws@.contains(t)); }
        assert forall|c: int, t: int| is_cfg(&p0, c) && #[trigger] lcfg(self, c).fws@.contains(t) implies follow(&p0, c, t) by { assert(lcfg(&q7, c).fws@.contains(t)); }
        assert forall|c: int, d: int| #[trigger] flink(&p0, c, d) && lcfg(self, c).status is Complete implies passed_on(&p0, self, c, d) by {
            let (k, i) = choose|k: int, i: int| #[trigger] holds_at(&p0, k, i, c);
            assert(is_cfg(&p0, items_of(&p0, k)[i].id as int));
            assert(ids_in(&p0, lcfg(&p0, c).fplp@));
            assert forall|t: int| #[trigger] lcfg(self, c).fws@.contains(t) implies lcfg(self, d).fws@.contains(t) by {
                assert(lcfg(&q7, c).fws@.contains(t));
                if c == c5 {
                    let m = choose|m: int| 0 <= m < fplp@.len() && (#[trigger] fplp@[m]).id == d;
                    assert(fplp@[m].id == d);
                    assert(lcfg(&q7, fplp@[m].id as int).fws@.contains(t));
                } else { assert(passed_on(&p0, &q7, c, d)); assert(lcfg(&q7, d).fws@.contains(t)); }
            }
        }
        if !progress {
            assert forall|k: int, i: int, c: int| #[trigger] holds_at(&p0, k, i, c) && (k < k4 || (k == k4 && i < vx_i5)) implies lcfg(self, c).status is Complete by {
                assert(is_cfg(&p0, items_of(&p0, k)[i].id as int));
                if k < k4 || i < i5 { assert(lcfg(&q7, c).status is Complete); }
            }
        }
    }
@@end
    proof {
        let z = fwset(self);
        assert(flow_closed(&p0, z)) by {
            assert forall|c: int, d: int, t: int| #[trigger] flink(&p0, c, d) && #[trigger] z.contains((c, t)) implies z.contains((d, t)) by {
                let (k, i) = choose|k: int, i: int| #[trigger] holds_at(&p0, k, i, c);
                assert(lcfg(self, c).status is Complete);
                assert(is_cfg(&p0, items_of(&p0, k)[i].id as int));
                assert(ids_in(&p0, lcfg(&p0, c).fplp@));
                assert(passed_on(&p0, self, c, d));
                let m = choose|m: int| 0 <= m < lcfg(&p0, c).fplp@.len() && (#[trigger] lcfg(&p0, c).fplp@[m]).id == d;
                assert(is_cfg(&p0, lcfg(&p0, c).fplp@[m].id as int));
            }
            assert forall|c: int, t: int| is_cfg(&p0, c) && #[trigger] lcfg(&p0, c).fws@.contains(t) implies z.contains((c, t)) by { assert(lcfg(self, c).fws@.contains(t)); }
        }
        assert forall|c: int, t: int| is_cfg(&p0, c) implies (#[trigger] lcfg(self, c).fws@.contains(t) <==> follow(&p0, c, t)) by {
            if follow(&p0, c, t) { assert(z.contains((c, t))); }
        }
    }
@@include epilogue.vxi
