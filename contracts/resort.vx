@@props C14 C02 C11
@@include prelude.vxi
@@include types.vxi
@@include wf.vxi
@@include doc_prec.vxi
@@raw
use ActionDetail::*;
@@include acts_fns.vxi
@@include named.vxi
@@include table.vxi
@@stubs
@@include symbol_find.sig
@@endstubs
@@include numbered.vxi
@@include counted.vxi
@@include resort_spec.vxi
@@raw
/// the order of the states: most gotos first, then most shifts and reductions, then the newest
pub open spec fn state_less(t: &VecRef<State>, a: StateId, b: StateId) -> bool {
    let x = t.data@[a.id as int]; let y = t.data@[b.id as int];
    x.n_nt_act > y.n_nt_act || (x.n_nt_act == y.n_nt_act && (x.n_tkn_act > y.n_tkn_act || (x.n_tkn_act == y.n_tkn_act && x.state_num > y.state_num)))
}
/// slice::sort_by with a comparison that answers Less exactly for state_less (proved of the
/// closure), which is a strict weak order (lemma_state_order)
#[verifier::external_body]
pub fn vx_sort_states(v: &mut Vec<StateId>, lo: usize, t: &VecRef<State>)
    requires lo <= old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() ==> (#[trigger] old(v)@[i]).id < t.data@.len(),
    ensures reordered(old(v)@, final(v)@, lo as int),
        forall|i: int, j: int| lo <= i < j < final(v)@.len() ==> !state_less(t, #[trigger] final(v)@[j], #[trigger] final(v)@[i]),
{ unimplemented!() }
proof fn lemma_state_order(t: &VecRef<State>, a: StateId, b: StateId, c: StateId)
    ensures !state_less(t, a, a),
        state_less(t, a, b) && state_less(t, b, c) ==> state_less(t, a, c),
        !state_less(t, a, b) && !state_less(t, b, c) ==> !state_less(t, a, c),
{}
@@fn state_resort_cmp impl=Pomelo
@@ret r
@@sig
    requires a.id < self.the_states.data@.len(), b.id < self.the_states.data@.len(),
    ensures r is Less <==> state_less(&self.the_states, a, b),
@@include resort_states.sig
@@sort 1
vx_sort_states(&mut RECVBASE, RECVLO, &self.the_states)
impl Pomelo { fn vx_cmp_resort_states(&self, ARG0: &StateId, ARG1: &StateId) -> (r: Ordering)
    requires ARG0.id < self.the_states.data@.len(), ARG1.id < self.the_states.data@.len(),
    ensures r is Less <==> state_less(&self.the_states, *ARG0, *ARG1),
BODY }
@@start
    let ghost p0 = *self;
@@loop 1
    invariant
        p0 == *old(self), resort_pre(&p0), vx_i1 <= p0.states@.len(),
        *self == (Pomelo { the_states: self.the_states, ..p0 }),
        self.the_states.data@.len() == p0.the_states.data@.len(),
        forall|x: int| 0 <= x < p0.the_states.data@.len() ==> only_numbers(#[trigger] p0.the_states.data@[x], self.the_states.data@[x]),
        forall|k: int| 0 <= k < vx_i1 ==> counted(&p0, #[trigger] self.the_states.data@[p0.states@[k].id as int]),
    decreases p0.states@.len() - vx_i1,
@@head 1
    let ghost k0 = vx_i1 - 1;
    let ghost id0 = p0.states@[k0].id as int;
    let ghost sa = *self;
    let ghost a = acts_of(&p0, k0);
    proof { assert(rstate_ok(&p0, k0)); assert(only_numbers(p0.the_states.data@[id0], self.the_states.data@[id0])); }
@@loop 2
    invariant
        *self == sa, sa == (Pomelo { the_states: sa.the_states, ..p0 }), resort_pre(&p0), 0 <= k0 < p0.states@.len(),
        id0 == p0.states@[k0].id, stp.id == id0, id0 < sa.the_states.data@.len(), a == acts_of(&p0, k0), a == sa.the_states.data@[id0].actions@, rstate_ok(&p0, k0),
        sa.the_states.data@.len() == p0.the_states.data@.len(),
        forall|x: int| 0 <= x < p0.the_states.data@.len() ==> only_numbers(#[trigger] p0.the_states.data@[x], sa.the_states.data@[x]),
        vx_i2 <= a.len(), 0 <= n_tkn_act <= vx_i2, 0 <= n_nt_act <= vx_i2,
        n_tkn_act == 0 <==> !acts_in(&p0, a, vx_i2 as int, 0, p0.num_terminals as int),
        n_nt_act == 0 <==> !acts_in(&p0, a, vx_i2 as int, p0.num_terminals as int, p0.default_index as int),
        i_dflt == (if exists|i: int| i < vx_i2 && #[trigger] on(a, i, dflt_sym(&p0)) { dflt_code(&p0, a) } else { (p0.states@.len() + p0.rules@.len()) as int }),
    decreases a.len() - vx_i2,
@@head 2
    let ghost i0 = vx_i2 - 1;
    let ghost x0 = a[i0].look_ahead;
    let ghost n_tkn0 = n_tkn_act as int;
    let ghost n_nt0 = n_nt_act as int;
    proof {
        assert(action_in_range(&p0, a[i0]));
        assert(sym(&p0, x0).index <= p0.default_index);
        assert(is_numbered(&p0, p0.the_symbols.data@[x0.id as int], x0.id as int));
    }
@@tail 2
    proof {
        let nt = p0.num_terminals as int;
        let di = p0.default_index as int;
        lemma_acts_step(&p0, a, i0, 0, nt);
        assert(acts_on(&p0, a, i0, 0, nt) <==> active(a[i0].detail) && sym(&p0, x0).index < nt);
        assert(acts_on(&p0, a, i0, nt, di) <==> active(a[i0].detail) && nt <= sym(&p0, x0).index < di);
        assert(n_tkn_act == n_tkn0 + if acts_on(&p0, a, i0, 0, nt) { 1int } else { 0int });
        assert(n_nt_act == n_nt0 + if acts_on(&p0, a, i0, nt, di) { 1int } else { 0int });
        lemma_acts_step(&p0, a, i0, nt, di);
        if active(a[i0].detail) && sym(&p0, x0).index == di {
            assert(x0 == dflt_sym(&p0));
            assert(on(a, i0, dflt_sym(&p0)));
            lemma_at(a, i0, dflt_sym(&p0));
        } else {
            assert(!on(a, i0, dflt_sym(&p0)));
        }
        if exists|i: int| i < i0 && #[trigger] on(a, i, dflt_sym(&p0)) { let i = choose|i: int| i < i0 && #[trigger] on(a, i, dflt_sym(&p0)); assert(i < i0 + 1); }
    }
@@tail 1
    proof {
        assert(only_numbers(p0.the_states.data@[id0], self.the_states.data@[id0]));
        let n = a.len() as int;
        assert(self.the_states.data@[id0].actions@ == a);
        if at(a, dflt_sym(&p0)) is Some { let c = choose|c: int| #[trigger] on(a, c, dflt_sym(&p0)); assert(c < n && on(a, c, dflt_sym(&p0))); }
        assert(counted(&p0, self.the_states.data@[id0]));
        assert forall|k: int| 0 <= k < k0 + 1 implies counted(&p0, #[trigger] self.the_states.data@[p0.states@[k].id as int]) by {
            if k < k0 { assert(p0.states@[k].id != p0.states@[k0].id); }
        }
        assert forall|x: int| 0 <= x < p0.the_states.data@.len() implies only_numbers(#[trigger] p0.the_states.data@[x], self.the_states.data@[x]) by {
            assert(only_numbers(p0.the_states.data@[x], sa.the_states.data@[x]));
        }
    }
@@after 1
    let ghost sb = *self;
@@after-let states
    proof { assert forall|i: int| 0 <= i < states@.len() implies (#[trigger] states@[i]).id < self.the_states.data@.len() by { assert(rstate_ok(&p0, i)); } }
@@loop 3
    invariant
        p0 == *old(self), resort_pre(&p0), vx_i3 <= states@.len(), reordered(p0.states@, states@, 1),
        *self == (Pomelo { the_states: self.the_states, states: self.states, ..p0 }),
        self.the_states.data@.len() == p0.the_states.data@.len(),
        forall|x: int| 0 <= x < p0.the_states.data@.len() ==> only_numbers(#[trigger] p0.the_states.data@[x], self.the_states.data@[x]),
        forall|k: int| 0 <= k < states@.len() ==> (#[trigger] states@[k]).id < self.the_states.data@.len(),
        forall|i: int, j: int| 0 <= i < j < states@.len() ==> (#[trigger] states@[i]).id != (#[trigger] states@[j]).id,
        forall|k: int| 0 <= k < states@.len() ==> counted(&p0, #[trigger] self.the_states.data@[states@[k].id as int]),
        forall|k: int| 0 <= k < vx_i3 ==> (#[trigger] self.the_states.data@[states@[k].id as int]).state_num == k,
        gotos_fall(&Pomelo { states: states, ..*self }),
    decreases states@.len() - vx_i3,
@@before 3
    proof {
        let (f, g) = choose|f: Seq<int>, g: Seq<int>| #[trigger] perm_fn(f, g, p0.states@.len()) && picked(p0.states@, states@, f);
        assert forall|k: int| 0 <= k < states@.len() implies (#[trigger] states@[k]).id < self.the_states.data@.len() && counted(&p0, self.the_states.data@[states@[k].id as int]) by {
            assert(rstate_ok(&p0, f[k]));
        }
        assert forall|i: int, j: int| 0 <= i < j < states@.len() implies (#[trigger] states@[i]).id != (#[trigger] states@[j]).id by {
            assert(f[i] != f[j]);
            assert(p0.states@[f[i]].id != p0.states@[f[j]].id);
        }
    }
@@head 3
    let ghost sc = *self;
    let ghost k3 = vx_i3 - 1;
@@tail 3
    proof {
        assert forall|x: int| 0 <= x < p0.the_states.data@.len() implies only_numbers(#[trigger] p0.the_states.data@[x], self.the_states.data@[x]) by {
            assert(only_numbers(p0.the_states.data@[x], sc.the_states.data@[x]));
        }
        assert forall|k: int| 0 <= k < states@.len() implies counted(&p0, #[trigger] self.the_states.data@[states@[k].id as int]) by {
            assert(counted(&p0, sc.the_states.data@[states@[k].id as int]));
        }
        assert forall|k: int| 0 <= k < k3 + 1 implies (#[trigger] self.the_states.data@[states@[k].id as int]).state_num == k by {
            if k < k3 { assert(states@[k].id != states@[k3].id); assert(sc.the_states.data@[states@[k].id as int].state_num == k); }
        }
    }
@@include epilogue.vxi
