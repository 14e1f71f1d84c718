@@props C02 C04 C05 C06 C14 C15
@@include prelude.vxi
@@include types.vxi
@@include wf.vxi
@@include doc_prec.vxi
@@raw
use ActionDetail::*;
@@include acts_fns.vxi
@@include named.vxi
@@include table.vxi
@@include numbered.vxi
@@include counted.vxi
@@include grammar.vxi
@@include lalr.vxi
@@include items.vxi
@@include conf_spec.vxi
@@include compress_spec.vxi
@@include resort_spec.vxi
@@include out.vxi
@@include emit_spec.vxi
@@stubs
@@include add_config.sig
@@include configlist_closure.sig
@@endstubs
@@include auto.vxi
@@include lookahead.vxi
@@include chain_spec.vxi
@@include front_types.vxi
@@include gathered.vxi
@@include prepared.vxi
@@stubs
@@include find_rule_precedences.sig
@@include prepare.sig
@@include normalize_rules.sig
@@include find_first_sets.sig
@@include find_states.sig
@@include find_links.sig
@@include find_follow_sets.sig
@@include find_actions.sig
@@include compress_tables.sig
@@include resort_states.sig
@@include generate_source.sig
@@fn report_output impl=Pomelo
@@endstubs
@@include chain_front.vxi
@@include chain_lemmas.vxi
@@include chain_back.vxi
@@raw
#[verifier::external_body]
pub fn vx_format() -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn error<T, M>(msg: M) -> (r: VResult<T>) ensures r is Err { unimplemented!() }
@@include made.vxi
@@fn build impl=Pomelo rettype=VResult<VxOut>
@@ret r
@@sig
    requires parsed(old(self)),
    ensures r matches Ok(o) ==> exists|w: Stages| #[trigger] made(w, o),
@@after-call prepare
        let ghost p1 = *self;
@@after-call find_rule_precedences
        let ghost p2 = *self;
@@after-call normalize_rules
        let ghost p3 = *self;
        proof {
            assert forall|i: int| 0 <= i < p2.the_rules.data@.len() implies only_code(p2.the_rules.data@[i], #[trigger] p3.the_rules.data@[i]) by { assert(coded(&p2, p2.the_rules.data@[i], p3.the_rules.data@[i])); lemma_coded_only(&p2, p2.the_rules.data@[i], p3.the_rules.data@[i]); }
            lemma_front(&p1, &p2, &p3);
            assert forall|s: SymbolId, t: int| sym_in(&p3, s) implies !#[trigger] fst(&p3, s, t) by { assert(!fst(&p1, s, t)); }
            assert forall|s: SymbolId| sym_in(&p3, s) implies !#[trigger] lam(&p3, s) by { assert(!lam(&p1, s)); }
        }
@@after-call find_first_sets
        let ghost p4 = *self;
        proof { lemma_noted_kept(&p3, &p4); }
@@after-call find_states
        let ghost q = *self;
        proof { lemma_built(&p1, &p2, &p3, &p4, &q); lemma_codes(&p1, &p2, &p3, &p4, &q); assume(fits_tables(&q)); lemma_links_in(&q); }
@@after-call find_links
        let ghost q1 = *self;
        proof { lemma_linked(&q, &q1); }
@@after-call find_follow_sets
        let ghost g = *self;
        proof { lemma_looked(&q, &q1, &g); lemma_auto_ok(&q, &g); }
@@after-call find_actions
        let ghost h = *self;
@@before-call compress_tables
        proof { assert(settled_all(&g, &h)); lemma_back(&q, &g, &h); lemma_compress_pre(&g, &h); }
@@after-call compress_tables
        let ghost c = *self;
        proof { lemma_resort_pre(&g, &h, &c); }
@@after-call resort_states
        let ghost f = *self;
        proof { lemma_emit_pre(&g, &h, &c, &f); }
@@after-let src
        proof { assert(made(Stages { s: *old(self), p: p1, q, g, h, c, f }, src)); }
@@include epilogue.vxi
