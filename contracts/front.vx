@@props C05 C06 C15
@@include prelude.vxi
@@include types.vxi
@@include wf.vxi
@@include doc_prec.vxi
@@raw
use ActionDetail::*;
@@include acts_fns.vxi
@@include named.vxi
@@include table.vxi
@@include numbered.vxi
@@include grammar.vxi
@@include lalr.vxi
@@include items.vxi
@@include ready_spec.vxi
@@include front_types.vxi
@@include create_rule.sig
@@include normalize_rules.sig
@@include normalize_body.vxi
@@include gathered.vxi
@@include front_spec.vxi
@@include prepared.vxi
@@include front_lemmas.vxi
@@include prepare.sig
@@include prepare_body.vxi
@@include epilogue.vxi
