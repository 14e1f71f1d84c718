@@props C01 C02 C04 C05 C06 C07 C08 C14
@@include prelude.vxi
@@raw
pub mod lr {
use vstd::prelude::*;
@@include lr.vxi
@@raw
}
@@include types.vxi
@@include wf.vxi
@@include doc_prec.vxi
@@raw
use ActionDetail::*;
@@stubs
@@include acts_fns.vxi
@@endstubs
@@include named.vxi
@@include table.vxi
@@include numbered.vxi
@@include counted.vxi
@@include grammar.vxi
@@include lalr.vxi
@@include items.vxi
@@include conf_spec.vxi
@@include compress_spec.vxi
@@include resort_spec.vxi
@@include out.vxi
@@include emit_spec.vxi
@@stubs
@@include add_config.sig
@@include configlist_closure.sig
@@endstubs
@@include auto.vxi
@@include lookahead.vxi
@@include chain_spec.vxi
@@include front_types.vxi
@@include gathered.vxi
@@include prepared.vxi
@@stubs
@@include normalize_rules.sig
@@include find_states.sig
@@endstubs
@@include chain_lemmas.vxi
@@include chain_back.vxi
@@include made.vxi
@@include tables_spec.vxi
@@include tables_lemmas.vxi
@@include tables_main.vxi
@@include epilogue.vxi
