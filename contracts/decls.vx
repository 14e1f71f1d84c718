@@props C05 C06 C15
@@include prelude.vxi
@@include types.vxi
@@include wf.vxi
@@include doc_prec.vxi
@@raw
use ActionDetail::*;
@@stubs
@@include acts_fns.vxi
@@endstubs
@@include named.vxi
@@include table.vxi
@@include numbered.vxi
@@include grammar.vxi
@@include lalr.vxi
@@include items.vxi
@@include ready_spec.vxi
@@include front_types.vxi
@@include gathered.vxi
@@stubs
@@include create_rule.sig
@@endstubs
@@include decls_types.vxi
@@include decls_spec.vxi
@@include front_spec.vxi
@@include decls_lemmas.vxi
@@include reads_spec.vxi
@@include reads_lemmas.vxi
@@include bad_spec.vxi
@@raw
/// a string equals a string slice when their characters are equal
#[verifier::external_body]
proof fn ax_str_eq(x: &std::string::String, y: &str)
    ensures <std::string::String as vstd::std_specs::cmp::PartialEqSpec<&str>>::obeys_eq_spec(), vstd::std_specs::cmp::PartialEqSpec::<&str>::eq_spec(x, &y) == (x@ == y@),
{}
@@include decls_body.vxi
@@include epilogue.vxi
