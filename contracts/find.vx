@@props C14
@@include prelude.vxi
@@include types.vxi
@@include wf.vxi
@@include named.vxi
@@raw
/// a string equals a string slice when their characters are equal
#[verifier::external_body]
proof fn ax_str_eq(x: &std::string::String, y: &str)
    ensures <std::string::String as vstd::std_specs::cmp::PartialEqSpec<&str>>::obeys_eq_spec(), vstd::std_specs::cmp::PartialEqSpec::<&str>::eq_spec(x, &y) == (x@ == y@),
{}
@@include symbol_find.sig
@@loop 1
    invariant symbols_in(self), named(self, name) == named_from(self, name@, vx_i1 as int)
    decreases self.symbols.len() - vx_i1
@@after-let b
            proof { ax_str_eq(&b.name, name); }
@@include epilogue.vxi
