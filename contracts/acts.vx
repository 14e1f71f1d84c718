@@props C05 C06
@@include prelude.vxi
@@include types.vxi
@@include doc_prec.vxi
@@raw
use ActionDetail::*;
@@include acts_fns.vxi
@@include epilogue.vxi
