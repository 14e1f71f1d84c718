@@props C14 C11
@@include prelude.vxi
@@include acttab_fns.vxi
@@include epilogue.vxi
