//! vx-extract: mechanical extraction of functions of /repo into Verus text.
//!
//!   vx-extract <repo> <unit.vx> <out.rs>
//!
//! Exit codes: 0 ok; 3 = an anchor named by the contract file does not exist in the source (lost
//! anchor) or a construct is outside the rewriting rules.  Never a verdict about the code.
mod emit;
mod front;
mod rewrite;
mod slice;
mod source;
mod unit;

use std::process::exit;

pub fn lost(msg: impl AsRef<str>) -> ! {
    println!("LOST-ANCHOR: {}", msg.as_ref());
    exit(3)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 4 {
        eprintln!("usage: vx-extract <repo> <unit.vx> <out.rs>");
        exit(2);
    }
    let src = source::Source::load(&a[1]);
    let unit = unit::Unit::load(&a[2]);
    let text = emit::emit(&src, &unit);
    std::fs::write(&a[3], text).unwrap();
}
