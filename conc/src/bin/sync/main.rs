//! Fields of `sync` structs under all thread interleavings.
use conc::specs::{spec, Subjects};
use conc::*;
mod gen;

fn main() {
    driver::main(|p, thorough| {
        let s = Subjects {
            flavours: gen::flavours(),
            pairs:    gen::pairs(),
            deps:     gen::deps_flavours(),
            is_async: false,
        };
        spec(p, thorough, &s)
    })
}
