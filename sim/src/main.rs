#![allow(invalid_runtime_symbol_definitions, unknown_lints, suspicious_runtime_symbol_definitions)]
mod canon;
mod doc;
mod driver;
mod gen;
mod interpose;
mod props;
mod scn;
mod stream;

#[global_allocator]
static ALLOC: simrt::heap::Alloc = simrt::heap::Alloc;

fn main() { driver::main() }
