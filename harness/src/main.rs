#![allow(clippy::all)]
mod cmp;
mod dict;
mod driver;
mod engine;
mod gen;
mod parsers;
mod props;
mod refm;
mod tree;

#[global_allocator]
static ALLOC: driver::Counting = driver::Counting;

fn main() {
    std::process::exit(driver::main());
}
