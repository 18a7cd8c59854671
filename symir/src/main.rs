mod driver;
mod exec;
mod expr;
mod ir;
mod mem;
mod run;
mod solver;

fn main() { driver::main() }
