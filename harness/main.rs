#[macro_use]
mod common;
mod c01;
mod c02;
mod c03;
mod c04;
mod c07;
mod c08;
mod c11;
mod c13;
mod c16;
mod c17;
mod c20;
mod c22;
mod c23;
mod c24;
mod c26;
mod c27;
mod pm;
mod single;
mod stubs;

fn main() {
    let all: Vec<sym::Scenario> = [c01::ALL, c02::ALL, c03::ALL, c04::ALL, c07::ALL, c08::ALL, c11::ALL, c13::ALL, c16::ALL, c17::ALL, c20::ALL, c22::ALL, c23::ALL, c24::ALL, c26::ALL, c27::ALL].concat();
    let mut names: Vec<&str> = all.iter().map(|s| s.name).collect();
    names.sort();
    assert!(names.windows(2).all(|n| n[0] != n[1]), "two scenarios of one name");
    sym::main(&all)
}
