//! replay HARNESS FILE: runs a harness natively on the values of a solver counterexample.
//! Exit 101: the real code violates the property on them. 0: it does not. 3: bad values.
#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    let mut args = std::env::args().skip(1);
    let name = args.next().expect("harness");
    let file = args.next().expect("file");
    let Some(f) = md_recover_verif::replay::lookup(&name) else {
        eprintln!("no such harness: {name}");
        std::process::exit(4);
    };
    md_recover_verif::sym::load(&file);
    f();
    println!("replay: {name}: the property holds on these values");
}
