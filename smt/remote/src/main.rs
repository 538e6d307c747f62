#![allow(dead_code, unused_imports, clippy::all)]
#![allow(private_interfaces, deprecated)]
#[path = "../../harness/src/sym.rs"]
mod sym;
#[path = "../../harness/src/exec.rs"]
mod exec;
#[path = "../../harness/src/probe.rs"]
mod probe;
mod net;
mod rig;
mod c_remote;
mod c_wire;
mod c_names;
mod c_rlink;
mod c_real;

fn main() {
    let name = std::env::args().nth(1).unwrap_or_default();
    for t in [c_wire::TABLE, c_names::TABLE, c_remote::TABLE, c_rlink::TABLE, c_real::TABLE] { for (n, f) in t { if *n == name { f(); return } } }
    eprintln!("no such harness");
    std::process::exit(2)
}
