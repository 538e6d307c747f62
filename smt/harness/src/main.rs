#![allow(dead_code, unused_imports, clippy::all)]
#![allow(private_interfaces, deprecated)]
mod sym;
mod exec;
mod probe;
mod c_order;
mod c_life;
mod c_start;
mod c_ask;
mod c_link;
mod c_refs;
mod c_data;
mod c_reply;
mod c_mbox;
mod c_mt;
mod c_thread;
mod c_many;
#[cfg(feature = "actors")]
mod c_actors;
#[cfg(feature = "macros")]
mod c_macro;

fn main() {
    let name = std::env::args().nth(1).unwrap_or_default();
    let tables = [c_order::TABLE, c_life::TABLE, c_start::TABLE, c_ask::TABLE, c_link::TABLE, c_refs::TABLE, c_data::TABLE, c_reply::TABLE, c_mbox::TABLE, c_mt::TABLE, c_thread::TABLE, c_many::TABLE];
    #[cfg(feature = "actors")]
    for (n, f) in c_actors::TABLE { if *n == name { f(); return } }
    #[cfg(feature = "macros")]
    for (n, f) in c_macro::TABLE { if *n == name { f(); return } }
    for t in tables { for (n, f) in t { if *n == name { f(); return } } }
    eprintln!("no such harness");
    std::process::exit(2)
}
