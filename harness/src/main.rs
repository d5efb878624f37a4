mod sim;
mod orch;
mod model;
mod reff;
mod scen;

#[global_allocator]
static A: sim::SimAlloc = sim::SimAlloc;

fn main() {
    std::process::exit(orch::main());
}
