#[global_allocator]
static ALLOC: harness::engine::Counting = harness::engine::Counting;

fn main() {
    std::process::exit(harness::cli::main());
}
