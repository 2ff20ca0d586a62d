#[global_allocator]
static A: symrt::Guarded = symrt::Guarded;
fn main() {
    symrt::main(h_cfg::ENTRIES);
}
