#[global_allocator]
static A: symrt::Guarded = symrt::Guarded;
fn main() {
    h_sqf::fs::linked();
    symrt::main(h_sqf::ENTRIES);
}
