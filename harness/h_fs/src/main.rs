#[global_allocator]
static A: symrt::Guarded = symrt::Guarded;
fn main() {
    h_fs::fs::linked();
    symrt::main(h_fs::ENTRIES);
}
