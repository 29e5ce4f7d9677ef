#[global_allocator]
static W: pkstl::__wipe::Watch = pkstl::__wipe::Watch;
fn main() {
    pkstl::__wipe::main()
}
