//! Prints digests of what the library computes when built without worker threads.
fn main() {
    mc::builds::print_all();
}
