mod direct;
mod node;
mod prog;
fn main() {
    engine::main(prog::props());
}
