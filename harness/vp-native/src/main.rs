mod exec;
mod load;
mod pipe;
mod prog;
fn main() {
    engine::main(prog::props());
}
