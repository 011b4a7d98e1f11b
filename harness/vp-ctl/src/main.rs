mod ast;
mod cps;
mod low;
mod known;
mod mkir;
mod post;
mod reject;
mod sem;
mod text;
fn main() {
    engine::main(cps::props());
}
