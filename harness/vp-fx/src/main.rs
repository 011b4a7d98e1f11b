#[path = "../../vp-native/src/exec.rs"]
mod exec;
mod fxi;
mod genfx;
#[path = "../../vp-native/src/load.rs"]
mod load;
mod native;
#[path = "../../vp-wasm/src/node.rs"]
mod node;
#[path = "../../vp-native/src/pipe.rs"]
mod pipe;
mod shared;
mod wasm;
mod ident;
use tribute_runtime as _;
fn main() {
    if ident::child() {
        return;
    }
    let mut v = native::props();
    v.extend(wasm::props());
    v.extend(ident::props());
    engine::main(v);
}
