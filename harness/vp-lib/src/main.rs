#[path = "../../vp-native/src/exec.rs"]
mod exec;
mod lang;
#[path = "../../vp-native/src/load.rs"]
mod load;
mod native;
#[path = "../../vp-wasm/src/node.rs"]
mod node;
#[path = "../../vp-native/src/pipe.rs"]
mod pipe;
#[path = "../../vp-fx/src/shared.rs"]
mod shared;
mod start;
mod tail;
mod wasm;
use tribute_runtime as _;
#[global_allocator]
static ALLOC: native::Routed = native::Routed;
fn main() {
    let mut v = native::props();
    v.extend(wasm::props());
    v.extend(start::props());
    v.extend(tail::props());
    v.push(engine::Property { id: "C32", lanes: vec![native::box_lane(), wasm::box_lane()], assumptions: vec![], sweeps: vec![] });
    engine::main(v);
}
