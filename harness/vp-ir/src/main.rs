mod analyses;
mod conv;
mod hist;
mod misc;
mod passes;
mod pm;
mod text;
mod valid;
fn main() {
    let mut v = passes::props();
    v.extend(text::props());
    v.extend(hist::props());
    v.extend(valid::props());
    v.extend(analyses::props());
    v.extend(pm::props());
    v.extend(conv::props());
    v.extend(misc::props());
    engine::main(v);
}
