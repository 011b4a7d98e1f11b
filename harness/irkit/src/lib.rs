pub mod b;
pub mod gen_ir;
pub mod interp;
pub mod iso;
pub mod wf;
pub mod pretty;
