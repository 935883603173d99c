//! expect: ok
//! Reading an input view while it is alive is fine (twin of the failing witnesses).
pub fn f(i: &glicol_synth::Input<128>) -> &[glicol_synth::Buffer<128>] {
    let _id: usize = i.node_id;
    i.buffers()
}
