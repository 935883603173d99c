//! expect: fail E0451|E0560|E0063
//! Nobody outside the library makes an input view field by field.
pub fn f(b: &[glicol_synth::Buffer<128>], i: glicol_synth::Input<128>) -> glicol_synth::Input<128> {
    glicol_synth::Input { buffers_ptr: b.as_ptr(), buffers_len: b.len(), node_id: i.node_id }
}
