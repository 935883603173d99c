//! expect: fail E0515|E0597|E0505|E0521|lifetime
//! What is read through an input view must not outlive the view.
pub fn f(i: glicol_synth::Input<128>) -> &'static [glicol_synth::Buffer<128>] {
    let s: &'static [glicol_synth::Buffer<128>] = i.buffers();
    s
}
