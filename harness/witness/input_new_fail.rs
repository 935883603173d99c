//! expect: fail E0624|E0599
//! Nobody outside the library makes an input view by calling its constructor.
pub fn f(b: &[glicol_synth::Buffer<128>]) -> glicol_synth::Input<128> {
    glicol_synth::Input::new(b, 0)
}
