//! expect: fail E0277
//! An input view cannot be duplicated and kept.
fn needs_clone<T: Clone>() {}
pub fn f() {
    needs_clone::<glicol_synth::Input<128>>();
}
