//! expect: fail E0277
//! A box that may hold a thread-bound node must not itself be sendable.
fn needs_send<T: Send>() {}
pub fn f() {
    needs_send::<glicol_synth::BoxedNode<128>>();
}
