//! expect: ok
//! The engine with everything in it can be handed to the audio thread.
fn needs_send<T: Send>() {}
pub fn f() {
    needs_send::<glicol::Engine<128>>();
    needs_send::<glicol_synth::AudioContext<128>>();
    needs_send::<glicol_synth::BoxedNodeSend<128>>();
}
