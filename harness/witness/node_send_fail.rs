//! expect: fail E0277
//! A node tied to its thread must not be boxed for sending.
use glicol_synth::{BoxedNodeSend, Buffer, Input, Message, Node};
pub struct Local(std::rc::Rc<u8>);
impl Node<128> for Local {
    fn process(&mut self, _i: &mut hashbrown::HashMap<usize, Input<128>>, _o: &mut [Buffer<128>]) {}
    fn send_msg(&mut self, _m: Message) {}
}
pub fn f(x: Local) -> BoxedNodeSend<128> {
    BoxedNodeSend::new(x)
}
