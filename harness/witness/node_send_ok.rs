//! expect: ok
//! A node that may cross threads can be boxed for sending (twin of node_send_fail).
use glicol_synth::{BoxedNodeSend, Buffer, Input, Message, Node};
pub struct Local(std::sync::Arc<u8>);
impl Node<128> for Local {
    fn process(&mut self, _i: &mut hashbrown::HashMap<usize, Input<128>>, _o: &mut [Buffer<128>]) {}
    fn send_msg(&mut self, _m: Message) {}
}
pub fn f(x: Local) -> BoxedNodeSend<128> {
    BoxedNodeSend::new(x)
}
