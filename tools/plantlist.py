S = "rs/synth/src/node/"
plant("P01", "C09", "a resonant low-pass filter whose cutoff is a reference, inserted in a chain",
      "A positioned connection is appended instead of inserted, so the filter takes the modulator for its signal.",
      [(S + "filter/rlpf.rs", "                self.input_order.insert(pos, index)",
        "                if pos + 1 < self.input_order.len() {\n                    self.input_order.insert(pos, index)\n                } else {\n                    self.input_order.push(index)\n                }")],
      '''
fn main() {
    let a = sound("o: saw 100.0 >> lpf ~m 1.0\\n~m: constsig 300.0", 20).0;
    let loud = a.iter().fold(0f32, |m, x| m.max(x.abs()));
    println!("peak {}", loud);
    assert!(loud > 0.01 && loud < 20.0);
}
''')
plant("P02", "C10", "a node handed over boxed inside another box, given a message",
      "The boxed node type forwards only numeric settings, so order and symbol messages vanish.",
      [(S + "boxed.rs", "impl<const N: usize> Node<N> for BoxedNodeSend<N> {\n    fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {\n        self.0.process(inputs, output)\n    }\n    fn send_msg(&mut self, info: Message) {\n        self.0.send_msg(info)\n    }",
        "impl<const N: usize> Node<N> for BoxedNodeSend<N> {\n    fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {\n        self.0.process(inputs, output)\n    }\n    fn send_msg(&mut self, info: Message) {\n        match info {\n            Message::ResetOrder => {}\n            other => self.0.send_msg(other),\n        }\n    }")],
      '''
use glicol_synth::{BoxedNodeSend, Message, Node, Buffer, Input};
use std::sync::{Arc, Mutex};
#[derive(Clone)]
struct Log(Arc<Mutex<Vec<String>>>);
impl Node<128> for Log {
    fn process(&mut self, _i: &mut hashbrown::HashMap<usize, Input<128>>, _o: &mut [Buffer<128>]) {}
    fn send_msg(&mut self, m: Message) { self.0.lock().unwrap().push(format!("{:?}", m)); }
}
fn main() {
    let log = Arc::new(Mutex::new(vec![]));
    let mut n = BoxedNodeSend::<128>::new(Log(log.clone()));
    n.send_msg(Message::Index(3));
    n.send_msg(Message::ResetOrder);
    n.send_msg(Message::SetToNumber(0, 1.0));
    println!("{:?}", log.lock().unwrap());
    assert_eq!(log.lock().unwrap().len(), 3);
}
''')
plant("P03", "C31", "a triangle whose period is not a whole number of frames, over more than one period",
      "The phase of a triangle starts every period at zero instead of where it arrives, so it is out of tune.",
      [(S + "oscillator/tri_osc.rs", "                    self.phase -= 1.\n", "                    self.phase = 0.\n")],
      '''
fn main() {
    let a = sound("o: tri 7000.0", 80).0;
    let want: Vec<f32> = (0..a.len()).map(|i| { let p = (i as f64 * 7000.0 / 44100.0).fract(); (2.0 * ((2.0 * p - 1.0).abs() - 0.5)) as f32 }).collect();
    let off = a.iter().zip(&want).fold(0f32, |m, (x, y)| m.max((x - y).abs()));
    println!("{}", off);
    assert!(off < 0.05);
}
''')
plant("P04", "C01", "a program that only loses a chain still referred to",
      "A rejected program that added no node leaves the chain table without the chains it dropped.",
      [("rs/main/src/lib.rs", "        self.index_info.clone_from(&self.index_info_backup);\n        e",
        "        if !self.temp_node_index.is_empty() {\n            self.index_info.clone_from(&self.index_info_backup);\n        }\n        e")],
      '''
fn main() {
    let mut e = engine();
    e.update_with_code("o: constsig 1.0 >> mul ~a; ~a: constsig 0.5").unwrap();
    let a = play(&mut e, 3).0;
    assert!(e.update_with_code("o: constsig 1.0 >> mul ~a").is_err());
    e.send_msg("~a,0,0,0.25");
    let b = play(&mut e, 3).0;
    assert!(a[300] == 0.5);
    assert_eq!(b[300], 0.25);
    e.update_with_code("o: constsig 1.0 >> mul ~a; ~a: constsig 0.75").unwrap();
    assert_eq!(play(&mut e, 3).0[300], 0.75);
}
''')
plant("P05", "C03", "an edit that only reorders the nodes of a chain",
      "Old connections are cleared only when nodes were added or removed, so a reordered chain keeps its old wiring as well.",
      [("rs/main/src/lib.rs", "        self.context.graph.clear_edges();\n",
        "        if !(self.temp_node_index.is_empty() && graph_diff.idx_to_remove.is_empty()) {\n            self.context.graph.clear_edges();\n        }\n")],
      '''
fn main() {
    let mut e = engine();
    e.update_with_code("o: constsig 3.0 >> add 1.0 >> mul 2.0").unwrap();
    assert_eq!(play(&mut e, 3).0[300], 8.0);
    e.update_with_code("o: constsig 3.0 >> mul 2.0 >> add 1.0").unwrap();
    let x = play(&mut e, 4).0[400];
    println!("{}", x);
    assert_eq!(x, 7.0);
}
''')
plant("P06", "C02", "a balance node carried over by an edit",
      "After an edit the two sides of a kept balance node are connected in alphabetical instead of written order.",
      [("rs/parser/src/nodes.rs", "            Self::Balance(Balance { left, right }) => vec![left, right],",
        "            Self::Balance(Balance { left, right }) => vec![(*left).min(*right), (*left).max(*right)],")],
      '''
fn main() {
    let mut e = engine();
    e.update_with_code("o: balance ~b ~a; ~a: constsig 1.0; ~b: constsig 2.0").unwrap();
    let (l, r) = play(&mut e, 3);
    assert_eq!((l[300], r[300]), (2.0, 1.0));
    e.update_with_code("o: balance ~b ~a; ~a: constsig 1.0; ~b: constsig 3.0").unwrap();
    let (l, r) = play(&mut e, 3);
    println!("{} {}", l[300], r[300]);
    assert_eq!((l[300], r[300]), (3.0, 1.0));
}
''')
plant("P07", "C20", "a seed set before a reset",
      "A reset keeps the seed of the session before it.",
      [("rs/main/src/lib.rs", "        self.track_amp = 1.0;\n        self.seed = 42;\n        self.clock = 0;\n        self.livecoding", "        self.track_amp = 1.0;\n        self.clock = 0;\n        self.livecoding")],
      '''
fn main() {
    let code = "o: speed 8.0 >> seq 60 60 60 60 >> mul 1.0 >> choose 1 2 3 4 5 6 7";
    let a = sound(code, 700).0;
    let mut e = engine();
    e.set_seed(7);
    e.update_with_code(code).unwrap();
    play(&mut e, 10);
    e.reset();
    e.livecoding = false;
    e.update_with_code(code).unwrap();
    assert_eq!(a, play(&mut e, 700).0);
}
''')
plant("P08", "C21", "only the looping of a list of points edited",
      "Two lists of points are taken to be the same when only their looping differs, so the edit is ignored.",
      [("rs/parser/src/nodes.rs", "#[derive(PartialEq, Debug)]\npub struct Points {\n    pub points: Vec<(TimeList, f32)>,\n    pub span: f32,\n    pub is_looping: bool,\n}\n",
        "#[derive(Debug)]\npub struct Points {\n    pub points: Vec<(TimeList, f32)>,\n    pub span: f32,\n    pub is_looping: bool,\n}\n\nimpl PartialEq for Points {\n    fn eq(&self, other: &Self) -> bool {\n        self.points == other.points && self.span == other.span\n    }\n}\n")],
      '''
fn main() {
    let once = "o: [0=>1.0 0.01=>2.0] *1.0";
    let looping = "o: [0=>1.0 0.01=>2.0] *1.0 !";
    let want = sound(looping, 1500).0;
    let mut e = engine();
    e.update_with_code(once).unwrap();
    e.update_with_code(looping).unwrap();
    let got = play(&mut e, 1500).0;
    println!("{} {}", want[1499 * 128], got[1499 * 128]);
    assert!(near(&want, &got));
}
''')
plant("P09", "C23", "a node with two references, the second of a chain that does not exist",
      "Only the first reference of each node is checked, so a missing second one crashes the update.",
      [("rs/main/src/lib.rs", "                for refname in names {\n                    // println!(\"ref check", "                for refname in names.iter().take(1) {\n                    // println!(\"ref check")],
      '''
fn main() {
    let mut e = engine();
    assert!(e.update_with_code("o: balance ~a ~gone; ~a: constsig 1.0").is_err());
}
''')
plant("P10", "C30", "a sequence of two notes or more",
      "Each note of a sequence silences the frame of the notes before it, so only the last one of a bar is heard.",
      [(S + "sequencer/seq.rs", "                                *out = 2.0f32.powf((midi as f32 - 60.0) / 12.0)\n                            }\n                        }\n",
        "                                *out = 2.0f32.powf((midi as f32 - 60.0) / 12.0)\n                            }\n                        } else {\n                            *out = 0.0\n                        }\n")],
      '''
fn main() {
    let a = sound("o: seq 60 72", 800).0;
    println!("{} {}", a[0], a[44100]);
    assert!((a[0] - 1.0).abs() < 1e-3 && (a[44100] - 2.0).abs() < 1e-3);
}
''')
plant("P11", "C29", "a stereo sample triggered again before it has ended",
      "The left side of a stereo sample that is still playing is cut off by the next trigger.",
      [(S + "sampling/sampler.rs", "output[0][i] += self.sample.0[left as usize] * left_portion", "output[0][i] = self.sample.0[left as usize] * left_portion")],
      '''
use glicol_synth::{sampling::Sampler, AudioContextBuilder, signal::Impulse};
fn main() {
    let data: &'static [f32] = Box::leak(vec![1.0f32; 400].into_boxed_slice());
    let mut c = AudioContextBuilder::<128>::new().sr(44100).channels(2).build();
    let i = c.add_mono_node(Impulse::new().freq(441.0).sr(44100));
    let s = c.add_stereo_node(Sampler::new((data, 2, 44100), 44100));
    c.connect(i, s);
    c.connect(s, c.destination);
    let (mut l, mut r) = (vec![], vec![]);
    for _ in 0..4 { let b = c.next_block(); l.extend_from_slice(&b[0][..]); r.extend_from_slice(&b[1][..]); }
    println!("{} {}", l[350], r[350]);
    assert!(near(&l, &r));
}
''')
plant("P12", "C32", "a bass drum whose length is not the tenth of a second of its sweep",
      "The pitch of a bass drum is swept by its loudness envelope instead of its own short one.",
      [(S + "compound/bd.rs", "context.chain(vec![input, env_pitch, mul, add, sin]);", "context.chain(vec![input, env_amp, mul, add, sin]);")],
      '''
fn main() {
    let a = sound("o: imp 1 >> bd 0.3", 120).0;
    let b = sound("~env: imp 1 >> envperc 0.003 0.3\\n~ep: imp 1 >> envperc 0.01 0.1\\n~p: ~ep >> mul 50 >> add 60\\no: sin ~p >> mul ~env", 120).0;
    assert!(near(&a, &b));
}
''')
