From 9eb07f954a7947de9641e6034ef533427c0a78f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:03 +0000
Subject: [PATCH 01/49] fix: pass messages on to a boxed node

A node wrapped in a Box silently ignored every message, unlike the same
node behind a reference or a BoxedNode.
---
 rs/synth/src/node/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/node/mod.rs b/rs/synth/src/node/mod.rs
index 2e59686..4c96b42 100644
--- a/rs/synth/src/node/mod.rs
+++ b/rs/synth/src/node/mod.rs
@@ -116,7 +116,9 @@ where
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
         (**self).process(inputs, output)
     }
-    fn send_msg(&mut self, _info: crate::Message) {}
+    fn send_msg(&mut self, info: crate::Message) {
+        (**self).send_msg(info)
+    }
 }
 
 impl<const N: usize> Node<N> for dyn Fn(&HashMap<usize, Input<N>>, &mut [Buffer<N>]) {
-- 
2.43.0


From f8e1599db91bf482ad4c38fa7bd7fa350859aa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:07 +0000
Subject: [PATCH 02/49] fix: let the drum and synth compounds forget their
 input order

bd, hh, sn, sawsynth, squsynth and trisynth ignored the order reset, so an
input connected after a reset was never the one they listened to.
---
 rs/synth/src/node/compound/bd.rs       | 1 +
 rs/synth/src/node/compound/hh.rs       | 1 +
 rs/synth/src/node/compound/sawsynth.rs | 1 +
 rs/synth/src/node/compound/sn.rs       | 1 +
 rs/synth/src/node/compound/squsynth.rs | 1 +
 rs/synth/src/node/compound/trisynth.rs | 1 +
 6 files changed, 6 insertions(+)

diff --git a/rs/synth/src/node/compound/bd.rs b/rs/synth/src/node/compound/bd.rs
index 9c62790..f6374af 100644
--- a/rs/synth/src/node/compound/bd.rs
+++ b/rs/synth/src/node/compound/bd.rs
@@ -72,6 +72,7 @@ impl<const N: usize> Node<N> for Bd<N> {
                 .send_msg(Message::SetToNumber(1, value)),
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/compound/hh.rs b/rs/synth/src/node/compound/hh.rs
index 5be4453..d06c852 100644
--- a/rs/synth/src/node/compound/hh.rs
+++ b/rs/synth/src/node/compound/hh.rs
@@ -65,6 +65,7 @@ impl<const N: usize> Node<N> for Hh<N> {
                 .send_msg(Message::SetToNumber(1, value)),
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/compound/sawsynth.rs b/rs/synth/src/node/compound/sawsynth.rs
index f6a462c..769c45d 100644
--- a/rs/synth/src/node/compound/sawsynth.rs
+++ b/rs/synth/src/node/compound/sawsynth.rs
@@ -72,6 +72,7 @@ impl<const N: usize> Node<N> for SawSynth<N> {
             },
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/compound/sn.rs b/rs/synth/src/node/compound/sn.rs
index 8bb0813..cb583fc 100644
--- a/rs/synth/src/node/compound/sn.rs
+++ b/rs/synth/src/node/compound/sn.rs
@@ -81,6 +81,7 @@ impl<const N: usize> Node<N> for Sn<N> {
                 .send_msg(Message::SetToNumber(1, value)),
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/compound/squsynth.rs b/rs/synth/src/node/compound/squsynth.rs
index 3a2c767..82ab19a 100644
--- a/rs/synth/src/node/compound/squsynth.rs
+++ b/rs/synth/src/node/compound/squsynth.rs
@@ -60,6 +60,7 @@ impl<const N: usize> Node<N> for SquSynth<N> {
 
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/compound/trisynth.rs b/rs/synth/src/node/compound/trisynth.rs
index 1392b33..5a015e8 100644
--- a/rs/synth/src/node/compound/trisynth.rs
+++ b/rs/synth/src/node/compound/trisynth.rs
@@ -60,6 +60,7 @@ impl<const N: usize> Node<N> for TriSynth<N> {
 
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => self.input_order.clear(),
             _ => {}
         }
     }
-- 
2.43.0


From 0bd8a72a7ba89295807a01456beb09de092f975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:37 +0000
Subject: [PATCH 03/49] fix: carry over each node of an edited chain once and
 in its new place

A node of the old chain was kept when any equal node appeared in the new
one, so repeated or reordered nodes left stale nodes in the chain or
panicked on insertion.
---
 rs/main/src/lib.rs | 67 +++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 33 deletions(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 8562a3c..797df68 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -24,7 +24,8 @@ type YokedAst = Yoke<Ast<'static>, Box<str>>;
 
 #[derive(Default)]
 struct GraphDiff<'engine, const N: usize> {
-    node_remove_list: Vec<(&'engine str, usize)>,
+    // for each chain, where each of its nodes was in the old chain
+    carried_list: Vec<(&'engine str, Vec<Option<usize>>)>,
     node_update_list: Vec<(&'engine str, usize, Vec<GlicolPara<&'engine str>>)>,
     refpairlist: Vec<(Vec<String>, &'engine str, usize)>,
     node_add_list: VecDeque<(&'engine str, usize, GlicolNodeData<N>)>,
@@ -227,35 +228,33 @@ impl<const N: usize> Engine<N> {
                     continue;
                 };
 
-                // we gotta go through every node which exists in the old chain and check if it
-                // exists in the new one.
-                for (old_idx, old_comp) in old_chain.iter().enumerate() {
-                    match new_chain
+                // we gotta go through every node which exists in the new chain and check if there is
+                // one in the old chain that can be carried over; each can be carried over only once
+                let mut carried: Vec<Option<usize>> = Vec::with_capacity(new_chain.len());
+                for (idx, new_comp) in new_chain.iter().enumerate() {
+                    let old_idx = old_chain
                         .iter()
                         .enumerate()
-                        .find(|(_, comp)| old_comp == *comp)
-                    {
-                        // If it exists in the new chain, then we have to update it
-                        Some((idx, new_comp)) => {
-                            // the paras can be the same
-                            // but if the paras are refs, the source chain of refs can change
-                            // e.g. the main chain is o: constsig 42 >> mul ~a
-                            // the ref ~a: constsig 0.5 becomes ~a: constsig 0.5 >> mul 0.5
-                            // need to reconnect them with the ref source
-                            // note that when update, the reflist is cleared,
-                            // so we will need to rebuild all the ref connection anyway
-                            let reflist = new_comp.all_references();
-                            if !reflist.is_empty() {
-                                let owned_reflist =
-                                    reflist.into_iter().map(|s| s.to_owned()).collect();
-                                graph_diff
-                                    .refpairlist
-                                    .push((owned_reflist, chain_name, idx));
-                            }
+                        .find(|(i, comp)| *comp == new_comp && !carried.contains(&Some(*i)))
+                        .map(|(i, _)| i);
+                    // If it exists in the old chain, then we have to update it
+                    if old_idx.is_some() {
+                        // the paras can be the same
+                        // but if the paras are refs, the source chain of refs can change
+                        // e.g. the main chain is o: constsig 42 >> mul ~a
+                        // the ref ~a: constsig 0.5 becomes ~a: constsig 0.5 >> mul 0.5
+                        // need to reconnect them with the ref source
+                        // note that when update, the reflist is cleared,
+                        // so we will need to rebuild all the ref connection anyway
+                        let reflist = new_comp.all_references();
+                        if !reflist.is_empty() {
+                            let owned_reflist = reflist.into_iter().map(|s| s.to_owned()).collect();
+                            graph_diff
+                                .refpairlist
+                                .push((owned_reflist, chain_name, idx));
                         }
-                        // If it doesn't exist in the new chain,
-                        None => graph_diff.node_remove_list.push((chain_name, old_idx)),
                     }
+                    carried.push(old_idx);
                 }
 
                 // then look through the new chain and find everything which doesn't exist in the
@@ -265,13 +264,14 @@ impl<const N: usize> Engine<N> {
                     new_chain
                         .iter()
                         .enumerate()
-                        .filter(|(_, comp)| !old_chain.iter().any(|old_comp| old_comp == *comp)),
+                        .filter(|(i, _)| carried[*i].is_none()),
                     &mut graph_diff,
                     &self.samples_dict,
                     self.sr,
                     self.bpm,
                     self.seed,
                 )?;
+                graph_diff.carried_list.push((chain_name, carried));
             }
 
             // there are some chains show up in old_ast but not in new ast
@@ -286,14 +286,15 @@ impl<const N: usize> Engine<N> {
                         .1
                 }));
 
-            // Then remove them all from self
-            while let Some((key, position_in_chain)) = graph_diff.node_remove_list.pop() {
+            // Then keep the carried over nodes in their new order and remove all the others from self
+            for (key, carried) in graph_diff.carried_list.drain(..) {
                 if let Some(chain) = self.index_info.get_mut(key) {
                     // touch the index is fine, as we have a backup
-                    let node_index = chain[position_in_chain];
-
-                    graph_diff.idx_to_remove.push(node_index);
-                    chain.remove(position_in_chain);
+                    let old_chain = std::mem::take(chain);
+                    chain.extend(carried.iter().flatten().map(|i| old_chain[*i]));
+                    graph_diff
+                        .idx_to_remove
+                        .extend(old_chain.iter().filter(|id| !chain.contains(id)));
                 }
             }
         } else {
-- 
2.43.0


From 5d42d17208817c18d9ba1ab7e99f92180ebc0698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:58 +0000
Subject: [PATCH 04/49] fix: forget the old input order of every node on an
 update

Only nodes with references were told to forget it, so in all other nodes
the list of inputs grew by one with every update.
---
 rs/main/src/lib.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 797df68..823ca5c 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -500,11 +500,12 @@ impl<const N: usize> Engine<N> {
         };
 
         self.context.graph.clear_edges();
+        // all the connections are made anew, so no node should remember the old ones
+        self.context.send_msg_to_all(Message::ResetOrder);
         // println!("self.index_info in handle_connection{:?}", self.index_info);
         // println!("self.refpairlist in handle_connection {:?}", self.refpairlist);
 
         // now we have to go through and actually make the graph with all the connections we have
-        let mut already_reset = std::collections::HashSet::new();
         for (reflist, name, new_idx) in &graph_diff.refpairlist {
             let Some(chain) = self.index_info.get(*name) else {
                 return Err(EngineError::NonExistReference(name.to_string()));
@@ -512,11 +513,6 @@ impl<const N: usize> Engine<N> {
 
             let index = chain[*new_idx];
 
-            if !already_reset.contains(&index) {
-                self.context.graph[index].node.send_msg(Message::ResetOrder);
-                already_reset.insert(index);
-            }
-
             for refname in reflist {
                 if refname.contains("..") {
                     // println!("look for {}", &refname.replace("..", ""));
-- 
2.43.0


From 4c177a56ea3b960cc470cf6609661e470c5bfd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:58 +0000
Subject: [PATCH 05/49] fix: ignore a message for a position the chain does not
 have

---
 rs/main/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 823ca5c..e432442 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -88,14 +88,18 @@ impl<const N: usize> Engine<N> {
 
             let chain_pos = chain_pos.parse::<usize>().unwrap_or_default();
             let param_pos = param_pos.parse::<u8>().unwrap_or_default();
-            if self.index_info.contains_key(chain_name) {
+            let node_index = self
+                .index_info
+                .get(chain_name)
+                .and_then(|chain| chain.get(chain_pos));
+            if let Some(&node_index) = node_index {
                 match value.parse::<f32>() {
                     // todo: check the name and pos
-                    Ok(v) => self.context.graph[self.index_info[chain_name][chain_pos]]
+                    Ok(v) => self.context.graph[node_index]
                         .node
                         .send_msg(Message::SetToNumber(param_pos, v)),
                     Err(_) => {
-                        self.context.graph[self.index_info[chain_name][chain_pos]]
+                        self.context.graph[node_index]
                             .node
                             .send_msg(Message::SetToSymbol(param_pos, value.to_string()));
                     }
-- 
2.43.0


From b5869164b14f5c141cdeb0b4d69a9ea7f520e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:58 +0000
Subject: [PATCH 06/49] fix: provide the input chain again after a reset

---
 rs/main/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index e432442..0c4840f 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -154,7 +154,11 @@ impl<const N: usize> Engine<N> {
         self.context.reset();
         self.ast = None;
         self.index_info.clear();
-        self.index_info_backup.clear();
+        self.index_info.insert(
+            "~input".to_string(),
+            vec![self.context.add_stereo_node(Pass {})],
+        );
+        self.index_info_backup.clone_from(&self.index_info);
         self.temp_node_index.clear();
         self.samples_dict.clear();
         self.bpm = 120.;
-- 
2.43.0


From 84783d6e1824e4c9033a32d32f0281fe4139988b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:27 +0000
Subject: [PATCH 07/49] fix: survive live input when a program replaced the
 input chain

A program may define a chain with the name of the input chain. With a
mono node in it, or once it is dropped again, the next block with live
input panicked.
---
 rs/main/src/lib.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 0c4840f..645fe6f 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -572,14 +572,12 @@ impl<const N: usize> Engine<N> {
 
     pub fn next_block(&mut self, buf: Vec<&[f32]>) -> &[Buffer<N>] {
         //  -> &Vec<Buffer<N>>
-        if !buf.is_empty() {
-            self.context.graph[self.index_info[&"~input".to_string()][0]].buffers[0]
-                .copy_from_slice(buf[0]);
-        }
-
-        if buf.len() > 1 {
-            self.context.graph[self.index_info[&"~input".to_string()][0]].buffers[1]
-                .copy_from_slice(buf[1]);
+        // a program that had a chain of this name and dropped it leaves no input chain
+        if let Some(chain) = self.index_info.get("~input") {
+            let channels = &mut self.context.graph[chain[0]].buffers;
+            for (channel, samples) in channels.iter_mut().zip(buf) {
+                channel.copy_from_slice(samples);
+            }
         }
 
         self.context
-- 
2.43.0


From eb5b20eb4ff27cc7902f6b6a23af1558f3461c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:57 +0000
Subject: [PATCH 08/49] fix: report nodes that are not supported instead of
 panicking

---
 rs/main/src/error.rs |  2 ++
 rs/main/src/util.rs  | 28 ++++++++++++++++++++++------
 rs/wasm/src/lib.rs   |  2 ++
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/rs/main/src/error.rs b/rs/main/src/error.rs
index ff1257d..422e339 100644
--- a/rs/main/src/error.rs
+++ b/rs/main/src/error.rs
@@ -7,6 +7,7 @@ pub enum EngineError {
     ParsingError(Box<pest::error::Error<glicol_parser::Rule>>),
     NonExistReference(String),
     NonExistSample(String),
+    NotSupported(String),
 }
 
 impl From<Box<Error<Rule>>> for EngineError {
@@ -31,6 +32,7 @@ impl std::fmt::Display for EngineError {
             Self::ParsingError(err) => writeln!(f, "Parsing error: {err}"),
             EngineError::NonExistSample(v) => writeln!(f, "There is no sample named {v}s"),
             EngineError::NonExistReference(v) => writeln!(f, "There is no reference named {v}"),
+            EngineError::NotSupported(v) => writeln!(f, "{v} is not supported"),
         }
     }
 }
diff --git a/rs/main/src/util.rs b/rs/main/src/util.rs
index f1658a4..3ba4ac9 100644
--- a/rs/main/src/util.rs
+++ b/rs/main/src/util.rs
@@ -44,7 +44,11 @@ pub fn makenode<const N: usize>(
         Component::PSampler(psampler) => {
             let mut samples_dict_selected = HashMap::new();
             let (pattern, span) = match psampler {
-                nodes::PSampler::Event(_) => panic!("An event inside PSampler is not yet supported; please file an issue if you encounter this"),
+                nodes::PSampler::Event(_) => {
+                    return Err(EngineError::NotSupported(
+                        "An event inside psampler".to_string(),
+                    ))
+                }
                 nodes::PSampler::Pattern(ref pat) => (&pat.event, pat.span)
             };
 
@@ -189,7 +193,9 @@ pub fn makenode<const N: usize>(
                         .to_boxed_nodedata(1)
                 }
                 nodes::Signal::Event(_) => {
-                    panic!("An event as a parameter to lpf is not currently supported")
+                    return Err(EngineError::NotSupported(
+                        "An event as a parameter to lpf".to_string(),
+                    ))
                 }
             };
             (data, reflist)
@@ -403,16 +409,26 @@ pub fn makenode<const N: usize>(
             )
         }
         Component::Reverb(_) | Component::Expr(_) => {
-            panic!("{component:?} is currently not supported within the engine")
+            return Err(EngineError::NotSupported(format!("{component:?}")))
         }
         #[cfg(not(feature = "use-samples"))]
         Component::Sp(_) | Component::PSampler(_) => {
-            panic!("The `use-samples` feature is required to use the `sp` or `psampler` node")
+            return Err(EngineError::NotSupported(
+                "`sp` or `psampler` without the `use-samples` feature".to_string(),
+            ))
         }
         #[cfg(not(feature = "bela"))]
-        Component::Adc(_) => panic!("The `bela` feature is required to use the `adc` node"),
+        Component::Adc(_) => {
+            return Err(EngineError::NotSupported(
+                "`adc` without the `bela` feature".to_string(),
+            ))
+        }
         #[cfg(not(feature = "use-meta"))]
-        Component::Meta(_) => panic!("The `use-meta` feature is required to use the `meta` node"),
+        Component::Meta(_) => {
+            return Err(EngineError::NotSupported(
+                "`meta` without the `use-meta` feature".to_string(),
+            ))
+        }
         // "sendpass" => {
         //     let reflist = match &paras[0] {
         //         GlicolPara::RefList(v) => {
diff --git a/rs/wasm/src/lib.rs b/rs/wasm/src/lib.rs
index 2ce8723..a56277b 100644
--- a/rs/wasm/src/lib.rs
+++ b/rs/wasm/src/lib.rs
@@ -94,6 +94,7 @@ fn write_err_to_buf(err: EngineError, result: &mut [u8]) {
         EngineError::ParsingError(_) => 1,
         EngineError::NonExistSample(_) => 2,
         EngineError::NonExistReference(_) => 3,
+        EngineError::NotSupported(_) => 4,
     };
 
     let error = match err {
@@ -121,6 +122,7 @@ fn write_err_to_buf(err: EngineError, result: &mut [u8]) {
         }
         EngineError::NonExistSample(v) => format!("There is no sample named {v}"),
         EngineError::NonExistReference(v) => format!("There is no reference named {v}"),
+        EngineError::NotSupported(v) => format!("{v} is not supported"),
     };
 
     let s = error.as_bytes();
-- 
2.43.0


From 2eb4dbe2e88972c45e049e8ada51c1b061dc9e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:53 +0000
Subject: [PATCH 09/49] fix: do not panic on malformed events of the pattern
 and message synths

---
 rs/main/src/util.rs                      | 14 ++++++++------
 rs/synth/src/node/synth/msgsynth.rs      |  4 ++--
 rs/synth/src/node/synth/pattern_synth.rs | 10 ++++------
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/rs/main/src/util.rs b/rs/main/src/util.rs
index 3ba4ac9..c0b43c2 100644
--- a/rs/main/src/util.rs
+++ b/rs/main/src/util.rs
@@ -108,14 +108,16 @@ pub fn makenode<const N: usize>(
             let events = pattern
                 .split(',')
                 .map(|event| {
-                    let mut result = event
-                        .split(' ')
-                        .filter(|x| !x.is_empty())
-                        .map(|x| x.replace(' ', "").parse::<f32>().unwrap());
+                    let mut result = event.split_whitespace().map(|x| x.parse::<f32>());
 
-                    (result.next().unwrap(), result.next().unwrap())
+                    match (result.next(), result.next()) {
+                        (Some(Ok(time)), Some(Ok(midi))) => Ok((time, midi)),
+                        _ => Err(EngineError::NotSupported(format!(
+                            "The event `{event}` in a pattern"
+                        ))),
+                    }
                 })
-                .collect();
+                .collect::<Result<Vec<_>, EngineError>>()?;
 
             (
                 PatternSynth::new(events).sr(sr).to_boxed_nodedata(1),
diff --git a/rs/synth/src/node/synth/msgsynth.rs b/rs/synth/src/node/synth/msgsynth.rs
index f351415..3646051 100644
--- a/rs/synth/src/node/synth/msgsynth.rs
+++ b/rs/synth/src/node/synth/msgsynth.rs
@@ -161,9 +161,9 @@ impl<const N: usize> Node<N> for MsgSynth {
                         // estimate event_s "2.74343=>60"
                         // for event_s.split("=>");
                         if event_s.contains("=>") {
-                            let mut events = event_s.split("=>").map(|v| v.parse::<f32>().unwrap());
+                            let mut events = event_s.split("=>").map(|v| v.parse::<f32>());
 
-                            if let (Some(start), Some(end)) = (events.next(), events.next()) {
+                            if let (Some(Ok(start)), Some(Ok(end))) = (events.next(), events.next()) {
                                 let event_n = (start * self.sr as f32) as usize;
                                 self.events.push((event_n, end));
                             }
diff --git a/rs/synth/src/node/synth/pattern_synth.rs b/rs/synth/src/node/synth/pattern_synth.rs
index e234677..a879e8d 100644
--- a/rs/synth/src/node/synth/pattern_synth.rs
+++ b/rs/synth/src/node/synth/pattern_synth.rs
@@ -139,14 +139,12 @@ impl<const N: usize> Node<N> for PatternSynth {
                 let pattern = s.replace('`', "");
                 for event in pattern.split(',') {
                     // println!("event {:?}", event);
-                    let mut result = event
-                        .split(' ')
-                        .filter(|x| !x.is_empty())
-                        .map(|x| x.replace(' ', "").parse::<f32>().unwrap());
+                    let mut result = event.split_whitespace().map(|x| x.parse::<f32>());
 
                     // println!("result {:?}", result);
-                    self.events
-                        .push((result.next().unwrap(), result.next().unwrap()));
+                    if let (Some(Ok(time)), Some(Ok(midi))) = (result.next(), result.next()) {
+                        self.events.push((time, midi));
+                    }
                 }
             }
             Message::SetRefOrder(ref_order) => {
-- 
2.43.0


From 36b09d51589be528df06b5d534db33a54ee4c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:53 +0000
Subject: [PATCH 10/49] fix: keep the whole code of an eval node

The quotes were cut off a text that has none, which lost the first and
last character and panicked on an empty one.
---
 rs/parser/src/nodes.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index 44d94f8..0f43b3d 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -1112,8 +1112,12 @@ impl<'ast> Node<'ast> for CodeBlock<'ast> {
             .ok_or_else(|| span.as_end_span().to_err_with_positives([Rule::code]))?
             .as_str();
 
-        Ok(Self {
-            code: &s[1..s.len() - 1],
-        })
+        // the code of `eval` comes without the quotes
+        let code = s
+            .strip_prefix('`')
+            .and_then(|s| s.strip_suffix('`'))
+            .unwrap_or(s);
+
+        Ok(Self { code })
     }
 }
-- 
2.43.0


From 70276f53510f308bc7752778c463ff6640f690c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:53 +0000
Subject: [PATCH 11/49] fix: accept a pattern synth without its optional span

---
 rs/parser/src/nodes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index 0f43b3d..1be2e47 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -862,7 +862,7 @@ impl<'ast> Node<'ast> for PatternSynth<'ast> {
             .ok_or_else(|| end_span.to_err_with_positives([Rule::symbol]))?
             .as_str();
 
-        let span = pairs.next_parsed(end_span)?;
+        let span = pairs.next().map_or(Ok(1.), |r| r.try_to_parse())?;
         Ok(Self { symbol, span })
     }
 }
-- 
2.43.0


From 90a4c89f70796256aceb0d476a4b672defbf7090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:18 +0000
Subject: [PATCH 12/49] fix: report an invalid span of points instead of
 panicking

---
 rs/parser/src/nodes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index 1be2e47..ba00eda 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -218,7 +218,9 @@ impl Node<'_> for Points {
                     let mut one = "1".to_owned();
                     let mut ns = fasteval::EmptyNamespace;
                     one.push_str(math_or_loop.as_str());
-                    node_span = fasteval::ez_eval(&one, &mut ns).unwrap() as f32;
+                    node_span = fasteval::ez_eval(&one, &mut ns).map_err(|_| {
+                        math_or_loop.as_span().to_err_with_positives([Rule::math_expression])
+                    })? as f32;
                     if pairs.next().is_some() {
                         is_looping = true;
                     };
-- 
2.43.0


From da8971c90b3edc48df19802f85c240afdd650360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:18 +0000
Subject: [PATCH 13/49] fix: let msg_synth name the message synth, not a
 reference

---
 rs/parser/src/glicol.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/parser/src/glicol.pest b/rs/parser/src/glicol.pest
index 895543a..175fa42 100644
--- a/rs/parser/src/glicol.pest
+++ b/rs/parser/src/glicol.pest
@@ -109,7 +109,7 @@ integer = ${ ("+" | "-")? ~(ASCII_DIGIT)+ ~ !"." }
 WHITESPACE = _{" "|","|"|"|"\t"}
 ws = _{" "|","|"|"|"\t"|"\n"}
 
-node_name = ${"reverb"|"arrange"|"adsr"|"sig"|"psampler"|"synth"|"msgsynth"|"psynth"|"p_synth"|"pattern_synth"|
+node_name = ${"reverb"|"arrange"|"adsr"|"sig"|"psampler"|"synth"|"msgsynth"|"msg_synth"|"psynth"|"p_synth"|"pattern_synth"|
 "bd"|"sn"|"hh"|"squsynth"|"trisynth"|"seq"|"speed"|"choose"|"mul"|"add"|
 "linrange"|"apfdecay"|"delayn"|"delaymod"|"expr"|"eval"|
 "sin"|"squ"|"imp"|"envperc"|"sampler"|"noiz"|"lpf"|"plate"|"onepole"|
-- 
2.43.0


From 1bd893307a328c1e78126150db9649c626f6cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:18 +0000
Subject: [PATCH 14/49] fix: give the pattern synth its span and the tempo

---
 rs/main/src/util.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rs/main/src/util.rs b/rs/main/src/util.rs
index c0b43c2..d826624 100644
--- a/rs/main/src/util.rs
+++ b/rs/main/src/util.rs
@@ -120,7 +120,11 @@ pub fn makenode<const N: usize>(
                 .collect::<Result<Vec<_>, EngineError>>()?;
 
             (
-                PatternSynth::new(events).sr(sr).to_boxed_nodedata(1),
+                PatternSynth::new(events)
+                    .sr(sr)
+                    .period_in_cycle(*span)
+                    .cycle_dur(60. / bpm * 4.)
+                    .to_boxed_nodedata(1),
                 vec![],
             )
         }
-- 
2.43.0


From 7c2fef7465919c537e94e94fd86613e65cbfdae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:42 +0000
Subject: [PATCH 15/49] fix: ignore eval code that does not compile and
 undefined names in it

Both panicked, the latter in the audio callback.
---
 rs/synth/src/node/dynamic/eval.rs | 36 ++++++++++++++-----------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/rs/synth/src/node/dynamic/eval.rs b/rs/synth/src/node/dynamic/eval.rs
index 617a6eb..41a1a89 100644
--- a/rs/synth/src/node/dynamic/eval.rs
+++ b/rs/synth/src/node/dynamic/eval.rs
@@ -67,24 +67,23 @@ impl<const N: usize> Eval<N> {
         Self { ..self }
     }
 
+    /// Code that cannot be compiled is ignored
     fn apply_code(&mut self, code: &str) {
-        let lines = code.split(';');
-        for line in lines {
+        let (mut vars, mut slabs, mut compiled) = (vec![], vec![], vec![]);
+        for line in code.split(';') {
             let mut slab = fasteval::Slab::new();
-            let mut assign = line.split(":=");
-            if line.contains(":=") {
-                self.var
-                    .push(assign.next().unwrap().replace([' ', '\t', '\n'], ""));
-            }
-            let compiled = self
-                .parser
-                .parse(assign.next().unwrap(), &mut slab.ps)
-                .unwrap()
-                .from(&slab.ps)
-                .compile(&slab.ps, &mut slab.cs);
-            self.slab.push(slab);
-            self.compiled.push(compiled);
+            let (var, expr) = line.split_once(":=").unwrap_or(("", line));
+            let Ok(parsed) = self.parser.parse(expr, &mut slab.ps) else {
+                return;
+            };
+            let instruction = parsed.from(&slab.ps).compile(&slab.ps, &mut slab.cs);
+            vars.push(var.replace([' ', '\t', '\n'], ""));
+            slabs.push(slab);
+            compiled.push(instruction);
         }
+        self.var = vars;
+        self.slab = slabs;
+        self.compiled = compiled;
     }
 }
 
@@ -104,10 +103,10 @@ impl<const N: usize> Node<N> for Eval<N> {
             for (j, ins) in self.compiled.iter().enumerate() {
                 // println!("i is {}", j);
                 if j < self.compiled.len() - 1 {
-                    let v = ins.eval(&self.slab[j], &mut self.map).unwrap();
+                    let v = ins.eval(&self.slab[j], &mut self.map).unwrap_or(0.0);
                     self.map.insert(self.var[j].clone(), v);
                 } else {
-                    let v = ins.eval(&self.slab[j], &mut self.map).unwrap();
+                    let v = ins.eval(&self.slab[j], &mut self.map).unwrap_or(0.0);
                     output[0][i] = v as f32;
                 }
             }
@@ -118,9 +117,6 @@ impl<const N: usize> Node<N> for Eval<N> {
     fn send_msg(&mut self, info: Message) {
         match info {
             Message::SetToSymbol(0, code) => {
-                self.slab.clear();
-                self.var.clear();
-                self.compiled.clear();
                 self.apply_code(&code);
                 // self.code(s);
                 // self.compiled = self.parser.parse(&s, &mut self.slab.ps).unwrap().from(&self.slab.ps)
-- 
2.43.0


From a9f81458c92efa3436d1172dfcdbf5a9a6921148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:06 +0000
Subject: [PATCH 16/49] fix: render delayms, pan, plate and arrange without
 their inputs

---
 rs/synth/src/node/delay/delayms.rs     | 4 +++-
 rs/synth/src/node/effect/pan.rs        | 2 +-
 rs/synth/src/node/effect/plate.rs      | 7 +++++--
 rs/synth/src/node/sequencer/arrange.rs | 8 ++++----
 4 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index ed1ea93..85eef51 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -44,7 +44,9 @@ impl DelayMs {
 
 impl<const N: usize> Node<N> for DelayMs {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
-        let main_input = inputs.values().next().unwrap();
+        let Some(main_input) = inputs.values().next() else {
+            return;
+        };
         if !(1..=2).contains(&main_input.buffers().len()) {
             return;
         }
diff --git a/rs/synth/src/node/effect/pan.rs b/rs/synth/src/node/effect/pan.rs
index 8bc11df..4a9573f 100644
--- a/rs/synth/src/node/effect/pan.rs
+++ b/rs/synth/src/node/effect/pan.rs
@@ -36,7 +36,7 @@ impl<const N: usize> Node<N> for Pan {
                 *left = left_gain * sample; // Left channel
                 *right = right_gain * sample; // Right channel
             }
-        } else {
+        } else if inputs.len() == 2 {
             let ref_input = &inputs[&self.input_order[1]]; // can panic if there is no id
             let main_input = &inputs[&self.input_order[0]]; // can panic if there is no id
 
diff --git a/rs/synth/src/node/effect/plate.rs b/rs/synth/src/node/effect/plate.rs
index d63cab1..d13e92a 100644
--- a/rs/synth/src/node/effect/plate.rs
+++ b/rs/synth/src/node/effect/plate.rs
@@ -158,8 +158,11 @@ impl<const N: usize> Plate<N> {
 
 impl<const N: usize> Node<N> for Plate<N> {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
-        let main_input = inputs[&self.input_order[0]].buffers();
-        self.context.graph[self.input].buffers[0] = main_input[0].clone();
+        let main_input = self.input_order.first().and_then(|id| inputs.get(id));
+        self.context.graph[self.input].buffers[0] = match main_input {
+            Some(main_input) => main_input.buffers()[0].clone(),
+            None => Buffer::SILENT,
+        };
         // self.context.graph[self.input].buffers[1] = main_input[1].clone();
         let cout = self.context.next_block();
 
diff --git a/rs/synth/src/node/sequencer/arrange.rs b/rs/synth/src/node/sequencer/arrange.rs
index 5d47e28..8492310 100644
--- a/rs/synth/src/node/sequencer/arrange.rs
+++ b/rs/synth/src/node/sequencer/arrange.rs
@@ -55,8 +55,8 @@ impl<const N: usize> Node<N> for Arrange {
 
                 bar_count += bar;
                 if pos < bar_count {
-                    let source = &inputs[&self.input_order[j]];
-                    *out = source.buffers()[0][i];
+                    let source = self.input_order.get(j).and_then(|id| inputs.get(id));
+                    *out = source.map_or(0.0, |source| source.buffers()[0][i]);
                     // match &self.events[j*2] {
                     //     GlicolPara::Reference(s) => {
                     //         let source = &inputs[&self.input_order[j]];
@@ -67,8 +67,8 @@ impl<const N: usize> Node<N> for Arrange {
                     break;
                 } else if j == self.events.len() / 2 - 1 {
                     self.step = 0;
-                    let source = &inputs[&self.input_order[0]];
-                    *out = source.buffers()[0][i];
+                    let source = self.input_order.first().and_then(|id| inputs.get(id));
+                    *out = source.map_or(0.0, |source| source.buffers()[0][i]);
                     // match &self.events[0] {
                     //     GlicolPara::Reference(s) => {
                     //         let source = &inputs[&self.input_order[0]];
-- 
2.43.0


From a3ae6a60388da3ad030452d4a0e4657e4e7a70a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:11 +0000
Subject: [PATCH 17/49] fix: keep every period at least one sample long

---
 rs/synth/src/node/filter/rlpf.rs         | 2 +-
 rs/synth/src/node/sampling/psampler.rs   | 2 +-
 rs/synth/src/node/sequencer/seq.rs       | 4 ++--
 rs/synth/src/node/signal/imp.rs          | 6 ++++--
 rs/synth/src/node/signal/points.rs       | 2 +-
 rs/synth/src/node/synth/pattern_synth.rs | 2 +-
 6 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/rs/synth/src/node/filter/rlpf.rs b/rs/synth/src/node/filter/rlpf.rs
index 8893e8c..4e63144 100644
--- a/rs/synth/src/node/filter/rlpf.rs
+++ b/rs/synth/src/node/filter/rlpf.rs
@@ -90,7 +90,7 @@ impl<const N: usize> Node<N> for ResonantLowPassFilter {
                 let main_input = inputs.values_mut().next().unwrap();
                 for (out, x0) in output[0].iter_mut().zip(main_input.buffers()[0].iter()) {
                     for event in &self.pattern {
-                        if (self.step % (bar_dur as usize))
+                        if (self.step % (bar_dur as usize).max(1))
                             == ((event.1 * cycle_dur * self.sr as f32) as usize)
                         {
                             self.cutoff = event.0
diff --git a/rs/synth/src/node/sampling/psampler.rs b/rs/synth/src/node/sampling/psampler.rs
index eb24ea2..fae0261 100644
--- a/rs/synth/src/node/sampling/psampler.rs
+++ b/rs/synth/src/node/sampling/psampler.rs
@@ -55,7 +55,7 @@ impl<const N: usize> Node<N> for PSampler {
             // if input_buf[0][i] > 0.0 {
 
             for event in &self.pattern {
-                if (self.step % (bar_dur as usize))
+                if (self.step % (bar_dur as usize).max(1))
                     == ((event.1 * self.cycle_dur * self.sr as f32) as usize)
                 {
                     let pitch = 1.0;
diff --git a/rs/synth/src/node/sequencer/seq.rs b/rs/synth/src/node/sequencer/seq.rs
index a053f92..cc1cb47 100644
--- a/rs/synth/src/node/sequencer/seq.rs
+++ b/rs/synth/src/node/sequencer/seq.rs
@@ -46,7 +46,7 @@ impl<const N: usize> Node<N> for Sequencer {
                 for out in &mut *output[0] {
                     *out = 0.0;
                     for event in &self.events {
-                        if (self.step % (bar_length as usize))
+                        if (self.step % (bar_length as usize).max(1))
                             == ((event.0 as f64 * bar_length) as usize)
                         {
                             let midi = match event.1 {
@@ -78,7 +78,7 @@ impl<const N: usize> Node<N> for Sequencer {
                     *out = 0.0;
 
                     for event in &self.events {
-                        if (self.step % (bar_length as usize))
+                        if (self.step % (bar_length as usize).max(1))
                             == ((event.0 as f64 * bar_length) as usize)
                         {
                             let midi = match &event.1 {
diff --git a/rs/synth/src/node/signal/imp.rs b/rs/synth/src/node/signal/imp.rs
index 1cbaa09..fd0ec68 100644
--- a/rs/synth/src/node/signal/imp.rs
+++ b/rs/synth/src/node/signal/imp.rs
@@ -25,7 +25,7 @@ impl Impulse {
         }
     }
     pub fn freq(self, freq: f32) -> Self {
-        let period = (self.sr as f32 / freq) as usize;
+        let period = ((self.sr as f32 / freq) as usize).max(1);
         Self { period, ..self }
     }
     pub fn sr(self, sr: usize) -> Self {
@@ -50,7 +50,9 @@ impl<const N: usize> Node<N> for Impulse {
 
     fn send_msg(&mut self, info: Message) {
         match info {
-            Message::SetToNumber(0, value) => self.period = (self.sr as f32 / value) as usize,
+            Message::SetToNumber(0, value) => {
+                self.period = ((self.sr as f32 / value) as usize).max(1)
+            }
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             _ => {}
diff --git a/rs/synth/src/node/signal/points.rs b/rs/synth/src/node/signal/points.rs
index b2be374..8d077ea 100644
--- a/rs/synth/src/node/signal/points.rs
+++ b/rs/synth/src/node/signal/points.rs
@@ -102,7 +102,7 @@ impl<const N: usize> Node<N> for Points {
             return;
         }
         let cycle_dur = 60. / self.bpm * 4.;
-        let bar_dur = (cycle_dur * self.span * self.sr as f32) as usize;
+        let bar_dur = ((cycle_dur * self.span * self.sr as f32) as usize).max(1);
 
         if !self.is_looping {
             for out in &mut *output[0] {
diff --git a/rs/synth/src/node/synth/pattern_synth.rs b/rs/synth/src/node/synth/pattern_synth.rs
index a879e8d..1f9ea95 100644
--- a/rs/synth/src/node/synth/pattern_synth.rs
+++ b/rs/synth/src/node/synth/pattern_synth.rs
@@ -63,7 +63,7 @@ impl<const N: usize> Node<N> for PatternSynth {
                 *out = 0.0;
 
                 for event in &self.events {
-                    if (self.step % (bar_length as usize))
+                    if (self.step % (bar_length as usize).max(1))
                         == ((event.0 * self.cycle_dur * self.sr as f32) as usize)
                     {
                         let midi = event.1;
-- 
2.43.0


From 4e7a4c286f0aae86e87c0b49721c78b13d84a9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:30 +0000
Subject: [PATCH 18/49] fix: keep every delay line at least one sample long

---
 rs/synth/src/node/delay/delayms.rs    | 10 +++-------
 rs/synth/src/node/delay/delayn.rs     |  2 +-
 rs/synth/src/node/filter/apfmsgain.rs |  1 +
 3 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index 85eef51..11bd61e 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -109,15 +109,11 @@ impl<const N: usize> Node<N> for DelayMs {
     fn send_msg(&mut self, info: Message) {
         match info {
             Message::SetToNumber(0, value) => {
-                let delay_n = (value / 1000. * self.sr as f32) as usize;
+                let delay_n = ((value / 1000. * self.sr as f32) as usize).max(1);
                 self.delay_n = delay_n;
 
-                if delay_n == 0 {
-                    self.buf.clear();
-                } else {
-                    let chan = self.buf.len();
-                    self.buf = vec![Fixed::from(vec![0.0; delay_n]); chan];
-                };
+                let chan = self.buf.len();
+                self.buf = vec![Fixed::from(vec![0.0; delay_n]); chan];
             }
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
diff --git a/rs/synth/src/node/delay/delayn.rs b/rs/synth/src/node/delay/delayn.rs
index f483daa..71293aa 100644
--- a/rs/synth/src/node/delay/delayn.rs
+++ b/rs/synth/src/node/delay/delayn.rs
@@ -62,7 +62,7 @@ impl<const N: usize> Node<N> for DelayN {
         match info {
             Message::SetToNumber(0, value) => {
                 self.delay_n = value as usize;
-                self.buf = Fixed::from(vec![0.0; self.delay_n]);
+                self.buf = Fixed::from(vec![0.0; self.delay_n.max(1)]);
                 // buf2 = Fixed::from(vec![0.0; delay_n]);
                 // self.buf.set_first(self.delay_n);
                 // self.buf2.set_first(delay_n);
diff --git a/rs/synth/src/node/filter/apfmsgain.rs b/rs/synth/src/node/filter/apfmsgain.rs
index 0443b2f..d2d10c4 100644
--- a/rs/synth/src/node/filter/apfmsgain.rs
+++ b/rs/synth/src/node/filter/apfmsgain.rs
@@ -34,6 +34,7 @@ impl AllPassFilterGain {
         } else {
             delay / 1000. * self.sr as f32
         } as usize;
+        let size = size.max(1);
         Self {
             bufx: ring_buffer::Fixed::from(vec![0.0; size]),
             bufy: ring_buffer::Fixed::from(vec![0.0; size]),
-- 
2.43.0


From 26eaffd9bb10b55c20ece46541215c9d54744730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:35 +0000
Subject: [PATCH 19/49] fix: play points from the first sample and stay at the
 last point

---
 rs/synth/src/node/signal/points.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/signal/points.rs b/rs/synth/src/node/signal/points.rs
index 8d077ea..ca211de 100644
--- a/rs/synth/src/node/signal/points.rs
+++ b/rs/synth/src/node/signal/points.rs
@@ -86,7 +86,7 @@ impl Points {
             })
             .collect::<Vec<_>>();
 
-        if point_list[0].0 != 0 {
+        if point_list.first().is_some_and(|first| first.0 != 0) {
             point_list.insert(0, (0, 0.0));
         }
 
@@ -109,7 +109,10 @@ impl<const N: usize> Node<N> for Points {
                 let pos = self.step;
                 let samples = &self.point_list;
 
-                let index = samples.iter().position(|s| pos <= s.0).map_or(0, |p| p - 1);
+                let index = samples
+                    .iter()
+                    .position(|s| pos <= s.0)
+                    .map_or(samples.len() - 1, |p| p.saturating_sub(1));
 
                 // println!("index {} pos {} samples {:?}", index, pos, samples);
                 if index < samples.len() - 1 {
-- 
2.43.0


From 63bc53e20c3a1878b6b29fa1f541b33036c7e6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:28 +0000
Subject: [PATCH 20/49] fix: connect a reference of seq once when the node is
 kept

---
 rs/parser/src/nodes.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index ba00eda..77eaca3 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -155,13 +155,18 @@ impl<'ast> Component<'ast> {
             })
             | Self::Get(Get { reference: r }) => vec![r],
 
-            Self::Seq(Seq { events }) => events
-                .iter()
-                .flat_map(|(_, e)| match e {
-                    UsizeOrRef::Usize(_) => None,
-                    UsizeOrRef::Ref(r) => Some(*r),
-                })
-                .collect(),
+            Self::Seq(Seq { events }) => {
+                // each reference is one input, however often it is played
+                let mut refs = vec![];
+                for (_, e) in events {
+                    if let UsizeOrRef::Ref(r) = e {
+                        if !refs.contains(r) {
+                            refs.push(*r);
+                        }
+                    }
+                }
+                refs
+            }
             Self::Arrange(Arrange { events }) => events
                 .iter()
                 .flat_map(|e| match e {
-- 
2.43.0


From d2eab01985c60ecacfe04cb9050649e9eca68217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:33 +0000
Subject: [PATCH 21/49] fix: find the references of seq behind its main input

---
 rs/synth/src/node/sequencer/seq.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/rs/synth/src/node/sequencer/seq.rs b/rs/synth/src/node/sequencer/seq.rs
index cc1cb47..985d2bd 100644
--- a/rs/synth/src/node/sequencer/seq.rs
+++ b/rs/synth/src/node/sequencer/seq.rs
@@ -66,11 +66,13 @@ impl<const N: usize> Node<N> for Sequencer {
             }
             _ => {
                 // println!("{:?} {:?}", inputs, self.input_order);
-                let possible_speed = &inputs[&self.input_order[0]].buffers()[0];
-                let has_speed = possible_speed[0] > 0. && possible_speed[1] == 0.;
-
-                if has_speed {
-                    self.speed = possible_speed[0];
+                // the references come after the main input, if there is one
+                let has_main = self.input_order.len() > self.ref_order.len();
+                if has_main {
+                    let possible_speed = &inputs[&self.input_order[0]].buffers()[0];
+                    if possible_speed[0] > 0. && possible_speed[1] == 0. {
+                        self.speed = possible_speed[0];
+                    }
                 }
 
                 let bar_length = 240.0 / self.bpm as f64 * self.sr as f64 / self.speed as f64;
@@ -83,11 +85,12 @@ impl<const N: usize> Node<N> for Sequencer {
                         {
                             let midi = match &event.1 {
                                 UsizeOrRef::Usize(value) => *value as f32,
-                                UsizeOrRef::Ref(s) => {
-                                    let source = &inputs
-                                        [&self.input_order[self.ref_order[s] + has_speed as usize]]; //panic?
-                                    source.buffers()[0][idx]
-                                }
+                                UsizeOrRef::Ref(s) => self
+                                    .ref_order
+                                    .get(s)
+                                    .and_then(|i| self.input_order.get(i + has_main as usize))
+                                    .and_then(|id| inputs.get(id))
+                                    .map_or(0.0, |source| source.buffers()[0][idx]),
                             };
 
                             if midi == 0.0 {
-- 
2.43.0


From 3886fc0b51429a3fbb77628fce585d2cf15c7aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:39 +0000
Subject: [PATCH 22/49] fix: play samples of any length and channel count

---
 rs/synth/src/node/sampling/psampler.rs | 14 +++++++-------
 rs/synth/src/node/sampling/sampler.rs  | 17 ++++++++---------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/rs/synth/src/node/sampling/psampler.rs b/rs/synth/src/node/sampling/psampler.rs
index fae0261..fded41a 100644
--- a/rs/synth/src/node/sampling/psampler.rs
+++ b/rs/synth/src/node/sampling/psampler.rs
@@ -61,7 +61,7 @@ impl<const N: usize> Node<N> for PSampler {
                     let pitch = 1.0;
                     let sample_name = &event.0;
                     let sample = self.samples_dict[sample_name];
-                    let dur = (sample.0.len() / sample.1) as f32
+                    let dur = (sample.0.len() / sample.1.max(1)) as f32
                         / pitch
                         / (sample.2 as f32 / self.sr as f32);
                     self.playback.push((self.step, sample_name.to_owned(), dur));
@@ -71,8 +71,8 @@ impl<const N: usize> Node<N> for PSampler {
             let mut to_remove = Vec::with_capacity(self.playback.len());
             for (count, (begin, name, dur)) in self.playback.iter().enumerate() {
                 let pos = (self.step - begin) as f32 / dur;
-                if pos <= 1.0 {
-                    let sample = self.samples_dict[name];
+                let sample = self.samples_dict[name];
+                if pos <= 1.0 && sample.0.len() >= sample.1 {
                     match sample.1 {
                         1 => {
                             output[0][i] += match pos {
@@ -104,7 +104,7 @@ impl<const N: usize> Node<N> for PSampler {
                                 }
                                 x if x > 0.0 && x < 1.0 => {
                                     let pos_index_float =
-                                        x * (((sample.0.len() / sample.1) - 2) as f32);
+                                        x * (((sample.0.len() / sample.1) - 1) as f32);
                                     let left = pos_index_float.floor();
                                     let right = pos_index_float.ceil();
                                     let left_portion = pos_index_float - left;
@@ -114,15 +114,15 @@ impl<const N: usize> Node<N> for PSampler {
                                         + sample.0[right as usize] * right_portion;
 
                                     output[1][i] += sample.0
-                                        [left as usize + (sample.0.len() / sample.1) + 1]
+                                        [left as usize + (sample.0.len() / sample.1)]
                                         * left_portion
-                                        + sample.0[right as usize + (sample.0.len() / sample.1) + 1]
+                                        + sample.0[right as usize + (sample.0.len() / sample.1)]
                                             * right_portion
                                 }
                                 _ => {}
                             };
                         }
-                        _ => return,
+                        _ => {}
                     }
                 } else {
                     to_remove.push(count)
diff --git a/rs/synth/src/node/sampling/sampler.rs b/rs/synth/src/node/sampling/sampler.rs
index becf224..d855508 100644
--- a/rs/synth/src/node/sampling/sampler.rs
+++ b/rs/synth/src/node/sampling/sampler.rs
@@ -17,8 +17,8 @@ impl Sampler {
         Self {
             playback: vec![],
             sample,
-            len: sample.0.len() / sample.1, // total_length/channels
-            endindex: sample.0.len() - 1,
+            len: sample.0.len() / sample.1.max(1), // total_length/channels
+            endindex: sample.0.len().saturating_sub(1),
             clock: 0,
             sr,
             input_order: vec![],
@@ -43,7 +43,7 @@ impl<const N: usize> Node<N> for Sampler {
                 let mut to_remove = vec![];
                 for (count, (begin, dur)) in self.playback.iter().enumerate() {
                     let pos = (self.clock - begin) as f32 / dur;
-                    if pos <= 1.0 {
+                    if pos <= 1.0 && self.len > 0 {
                         match self.sample.1 {
                             1 => {
                                 output[0][i] += match pos {
@@ -77,7 +77,7 @@ impl<const N: usize> Node<N> for Sampler {
                                 }
                                 // same comment here about match arms as above
                                 0.0..=1.0 => {
-                                    let pos_index_float = pos * ((self.len - 2) as f32);
+                                    let pos_index_float = pos * ((self.len - 1) as f32);
                                     let left = pos_index_float.floor();
                                     let right = pos_index_float.ceil();
                                     let left_portion = pos_index_float - left;
@@ -86,10 +86,9 @@ impl<const N: usize> Node<N> for Sampler {
                                     output[0][i] += self.sample.0[left as usize] * left_portion
                                         + self.sample.0[right as usize] * right_portion;
 
-                                    output[1][i] += self.sample.0[left as usize + self.len + 1]
+                                    output[1][i] += self.sample.0[left as usize + self.len]
                                         * left_portion
-                                        + self.sample.0[right as usize + self.len + 1]
-                                            * right_portion;
+                                        + self.sample.0[right as usize + self.len] * right_portion;
                                 }
                                 _ => {}
                             },
@@ -115,8 +114,8 @@ impl<const N: usize> Node<N> for Sampler {
         match info {
             Message::SetToSamples(0, sample) => {
                 self.sample = sample;
-                self.len = sample.0.len() / sample.1;
-                self.endindex = sample.0.len() - 1;
+                self.len = sample.0.len() / sample.1.max(1);
+                self.endindex = sample.0.len().saturating_sub(1);
                 // self.playback.clear();
             }
             Message::Index(i) => self.input_order.push(i),
-- 
2.43.0


From 85105a6c3f2057d7e1cd21a8ed719a2915cc555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:02 +0000
Subject: [PATCH 23/49] fix: let a message set the bars of arrange

---
 rs/synth/src/node/sequencer/arrange.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/rs/synth/src/node/sequencer/arrange.rs b/rs/synth/src/node/sequencer/arrange.rs
index 8492310..3201562 100644
--- a/rs/synth/src/node/sequencer/arrange.rs
+++ b/rs/synth/src/node/sequencer/arrange.rs
@@ -84,13 +84,10 @@ impl<const N: usize> Node<N> for Arrange {
     fn send_msg(&mut self, info: Message) {
         match info {
             Message::SetToNumber(i, value) => {
-                self.step = 0;
-                let to_push = i as usize - self.events.len();
-
-                self.events.reserve(to_push + 1);
-                self.events
-                    .extend(std::iter::from_fn(|| Some(NumberOrRef::Number(0.0))).take(to_push));
-                self.events.push(NumberOrRef::Number(value));
+                if let Some(NumberOrRef::Number(bar)) = self.events.get_mut(i as usize) {
+                    *bar = value;
+                    self.step = 0;
+                }
             }
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
-- 
2.43.0


From 38401ccdb2146120d02c79359514c3d60df87095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:44 +0000
Subject: [PATCH 24/49] fix: bound the length of delay lines

A huge delay time asked for more memory than there is, which ended the
whole program.
---
 rs/synth/src/node/delay/delayms.rs    | 5 +++--
 rs/synth/src/node/delay/delayn.rs     | 9 +++++----
 rs/synth/src/node/delay/mod.rs        | 4 ++++
 rs/synth/src/node/filter/apfmsgain.rs | 3 ++-
 4 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index 11bd61e..f319ffc 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -1,3 +1,4 @@
+use super::MAX_DELAY;
 use crate::{Buffer, Input, Message, Node};
 use dasp_ring_buffer as ring_buffer;
 type Fixed = ring_buffer::Fixed<Vec<f32>>;
@@ -27,7 +28,7 @@ impl DelayMs {
     }
 
     pub fn delay(self, delay: f32, chan: u8) -> Self {
-        let delay_n = ((delay / 1000. * self.sr as f32) as usize).max(1);
+        let delay_n = ((delay / 1000. * self.sr as f32) as usize).clamp(1, MAX_DELAY);
         let buf = vec![Fixed::from(vec![0.0; delay_n]); chan as usize];
 
         Self {
@@ -109,7 +110,7 @@ impl<const N: usize> Node<N> for DelayMs {
     fn send_msg(&mut self, info: Message) {
         match info {
             Message::SetToNumber(0, value) => {
-                let delay_n = ((value / 1000. * self.sr as f32) as usize).max(1);
+                let delay_n = ((value / 1000. * self.sr as f32) as usize).clamp(1, MAX_DELAY);
                 self.delay_n = delay_n;
 
                 let chan = self.buf.len();
diff --git a/rs/synth/src/node/delay/delayn.rs b/rs/synth/src/node/delay/delayn.rs
index 71293aa..692209a 100644
--- a/rs/synth/src/node/delay/delayn.rs
+++ b/rs/synth/src/node/delay/delayn.rs
@@ -1,3 +1,4 @@
+use super::MAX_DELAY;
 use crate::{Buffer, Input, Message, Node};
 use dasp_ring_buffer as ring_buffer;
 use hashbrown::HashMap;
@@ -12,10 +13,10 @@ pub struct DelayN {
 
 impl DelayN {
     pub fn new(n: usize) -> Self {
-        let delay_n = n;
-        let init_n = match n {
+        let delay_n = n.min(MAX_DELAY);
+        let init_n = match delay_n {
             0 => 1,
-            _ => n,
+            _ => delay_n,
         };
         let buf = ring_buffer::Fixed::from(vec![0.0; init_n]);
         Self {
@@ -61,7 +62,7 @@ impl<const N: usize> Node<N> for DelayN {
     fn send_msg(&mut self, info: Message) {
         match info {
             Message::SetToNumber(0, value) => {
-                self.delay_n = value as usize;
+                self.delay_n = (value as usize).min(MAX_DELAY);
                 self.buf = Fixed::from(vec![0.0; self.delay_n.max(1)]);
                 // buf2 = Fixed::from(vec![0.0; delay_n]);
                 // self.buf.set_first(self.delay_n);
diff --git a/rs/synth/src/node/delay/mod.rs b/rs/synth/src/node/delay/mod.rs
index c791ff2..4d41134 100644
--- a/rs/synth/src/node/delay/mod.rs
+++ b/rs/synth/src/node/delay/mod.rs
@@ -1,3 +1,7 @@
+/// The longest delay line, in frames (more than six minutes at 44.1 kHz); longer delays are shortened
+/// to it, as asking for too much memory would end the whole program.
+pub(crate) const MAX_DELAY: usize = 1 << 24;
+
 mod delayn;
 pub use delayn::*;
 mod delayms;
diff --git a/rs/synth/src/node/filter/apfmsgain.rs b/rs/synth/src/node/filter/apfmsgain.rs
index d2d10c4..4e3442c 100644
--- a/rs/synth/src/node/filter/apfmsgain.rs
+++ b/rs/synth/src/node/filter/apfmsgain.rs
@@ -1,3 +1,4 @@
+use crate::delay::MAX_DELAY;
 use crate::{Buffer, Input, Message, Node};
 use dasp_ring_buffer as ring_buffer;
 use hashbrown::HashMap;
@@ -34,7 +35,7 @@ impl AllPassFilterGain {
         } else {
             delay / 1000. * self.sr as f32
         } as usize;
-        let size = size.max(1);
+        let size = size.clamp(1, MAX_DELAY);
         Self {
             bufx: ring_buffer::Fixed::from(vec![0.0; size]),
             bufy: ring_buffer::Fixed::from(vec![0.0; size]),
-- 
2.43.0


From 1e608151e3d8fd3bdc17d4f5945e7e6bf9dc13bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:36 +0000
Subject: [PATCH 25/49] fix: keep a written pan position within range

---
 rs/synth/src/node/effect/pan.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/synth/src/node/effect/pan.rs b/rs/synth/src/node/effect/pan.rs
index 4a9573f..d467ed2 100644
--- a/rs/synth/src/node/effect/pan.rs
+++ b/rs/synth/src/node/effect/pan.rs
@@ -10,7 +10,7 @@ pub struct Pan {
 impl Pan {
     pub fn new(pan_pos: f32) -> Self {
         Self {
-            pan_pos,
+            pan_pos: pan_pos.clamp(-1.0, 1.0),
             input_order: vec![],
         }
     }
-- 
2.43.0


From 2cbe3e2d6f9737f0926d66700cb4246eb07c0f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:36 +0000
Subject: [PATCH 26/49] fix: rebuild the delay lines of apfmsgain on a message

---
 rs/synth/src/node/filter/apfmsgain.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/rs/synth/src/node/filter/apfmsgain.rs b/rs/synth/src/node/filter/apfmsgain.rs
index 4e3442c..79a6b5f 100644
--- a/rs/synth/src/node/filter/apfmsgain.rs
+++ b/rs/synth/src/node/filter/apfmsgain.rs
@@ -29,18 +29,20 @@ impl AllPassFilterGain {
         }
     }
 
-    pub fn delay(self, delay: f32) -> Self {
+    pub fn delay(mut self, delay: f32) -> Self {
+        self.set_delay(delay);
+        self
+    }
+
+    fn set_delay(&mut self, delay: f32) {
         let size = if delay == 0.0 {
             3. * self.sr as f32
         } else {
             delay / 1000. * self.sr as f32
         } as usize;
         let size = size.clamp(1, MAX_DELAY);
-        Self {
-            bufx: ring_buffer::Fixed::from(vec![0.0; size]),
-            bufy: ring_buffer::Fixed::from(vec![0.0; size]),
-            ..self
-        }
+        self.bufx = ring_buffer::Fixed::from(vec![0.0; size]);
+        self.bufy = ring_buffer::Fixed::from(vec![0.0; size]);
     }
 
     pub fn gain(self, gain: f32) -> Self {
@@ -103,11 +105,7 @@ impl<const N: usize> Node<N> for AllPassFilterGain {
     fn send_msg(&mut self, info: Message) {
         match info {
             Message::SetToNumber(pos, value) => match pos {
-                0 => {
-                    let delay_n = (value / 1000. * self.sr as f32) as usize;
-                    self.bufx.set_first(delay_n);
-                    self.bufy.set_first(delay_n);
-                }
+                0 => self.set_delay(value),
                 1 => self.gain = value,
                 _ => {}
             },
-- 
2.43.0


From 9ca31cf149e395c4032807425064785b25cd2d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:36 +0000
Subject: [PATCH 27/49] fix: move the points when their span or the tempo
 changes

---
 rs/synth/src/node/signal/points.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/rs/synth/src/node/signal/points.rs b/rs/synth/src/node/signal/points.rs
index ca211de..e9f03a4 100644
--- a/rs/synth/src/node/signal/points.rs
+++ b/rs/synth/src/node/signal/points.rs
@@ -5,6 +5,7 @@ use hashbrown::HashMap;
 
 #[derive(Debug, Clone)]
 pub struct Points {
+    points: Vec<(TimeList, f32)>,      // as written
     pub point_list: Vec<(usize, f32)>, // time and value
     pub span: f32,
     pub bpm: f32,
@@ -27,6 +28,7 @@ impl Points {
         // let mut point_list = process_points(points, bpm, sr, span);
         // println!("point_list {:?}", point_list);
         Self {
+            points: vec![],
             point_list: vec![],
             span: 1.0,
             bpm: 120.,
@@ -54,12 +56,15 @@ impl Points {
         Self { sr, ..self }
     }
 
-    pub fn points(self, points: Vec<(TimeList, f32)>) -> Self {
-        let bpm = self.bpm;
-        let sr = self.sr;
-        let span = self.span;
-        let point_list = self.make_point_list(points, bpm, sr, span);
-        Self { point_list, ..self }
+    pub fn points(mut self, points: Vec<(TimeList, f32)>) -> Self {
+        self.points = points;
+        self.update_point_list();
+        self
+    }
+
+    fn update_point_list(&mut self) {
+        let points = self.points.clone();
+        self.point_list = self.make_point_list(points, self.bpm, self.sr, self.span);
     }
 
     fn make_point_list(
@@ -158,18 +163,23 @@ impl<const N: usize> Node<N> for Points {
     fn send_msg(&mut self, info: Message) {
         match info {
             Message::SetParam(0, GlicolPara::Points(time_list)) => {
-                self.point_list = self.make_point_list(time_list, self.bpm, self.sr, self.span);
+                self.points = time_list;
+                self.update_point_list();
                 self.step = 0;
             }
             Message::SetToNumber(1, num) => {
                 self.span = num;
+                self.update_point_list();
                 self.step = 0;
             }
             Message::SetToBool(2, b) => {
                 self.is_looping = b;
                 self.step = 0;
             }
-            Message::SetBPM(bpm) => self.bpm = bpm,
+            Message::SetBPM(bpm) => {
+                self.bpm = bpm;
+                self.update_point_list();
+            }
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             _ => {}
-- 
2.43.0


From b37ad348c64b55c4269b7b2438f8de8633b6c51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:39 +0000
Subject: [PATCH 28/49] fix: give the drums, synths and plate the sample rate

---
 rs/main/src/util.rs                    | 47 +++++++++++++++++++-------
 rs/synth/src/node/compound/bd.rs       | 20 ++++++-----
 rs/synth/src/node/compound/hh.rs       | 18 ++++++----
 rs/synth/src/node/compound/sawsynth.rs | 10 ++++--
 rs/synth/src/node/compound/sn.rs       | 20 ++++++-----
 rs/synth/src/node/compound/squsynth.rs | 10 ++++--
 rs/synth/src/node/compound/trisynth.rs | 10 ++++--
 rs/synth/src/node/effect/plate.rs      | 33 ++++++++++--------
 8 files changed, 109 insertions(+), 59 deletions(-)

diff --git a/rs/main/src/util.rs b/rs/main/src/util.rs
index d826624..191b4bd 100644
--- a/rs/main/src/util.rs
+++ b/rs/main/src/util.rs
@@ -306,7 +306,9 @@ pub fn makenode<const N: usize>(
                 vec![s.to_string()],
             ),
         },
-        Component::Plate(nodes::Plate { mix }) => (Plate::new(*mix).to_boxed_nodedata(2), vec![]),
+        Component::Plate(nodes::Plate { mix }) => {
+            (Plate::with_sr(*mix, sr).to_boxed_nodedata(2), vec![])
+        }
         Component::Imp(nodes::Imp { param }) => match param {
             nodes::NumberOrRef::Number(v) => {
                 (Impulse::new().sr(sr).freq(*v).to_boxed_nodedata(1), vec![])
@@ -349,19 +351,27 @@ pub fn makenode<const N: usize>(
         Component::ConstSig(nodes::ConstSig { value }) => {
             (ConstSig::new(*value).sr(sr).to_boxed_nodedata(1), vec![])
         }
-        // todo: give sr to them
-        Component::Bd(nodes::Bd { param }) => get_one_para_from_number_or_ref::<N, Bd<N>>(param, 2),
-        Component::Hh(nodes::Hh { param }) => get_one_para_from_number_or_ref::<N, Hh<N>>(param, 2),
-        Component::Sn(nodes::Sn { param }) => get_one_para_from_number_or_ref::<N, Sn<N>>(param, 2),
-        Component::SawSynth(nodes::SawSynth { attack, decay }) => {
-            (SawSynth::new(*attack, *decay).to_boxed_nodedata(2), vec![])
+        Component::Bd(nodes::Bd { param }) => {
+            make_from_number_or_ref(param, 2, |decay| Bd::with_sr(decay, sr))
         }
-        Component::SquSynth(nodes::SquSynth { attack, decay }) => {
-            (SquSynth::new(*attack, *decay).to_boxed_nodedata(2), vec![])
+        Component::Hh(nodes::Hh { param }) => {
+            make_from_number_or_ref(param, 2, |decay| Hh::with_sr(decay, sr))
         }
-        Component::TriSynth(nodes::TriSynth { attack, decay }) => {
-            (TriSynth::new(*attack, *decay).to_boxed_nodedata(2), vec![])
+        Component::Sn(nodes::Sn { param }) => {
+            make_from_number_or_ref(param, 2, |decay| Sn::with_sr(decay, sr))
         }
+        Component::SawSynth(nodes::SawSynth { attack, decay }) => (
+            SawSynth::with_sr(*attack, *decay, sr).to_boxed_nodedata(2),
+            vec![],
+        ),
+        Component::SquSynth(nodes::SquSynth { attack, decay }) => (
+            SquSynth::with_sr(*attack, *decay, sr).to_boxed_nodedata(2),
+            vec![],
+        ),
+        Component::TriSynth(nodes::TriSynth { attack, decay }) => (
+            TriSynth::with_sr(*attack, *decay, sr).to_boxed_nodedata(2),
+            vec![],
+        ),
         Component::Get(nodes::Get { reference }) => (
             NodeData::new2(BoxedNodeSend::new(Pass {})),
             vec![reference.to_string()],
@@ -454,11 +464,22 @@ fn get_one_para_from_number_or_ref<const N: usize, T>(
 ) -> (NodeData<BoxedNodeSend<N>, N>, Vec<String>)
 where
     T: From<f32> + Node<N> + Send + 'static,
+{
+    make_from_number_or_ref(param, channels, T::from)
+}
+
+fn make_from_number_or_ref<const N: usize, T>(
+    param: &nodes::NumberOrRef<&str>,
+    channels: usize,
+    make: impl Fn(f32) -> T,
+) -> (NodeData<BoxedNodeSend<N>, N>, Vec<String>)
+where
+    T: Node<N> + Send + 'static,
 {
     match param {
-        nodes::NumberOrRef::Number(v) => (T::from(*v).to_boxed_nodedata(channels), vec![]),
+        nodes::NumberOrRef::Number(v) => (make(*v).to_boxed_nodedata(channels), vec![]),
         nodes::NumberOrRef::Ref(s) => (
-            T::from(0.0).to_boxed_nodedata(channels),
+            make(0.0).to_boxed_nodedata(channels),
             vec![(*s).to_owned()],
         ),
     }
diff --git a/rs/synth/src/node/compound/bd.rs b/rs/synth/src/node/compound/bd.rs
index f6374af..0ff43cf 100644
--- a/rs/synth/src/node/compound/bd.rs
+++ b/rs/synth/src/node/compound/bd.rs
@@ -27,20 +27,18 @@ pub struct Bd<const N: usize> {
 
 impl<const N: usize> Bd<N> {
     pub fn new(decay: f32) -> Self {
-        Self::from(decay)
+        Self::with_sr(decay, 44100)
     }
-}
 
-impl<const N: usize> From<f32> for Bd<N> {
-    fn from(decay: f32) -> Self {
-        let mut context = crate::AudioContextBuilder::<N>::new().channels(2).build();
+    pub fn with_sr(decay: f32, sr: usize) -> Self {
+        let mut context = crate::AudioContextBuilder::<N>::new().sr(sr).channels(2).build();
         let input = context.add_mono_node(Pass {});
-        let env_amp = context.add_mono_node(EnvPerc::new().attack(0.003).decay(decay));
+        let env_amp = context.add_mono_node(EnvPerc::new().sr(sr).attack(0.003).decay(decay));
         context.tags.insert("d", env_amp);
-        let env_pitch = context.add_mono_node(EnvPerc::new().attack(0.01).decay(0.1));
+        let env_pitch = context.add_mono_node(EnvPerc::new().sr(sr).attack(0.01).decay(0.1));
         let mul = context.add_stereo_node(Mul::new(50.));
         let add = context.add_stereo_node(Add::new(60.));
-        let sin = context.add_mono_node(SinOsc::new());
+        let sin = context.add_mono_node(SinOsc::new().sr(sr));
         let sin_amp = context.add_mono_node(Mul::new(0.));
         context.chain(vec![sin, sin_amp, context.destination]);
         context.chain(vec![input, env_amp, sin_amp]);
@@ -54,6 +52,12 @@ impl<const N: usize> From<f32> for Bd<N> {
     }
 }
 
+impl<const N: usize> From<f32> for Bd<N> {
+    fn from(decay: f32) -> Self {
+        Self::new(decay)
+    }
+}
+
 impl<const N: usize> Node<N> for Bd<N> {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
         process_compound(
diff --git a/rs/synth/src/node/compound/hh.rs b/rs/synth/src/node/compound/hh.rs
index d06c852..c4d3951 100644
--- a/rs/synth/src/node/compound/hh.rs
+++ b/rs/synth/src/node/compound/hh.rs
@@ -20,22 +20,20 @@ pub struct Hh<const N: usize> {
 
 impl<const N: usize> Hh<N> {
     pub fn new(decay: f32) -> Self {
-        Self::from(decay)
+        Self::with_sr(decay, 44100)
     }
-}
 
-impl<const N: usize> From<f32> for Hh<N> {
-    fn from(decay: f32) -> Self {
-        let mut context = crate::AudioContextBuilder::<N>::new().channels(2).build();
+    pub fn with_sr(decay: f32, sr: usize) -> Self {
+        let mut context = crate::AudioContextBuilder::<N>::new().sr(sr).channels(2).build();
         let input = context.add_mono_node(Pass {});
 
         let source = context.add_mono_node(Noise::new(42));
-        let filter = context.add_mono_node(ResonantHighPassFilter::new().cutoff(15000.));
+        let filter = context.add_mono_node(ResonantHighPassFilter::new().sr(sr).cutoff(15000.));
         let amp = context.add_stereo_node(Mul::new(0.));
 
         context.chain(vec![source, filter, amp, context.destination]);
 
-        let env_amp = context.add_mono_node(EnvPerc::new().attack(0.003).decay(decay));
+        let env_amp = context.add_mono_node(EnvPerc::new().sr(sr).attack(0.003).decay(decay));
         context.tags.insert("d", env_amp);
         context.chain(vec![input, env_amp, amp]);
 
@@ -47,6 +45,12 @@ impl<const N: usize> From<f32> for Hh<N> {
     }
 }
 
+impl<const N: usize> From<f32> for Hh<N> {
+    fn from(decay: f32) -> Self {
+        Self::new(decay)
+    }
+}
+
 impl<const N: usize> Node<N> for Hh<N> {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
         process_compound(
diff --git a/rs/synth/src/node/compound/sawsynth.rs b/rs/synth/src/node/compound/sawsynth.rs
index 769c45d..176a9a8 100644
--- a/rs/synth/src/node/compound/sawsynth.rs
+++ b/rs/synth/src/node/compound/sawsynth.rs
@@ -25,15 +25,19 @@ pub struct SawSynth<const N: usize> {
 
 impl<const N: usize> SawSynth<N> {
     pub fn new(attack: f32, decay: f32) -> Self {
-        let mut context = crate::AudioContextBuilder::<N>::new().channels(2).build();
+        Self::with_sr(attack, decay, 44100)
+    }
+
+    pub fn with_sr(attack: f32, decay: f32, sr: usize) -> Self {
+        let mut context = crate::AudioContextBuilder::<N>::new().sr(sr).channels(2).build();
         let input = context.add_mono_node(Pass {});
 
-        let source = context.add_mono_node(SawOsc::new());
+        let source = context.add_mono_node(SawOsc::new().sr(sr));
         let amp = context.add_stereo_node(Mul::new(0.));
 
         context.chain(vec![source, amp, context.destination]);
 
-        let env_amp = context.add_mono_node(EnvPerc::new().attack(attack).decay(decay));
+        let env_amp = context.add_mono_node(EnvPerc::new().sr(sr).attack(attack).decay(decay));
         context.tags.insert("env_amp", env_amp);
         context.chain(vec![input, env_amp, amp]);
 
diff --git a/rs/synth/src/node/compound/sn.rs b/rs/synth/src/node/compound/sn.rs
index cb583fc..0cbe638 100644
--- a/rs/synth/src/node/compound/sn.rs
+++ b/rs/synth/src/node/compound/sn.rs
@@ -28,21 +28,19 @@ pub struct Sn<const N: usize> {
 
 impl<const N: usize> Sn<N> {
     pub fn new(decay: f32) -> Self {
-        Self::from(decay)
+        Self::with_sr(decay, 44100)
     }
-}
 
-impl<const N: usize> From<f32> for Sn<N> {
-    fn from(decay: f32) -> Self {
-        let mut context = crate::AudioContextBuilder::<N>::new().channels(2).build();
+    pub fn with_sr(decay: f32, sr: usize) -> Self {
+        let mut context = crate::AudioContextBuilder::<N>::new().sr(sr).channels(2).build();
         let input = context.add_mono_node(Pass {});
-        let env_amp = context.add_mono_node(EnvPerc::new().attack(0.001).decay(decay));
+        let env_amp = context.add_mono_node(EnvPerc::new().sr(sr).attack(0.001).decay(decay));
         context.tags.insert("d", env_amp);
-        let env_pitch = context.add_mono_node(EnvPerc::new().attack(0.001).decay(0.1));
+        let env_pitch = context.add_mono_node(EnvPerc::new().sr(sr).attack(0.001).decay(0.1));
         let mul = context.add_stereo_node(Mul::new(55.));
         let add = context.add_stereo_node(Add::new(60.));
 
-        let sin = context.add_mono_node(SinOsc::new());
+        let sin = context.add_mono_node(SinOsc::new().sr(sr));
         let mix = context.add_stereo_node(Add::new(0.));
         let filter = context.add_stereo_node(Add::new(0.));
         let amp = context.add_stereo_node(Mul::new(0.));
@@ -63,6 +61,12 @@ impl<const N: usize> From<f32> for Sn<N> {
     }
 }
 
+impl<const N: usize> From<f32> for Sn<N> {
+    fn from(decay: f32) -> Self {
+        Self::new(decay)
+    }
+}
+
 impl<const N: usize> Node<N> for Sn<N> {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
         process_compound(
diff --git a/rs/synth/src/node/compound/squsynth.rs b/rs/synth/src/node/compound/squsynth.rs
index 82ab19a..331815b 100644
--- a/rs/synth/src/node/compound/squsynth.rs
+++ b/rs/synth/src/node/compound/squsynth.rs
@@ -18,15 +18,19 @@ pub struct SquSynth<const N: usize> {
 
 impl<const N: usize> SquSynth<N> {
     pub fn new(attack: f32, decay: f32) -> Self {
-        let mut context = crate::AudioContextBuilder::<N>::new().channels(2).build();
+        Self::with_sr(attack, decay, 44100)
+    }
+
+    pub fn with_sr(attack: f32, decay: f32, sr: usize) -> Self {
+        let mut context = crate::AudioContextBuilder::<N>::new().sr(sr).channels(2).build();
         let input = context.add_mono_node(Pass {});
 
-        let source = context.add_mono_node(SquOsc::new());
+        let source = context.add_mono_node(SquOsc::new().sr(sr));
         let amp = context.add_stereo_node(Mul::new(0.));
 
         context.chain(vec![source, amp, context.destination]);
 
-        let env_amp = context.add_mono_node(EnvPerc::new().attack(attack).decay(decay));
+        let env_amp = context.add_mono_node(EnvPerc::new().sr(sr).attack(attack).decay(decay));
         context.tags.insert("d", env_amp);
         context.chain(vec![input, env_amp, amp]);
 
diff --git a/rs/synth/src/node/compound/trisynth.rs b/rs/synth/src/node/compound/trisynth.rs
index 5a015e8..1f23889 100644
--- a/rs/synth/src/node/compound/trisynth.rs
+++ b/rs/synth/src/node/compound/trisynth.rs
@@ -18,15 +18,19 @@ pub struct TriSynth<const N: usize> {
 
 impl<const N: usize> TriSynth<N> {
     pub fn new(attack: f32, decay: f32) -> Self {
-        let mut context = crate::AudioContextBuilder::<N>::new().channels(2).build();
+        Self::with_sr(attack, decay, 44100)
+    }
+
+    pub fn with_sr(attack: f32, decay: f32, sr: usize) -> Self {
+        let mut context = crate::AudioContextBuilder::<N>::new().sr(sr).channels(2).build();
         let input = context.add_mono_node(Pass {});
 
-        let source = context.add_mono_node(TriOsc::new());
+        let source = context.add_mono_node(TriOsc::new().sr(sr));
         let amp = context.add_stereo_node(Mul::new(0.));
 
         context.chain(vec![source, amp, context.destination]);
 
-        let env_amp = context.add_mono_node(EnvPerc::new().attack(attack).decay(decay));
+        let env_amp = context.add_mono_node(EnvPerc::new().sr(sr).attack(attack).decay(decay));
         context.tags.insert("d", env_amp);
         context.chain(vec![input, env_amp, amp]);
 
diff --git a/rs/synth/src/node/effect/plate.rs b/rs/synth/src/node/effect/plate.rs
index d13e92a..c1d0a62 100644
--- a/rs/synth/src/node/effect/plate.rs
+++ b/rs/synth/src/node/effect/plate.rs
@@ -18,21 +18,25 @@ pub struct Plate<const N: usize> {
 
 impl<const N: usize> Plate<N> {
     pub fn new(mix: f32) -> Self {
-        let mut context = crate::AudioContextBuilder::<N>::new().channels(2).build();
+        Self::with_sr(mix, 44100)
+    }
+
+    pub fn with_sr(mix: f32, sr: usize) -> Self {
+        let mut context = crate::AudioContextBuilder::<N>::new().sr(sr).channels(2).build();
 
         let input = context.add_mono_node(Pass {});
         let wet1 = context.add_mono_node(OnePole::new(0.7));
-        let wet2 = context.add_mono_node(DelayMs::new().delay(50., 2));
-        let wet3 = context.add_mono_node(AllPassFilterGain::new().delay(4.771).gain(0.75));
-        let wet4 = context.add_mono_node(AllPassFilterGain::new().delay(3.595).gain(0.75));
-        let wet5 = context.add_mono_node(AllPassFilterGain::new().delay(12.72).gain(0.625));
-        let wet6 = context.add_mono_node(AllPassFilterGain::new().delay(9.307).gain(0.625));
+        let wet2 = context.add_mono_node(DelayMs::new().sr(sr).delay(50., 2));
+        let wet3 = context.add_mono_node(AllPassFilterGain::new().sr(sr).delay(4.771).gain(0.75));
+        let wet4 = context.add_mono_node(AllPassFilterGain::new().sr(sr).delay(3.595).gain(0.75));
+        let wet5 = context.add_mono_node(AllPassFilterGain::new().sr(sr).delay(12.72).gain(0.625));
+        let wet6 = context.add_mono_node(AllPassFilterGain::new().sr(sr).delay(9.307).gain(0.625));
         let wet7 = context.add_mono_node(Add::new(0.0)); // fb here
-        let wet8 = context.add_mono_node(AllPassFilterGain::new().delay(100.0).gain(0.7)); // mod here
+        let wet8 = context.add_mono_node(AllPassFilterGain::new().sr(sr).delay(100.0).gain(0.7)); // mod here
 
         context.chain(vec![input, wet1, wet2, wet3, wet4, wet5, wet6, wet7, wet8]);
 
-        let mod1 = context.add_mono_node(SinOsc::new().freq(0.1));
+        let mod1 = context.add_mono_node(SinOsc::new().sr(sr).freq(0.1));
         let mod2 = context.add_mono_node(Mul::new(5.5));
         let mod3 = context.add_mono_node(Add::new(29.5));
         let _ = context.chain(vec![mod1, mod2, mod3, wet8]);
@@ -50,15 +54,16 @@ impl<const N: usize> Plate<N> {
             DelayN::new(2000).to_boxed_nodedata(1),
             OnePole::new(0.1).to_boxed_nodedata(1),
             AllPassFilterGain::new()
+                .sr(sr)
                 .delay(7.596)
                 .gain(0.5)
                 .to_boxed_nodedata(1),
         ]);
         context.connect(ac, ba[0]);
 
-        let bb = context.add_mono_node(AllPassFilterGain::new().delay(35.78).gain(0.5));
+        let bb = context.add_mono_node(AllPassFilterGain::new().sr(sr).delay(35.78).gain(0.5));
         context.connect(ba[2], bb);
-        let bc = context.add_mono_node(AllPassFilterGain::new().delay(100.).gain(0.5));
+        let bc = context.add_mono_node(AllPassFilterGain::new().sr(sr).delay(100.).gain(0.5));
         context.connect(bb, bc);
         let _ = context.chain(vec![mod1, mod2, mod3, bc]); // modulate here
 
@@ -70,7 +75,7 @@ impl<const N: usize> Plate<N> {
         let cc2 = context.add_mono_node(Mul::new(0.3));
         context.chain(vec![cb, cc1, cc2]);
 
-        let da1 = context.add_mono_node(AllPassFilterGain::new().delay(30.).gain(0.7));
+        let da1 = context.add_mono_node(AllPassFilterGain::new().sr(sr).delay(30.).gain(0.7));
         let da2 = context.add_mono_node(DelayN::new(522));
         context.chain(vec![cc2, da1, da2]);
 
@@ -80,13 +85,13 @@ impl<const N: usize> Plate<N> {
         context.connect(db, dc);
 
         let ea1 = context.add_mono_node(OnePole::new(0.1));
-        let ea2 = context.add_mono_node(AllPassFilterGain::new().delay(6.2).gain(0.7));
+        let ea2 = context.add_mono_node(AllPassFilterGain::new().sr(sr).delay(6.2).gain(0.7));
         context.chain(vec![dc, ea1, ea2]);
 
-        let eb = context.add_mono_node(AllPassFilterGain::new().delay(34.92).gain(0.7));
+        let eb = context.add_mono_node(AllPassFilterGain::new().sr(sr).delay(34.92).gain(0.7));
         context.connect(ea2, eb);
 
-        let fa1 = context.add_mono_node(AllPassFilterGain::new().delay(20.4).gain(0.7));
+        let fa1 = context.add_mono_node(AllPassFilterGain::new().sr(sr).delay(20.4).gain(0.7));
         let fa2 = context.add_mono_node(DelayN::new(1578));
         context.chain(vec![eb, fa1, fa2]);
         let fb = context.add_mono_node(DelayN::new(2378));
-- 
2.43.0


From 44c4b86bd342189fc94ca3621da8a30e328d02c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:39 +0000
Subject: [PATCH 29/49] fix: give the high pass filter the sample rate

---
 rs/main/src/util.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rs/main/src/util.rs b/rs/main/src/util.rs
index 191b4bd..012f6d8 100644
--- a/rs/main/src/util.rs
+++ b/rs/main/src/util.rs
@@ -213,6 +213,7 @@ pub fn makenode<const N: usize>(
         }
         Component::Rhpf(nodes::Rhpf { cutoff, qvalue }) => {
             let data = ResonantHighPassFilter::new()
+                .sr(sr)
                 .cutoff(match cutoff {
                     nodes::NumberOrRef::Number(v) => *v,
                     nodes::NumberOrRef::Ref(_) => 100.0,
-- 
2.43.0


From 624170ba7625e018b73ba197a7cd9d74a18328f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:39 +0000
Subject: [PATCH 30/49] fix: follow a tempo change in arrange, lpf, psampler
 and pattern_synth

---
 rs/synth/src/node/filter/rlpf.rs         | 1 +
 rs/synth/src/node/sampling/psampler.rs   | 1 +
 rs/synth/src/node/sequencer/arrange.rs   | 1 +
 rs/synth/src/node/synth/pattern_synth.rs | 4 +---
 4 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/rs/synth/src/node/filter/rlpf.rs b/rs/synth/src/node/filter/rlpf.rs
index 4e63144..5bae0eb 100644
--- a/rs/synth/src/node/filter/rlpf.rs
+++ b/rs/synth/src/node/filter/rlpf.rs
@@ -149,6 +149,7 @@ impl<const N: usize> Node<N> for ResonantLowPassFilter {
 
     fn send_msg(&mut self, info: Message) {
         match info {
+            Message::SetBPM(bpm) => self.bpm = bpm,
             Message::SetPattern(p, span) => {
                 self.pattern = p;
                 self.span = span;
diff --git a/rs/synth/src/node/sampling/psampler.rs b/rs/synth/src/node/sampling/psampler.rs
index fded41a..5fc8822 100644
--- a/rs/synth/src/node/sampling/psampler.rs
+++ b/rs/synth/src/node/sampling/psampler.rs
@@ -137,6 +137,7 @@ impl<const N: usize> Node<N> for PSampler {
 
     fn send_msg(&mut self, info: Message) {
         match info {
+            Message::SetBPM(bpm) => self.cycle_dur = 60. / bpm * 4.,
             Message::SetSamplePattern(pattern, span, samples_dict) => {
                 self.playback.clear();
                 self.pattern = pattern;
diff --git a/rs/synth/src/node/sequencer/arrange.rs b/rs/synth/src/node/sequencer/arrange.rs
index 3201562..db382f6 100644
--- a/rs/synth/src/node/sequencer/arrange.rs
+++ b/rs/synth/src/node/sequencer/arrange.rs
@@ -83,6 +83,7 @@ impl<const N: usize> Node<N> for Arrange {
     }
     fn send_msg(&mut self, info: Message) {
         match info {
+            Message::SetBPM(bpm) => self.bpm = bpm,
             Message::SetToNumber(i, value) => {
                 if let Some(NumberOrRef::Number(bar)) = self.events.get_mut(i as usize) {
                     *bar = value;
diff --git a/rs/synth/src/node/synth/pattern_synth.rs b/rs/synth/src/node/synth/pattern_synth.rs
index 1f9ea95..1d55825 100644
--- a/rs/synth/src/node/synth/pattern_synth.rs
+++ b/rs/synth/src/node/synth/pattern_synth.rs
@@ -130,9 +130,7 @@ impl<const N: usize> Node<N> for PatternSynth {
     }
     fn send_msg(&mut self, info: Message) {
         match info {
-            // Message::SetBPM(bpm) => {
-            //     self.bpm = bpm
-            // },
+            Message::SetBPM(bpm) => self.cycle_dur = 60. / bpm * 4.,
             Message::SetToSymbol(0, s) => {
                 // panic!();
                 self.events.clear();
-- 
2.43.0


From 7fd1d6a68301e9b41926e4f9112454eb56ef8378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:38 +0000
Subject: [PATCH 31/49] fix: wrap the modulated delay without looping

---
 rs/synth/src/node/delay/delayms.rs    | 6 ++----
 rs/synth/src/node/filter/apfmsgain.rs | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index f319ffc..87efb06 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -79,10 +79,8 @@ impl<const N: usize> Node<N> for DelayMs {
 
                 let mod_buf = &mut ref_input.buffers();
                 for i in 0..N {
-                    let mut pos = -mod_buf[0][i] / 1000. * self.sr as f32;
-                    while pos < 0. {
-                        pos += self.buf[0].len() as f32;
-                    }
+                    let pos = -mod_buf[0][i] / 1000. * self.sr as f32;
+                    let pos = pos.rem_euclid(self.buf[0].len() as f32);
                     let pos_int = pos.floor() as usize;
                     let pos_frac = pos.fract();
 
diff --git a/rs/synth/src/node/filter/apfmsgain.rs b/rs/synth/src/node/filter/apfmsgain.rs
index 79a6b5f..5d4ff35 100644
--- a/rs/synth/src/node/filter/apfmsgain.rs
+++ b/rs/synth/src/node/filter/apfmsgain.rs
@@ -79,10 +79,8 @@ impl<const N: usize> Node<N> for AllPassFilterGain {
                     .zip(main_input.buffers()[0].iter())
                     .zip(ref_input.buffers()[0].iter())
                 {
-                    let mut pos = -mod_buf / 1000. * self.sr as f32;
-                    while pos < 0. {
-                        pos += self.bufx.len() as f32;
-                    }
+                    let pos = -mod_buf / 1000. * self.sr as f32;
+                    let pos = pos.rem_euclid(self.bufx.len() as f32);
                     let pos_int = pos.floor() as usize;
                     let pos_frac = pos.fract();
 
-- 
2.43.0


From d604bc2a0db36f88f243af7fe537a994e1f146e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:18 +0000
Subject: [PATCH 32/49] fix: let the page add samples after a failed call

---
 rs/wasm/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/wasm/src/lib.rs b/rs/wasm/src/lib.rs
index a56277b..e13d3d2 100644
--- a/rs/wasm/src/lib.rs
+++ b/rs/wasm/src/lib.rs
@@ -30,7 +30,7 @@ pub fn process(size: usize) -> Vec<f32> {
 
 #[wasm_bindgen]
 pub fn add_sample(name: String, sample: Box<[f32]>, channels: usize, sr: usize) {
-    let mut engine = ENGINE.lock().unwrap();
+    let mut engine = get_engine();
     let leaked_sample = Box::leak(sample);
     engine.add_sample(&name, leaked_sample, channels, sr);
     // engine.update(code);
-- 
2.43.0


From 613e7040cc70993d480dbc2ba2ef7abfb995af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:24:40 +0000
Subject: [PATCH 33/49] fix: spread the notes of a sequence over one bar

---
 rs/parser/src/nodes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index 77eaca3..049178e 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -524,6 +524,7 @@ impl<'ast> Node<'ast> for Seq<'ast> {
         // to do, more than a symbol
         // should be an event that contains time and note
         let compounds = paras.into_inner();
+        let compounds_n = compounds.len();
 
         let events = compounds
             .enumerate()
@@ -541,7 +542,8 @@ impl<'ast> Node<'ast> for Seq<'ast> {
                             .next()
                             .ok_or_else(|| e_span.to_err_with_positives(positives))?;
 
-                        let time = relative_time_sub + i as f32;
+                        // the compounds share one bar
+                        let time = (relative_time_sub + i as f32) / compounds_n as f32;
 
                         match_or_return_err!(e,
                             Rule::integer => {
-- 
2.43.0


From cae45de1c7f857652fb05b7ea5faa860f63d8973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:24:40 +0000
Subject: [PATCH 34/49] fix: let points without a span take one bar

---
 rs/parser/src/nodes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index 049178e..d02be1d 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -210,7 +210,7 @@ impl Node<'_> for Points {
         pairs: &mut Pairs<'_, Rule>,
         span: Span<'_>,
     ) -> Result<Self, Box<Error<Rule>>> {
-        let mut node_span = -1.0;
+        let mut node_span = 1.0;
         let mut is_looping = false;
         let points = pairs.next().ok_or_else(|| {
             span.as_end_span()
-- 
2.43.0


From 39de7fc9762e8759040c7ba09024bcd4ff858412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:34 +0000
Subject: [PATCH 35/49] fix: hand on one-channel nodes as mono

seq, choose, envperc and apfmsgain compute one channel but declared two.
The second one stayed silent, so a chain that passed through them (or was
multiplied by such an envelope) was heard on the left only. With one
channel declared the signal is played on both sides.
---
 rs/main/src/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rs/main/src/util.rs b/rs/main/src/util.rs
index 012f6d8..16d6ee3 100644
--- a/rs/main/src/util.rs
+++ b/rs/main/src/util.rs
@@ -235,7 +235,7 @@ pub fn makenode<const N: usize>(
                     nodes::NumberOrRef::Ref(_) => 0.0,
                 })
                 .gain(*gain)
-                .to_boxed_nodedata(2);
+                .to_boxed_nodedata(1);
 
             let mut reflist = vec![];
             if let nodes::NumberOrRef::Ref(s) = delay {
@@ -253,7 +253,7 @@ pub fn makenode<const N: usize>(
                 .sr(sr)
                 .attack(*attack)
                 .decay(*decay)
-                .to_boxed_nodedata(2),
+                .to_boxed_nodedata(1),
             vec![],
         ),
         Component::Adsr(nodes::Adsr {
@@ -396,12 +396,12 @@ pub fn makenode<const N: usize>(
                     .sr(sr)
                     .bpm(bpm)
                     .ref_order(order)
-                    .to_boxed_nodedata(2),
+                    .to_boxed_nodedata(1),
                 reflist,
             )
         }
         Component::Choose(nodes::Choose { choices }) => (
-            Choose::new(choices.clone(), seed as u64).to_boxed_nodedata(2),
+            Choose::new(choices.clone(), seed as u64).to_boxed_nodedata(1),
             vec![],
         ),
         Component::Mix(nodes::Mix { nodes }) => (
-- 
2.43.0


From 71e2209b23ab2c532c0e9f5884a4ccf319f634f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:52 +0000
Subject: [PATCH 36/49] fix: delay a mono input on both sides

delayms hands on two channels but wrote only the left one when its input
was mono, so the delayed signal was heard on the left only.
---
 rs/synth/src/node/delay/delayms.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index 87efb06..34ce157 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -43,6 +43,11 @@ impl DelayMs {
     }
 }
 
+/// the buffers for the left and the right side; a mono input is heard on both
+fn both_sides<const N: usize>(buffers: &[Buffer<N>]) -> [&Buffer<N>; 2] {
+    [&buffers[0], buffers.get(1).unwrap_or(&buffers[0])]
+}
+
 impl<const N: usize> Node<N> for DelayMs {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
         let Some(main_input) = inputs.values().next() else {
@@ -63,7 +68,7 @@ impl<const N: usize> Node<N> for DelayMs {
                             .buf
                             .iter_mut()
                             .zip(output.iter_mut())
-                            .zip(main_input.buffers());
+                            .zip(both_sides(main_input.buffers()));
 
                         for ((fixed, out_buf), main_buf) in iter {
                             for (out, main) in out_buf.iter_mut().zip(main_buf.iter()) {
@@ -88,7 +93,7 @@ impl<const N: usize> Node<N> for DelayMs {
                         .buf
                         .iter_mut()
                         .zip(output.iter_mut())
-                        .zip(main_input.buffers());
+                        .zip(both_sides(main_input.buffers()));
 
                     for ((fixed, out_buf), main_buf) in iter {
                         out_buf[i] = fixed.get(pos_int) * pos_frac
-- 
2.43.0


From 923b7c3213aaec6be9d3ab15138d7e14cbe9095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:52 +0000
Subject: [PATCH 37/49] fix: arrange both channels

arrange hands on two channels but wrote only the left one. A mono source
was heard on the left only and a stereo source lost its right channel.
---
 rs/synth/src/node/sequencer/arrange.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/rs/synth/src/node/sequencer/arrange.rs b/rs/synth/src/node/sequencer/arrange.rs
index db382f6..cf82120 100644
--- a/rs/synth/src/node/sequencer/arrange.rs
+++ b/rs/synth/src/node/sequencer/arrange.rs
@@ -41,11 +41,21 @@ impl Arrange {
     }
 }
 
+/// hand on one frame of a source, a mono source on every channel
+fn play_frame<const N: usize>(source: Option<&Input<N>>, output: &mut [Buffer<N>], i: usize) {
+    for (channel, out) in output.iter_mut().enumerate() {
+        out[i] = source.map_or(0.0, |source| {
+            let buffers = source.buffers();
+            buffers.get(channel).unwrap_or(&buffers[0])[i]
+        });
+    }
+}
+
 impl<const N: usize> Node<N> for Arrange {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
         let bar_length = 240.0 / self.bpm * self.sr as f32 / self.speed;
         // calculate which bar we are and which input to pass to theoutput
-        for (i, out) in output[0].iter_mut().enumerate() {
+        for i in 0..N {
             let pos = self.step as f32 / bar_length;
             let mut bar_count = 0.0;
             for j in 0..(self.events.len() / 2) {
@@ -56,7 +66,7 @@ impl<const N: usize> Node<N> for Arrange {
                 bar_count += bar;
                 if pos < bar_count {
                     let source = self.input_order.get(j).and_then(|id| inputs.get(id));
-                    *out = source.map_or(0.0, |source| source.buffers()[0][i]);
+                    play_frame(source, output, i);
                     // match &self.events[j*2] {
                     //     GlicolPara::Reference(s) => {
                     //         let source = &inputs[&self.input_order[j]];
@@ -68,7 +78,7 @@ impl<const N: usize> Node<N> for Arrange {
                 } else if j == self.events.len() / 2 - 1 {
                     self.step = 0;
                     let source = self.input_order.first().and_then(|id| inputs.get(id));
-                    *out = source.map_or(0.0, |source| source.buffers()[0][i]);
+                    play_frame(source, output, i);
                     // match &self.events[0] {
                     //     GlicolPara::Reference(s) => {
                     //         let source = &inputs[&self.input_order[0]];
-- 
2.43.0


From 5e7368c770317ca9f17655136de45abb7e2e92f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:59 +0000
Subject: [PATCH 38/49] fix: let a node without inputs fall silent

A node kept from the program before, whose input the new program removed,
went on repeating its last block for ever. Nodes that an update leaves
without inputs now start from silence.
---
 rs/main/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 645fe6f..8baac79 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -16,7 +16,7 @@ use glicol_synth::{
     NodeData, Pass,
 };
 use hashbrown::HashMap;
-use petgraph::graph::NodeIndex;
+use petgraph::{graph::NodeIndex, Direction::Incoming};
 use yoke::Yoke;
 
 pub type GlicolNodeData<const N: usize> = NodeData<BoxedNodeSend<N>, N>;
@@ -552,6 +552,16 @@ impl<const N: usize> Engine<N> {
             }
         }
 
+        // a node left without inputs should fall silent, not go on repeating its last block
+        for first in self.index_info.values().filter_map(|chain| chain.first()) {
+            let graph = &mut self.context.graph;
+            if graph.neighbors_directed(*first, Incoming).next().is_none() {
+                for buffer in &mut graph[*first].buffers {
+                    buffer.silence();
+                }
+            }
+        }
+
         // We can't reuse the allocation here as far as I can tell; see the comment at the top of
         // Self::parse
         self.ast = Some(new_ast);
-- 
2.43.0


From 8bfe3988e748f35fc4edb4f5de9356550c0246e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:47:10 +0000
Subject: [PATCH 39/49] fix: feed the current sample into the lpf and hpf
 filters

The difference equation uses the current input, but that term was never
set. The high pass let a constant signal through and the low pass made it
quieter.
---
 rs/synth/src/node/filter/rhpf.rs | 2 ++
 rs/synth/src/node/filter/rlpf.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/rs/synth/src/node/filter/rhpf.rs b/rs/synth/src/node/filter/rhpf.rs
index ec56e9d..6a77114 100644
--- a/rs/synth/src/node/filter/rhpf.rs
+++ b/rs/synth/src/node/filter/rhpf.rs
@@ -62,6 +62,7 @@ impl<const N: usize> Node<N> for ResonantHighPassFilter {
                 let b1 = -2.0 * gama;
                 let b2 = 2.0 * beta;
                 for (out, x0) in output[0].iter_mut().zip(main_input.buffers()[0].iter()) {
+                    self.x0 = *x0;
                     let y =
                         a0 * self.x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
                     *out = y;
@@ -87,6 +88,7 @@ impl<const N: usize> Node<N> for ResonantHighPassFilter {
                 let b2 = 2.0 * beta;
 
                 for (out, x0) in output[0].iter_mut().zip(main_input.buffers()[0].iter()) {
+                    self.x0 = *x0;
                     let y =
                         a0 * self.x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
                     *out = y;
diff --git a/rs/synth/src/node/filter/rlpf.rs b/rs/synth/src/node/filter/rlpf.rs
index 5bae0eb..2933ee8 100644
--- a/rs/synth/src/node/filter/rlpf.rs
+++ b/rs/synth/src/node/filter/rlpf.rs
@@ -107,6 +107,7 @@ impl<const N: usize> Node<N> for ResonantLowPassFilter {
                     let b1 = -2.0 * gama;
                     let b2 = 2.0 * beta;
 
+                    self.x0 = *x0;
                     let y =
                         a0 * self.x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
 
@@ -133,6 +134,7 @@ impl<const N: usize> Node<N> for ResonantLowPassFilter {
                 let b2 = 2.0 * beta;
 
                 for (out, x0) in output[0].iter_mut().zip(main_input.buffers()[0].iter()) {
+                    self.x0 = *x0;
                     let y =
                         a0 * self.x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
                     *out = y;
-- 
2.43.0


From 9b872a9f98cd3501deadbfcd2cf87587a48dd8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:47:10 +0000
Subject: [PATCH 40/49] fix: filter the main input of a modulated onepole

The two inputs were swapped: the signal set the rate and the modulator
was filtered.
---
 rs/synth/src/node/filter/onepole.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/filter/onepole.rs b/rs/synth/src/node/filter/onepole.rs
index 3209f70..2759021 100644
--- a/rs/synth/src/node/filter/onepole.rs
+++ b/rs/synth/src/node/filter/onepole.rs
@@ -48,9 +48,9 @@ impl<const N: usize> Node<N> for OnePole {
                     .zip(main_input.buffers()[0].iter())
                     .zip(ref_input.buffers()[0].iter())
                 {
-                    self.b = (-2.0 * std::f32::consts::PI * main_in).exp();
+                    self.b = (-2.0 * std::f32::consts::PI * ref_in).exp();
                     self.a = 1. - self.b;
-                    let y = ref_in * self.a + self.b * self.y1;
+                    let y = main_in * self.a + self.b * self.y1;
                     *out = y;
                     self.y1 = y;
                 }
-- 
2.43.0


From 5b765cfca5dc3dc58112c1eb2e54696a10ef78fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:47:10 +0000
Subject: [PATCH 41/49] fix: keep a modulated pan position in range

A modulator outside -1.0 to 1.0 gave the root of a negative number, and
the channel became NaN.
---
 rs/synth/src/node/effect/pan.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/synth/src/node/effect/pan.rs b/rs/synth/src/node/effect/pan.rs
index d467ed2..586f441 100644
--- a/rs/synth/src/node/effect/pan.rs
+++ b/rs/synth/src/node/effect/pan.rs
@@ -47,7 +47,7 @@ impl<const N: usize> Node<N> for Pan {
             let outs = left[0].iter_mut().zip(right[0].iter_mut());
 
             for ((left, right), (mod_pan, main)) in outs.zip(ref_main) {
-                let pan_norm = (mod_pan + 1.0) / 2.0;
+                let pan_norm = (mod_pan.clamp(-1.0, 1.0) + 1.0) / 2.0;
                 let left_gain = (1.0 - pan_norm).sqrt(); // Left channel gain
                 let right_gain = pan_norm.sqrt(); // Right channel gain
                 *left = left_gain * main; // Left channel
-- 
2.43.0


From 64662992f497d066d11c420282935e3ff6eb1552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:31 +0000
Subject: [PATCH 42/49] fix: delay the right channel of a stereo input

delayn kept a line for the left channel only. The right one was copied
from it for a mono input and never written for a stereo input, so what
came after was heard on the left only.
---
 rs/synth/src/node/delay/delayn.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rs/synth/src/node/delay/delayn.rs b/rs/synth/src/node/delay/delayn.rs
index 692209a..0df9670 100644
--- a/rs/synth/src/node/delay/delayn.rs
+++ b/rs/synth/src/node/delay/delayn.rs
@@ -7,6 +7,7 @@ type Fixed = ring_buffer::Fixed<Vec<f32>>;
 #[derive(Debug, Clone)]
 pub struct DelayN {
     buf: Fixed,
+    buf2: Fixed, // the right channel
     delay_n: usize,
     input_order: Vec<usize>,
 }
@@ -20,6 +21,7 @@ impl DelayN {
         };
         let buf = ring_buffer::Fixed::from(vec![0.0; init_n]);
         Self {
+            buf2: buf.clone(),
             buf,
             delay_n,
             input_order: Vec::new(),
@@ -34,8 +36,10 @@ impl<const N: usize> Node<N> for DelayN {
             if self.delay_n != 0 {
                 for i in 0..N {
                     output[0][i] = self.buf.push(main_input.buffers()[0][i]);
-                    if main_input.buffers().len() == 1 && output.len() == 2 {
-                        output[1][i] = output[0][i];
+                    if output.len() == 2 {
+                        let right = main_input.buffers().get(1);
+                        let right = right.unwrap_or(&main_input.buffers()[0]);
+                        output[1][i] = self.buf2.push(right[i]);
                     }
                 }
             } else {
@@ -64,7 +68,7 @@ impl<const N: usize> Node<N> for DelayN {
             Message::SetToNumber(0, value) => {
                 self.delay_n = (value as usize).min(MAX_DELAY);
                 self.buf = Fixed::from(vec![0.0; self.delay_n.max(1)]);
-                // buf2 = Fixed::from(vec![0.0; delay_n]);
+                self.buf2 = self.buf.clone();
                 // self.buf.set_first(self.delay_n);
                 // self.buf2.set_first(delay_n);
             }
-- 
2.43.0


From d4bc016ef6a621bcabf4ad42dd85f21eaf25e181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:56:17 +0000
Subject: [PATCH 43/49] fix: leave silence where a meta script gives no sample

When the script of a meta node failed, or gave fewer samples than a block
has, the samples of the block before were played again.
---
 rs/synth/src/node/dynamic/meta.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rs/synth/src/node/dynamic/meta.rs b/rs/synth/src/node/dynamic/meta.rs
index 1ca70ae..e3bd8dc 100644
--- a/rs/synth/src/node/dynamic/meta.rs
+++ b/rs/synth/src/node/dynamic/meta.rs
@@ -107,6 +107,8 @@ impl<const N: usize> Node<N> for Meta<N> {
             // self.engine.optimize_ast();
         }
 
+        // a script that fails or gives too few samples leaves silence
+        output[0].silence();
         match self
             .engine
             .eval_ast_with_scope::<Array>(&mut self.scope, &self.ast)
-- 
2.43.0


From 56b3e867b7ecbe832da41dc8925b154032fed457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:03:32 +0000
Subject: [PATCH 44/49] fix: weigh the two samples around a modulated delay the
 right way round

The fraction was given to the older sample, so a delay of 1.25 frames was
heard as one of 1.75 and a whole number of frames came out one too short.
---
 rs/synth/src/node/delay/delayms.rs    | 4 ++--
 rs/synth/src/node/filter/apfmsgain.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index 34ce157..81f9aaa 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -96,8 +96,8 @@ impl<const N: usize> Node<N> for DelayMs {
                         .zip(both_sides(main_input.buffers()));
 
                     for ((fixed, out_buf), main_buf) in iter {
-                        out_buf[i] = fixed.get(pos_int) * pos_frac
-                            + fixed.get(pos_int + 1) * (1. - pos_frac);
+                        out_buf[i] = fixed.get(pos_int) * (1. - pos_frac)
+                            + fixed.get(pos_int + 1) * pos_frac;
                         fixed.push(main_buf[i]);
                     }
                 }
diff --git a/rs/synth/src/node/filter/apfmsgain.rs b/rs/synth/src/node/filter/apfmsgain.rs
index 5d4ff35..b291120 100644
--- a/rs/synth/src/node/filter/apfmsgain.rs
+++ b/rs/synth/src/node/filter/apfmsgain.rs
@@ -84,10 +84,10 @@ impl<const N: usize> Node<N> for AllPassFilterGain {
                     let pos_int = pos.floor() as usize;
                     let pos_frac = pos.fract();
 
-                    let xdelay = self.bufx.get(pos_int) * pos_frac
-                        + self.bufx.get(pos_int + 1) * (1. - pos_frac);
-                    let ydelay = self.bufy.get(pos_int) * pos_frac
-                        + self.bufy.get(pos_int + 1) * (1. - pos_frac);
+                    let xdelay = self.bufx.get(pos_int) * (1. - pos_frac)
+                        + self.bufx.get(pos_int + 1) * pos_frac;
+                    let ydelay = self.bufy.get(pos_int) * (1. - pos_frac)
+                        + self.bufy.get(pos_int + 1) * pos_frac;
 
                     let yn = -self.gain * xn + xdelay + self.gain * ydelay;
 
-- 
2.43.0


From b55af7593d157b4d3cff8058697e9e28ee58e5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:03:32 +0000
Subject: [PATCH 45/49] fix: weigh the two sample values around a playing
 position the right way round

---
 rs/synth/src/node/sampling/psampler.rs | 8 ++++----
 rs/synth/src/node/sampling/sampler.rs  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/rs/synth/src/node/sampling/psampler.rs b/rs/synth/src/node/sampling/psampler.rs
index 5fc8822..2b2154c 100644
--- a/rs/synth/src/node/sampling/psampler.rs
+++ b/rs/synth/src/node/sampling/psampler.rs
@@ -82,8 +82,8 @@ impl<const N: usize> Node<N> for PSampler {
                                     let pos_index_float = x * ((sample.0.len() - 1) as f32);
                                     let left = pos_index_float.floor();
                                     let right = pos_index_float.ceil();
-                                    let left_portion = pos_index_float - left;
-                                    let right_portion = 1. - left_portion;
+                                    let right_portion = pos_index_float - left;
+                                    let left_portion = 1. - right_portion;
 
                                     sample.0[left as usize] * left_portion
                                         + sample.0[right as usize] * right_portion
@@ -107,8 +107,8 @@ impl<const N: usize> Node<N> for PSampler {
                                         x * (((sample.0.len() / sample.1) - 1) as f32);
                                     let left = pos_index_float.floor();
                                     let right = pos_index_float.ceil();
-                                    let left_portion = pos_index_float - left;
-                                    let right_portion = 1. - left_portion;
+                                    let right_portion = pos_index_float - left;
+                                    let left_portion = 1. - right_portion;
 
                                     output[0][i] += sample.0[left as usize] * left_portion
                                         + sample.0[right as usize] * right_portion;
diff --git a/rs/synth/src/node/sampling/sampler.rs b/rs/synth/src/node/sampling/sampler.rs
index d855508..68c82c4 100644
--- a/rs/synth/src/node/sampling/sampler.rs
+++ b/rs/synth/src/node/sampling/sampler.rs
@@ -56,8 +56,8 @@ impl<const N: usize> Node<N> for Sampler {
                                         let pos_index_float = pos * (self.endindex as f32);
                                         let left = pos_index_float.floor();
                                         let right = pos_index_float.ceil();
-                                        let left_portion = pos_index_float - left;
-                                        let right_portion = 1. - left_portion;
+                                        let right_portion = pos_index_float - left;
+                                        let left_portion = 1. - right_portion;
 
                                         self.sample.0[left as usize] * left_portion
                                             + self.sample.0[right as usize] * right_portion
@@ -80,8 +80,8 @@ impl<const N: usize> Node<N> for Sampler {
                                     let pos_index_float = pos * ((self.len - 1) as f32);
                                     let left = pos_index_float.floor();
                                     let right = pos_index_float.ceil();
-                                    let left_portion = pos_index_float - left;
-                                    let right_portion = 1. - left_portion;
+                                    let right_portion = pos_index_float - left;
+                                    let left_portion = 1. - right_portion;
 
                                     output[0][i] += self.sample.0[left as usize] * left_portion
                                         + self.sample.0[right as usize] * right_portion;
-- 
2.43.0


From bc0cf39a1d9c6ea058f14dd3d05126de859165d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:03:32 +0000
Subject: [PATCH 46/49] fix: interpolate looping points from the point that was
 reached

The next point was taken for the previous one, so lists of more than two
points were extended backwards from the wrong segment.
---
 rs/synth/src/node/signal/points.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/rs/synth/src/node/signal/points.rs b/rs/synth/src/node/signal/points.rs
index e9f03a4..129d05d 100644
--- a/rs/synth/src/node/signal/points.rs
+++ b/rs/synth/src/node/signal/points.rs
@@ -140,19 +140,21 @@ impl<const N: usize> Node<N> for Points {
                 let period = bar_dur;
                 let samples = &self.point_list;
 
-                let prev = samples.iter().enumerate().find(|(_, (s, _))| pos <= *s);
-
-                let is_last = prev.is_none();
-                let (index, (prev_pos, prev_val)) =
-                    prev.unwrap_or_else(|| (samples.len() - 1, samples.last().unwrap()));
+                // the last point that has been reached
+                let index = samples
+                    .iter()
+                    .position(|s| pos < s.0)
+                    .map_or(samples.len() - 1, |p| p.saturating_sub(1));
 
+                let is_last = index == samples.len() - 1;
+                let (prev_pos, prev_val) = samples[index];
                 let (next_pos, next_val) = samples[(index + 1) % samples.len()];
 
                 let t = if is_last {
-                    (pos as f32 - *prev_pos as f32)
-                        / (period as f32 - *prev_pos as f32 + next_pos as f32)
+                    (pos as f32 - prev_pos as f32)
+                        / (period as f32 - prev_pos as f32 + next_pos as f32)
                 } else {
-                    (pos as f32 - *prev_pos as f32) / (next_pos as f32 - *prev_pos as f32)
+                    (pos as f32 - prev_pos as f32) / (next_pos as f32 - prev_pos as f32)
                 };
                 *out = prev_val + t * (next_val - prev_val);
 
-- 
2.43.0


From 6cfbdf24e958d07bcbab7ddc9dba3a57b7553741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:03:32 +0000
Subject: [PATCH 47/49] fix: keep a percussive envelope silent until it is
 triggered

Every newly made drum or synth sounded once although nothing had triggered it.
---
 rs/synth/src/node/envelope/envperc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/synth/src/node/envelope/envperc.rs b/rs/synth/src/node/envelope/envperc.rs
index 52f02fc..407844c 100644
--- a/rs/synth/src/node/envelope/envperc.rs
+++ b/rs/synth/src/node/envelope/envperc.rs
@@ -22,7 +22,7 @@ impl EnvPerc {
             attack: 0.01,
             decay: 0.1,
             pos: 0,
-            scale: 1.0,
+            scale: 0.0, // silent until triggered
             sr: 44100,
             input_order: vec![],
         }
-- 
2.43.0


From df5f14170db26608ce9be90307f28f43fa5070d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:03:32 +0000
Subject: [PATCH 48/49] fix: start the attack of adsr where the envelope stands

---
 rs/synth/src/node/envelope/adsr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/node/envelope/adsr.rs b/rs/synth/src/node/envelope/adsr.rs
index 57120fc..b96f06e 100644
--- a/rs/synth/src/node/envelope/adsr.rs
+++ b/rs/synth/src/node/envelope/adsr.rs
@@ -96,7 +96,8 @@ impl<const N: usize> Node<N> for Adsr {
                             } else {
                                 // attack from: lasty -> 1.0
                                 *out = self.pos as f32 / attack_len as f32
-                                    * (1.0 - self.state_change_y);
+                                    * (1.0 - self.state_change_y)
+                                    + self.state_change_y;
                             }
                         } else if self.pos > attack_len && self.pos <= attack_len + decay_len {
                             // decay phase
-- 
2.43.0


From f161a9e4923458406a9d4d1338654788129fe4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:07:30 +0000
Subject: [PATCH 49/49] fix: let notes of msgsynth rise and then decay

The two halves of the envelope were exchanged: a note began above full
level and grew from there to its end.
---
 rs/synth/src/node/synth/msgsynth.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/synth/msgsynth.rs b/rs/synth/src/node/synth/msgsynth.rs
index 3646051..abdb93d 100644
--- a/rs/synth/src/node/synth/msgsynth.rs
+++ b/rs/synth/src/node/synth/msgsynth.rs
@@ -106,14 +106,14 @@ impl<const N: usize> Node<N> for MsgSynth {
                     let pos = self.step - synth_info.0;
 
                     let amp = match pos.cmp(&attack_n) {
-                        Ordering::Greater | Ordering::Equal => {
+                        Ordering::Less | Ordering::Equal => {
                             if attack_n == 0 {
                                 0.0
                             } else {
                                 pos as f32 / (self.att * self.sr as f32)
                             }
                         }
-                        Ordering::Less => {
+                        Ordering::Greater => {
                             if decay_n == 0 {
                                 0.0
                             } else {
-- 
2.43.0

