#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (kept here so it stays readable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))

prop("C01", "A rejected update changes nothing that is playing",
     "When the engine is given code it rejects (syntax error, unknown sample, unknown reference), the call returns an error and everything that was playing keeps playing exactly as before: same nodes, same connections, same chain table, same remembered program. Nodes created while the rejected code was being examined are gone again, and a later update behaves as if the rejected one had never been submitted.",
     ["inputs", "histories", "fault_sequences"],
     "every program text that is rejected, at whichever stage it is rejected, after every history of earlier updates",
     "The six tests never submit code that is rejected after a previous program is playing; the property quantifies over every failing exit of the update and every earlier history.",
     ["rs/main/src/lib.rs"],
     [("validate everything fallible before touching the graph; undo additions on failure", "Engine::update_with_code"),
      ("restore of the chain table and removal of freshly added nodes", "Engine::clean_up")],
     [("chain table and its backup", "which graph node plays each position of each chain", "Engine::index_info, Engine::index_info_backup"),
      ("nodes added by the running update", "what has to be undone", "Engine::temp_node_index"),
      ("remembered program", "what the next update is compared with", "Engine::ast")],
     ["Engine::update_with_code return value", "Engine::next_block output after the rejected update"])

prop("C02", "Every reference written in a program is honoured, in written order",
     "For every node kind that accepts references to other chains, each reference the user writes becomes an input of that node, in the order written, both when the node is first created and when it is kept across a later update. No written reference is dropped, duplicated beyond what was written, or reordered between the two cases.",
     ["programs", "histories"],
     "every component kind, every reference position it has, first evaluation and every later re-evaluation",
     "Tests look at one reference of one node kind (mul) and only at the parsed tree, never at the list of inputs a kept or new node is given.",
     ["rs/main/src/util.rs", "rs/main/src/lib.rs", "rs/parser/src/nodes.rs"],
     [("reference list built together with a new node", "makenode"),
      ("reference list of a kept node", "Component::all_references"),
      ("reconnection of both lists", "Engine::update_with_code (refpairlist loop)")])

prop("C03", "Signals are routed exactly as the chains are written",
     "After an accepted update, within every chain each node feeds the next one as its first (main) input, ahead of any referenced inputs; the last node of a chain feeds the speakers exactly once when the chain name has no '~' prefix, and never when it has; nothing else feeds the speakers. Connections from earlier programs are gone.",
     ["programs", "histories"],
     "every accepted program after every history of updates",
     "Tests compare parsed trees only; no test inspects connections, and chain names, lengths and histories are unbounded.",
     ["rs/main/src/lib.rs", "rs/synth/src/context.rs"],
     [("edges cleared and rebuilt from the chain table", "Engine::update_with_code (final phase)"),
      ("ordered connection with announcement to the receiving node", "AudioContext::connect_with_order / connect")],
     observe=["AudioContext::graph edges", "Engine::next_block"])

prop("C04", "Live messages and code agree on what each parameter position means",
     "Sending a live message that sets parameter k of a node changes exactly the node setting that the k-th parameter written in code sets, and derives it from the value in the same way. A message for a position the node does not have changes nothing.",
     ["programs", "inputs"],
     "every node kind, every parameter position, every value",
     "No test sends a message. The agreement spans two independent pieces of code (construction and message handling) for some thirty node kinds.",
     ["rs/main/src/util.rs", "rs/synth/src/node"],
     [("construction from code", "makenode and the node constructors/builders"),
      ("message handling", "Node::send_msg of each node")])

prop("C05", "Every parameter written in code reaches its own setting of the node",
     "For every node kind, each parameter the user writes, taken in the documented order, ends up in the setting of that name: parameters are not swapped, dropped, duplicated into another setting, or replaced by a default. This holds from the text of the program through to the node that renders sound.",
     ["programs", "inputs"],
     "every node kind, every parameter position and alternative (number, reference, pattern), every value",
     "Tests check the parsed value of saw, mul, sin and pan only; none checks what the rendering node received.",
     ["rs/parser/src/glicol.pest", "rs/parser/src/nodes.rs", "rs/main/src/util.rs", "js/src/glicol-api.json"],
     [("positional parsing of parameters", "parse_from_iter of each component"),
      ("construction of the rendering node", "makenode")])

prop("C06", "The configured sample rate reaches every node that depends on it",
     "A node created by the engine computes every time, frequency or length with the sample rate configured on the engine, never with a built-in default rate, whatever order its settings are applied in.",
     ["configurations", "programs"],
     "every sample rate set on the engine, every node kind the engine can create",
     "Tests never change the sample rate, and the default equals the built-in one, so the wrong rate is invisible to them.",
     ["rs/main/src/util.rs", "rs/main/src/lib.rs", "rs/synth/src/node"],
     [("sample rate passed down at construction", "Engine::update_with_code -> makenode -> builders")],
     [("engine sample rate", "rate of the audio device", "Engine::sr")])

prop("C07", "A tempo change reaches every tempo-dependent node at once",
     "Setting the tempo changes the tempo of every node already playing whose timing derives from it, and of every node created later; no playing node keeps any timing computed from the old tempo.",
     ["histories", "programs"],
     "every tempo value, every node kind whose timing depends on tempo, set before or after the node was created",
     "No test sets a tempo.",
     ["rs/main/src/lib.rs", "rs/main/src/util.rs", "rs/synth/src/node"],
     [("broadcast of the tempo message", "Engine::set_bpm -> AudioContext::send_msg_to_all"),
      ("tempo passed at construction", "makenode"), ("tempo message handlers", "Node::send_msg")])

prop("C08", "While rendering, a node hears exactly the nodes wired into it",
     "Each time a node renders, its inputs are precisely the current outputs of the nodes connected into it, each under its own identity, and never its own output or anything left over from another node. Every node that can reach the output renders exactly once per block, after the nodes feeding it.",
     ["programs", "histories"],
     "every graph, including cycles, self connections and nodes with no inputs",
     "Tests do not render a graph; the property ranges over all graph shapes and is about aliasing of raw buffers, which a passing run cannot exclude.",
     ["rs/synth/src/graph.rs", "rs/synth/src/node/mod.rs"],
     [("input collection per node, self edges skipped, map cleared", "graph::process"),
      ("post-order traversal from the destination", "graph::process")])

prop("C09", "Input order follows the connections announced to a node",
     "A node that distinguishes its inputs by order treats them in the order they were connected: an appended connection comes last, a positioned connection is inserted at the given position, and an order reset forgets all earlier connections. No other message disturbs the order, and reading a block of sound does not either.",
     ["histories"],
     "every sequence of connection, positioned connection, reset and other messages, for every node kind that reads its inputs by order",
     "No test sends these messages; the protocol is implemented separately in more than thirty node kinds.",
     ["rs/synth/src/node", "rs/synth/src/context.rs", "rs/main/src/lib.rs"],
     [("Index / IndexOrder / ResetOrder handling", "Node::send_msg of every node"),
      ("announcement on connection", "AudioContext::connect, connect_with_order, chain, chain_boxed")])

prop("C10", "A wrapped node behaves like the node inside",
     "Putting a node behind any of the provided wrappers (reference, box, boxed node types) changes nothing: each render request and each message is passed on exactly once, unchanged.",
     ["programs"],
     "every wrapper type, every inner node, every message and every block",
     "No test exercises the wrappers' message path.",
     ["rs/synth/src/node/mod.rs", "rs/synth/src/node/boxed.rs"],
     [("forwarding implementations", "impl Node for &mut T, Box<T>, BoxedNode, BoxedNodeSend")])

prop("C11", "Rendering copes with any number of inputs and channels",
     "No node the language can create crashes the audio callback because of how it is wired: with no input, one, two or more inputs, each mono or stereo, rendering a block stays within the inputs, the remembered input order and the output channels the node actually has.",
     ["programs", "configurations"],
     "every node kind with the channel count the engine gives it, 0 to 3 inputs, each with 1 or 2 channels",
     "Tests never render; combinations of node kind, fan-in and channel count number in the hundreds.",
     ["rs/main/src/util.rs", "rs/synth/src/node"],
     [("input-count matches and channel checks", "Node::process of every node"),
      ("channel count chosen at construction", "makenode, add_mono_node/add_stereo_node")])

prop("C12", "Parsing any text ends in a program or an error, never a crash",
     "For every text whatsoever, turning it into a program either succeeds or reports a syntax error; it never panics and never reads uninitialised data.",
     ["inputs"],
     "every string",
     "Tests parse a handful of well-formed lines; the property is over all strings and all optional parts of the grammar.",
     ["rs/parser/src/lib.rs", "rs/parser/src/nodes.rs", "rs/parser/src/util.rs", "rs/parser/src/glicol.pest"],
     [("errors instead of unwraps, guided by what the grammar guarantees", "get_ast and every parse_from_iter")])

prop("C13", "Evaluating any program that parses never crashes the engine",
     "For every program that parses and every engine state, an update either takes effect or returns an error; it never panics.",
     ["programs", "histories"],
     "every parsed program after every history",
     "Tests evaluate three tiny programs.",
     ["rs/main/src/lib.rs", "rs/main/src/util.rs", "rs/synth/src/node"],
     [("node construction", "makenode"), ("diff and chain table maintenance", "Engine::update_with_code")])

prop("C14", "No live message can crash the engine",
     "For every message text sent to the engine, in every engine state, the message is applied to the node it addresses or ignored; handling it never panics.",
     ["inputs", "histories"],
     "every message string, every chain name, position, parameter number and value in it",
     "No test sends a message.",
     ["rs/main/src/lib.rs", "rs/synth/src/node"],
     [("message parsing and lookup", "Engine::send_msg"), ("per-node handlers", "Node::send_msg")])

prop("C15", "No parameter value can make rendering divide by zero or index an empty line",
     "Whatever numbers the user supplies in code, by message, or as tempo, rendering never performs an integer division or remainder by zero and never uses a delay line of zero length.",
     ["inputs", "configurations"],
     "every parameter value, tempo, speed signal and sample rate of at least one",
     "Tests never render, and the failing values (zero, huge, negative, NaN) are corners of an infinite range.",
     ["rs/synth/src/node"],
     [("lower bounds on lengths and periods", "node constructors, message handlers and Node::process")])

prop("C16", "The audio callback never blocks",
     "Rendering a block performs no file, network or console input/output, takes no lock, and never sleeps, waits for or starts a thread; what a user's own script asks its script interpreter to do is not counted.",
     ["programs", "schedules"],
     "every graph of every node kind, every call path from rendering a block",
     "A test cannot show the absence of a call on an unexercised path; nothing in the suite renders audio.",
     ["rs/main/src/lib.rs", "rs/synth/src"],
     [("pure computation in every node", "everything reachable from Engine::next_block")])

prop("C17", "Sound depends only on the program, its inputs and the seed",
     "Random choices are drawn only from generators with a known seed: the engine seed for random choice between values, the written number for noise, a fixed number elsewhere. The engine and its nodes read no clock, no operating-system randomness, no environment and no thread identity (a user's own script aside).",
     ["programs", "configurations"],
     "every node kind, every seed, every call path from update, message and render",
     "Tests neither set a seed nor render; absence of hidden inputs cannot be observed by running.",
     ["rs/main/src/util.rs", "rs/main/src/lib.rs", "rs/synth/src/node/sequencer/choose.rs", "rs/synth/src/node/signal/noise.rs"],
     [("seed passed to the generators", "makenode, Choose::new, Noise::new")])

prop("C18", "Every node keyword creates the node it names",
     "Each node keyword of the language, under every spelling the grammar accepts, produces the node of that name and no other, from parsing through to the rendering node; a keyword that is not supported is reported as an error.",
     ["programs"],
     "every keyword and alias in the grammar",
     "Tests use four keywords; the mapping has three stages with over forty entries each.",
     ["rs/parser/src/glicol.pest", "rs/parser/src/lib.rs", "rs/main/src/util.rs"],
     [("grammar rule to component", "get_ast"), ("component to node", "makenode")])

prop("C19", "Musical time advances exactly once per rendered frame",
     "Every sequencing, sampling, envelope and oscillator node advances its clock or phase once for each frame it renders, whatever events fall on that frame and however many channels it writes; the engine clock advances by one block per block.",
     ["histories", "inputs"],
     "every node kind with a clock, every event pattern, every frame",
     "No test renders; drift shows only with particular events on particular frames.",
     ["rs/synth/src/node/sequencer", "rs/synth/src/node/signal", "rs/synth/src/node/sampling", "rs/synth/src/node/synth", "rs/synth/src/node/envelope", "rs/synth/src/node/oscillator", "rs/main/src/lib.rs"],
     [("single increment at the end of each frame", "Node::process"), ("engine clock", "Engine::next_block")])

prop("C20", "Reset brings the engine back to its initial state",
     "After a reset the engine is indistinguishable from a newly created one with the same sample rate: no chain, node, connection, sample or setting from before survives, and everything a fresh engine provides (including the live input) is available.",
     ["histories"],
     "every history of updates, messages and settings before the reset",
     "No test calls reset.",
     ["rs/main/src/lib.rs", "rs/synth/src/context.rs"],
     [("field-by-field reset", "Engine::reset, AudioContext::reset")])

prop("C21", "Every edit to a program is noticed",
     "When new code differs from the playing code in any parameter of any node, the affected node is rebuilt or rewired accordingly; a node is carried over only if its description is identical in every part. Chains and nodes that no longer appear in the code stop existing.",
     ["programs", "histories"],
     "every pair of old and new program",
     "Tests make three edits and check only the remembered tree.",
     ["rs/main/src/lib.rs", "rs/parser/src/nodes.rs"],
     [("structural comparison of components", "PartialEq of every component type"),
      ("positional matching of old and new components", "Engine::update_with_code")])

prop("C22", "Live audio input is delivered to the input chain unchanged",
     "The audio handed in with a block is what the reserved input chain plays in that same block, left channel to left and right to right; without input audio nothing is overwritten.",
     ["inputs", "histories"],
     "every block of input audio with zero, one or two channels",
     "No test passes input audio.",
     ["rs/main/src/lib.rs"],
     [("copy into the input node before processing", "Engine::next_block"), ("registration of the input node", "Engine::new, Engine::reset")])

prop("C23", "Unknown sample and reference names are reported before anything plays",
     "A program that names a sample that is not loaded, or refers to a chain that does not exist, is rejected with an error naming it; no node is ever created without the samples it names, and no accepted program contains a dangling reference.",
     ["programs", "histories"],
     "every program, every set of loaded samples and every earlier program",
     "No test loads samples or mentions an undefined chain.",
     ["rs/main/src/lib.rs", "rs/main/src/util.rs"],
     [("sample lookup", "makenode (sp, psampler)"), ("reference check before commit", "Engine::update_with_code (handle_ref_check)")])

prop("C24", "The web boundary reports every error and stays within its result buffer",
     "Every rejected update is reported to the page with a non-zero code that identifies the kind of error, and an accepted one with zero; the message never exceeds the fixed-size result, and one failing call does not make later calls fail. Every other call of the boundary reaches the engine with the values the page gave, and a rendered block comes back as the left channel followed by the right.",
     ["inputs", "fault_sequences"],
     "every error, of any length, and every order of calls",
     "The web crate has no tests at all.",
     ["rs/wasm/src/lib.rs"],
     [("error encoding", "write_err_to_buf, update"), ("lock recovery", "get_engine")])

prop("C25", "Raw-pointer code is confined and safe to send across threads",
     "Code that bypasses the compiler's memory guarantees is limited to the render input view, the fixed-size parameter reader and the web text boundary; the input view can be created only by the render loop from live buffers, and the engine with all its nodes can be moved to the audio thread.",
     ["programs", "schedules"],
     "every function of the library",
     "Tests cannot show the absence of unsafe operations or of thread-unsafe state.",
     ["rs/synth/src/node/mod.rs", "rs/synth/src/graph.rs", "rs/parser/src/nodes.rs", "rs/wasm/src/lib.rs"],
     [("crate-private constructor of the input view", "Input::new"), ("Send bounds on boxed nodes", "BoxedNodeSend")])

prop("C26", "Rendering a block always terminates",
     "Every loop executed while rendering a block does a bounded amount of work per frame: it consumes a finite collection or moves towards its exit condition whatever values the signals carry.",
     ["inputs"],
     "every signal value including infinities, NaN and very large numbers",
     "Non-termination needs specific signal values; no test renders.",
     ["rs/synth/src/node/delay/delayms.rs", "rs/synth/src/node/filter/apfmsgain.rs", "rs/synth/src"],
     [("bounded iteration", "every loop reachable from Node::process")])

prop("C27", "Nothing stale is heard: every rendered block is written whole, on both sides",
     "Whenever a node of a chain renders, every frame of every channel it hands on is computed anew; no part of the block it handed on before remains. A mono signal stays centred through every node whose purpose is not to place sound (pan, balance and the plate reverb place it), and a node that an update leaves without inputs falls silent instead of repeating its last block.",
     ["programs", "inputs", "histories"],
     "every node description of the language, with the inputs its chain gives it, mono and stereo, and every update that takes the input of a node away",
     "No test looks at the second channel of a block, at a second block, or at sound after an edit.",
     ["rs/synth/src/node", "rs/main/src/util.rs", "rs/main/src/lib.rs", "rs/synth/src/graph.rs"],
     [("channels a node declares and the ones it writes", "makenode, Node::process of every node"),
      ("copying of one channel to both sides", "graph::process"),
      ("silencing of nodes without inputs", "Engine::update_with_code")],
     [("buffers of a node", "what its successors and the speakers hear", "NodeData::buffers")],
     ["Engine::next_block output"])

prop("C28", "Calculating nodes hand on what they are defined to calculate",
     "On every frame and channel, constant signals, products, sums, mixes, references, balance, constant-power pan, one-pole, resonant low- and high-pass filters, the all-pass, impulses and delays hand on exactly the function of their input samples, written numbers and sample rate that defines them, whether a parameter is written as a number or, where the node can be modulated, as a reference. What a delay or filter remembers carries on unbroken from one block to the next.",
     ["inputs", "programs"],
     "every input signal, every written number and sample rate, mono and stereo inputs, numbers and references as parameters",
     "Tests compare single samples of a sine and a pan at fixed settings; a wrong coefficient, channel or sample of memory needs another node, a second channel or a second block.",
     ["rs/synth/src/node/operator", "rs/synth/src/node/filter", "rs/synth/src/node/effect", "rs/synth/src/node/delay", "rs/synth/src/node/signal", "rs/synth/src/node/sum.rs"],
     [("difference equations", "Node::process of the filters and delays"), ("two-input operators", "operator::apply_op"), ("gains of the two sides", "Pan, Balance")],
     [("filter and delay memory", "samples of earlier frames and blocks", "x1, x2, y1, y2, ring buffers")],
     ["Engine::next_block output"])

prop("C29", "Samples play from first to last frame, in tune, each side its own channel",
     "Each trigger of a sampler, and each event of a sample pattern, plays its sample once, evenly from the first frame to the last in the time its length, the trigger value and the ratio of the sample's rate to the engine's give, on the straight line between neighbouring sample values. The left and right channel of a stereo sample are heard on their own sides and a mono sample on both; playings that overlap add up, and before the first and after the last there is silence.",
     ["inputs", "histories", "configurations"],
     "every sample of one or two channels, length and rate, every trigger value, every spacing of triggers",
     "No test loads a sample; a wrong weight, side or last frame needs a sample, a speed other than one and a second trigger to be noticed.",
     ["rs/synth/src/node/sampling"],
     [("position in a playing", "Sampler::process, PSampler::process"), ("list of playings", "begun and finished frame by frame")],
     [("playings", "when each began and how long it lasts", "playback")],
     ["Engine::next_block output"])

prop("C30", "Events, patterns and points happen on the frame they are written for",
     "In every bar or span again, a sequence hands on the pitch of each note on the frame its time falls on and nothing on any other, at the tempo and speed in force; an arrangement plays the chain its bars have reached, a pattern changes its setting from the frame of each event on, a list of points is the straight line between neighbouring points (staying at the last, or leading back to the first when it loops), and a random choice is one of the values written.",
     ["programs", "configurations", "histories"],
     "every list of times and values, every tempo, speed, span and sample rate",
     "Tests render one block of a sine; an event that is late, lost in the second bar or interpolated from the wrong neighbour shows only after bars of frames.",
     ["rs/synth/src/node/sequencer", "rs/synth/src/node/signal/points.rs", "rs/synth/src/node/filter/rlpf.rs"],
     [("frame of an event", "Sequencer::process, Arrange::process, ResonantLowPassFilter::process"), ("segment between points", "Points::process")],
     [("frames since the start", "the clock of each node", "step")],
     ["Engine::next_block output"])

prop("C31", "Oscillators, envelopes and synth voices follow their defined course",
     "On every frame an oscillator hands on its waveform at the phase its frequency, written or modulated, has brought it to; an envelope is silent until triggered, then rises, falls and is released along straight lines of the written lengths from where it stands. A note of the pattern or message synth is a saw of its pitch under such an envelope from the frame of its event, and sounding notes add up.",
     ["inputs", "histories", "configurations"],
     "every frequency below the sample rate, every envelope length, every sequence of triggers and gates",
     "Tests look at the first samples of one sine; retriggering, release in the middle of an attack and overlapping notes need a history of triggers.",
     ["rs/synth/src/node/oscillator", "rs/synth/src/node/envelope", "rs/synth/src/node/synth"],
     [("waveform at a phase", "process of the oscillators"), ("stages of an envelope", "EnvPerc::process, Adsr::process"), ("voices", "MsgSynth::process, PatternSynth::process")],
     [("phase and stage", "what an oscillator or envelope remembers from frame to frame", "phase, pos, playing voices")],
     ["Engine::next_block output"])

prop("C32", "Drums, synth voices and the plate are the patches they stand for",
     "A drum or synth voice hands on exactly what the patch of basic nodes it is made of would: a percussive envelope of the written lengths, triggered by the input, over a sine whose pitch a second envelope sweeps (bass drum, and snare, which adds noise), over high-passed noise (hi-hat), or over the named waveform at the trigger's multiple of middle C. The plate reverb mixes its input with left and right taps of one ring of delays and all-pass filters in the written proportion.",
     ["programs", "configurations", "inputs"],
     "every written length and proportion, three sample rates, every input",
     "The sound of a drum is only ever judged by ear; a tap taken one node further along the ring, or an envelope wired to the wrong node, still sounds like a drum.",
     ["rs/synth/src/node/compound", "rs/synth/src/node/effect/plate.rs"],
     [("the inner patch", "constructors of Bd, Sn, Hh, SawSynth, SquSynth, TriSynth, Plate"), ("passing blocks in and out", "process_compound, Plate::process")],
     [("inner patch", "nodes and connections inside a drum, voice or plate", "context")],
     ["Engine::next_block output"])
prop("C33", "A script is run on what it hears and heard with what it answers",
     "On every frame the lines of an eval script are run in written order, knowing the input as `in`, the frames passed as `phase`, the sample rate as `sr` and earlier lines by their names, and the last line's value is handed on, a failing line counting as zero; a meta script is run once per block, knowing the block's input as `input`, `sr`, and what it left under its own names in the block before, and the numbers it answers are handed on frame by frame, with silence where there are none. A new script takes over without restarting `phase` or the kept values, and one that does not compile leaves the one before in place.",
     ["programs", "histories", "inputs"],
     "every input, every answer and failure of the lines, scripts of one to three lines, live replacements good and bad",
     "Tests never run a script node; a stale value or a wrong frame only shows in a script that uses it, over several blocks and replacements.",
     ["rs/synth/src/node/dynamic/eval.rs", "rs/synth/src/node/dynamic/meta.rs"],
     [("running a script", "Eval::process, Meta::process"), ("replacing a script", "Eval::send_msg, Meta::send_msg")],
     [("names a script knows", "values of the script's variables from frame to frame", "map, scope, phase")],
     ["Engine::next_block output"])

with open(OUT, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
