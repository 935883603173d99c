#!/usr/bin/env python3
"""plants.py [ID...]: writes seeded/<id>/ from the descriptions below, as patches against /repo's HEAD."""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRELUDE = '''use glicol::Engine;
#[allow(dead_code)]
fn engine() -> Engine<128> { let mut e = Engine::<128>::new(); e.livecoding = false; e }
/// plays `blocks` blocks and returns left and right
#[allow(dead_code)]
fn play(e: &mut Engine<128>, blocks: usize) -> (Vec<f32>, Vec<f32>) {
    let (mut l, mut r) = (vec![], vec![]);
    for _ in 0..blocks {
        let b = e.next_block(vec![]);
        l.extend_from_slice(&b[0][..]);
        r.extend_from_slice(&b[1][..]);
    }
    (l, r)
}
/// a fresh engine playing the program
#[allow(dead_code)]
fn sound(code: &str, blocks: usize) -> (Vec<f32>, Vec<f32>) {
    let mut e = engine();
    e.update_with_code(code).unwrap();
    play(&mut e, blocks)
}
#[allow(dead_code)]
fn near(a: &[f32], b: &[f32]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() < 1e-4) }
'''
PLANTS = {}


def plant(pid, prop, needs, breaks, edits, main):
    PLANTS[pid] = (prop, needs, breaks, edits, main)


exec(open(os.path.join(HERE, "tools", "plantlist.py")).read())


def write(pid):
    prop, needs, breaks, edits, main = PLANTS[pid]
    d = os.path.join(HERE, "seeded", pid)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="plant.")
    try:
        files = sorted({e[0] for e in edits})
        for f in files:
            for side in "ab":
                os.makedirs(os.path.dirname(os.path.join(tmp, side, f)), exist_ok=True)
                with open(os.path.join(tmp, side, f), "wb") as o:
                    o.write(subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f]))
        for e in edits:
            f, old, new = e[:3]
            nth = e[3] if len(e) > 3 else None
            p = os.path.join(tmp, "b", f)
            s = open(p).read()
            n = s.count(old)
            if nth is None:
                if n != 1:
                    raise SystemExit("%s: %d matches in %s for %r" % (pid, n, f, old[:60]))
                s = s.replace(old, new)
            else:
                parts = s.split(old)
                s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
            open(p, "w").write(s)
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=tmp, stdout=subprocess.PIPE)
        open(os.path.join(d, "patch.diff"), "wb").write(r.stdout)
    finally:
        shutil.rmtree(tmp)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.copy(os.path.join(HERE, "tools", "demo.sh"), os.path.join(d, "demo.sh"))
    open(os.path.join(d, "main.rs"), "w").write(PRELUDE + main)


for pid in sys.argv[1:] or sorted(PLANTS):
    write(pid)
