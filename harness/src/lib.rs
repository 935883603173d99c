//! Roots for the analysis.  Non-generic functions of the workspace crates (and those generic only
//! in the block size) are picked up by the driver; here are the instantiations it cannot guess.
use glicol_synth::{BoxedNode, Buffer, Input, Message, Node};
use hashbrown::HashMap;

/// A node about which nothing is known.
pub struct Probe;
impl Node<128> for Probe {
    fn process(&mut self, _i: &mut HashMap<usize, Input<128>>, _o: &mut [Buffer<128>]) {}
    fn send_msg(&mut self, _m: Message) {}
}

pub fn root_ref<'a>(n: &mut &'a mut Probe, i: &mut HashMap<usize, Input<128>>, o: &mut [Buffer<128>], m: Message) {
    <&'a mut Probe as Node<128>>::process(n, i, o);
    <&'a mut Probe as Node<128>>::send_msg(n, m);
}

pub fn root_box(n: &mut Box<Probe>, i: &mut HashMap<usize, Input<128>>, o: &mut [Buffer<128>], m: Message) {
    <Box<Probe> as Node<128>>::process(n, i, o);
    <Box<Probe> as Node<128>>::send_msg(n, m);
}

pub fn root_boxed(p: Probe) -> BoxedNode<128> {
    BoxedNode::new(p)
}

pub fn root_wasm() {
    wasmhost::reset();
}

/// Positive examples for rules that expect to find nothing: each must be recognised as what it is.
pub mod control {
    use std::sync::Mutex;
    pub static M: Mutex<usize> = Mutex::new(0);
    pub fn block_console(x: f32) {
        println!("{x}");
    }
    pub fn block_lock() -> usize {
        *M.lock().unwrap()
    }
    pub fn block_try_lock() -> usize {
        M.try_lock().map(|x| *x).unwrap_or(0)
    }
    pub fn block_sleep() {
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    pub fn block_spawn() {
        let _ = std::thread::spawn(|| 1usize).join();
    }
    pub fn block_file() -> usize {
        std::fs::read("/nonexistent").map(|v| v.len()).unwrap_or(0)
    }
    pub fn block_channel() -> usize {
        let (a, b) = std::sync::mpsc::channel::<usize>();
        let _ = a.send(1);
        b.recv().unwrap_or(0)
    }
    pub fn block_once() -> usize {
        static C: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
        *C.get_or_init(|| 1)
    }
    pub fn hidden_time() -> u64 {
        std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_nanos() as u64).unwrap_or(0)
    }
    pub fn hidden_instant() -> std::time::Instant {
        std::time::Instant::now()
    }
    pub fn hidden_env() -> usize {
        std::env::var("X").map(|v| v.len()).unwrap_or(0)
    }
    pub fn hidden_thread() -> bool {
        std::thread::current().name().is_some()
    }
    pub fn hidden_pid() -> u32 {
        std::process::id()
    }
    pub fn hidden_hash() -> u64 {
        use std::hash::BuildHasher;
        std::collections::hash_map::RandomState::new().hash_one(1u8)
    }
    pub fn hidden_hashorder(m: &std::collections::HashMap<u8, f32>) -> f32 {
        m.values().fold(0.0, |a, b| a * 0.5 + b)
    }
    pub fn hidden_hashset(m: &std::collections::HashSet<usize>) -> usize {
        let mut r = 0;
        for x in m {
            r = r * 3 + x;
        }
        r
    }
    pub fn hidden_static() -> usize {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        N.fetch_add(1, Ordering::Relaxed)
    }
    pub fn hidden_addr(x: &usize) -> usize {
        x as *const usize as usize
    }
    pub fn spin_loop() {
        loop {}
    }
    pub fn spin_float(mut x: f32, n: f32) -> f32 {
        while x < 0. {
            x += n;
        }
        x
    }
    pub fn spin_still(n: usize) -> usize {
        let mut i = 0;
        let mut r = 0;
        while i < n {
            if r % 3 == 0 {
                i += 1;
            }
            r += i;
        }
        r
    }
    pub fn spin_away(n: i32) -> i32 {
        let mut i = 5;
        while i < n {
            i -= 1;
        }
        i
    }
    pub fn spin_bound(mut n: usize) -> usize {
        let mut i = 0;
        while i < n {
            i += 1;
            n += 1;
        }
        i
    }
    pub fn spin_stride(n: usize) -> usize {
        let mut i = 0;
        while i != n {
            i += 2;
        }
        i
    }
    pub fn spin_from(x: usize) -> usize {
        let mut r = 0;
        for i in x.. {
            r ^= i;
        }
        r
    }
    pub fn spin_cycle(v: &[usize]) -> usize {
        let mut r = 0;
        for i in v.iter().cycle().map(|x| x + 1) {
            r ^= i;
        }
        r
    }
    pub fn spin_consume(v: &[usize]) -> usize {
        v.iter().cycle().filter(|x| **x == 3).count()
    }
    pub fn spin_refill(v: &mut Vec<usize>) -> usize {
        let mut r = 0;
        while let Some(x) = v.pop() {
            r += x;
            v.push(x + 1);
        }
        r
    }
    pub fn spin_again(v: &[usize]) -> usize {
        let mut r = 0;
        let mut it = v.iter();
        while let Some(x) = it.next() {
            r += x;
            it = v.iter();
        }
        r
    }
    pub fn spin_recursion(n: usize) -> usize {
        spin_mutual(n) + 1
    }
    pub fn spin_mutual(n: usize) -> usize {
        spin_recursion(n ^ 1)
    }
    pub fn ends_range(n: usize) -> usize {
        let mut r = 0;
        for i in 0..n {
            r ^= i;
        }
        r
    }
    pub fn ends_zip(v: &[usize]) -> usize {
        let mut r = 0;
        for (i, x) in v.iter().zip(0..).enumerate() {
            r ^= i ^ x.1;
        }
        r
    }
    pub fn ends_up(n: usize) -> usize {
        let mut i = 0;
        let mut r = 0;
        while i < n {
            r ^= i;
            i += 1;
        }
        r
    }
    pub fn ends_slice(v: &mut [f32]) {
        let mut i = 0;
        while i < v.len() {
            v[i] *= 2.;
            i += 1;
        }
    }
    pub fn ends_vec(v: &mut Vec<f32>) {
        let mut i = 0;
        let n = v.len();
        loop {
            if i >= n {
                break;
            }
            v[i] *= 2.;
            i += 1;
        }
    }
    pub fn ends_down(v: &mut Vec<f32>) {
        let mut i = v.len();
        while i > 0 {
            i -= 1;
            if v[i] > 1. {
                v.remove(i);
            }
        }
    }
    pub fn ends_length(v: &mut Vec<f32>) {
        let mut i = 0;
        while i != v.len() {
            v[i] = 0.;
            i += 1;
        }
    }
    pub fn ends_pop(v: &mut Vec<usize>) -> usize {
        let mut r = 0;
        while let Some(x) = v.pop() {
            r += x;
        }
        r
    }
    pub fn ends_empty(v: &mut Vec<usize>) -> usize {
        let mut r = 0;
        while !v.is_empty() {
            r += v.remove(0);
        }
        r
    }
    pub fn ends_nested(v: &mut Vec<Vec<f32>>, n: usize) {
        for x in v.iter_mut() {
            let mut k = 0;
            while k < n {
                for y in x.iter_mut().rev() {
                    if *y > 3. {
                        continue;
                    }
                    *y += k as f32;
                }
                k += 1;
            }
        }
    }
    pub fn ends_early(v: &[f32]) -> usize {
        let mut it = v.iter();
        let mut k = 0;
        while let Some(x) = it.next() {
            if *x > 3. {
                return k;
            }
            k += 1;
        }
        0
    }
    pub fn ends_each(v: &mut [f32]) -> f32 {
        v.iter_mut().for_each(|x| *x = 0.);
        v.iter().take_while(|x| **x < 1.).sum()
    }
    pub fn ends_step(n: usize) -> usize {
        let mut r = 0;
        for i in (0..n).step_by(2).rev() {
            r ^= i;
        }
        r
    }
}
