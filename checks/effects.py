"""Which functions block, and which bring in something from outside the program."""
import re

SCRIPT = {"rhai", "fasteval"}          # what a user's own script asks its interpreter to do is not judged here
WORKSPACE = ("glicol", "glicol_synth", "glicol_parser", "wasmhost")

BLOCK = re.compile(r"^<?(std|alloc|core)::(io|fs|net|process|os)(::|$)|"
                   r"^<?std::thread::(?!local::|LocalKey|panicking)|"
                   r"^<?std::sync::(?!Arc\b|atomic\b|Weak\b)|"
                   r"^<?std::(backtrace|env)::|"
                   r"^(core|std)::hint::spin_loop$|"
                   r"^<?(parking_lot|parking_lot_core|spin|crossbeam|lazy_static)\w*::|"
                   r"^libc::(?!.*(malloc|free|memcpy|memmove|memset|memcmp))")

HIDDEN = re.compile(r"^<?std::time::(Instant|SystemTime)(::| as )(?=.*\b(now|elapsed)$)|"
                    r"^std::time::(Instant|SystemTime)::(now|elapsed)$|"
                    r"^<?std::env::|^std::process::id$|"
                    r"^<?std::thread::(current|Thread::|ThreadId|available_parallelism)|"
                    r"^<?(getrandom|rand|rand_core|fastrand|oorandom|instant|js_sys|web_sys)::|"
                    r"^<?std::(fs|net|io::stdin)\b")

HASHITER = re.compile(r"^<?(&'?\w* ?(mut )?)?std::collections::(hash_map::|hash_set::)?Hash(Map|Set)\b.*::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|into_iter|retain|extract_if|union|difference|intersection|symmetric_difference)$")
HASHSEED = re.compile(r"RandomState\b|^<?std::hash::(random::)?DefaultHasher|BuildHasher>?::(hash_one|build_hasher)")


def blocking(f):
    return BLOCK.search(f.short) is not None


def hidden(f):
    return HIDDEN.search(f.short) is not None
