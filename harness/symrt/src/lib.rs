//! Inputs and assertions of a harness. In the symbolic build the `sym_*` functions are left
//! undefined: the engine gives them their meaning. In the native build (`native`) they read a
//! counterexample file, so that exactly the same harness replays it on the really compiled code.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: u64);
        pub fn sym_utf8(p: *mut u8, n: u64);
        pub fn sym_bytes_in(p: *mut u8, n: u64, set: *const u8);
        pub fn sym_choose(n: u64) -> u64;
        pub fn sym_assume(b: bool);
        pub fn sym_fail(p: *const u8, n: u64);
        pub fn sym_check(b: bool, p: *const u8, n: u64);
        pub fn sym_reach(p: *const u8, n: u64);
        pub fn sym_observe(p: *const u8, n: u64);
        pub fn sym_param(i: u64) -> u64;
        pub fn sym_label(p: *const u8, n: u64);
        pub fn sym_done();
    }
}

#[cfg(feature = "native")]
mod imp {
    //! Replay: the file named by SYM_REPLAY holds one input per line ("b <hex>" or "c <number>");
    //! SYM_PARAM_<i> holds parameter i. Outcomes go to stdout, one per line.
    use std::sync::Mutex;
    struct R {
        items: Vec<(char, String)>,
        pos: usize,
    }
    static R: Mutex<Option<R>> = Mutex::new(None);
    fn next(want: char) -> String {
        let mut g = R.lock().unwrap();
        if g.is_none() {
            let f = std::env::var("SYM_REPLAY").expect("SYM_REPLAY");
            let t = std::fs::read_to_string(f).expect("replay file");
            let items = t
                .lines()
                .filter(|l| !l.is_empty())
                .map(|l| {
                    let c = l.chars().next().unwrap();
                    (c, l[1..].trim().to_string())
                })
                .collect();
            *g = Some(R { items, pos: 0 });
        }
        let r = g.as_mut().unwrap();
        if r.pos >= r.items.len() || r.items[r.pos].0 != want {
            println!("SYM-MISMATCH");
            std::process::exit(9);
        }
        let s = r.items[r.pos].1.clone();
        r.pos += 1;
        s
    }
    fn hex(s: &str) -> Vec<u8> {
        (0..s.len() / 2)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
            .collect()
    }
    unsafe fn txt(p: *const u8, n: u64) -> String {
        String::from_utf8_lossy(std::slice::from_raw_parts(p, n as usize)).to_string()
    }
    pub unsafe fn sym_bytes(p: *mut u8, n: u64) {
        if n == 0 {
            return;
        }
        let v = hex(&next('b'));
        if v.len() as u64 != n {
            println!("SYM-MISMATCH");
            std::process::exit(9);
        }
        std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len());
    }
    pub unsafe fn sym_utf8(p: *mut u8, n: u64) {
        sym_bytes(p, n)
    }
    pub unsafe fn sym_bytes_in(p: *mut u8, n: u64, _set: *const u8) {
        sym_bytes(p, n)
    }
    pub unsafe fn sym_choose(_n: u64) -> u64 {
        next('c').parse().unwrap()
    }
    pub unsafe fn sym_assume(b: bool) {
        if !b {
            println!("ASSUME-FALSE");
            std::process::exit(8);
        }
    }
    pub unsafe fn sym_fail(p: *const u8, n: u64) {
        println!("ASSERT {}", txt(p, n));
        std::process::exit(7);
    }
    pub unsafe fn sym_check(b: bool, p: *const u8, n: u64) {
        if !b {
            sym_fail(p, n)
        }
    }
    pub unsafe fn sym_reach(p: *const u8, n: u64) {
        println!("REACH {}", txt(p, n));
    }
    pub unsafe fn sym_observe(p: *const u8, n: u64) {
        let s: String = std::slice::from_raw_parts(p, n as usize)
            .iter()
            .map(|b| format!("{:02x}", b))
            .collect();
        println!("OBS {}", s);
    }
    pub unsafe fn sym_param(i: u64) -> u64 {
        std::env::var(format!("SYM_PARAM_{}", i))
            .ok()
            .and_then(|v| v.parse().ok())
            .unwrap_or(0)
    }
    pub unsafe fn sym_label(p: *const u8, n: u64) {
        println!("LABEL {}", txt(p, n));
    }
    pub unsafe fn sym_done() {
        println!("DONE");
        std::process::exit(0);
    }
}

/// n unconstrained bytes
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { imp::sym_bytes(v.as_mut_ptr(), n as u64) };
    }
    v
}
/// every valid UTF-8 string of exactly n bytes
pub fn utf8(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { imp::sym_utf8(v.as_mut_ptr(), n as u64) };
    }
    v
}
/// n bytes, each one of `set`
pub fn bytes_in(n: usize, set: &[u8]) -> Vec<u8> {
    let mut v = vec![0u8; n];
    let mut m = [0u8; 32];
    for &b in set {
        m[(b >> 3) as usize] |= 1 << (b & 7);
    }
    if n > 0 {
        unsafe { imp::sym_bytes_in(v.as_mut_ptr(), n as u64, m.as_ptr()) };
    }
    v
}
pub fn choose(n: usize) -> usize {
    unsafe { imp::sym_choose(n as u64) as usize }
}
pub fn assume(b: bool) {
    unsafe { imp::sym_assume(b) }
}
pub fn fail(m: &str) {
    unsafe { imp::sym_fail(m.as_ptr(), m.len() as u64) }
}
pub fn check(b: bool, m: &str) {
    unsafe { imp::sym_check(b, m.as_ptr(), m.len() as u64) }
}
pub fn reach(m: &str) {
    unsafe { imp::sym_reach(m.as_ptr(), m.len() as u64) }
}
pub fn observe(b: &[u8]) {
    unsafe { imp::sym_observe(b.as_ptr(), b.len() as u64) }
}
pub fn param(i: usize) -> usize {
    unsafe { imp::sym_param(i as u64) as usize }
}
pub fn label(m: &str) {
    unsafe { imp::sym_label(m.as_ptr(), m.len() as u64) }
}
pub fn done() {
    unsafe { imp::sym_done() }
}
