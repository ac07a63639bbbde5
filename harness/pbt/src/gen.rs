use std::fmt::Debug;
use std::sync::{Arc, Mutex};

/// Why a case failed. `sig` identifies a known finding ("" = none).
#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    pub sig: String,
}

impl Fail {
    pub fn new(msg: impl Into<String>) -> Self {
        Fail { msg: msg.into(), sig: String::new() }
    }
    pub fn with_sig(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Fail { msg: msg.into(), sig: sig.into() }
    }
}

impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail::new(s)
    }
}

impl From<&str> for Fail {
    fn from(s: &str) -> Self {
        Fail::new(s)
    }
}

pub type R = Result<(), Fail>;

pub(crate) fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// The generator handed to a property: a source of choices.
pub struct G {
    rng: [u64; 2],
    replay: Option<Arc<Vec<u64>>>,
    pos: usize,
    /// the draws made so far
    pub rec: Vec<u64>,
    /// where the steps of a history begin in `rec`: the shrinker leaves out whole steps
    pub(crate) marks: Vec<usize>,
    /// copy of `rec` the watchdog can read
    pub(crate) shared: Option<Arc<Mutex<Vec<u64>>>>,
    pub(crate) labels: Vec<&'static str>,
    pub(crate) notes: String,
    pub(crate) want_notes: bool,
    pub(crate) nontrivial: bool,
    pub(crate) inner: u64,
    /// how big to make things, 0..=100: grows over the run
    pub size: u64,
    /// thorough tier
    pub thorough: bool,
    /// a scratch directory for this case, if asked for
    scratch: Option<std::path::PathBuf>,
    pub(crate) scratch_root: std::path::PathBuf,
}

impl G {
    /// A step of a history begins here.
    pub fn mark(&mut self) {
        self.marks.push(self.rec.len());
    }

    pub(crate) fn random(seed: u64, size: u64) -> G {
        let mut s = seed;
        let rng = [splitmix(&mut s), splitmix(&mut s) | 1];
        G {
            rng,
            replay: None,
            pos: 0,
            rec: Vec::new(),
            marks: Vec::new(),
            shared: None,
            labels: Vec::new(),
            notes: String::new(),
            want_notes: false,
            nontrivial: false,
            inner: 0,
            size,
            thorough: false,
            scratch: None,
            scratch_root: std::env::temp_dir(),
        }
    }

    pub(crate) fn replaying(choices: Arc<Vec<u64>>) -> G {
        let mut g = G::random(0, 100);
        g.replay = Some(choices);
        g
    }

    fn next(&mut self) -> u64 {
        // xorshift128+
        let [mut x, y] = self.rng;
        x ^= x << 23;
        let n = x ^ y ^ (x >> 17) ^ (y >> 26);
        self.rng = [y, n];
        n.wrapping_add(y)
    }

    fn push(&mut self, v: u64) {
        self.rec.push(v);
        if let Some(s) = &self.shared {
            s.lock().unwrap().push(v);
        }
    }

    /// A draw from `0..n` (n ≥ 1); 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &self.replay {
            Some(c) => c.get(self.pos).copied().unwrap_or(0).min(n - 1),
            None => {
                let r = self.next();
                ((r as u128 * n as u128) >> 64) as u64
            }
        };
        self.pos += 1;
        self.push(v);
        v
    }

    /// A full-width draw.
    pub fn bits(&mut self) -> u64 {
        let v = match &self.replay {
            Some(c) => c.get(self.pos).copied().unwrap_or(0),
            None => self.next(),
        };
        self.pos += 1;
        self.push(v);
        v
    }

    /// `lo..=hi`, lo simplest.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        let span = (hi as i128 - lo as i128 + 1) as u128;
        if span > u64::MAX as u128 {
            return self.bits() as i64;
        }
        (lo as i128 + self.below(span as u64) as i128) as i64
    }

    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }

    /// true with probability num/den; false is simplest.
    /// A count: up to `n` as a rule, now and then several times that, rarely many times that.
    pub fn few(&mut self, n: u64) -> u64 {
        match self.below(64) {
            62 => self.below(n * 6 + 1),
            63 if self.below(6) == 5 => self.below(n * 40 + 1),
            _ => self.below(n + 1),
        }
    }

    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num.min(den)
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }

    /// An index drawn by weight; index 0 is the simplest.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }

    /// A vector whose length is decided element by element, so that shrinking
    /// can delete elements.
    pub fn vec<T>(&mut self, min: usize, max: usize, mut f: impl FnMut(&mut G) -> T) -> Vec<T> {
        let mut out = Vec::new();
        // average length: half-way, with a long tail
        let avg = (min + (max - min) / 2).max(1) as u64;
        loop {
            if out.len() >= max {
                break;
            }
            if out.len() >= min && self.below(avg + 1) == 0 {
                break;
            }
            out.push(f(self));
        }
        out
    }

    /// u64 biased towards edges and small values.
    pub fn u64_any(&mut self) -> u64 {
        match self.weighted(&[4, 2, 2, 1, 1]) {
            0 => self.below(16),
            1 => self.below(100_000),
            2 => {
                let b = self.below(65);
                let base = if b == 64 { 0 } else { 1u64 << b };
                match self.below(3) {
                    0 => base,
                    1 => base.wrapping_sub(1),
                    _ => base.wrapping_add(1),
                }
            }
            3 => self.bits(),
            _ => u64::MAX - self.below(3),
        }
    }

    pub fn i64_any(&mut self) -> i64 {
        match self.weighted(&[4, 2, 2, 2, 1]) {
            0 => {
                let v = self.below(16) as i64;
                if self.bool() { -v } else { v }
            }
            1 => {
                let v = self.below(2_000_000_000_000_000_000) as i64;
                if self.bool() { -v } else { v }
            }
            2 => {
                let b = self.below(64);
                let base = (1u64 << b) as i64;
                let v = match self.below(3) {
                    0 => base,
                    1 => base.wrapping_sub(1),
                    _ => base.wrapping_add(1),
                };
                if self.bool() { v.wrapping_neg() } else { v }
            }
            3 => self.bits() as i64,
            _ => match self.below(3) {
                0 => i64::MIN,
                1 => i64::MAX,
                _ => i64::MIN + 1,
            },
        }
    }

    /// f64 biased towards edges. NaN only when `nan`.
    pub fn f64_any(&mut self, nan: bool) -> f64 {
        loop {
            let v = match self.weighted(&[4, 3, 2, 1]) {
                0 => self.range(-50, 50) as f64 / 4.0,
                1 => {
                    let x = self.range(-1_000_000_000, 1_000_000_000) as f64;
                    x / (10f64).powi(self.below(9) as i32)
                }
                2 => *self.pick(&[
                    0.0,
                    -0.0,
                    1.0,
                    -1.0,
                    f64::MAX,
                    f64::MIN,
                    f64::MIN_POSITIVE,
                    5e-324,
                    f64::EPSILON,
                    f64::INFINITY,
                    f64::NEG_INFINITY,
                    f64::NAN,
                ]),
                _ => f64::from_bits(self.bits()),
            };
            if v.is_nan() && !nan {
                return 0.0;
            }
            return v;
        }
    }

    /// A string over an alphabet.
    pub fn string_of(&mut self, alphabet: &[char], min: usize, max: usize) -> String {
        self.vec(min, max, |g| *g.pick(alphabet)).into_iter().collect()
    }

    pub fn ident(&mut self, max: usize) -> String {
        const A: &[char] = &[
            'a', 'b', 'c', 'd', 'e', 'f', 'g', 'x', 'y', 'z', 'A', 'Z', '0', '1', '9', '_',
        ];
        let mut s = String::new();
        s.push(*self.pick(&A[..10]));
        s.push_str(&self.string_of(A, 0, max.saturating_sub(1)));
        s
    }

    /// Any unicode text, biased to ascii and to troublesome characters.
    pub fn text(&mut self, max: usize) -> String {
        self.vec(0, max, |g| match g.weighted(&[6, 3, 2, 1]) {
            0 => (b'a' + g.below(26) as u8) as char,
            1 => *g.pick(&[
                ' ', ',', '=', '\\', '"', '\'', '\n', '\t', '\r', '\0', '#', ':', '/', '.', '-', '_', '%', '{', '}',
                '[', ']', '$', '*', '0', '9', 'A', 'Z',
            ]),
            2 => *g.pick(&['é', 'ß', '中', '文', '😀', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{200b}', 'İ']),
            _ => char::from_u32(g.below(0x110000) as u32).unwrap_or('\u{fffd}'),
        })
        .into_iter()
        .collect()
    }

    pub fn bytes(&mut self, min: usize, max: usize) -> Vec<u8> {
        self.vec(min, max, |g| match g.weighted(&[2, 1]) {
            0 => g.below(256) as u8,
            _ => *g.pick(&[0u8, 1, 0x7f, 0x80, 0xff, b'\n', b'"', b'\\']),
        })
    }

    /// Classifies the case; the counts go into the evidence.
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }

    /// Says that this case exercised the property (by the sub-check's rule).
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }

    /// Counts inner evaluations (e.g. crash points tried within one history).
    pub fn inner(&mut self, n: u64) {
        self.inner += n;
    }

    /// Describes the case; only evaluated for samples and failures.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_notes {
            self.notes.push_str(&f());
            self.notes.push('\n');
        }
    }

    pub fn show<T: Debug>(&mut self, name: &str, v: &T) {
        if self.want_notes {
            self.notes.push_str(&format!("{name} = {v:?}\n"));
        }
    }

    /// An empty scratch directory, removed when the case ends.
    pub fn scratch(&mut self) -> std::path::PathBuf {
        if let Some(p) = &self.scratch {
            return p.clone();
        }
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = self.scratch_root.join(format!("case{}", N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        self.scratch = Some(p.clone());
        p
    }
}

impl Drop for G {
    fn drop(&mut self) {
        if let Some(p) = self.scratch.take() {
            let _ = std::fs::remove_dir_all(p);
        }
    }
}
