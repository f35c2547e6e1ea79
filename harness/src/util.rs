//! Random numbers, JSON conversions and guarded execution
use serde_json::{json, Map, Value};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// splitmix64
#[derive(Clone)]
pub struct Rng {
    state: u64,
    /// How many times longer texts and lists are, and how many times more
    /// messages there are
    pub texts: usize,
    pub lists: usize,
    pub many: usize,
}

impl Rng {
    /// Some of the streams are of big cases
    pub fn new(seed: u64, stream: u64) -> Self {
        let state = seed
            .wrapping_mul(0x9E3779B97F4A7C15)
            .wrapping_add(stream.wrapping_mul(0xD1B54A32D192ED03));
        let mut r = Rng { state, texts: 1, lists: 1, many: 1 };
        r.next();
        if stream % 97 == 5 {
            match stream / 97 % 6 {
                0 => r.texts = 10,
                1 => r.lists = 10,
                2 => r.many = 8,
                3 => r.texts = 150,
                4 => r.lists = 60,
                _ => r.many = 40,
            }
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    /// in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    /// true p times of 100
    pub fn chance(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
}

pub fn text(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

pub fn bytes(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|c| json!(*c)).collect())
}

pub fn opt(s: &Option<String>) -> Value {
    match s {
        Some(s) => json!([text(s)]),
        None => json!([]),
    }
}

pub fn texts(v: &[String]) -> Value {
    Value::Array(v.iter().map(|s| text(s)).collect())
}

pub fn to_string(v: &Value) -> String {
    v.as_array()
        .expect("text")
        .iter()
        .map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap())
        .collect()
}

pub fn to_opt(v: &Value) -> Option<String> {
    v.as_array().expect("option").first().map(to_string)
}

pub fn to_strings(v: &Value) -> Vec<String> {
    v.as_array().expect("texts").iter().map(to_string).collect()
}

pub fn to_bytes(v: &Value) -> Vec<u8> {
    v.as_array()
        .expect("bytes")
        .iter()
        .map(|c| c.as_u64().unwrap() as u8)
        .collect()
}

pub fn obj(pairs: Vec<(&str, Value)>) -> Value {
    let mut m = Map::new();
    for (k, v) in pairs {
        m.insert(k.to_string(), v);
    }
    Value::Object(m)
}

/// Number of the case being run and when it began, for the watchdog
static CASE: AtomicU64 = AtomicU64::new(0);
static BEGIN: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<Option<File>> = Mutex::new(None);

fn now_ms(start: &Instant) -> u64 {
    start.elapsed().as_millis() as u64
}

static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

/// Case under execution: written to a file, so if the process is killed or
/// aborts the case is known
pub fn begin_case(case: &Value) {
    let start = START.get_or_init(Instant::now);
    BEGIN.store(now_ms(start) + 1, Ordering::SeqCst);
    CASE.fetch_add(1, Ordering::SeqCst);
    if let Some(f) = CURRENT.lock().unwrap().as_mut() {
        use std::io::{Seek, SeekFrom};
        let s = format!("{case}\n");
        f.seek(SeekFrom::Start(0)).unwrap();
        f.write_all(s.as_bytes()).unwrap();
    }
}

pub fn end_case() {
    BEGIN.store(0, Ordering::SeqCst);
}

/// `limit_s` seconds at most for each case
pub fn start_watchdog(current: Option<&str>, limit_s: u64) {
    if let Some(path) = current {
        *CURRENT.lock().unwrap() = Some(File::create(path).unwrap());
    }
    START.get_or_init(Instant::now);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let b = BEGIN.load(Ordering::SeqCst);
        if b != 0
            && now_ms(START.get().unwrap()) > b + limit_s * 1000
        {
            eprintln!(
                "HANG case {}",
                CASE.load(Ordering::SeqCst)
            );
            std::process::exit(42);
        }
    });
}

/// Runs a function of the library, a panic is an outcome
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let r = panic::catch_unwind(panic::AssertUnwindSafe(f));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

pub fn quiet_panics() {
    panic::set_hook(Box::new(|_| {}));
}

pub struct Out(BufWriter<File>);
impl Out {
    pub fn create(path: &str) -> Self {
        Out(BufWriter::with_capacity(
            1 << 20,
            File::create(path).unwrap(),
        ))
    }
    pub fn line(&mut self, v: &Value) {
        writeln!(self.0, "{v}").unwrap();
    }
    pub fn finish(mut self) {
        self.0.flush().unwrap();
    }
}

/// The cases printed by TLC (JSON in a TLA+ string) or plain JSON lines
pub fn read_cases(path: &str) -> impl Iterator<Item = Value> {
    let r = BufReader::with_capacity(1 << 20, File::open(path).unwrap());
    r.lines().filter_map(|l| {
        let l = l.unwrap();
        if l.starts_with("\"{") {
            let inner: Value = serde_json::from_str(&l).ok()?;
            serde_json::from_str(inner.as_str()?).ok()
        } else if l.starts_with('{') {
            serde_json::from_str(&l).ok()
        } else {
            None
        }
    })
}
