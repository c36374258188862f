//! Minimal JSON writer. All numbers are integers that fit TLC's 32-bit range.
pub struct Obj {
    s: String,
}

pub fn clip(v: f64) -> i64 {
    if v.is_nan() {
        2_000_000_001
    } else if v > 2e9 {
        2_000_000_000
    } else if v < -2e9 {
        -2_000_000_000
    } else {
        v as i64
    }
}

pub fn iclip(v: i64) -> i64 {
    v.max(-2_000_000_000).min(2_000_000_000)
}

pub fn arr<T: Into<i64> + Copy>(v: &[T]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&iclip((*x).into()).to_string());
    }
    s.push(']');
    s
}

pub fn arr2(v: &[Vec<i64>]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&arr(x));
    }
    s.push(']');
    s
}

pub fn list(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

impl Obj {
    pub fn new(op: &str) -> Obj {
        Obj { s: format!("{{\"op\":\"{}\"", op) }
    }
    pub fn anon() -> Obj {
        Obj { s: String::from("{\"_\":0") }
    }
    pub fn i(mut self, k: &str, v: i64) -> Obj {
        self.s.push_str(&format!(",\"{}\":{}", k, iclip(v)));
        self
    }
    pub fn st(mut self, k: &str, v: &str) -> Obj {
        self.s.push_str(&format!(",\"{}\":\"{}\"", k, v));
        self
    }
    pub fn raw(mut self, k: &str, v: &str) -> Obj {
        self.s.push_str(&format!(",\"{}\":{}", k, v));
        self
    }
    pub fn a(self, k: &str, v: &[i64]) -> Obj {
        let t = arr(v);
        self.raw(k, &t)
    }
    pub fn aa(self, k: &str, v: &[Vec<i64>]) -> Obj {
        let t = arr2(v);
        self.raw(k, &t)
    }
    pub fn end(mut self) -> String {
        self.s.push('}');
        self.s
    }
}

/// Runs f, turning a panic into None.
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
