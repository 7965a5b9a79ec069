//! Failures found, with the properties they break.
use serde_json::{json, Value};
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Default)]
pub struct Report {
    fails: Mutex<Vec<Value>>,
    pub evaluated: AtomicUsize,
    pub nontrivial: AtomicUsize,
    samples: Mutex<Vec<Value>>,
}

impl Report {
    pub fn fail(&self, props: &[&str], what: String, case: Value) {
        let mut f = self.fails.lock().unwrap();
        // A few of each set of properties are enough.
        if f.len() < 400 && f.iter().filter(|x| x["props"] == json!(props)).count() < 12 {
            f.push(json!({"props": props, "what": what.chars().take(1500).collect::<String>(), "case": case}));
        }
    }
    pub fn failed(&self) -> usize {
        self.fails.lock().unwrap().len()
    }
    pub fn count(&self, n: usize) {
        self.evaluated.fetch_add(n, Ordering::Relaxed);
    }
    pub fn traces(&self, n: usize) {
        self.nontrivial.fetch_add(n, Ordering::Relaxed);
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 3 {
            s.push(v);
        }
    }
    pub fn write(&self, path: &str) {
        let mut w = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
        writeln!(w, "{}", json!({"evaluated": self.evaluated.load(Ordering::Relaxed), "traces": self.nontrivial.load(Ordering::Relaxed), "samples": *self.samples.lock().unwrap()})).unwrap();
        for f in self.fails.lock().unwrap().iter() {
            writeln!(w, "{f}").unwrap();
        }
    }
}
