//! The client's own framing: writer with arbitrary fragmentation, strict reader.
use crate::util::Rng;
use serde_json::Value;
use std::io::{Read, Write};

/// A frame around a body; extra header fields as `style` says.
pub fn frame(body: &[u8], r: &mut Rng) -> Vec<u8> {
    let len = format!("Content-Length: {}\r\n", body.len());
    let typ = "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n";
    let mut out = match r.below(8) {
        0 => format!("{len}{typ}"),
        1 => format!("{typ}{len}"),
        2 => format!("X-A: b: c\r\n{len}X-B: \r\n"),
        _ => len,
    }
    .into_bytes();
    out.extend_from_slice(b"\r\n");
    out.extend_from_slice(body);
    out
}

/// Splits bytes into the fragments to be written separately.
pub fn fragments(bytes: &[u8], r: &mut Rng) -> Vec<Vec<u8>> {
    if bytes.is_empty() {
        return vec![];
    }
    let mode = r.below(6);
    let mut out = vec![];
    let mut i = 0;
    while i < bytes.len() {
        let n = match mode {
            0 => bytes.len(),
            1 if bytes.len() < 600 => 1,
            2 => 1 + r.below(7),
            3 => 1 + r.below(64),
            4 => *r.pick(&[1, 2, 8191, 8192, 8193, 4096]),
            _ => 1 + r.below(bytes.len()),
        };
        let n = if bytes.len() > 20_000 { n.max(1 + r.below(5000)) } else { n };
        let end = (i + n).min(bytes.len());
        out.push(bytes[i..end].to_vec());
        i = end;
    }
    out
}

/// Incremental strict frame parser of what the server writes.
#[derive(Default)]
pub struct Frames {
    buf: Vec<u8>,
    pub frames: Vec<Value>,
    pub error: Option<String>,
}

impl Frames {
    pub fn feed(&mut self, bytes: &[u8]) {
        self.buf.extend_from_slice(bytes);
        while self.error.is_none() {
            match self.step() {
                Ok(true) => {}
                Ok(false) => break,
                Err(e) => self.error = Some(e),
            }
        }
    }

    fn step(&mut self) -> Result<bool, String> {
        let pos = match self.buf.windows(4).position(|w| w == b"\r\n\r\n") {
            Some(p) => p,
            None if self.buf.len() > 4096 => return Err("no end of header".into()),
            None => return Ok(false),
        };
        let head = String::from_utf8(self.buf[..pos].to_vec()).map_err(|e| e.to_string())?;
        let mut len = None;
        for line in head.split("\r\n") {
            let (n, v) = line.split_once(": ").ok_or(format!("header line {line:?}"))?;
            if n == "Content-Length" {
                if len.is_some() {
                    return Err("two lengths".into());
                }
                len = Some(v.parse::<usize>().map_err(|e| format!("{v:?}: {e}"))?);
            }
        }
        let len = len.ok_or("no length")?;
        if self.buf.len() < pos + 4 + len {
            return Ok(false);
        }
        let body: Vec<u8> = self.buf[pos + 4..pos + 4 + len].to_vec();
        self.buf.drain(..pos + 4 + len);
        let text = String::from_utf8(body).map_err(|e| e.to_string())?;
        let v: Value = serde_json::from_str(&text).map_err(|e| format!("{e}: {text:.200}"))?;
        if v.get("jsonrpc") != Some(&Value::from("2.0")) {
            return Err(format!("jsonrpc missing: {text:.200}"));
        }
        self.frames.push(v);
        Ok(true)
    }

    /// Called at the end of the stream.
    pub fn finish(&mut self) {
        if self.error.is_none() && !self.buf.is_empty() {
            self.error = Some(format!("{} bytes of a partial frame", self.buf.len()));
        }
    }
}

pub fn pump(r: &mut dyn Read, frames: &mut dyn FnMut(&[u8])) {
    let mut buf = [0u8; 65536];
    loop {
        match r.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => frames(&buf[..n]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(_) => break,
        }
    }
}

pub fn write_fragments(w: &mut dyn Write, frags: &[Vec<u8>], r: &mut Rng) -> bool {
    for f in frags {
        if w.write_all(f).and_then(|_| w.flush()).is_err() {
            return false;
        }
        pause(r);
    }
    true
}

pub fn pause(r: &mut Rng) {
    match r.below(40) {
        0 => std::thread::sleep(std::time::Duration::from_micros(r.below(400) as u64)),
        1..=4 => std::thread::yield_now(),
        _ => {}
    }
}
