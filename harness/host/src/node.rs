//! A beacon node on the loopback network.
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::net::TcpListener;
use std::sync::{Arc, Mutex};
#[derive(Default)]
pub struct Answers {
    pub paths: HashMap<String, (u16, Arc<Vec<u8>>)>,
    pub mode: Mode,
    pub wrong: Option<(usize, Mode)>, // the n-th request goes wrong
    pub asked: Vec<String>,
}
#[derive(Default, Clone, Copy, PartialEq, Debug)]
pub enum Mode { #[default] Fine, Missing, Broken, Busy, Cut, Closed, Nonsense }
pub struct Node { pub url: url::Url, pub answers: Arc<Mutex<Answers>> }
impl Node {
    pub fn start() -> Node {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let url = format!("http://{}/", l.local_addr().unwrap()).parse().unwrap();
        let answers: Arc<Mutex<Answers>> = Default::default();
        let a = answers.clone();
        std::thread::spawn(move || for s in l.incoming() {
            let Ok(mut s) = s else { continue };
            let mut r = BufReader::new(s.try_clone().unwrap());
            let mut line = String::new();
            if r.read_line(&mut line).is_err() { continue; }
            let mut h = String::new();
            while r.read_line(&mut h).is_ok_and(|n| n > 2) { h.clear(); }
            let path = line.split(' ').nth(1).unwrap_or("").to_string();
            let (mode, found) = {
                let mut a = a.lock().unwrap();
                a.asked.push(path.clone());
                let mode = match a.wrong { Some((n, m)) if n == a.asked.len() => m, _ if a.asked.len() > 20000 => Mode::Broken, _ => a.mode };
                (mode, a.paths.get(&path).cloned())
            };
            if mode == Mode::Closed { continue; }
            let (code, body) = match (mode, found) {
                (Mode::Missing, _) | (Mode::Fine, None) => (404, Arc::new(br#"{"code":404,"message":"NOT_FOUND"}"#.to_vec())),
                (Mode::Broken, _) => (500, Arc::new(b"{}".to_vec())),
                (Mode::Busy, _) => (503, Arc::new(b"{}".to_vec())),
                (Mode::Nonsense, _) => (200, Arc::new(br#"{"data":{}}"#.to_vec())),
                (_, Some(x)) => x,
                (_, None) => (404, Arc::new(b"{}".to_vec())),
            };
            let _ = s.write_all(format!("HTTP/1.1 {code} X\r\nContent-Type: application/json\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", body.len()).as_bytes());
            let n = if mode == Mode::Cut { body.len() / 2 } else { body.len() };
            let _ = s.write_all(&body[..n]);
        });
        Node { url, answers }
    }
    pub fn mode(&self, m: Mode) { self.answers.lock().unwrap().mode = m; }
    pub fn set(&self, path: String, body: Vec<u8>) { self.answers.lock().unwrap().paths.insert(path, (200, Arc::new(body))); }
    pub fn has(&self, path: &str) -> bool { self.answers.lock().unwrap().paths.contains_key(path) }
    pub fn clear(&self) { *self.answers.lock().unwrap() = Default::default(); }
}
