//! A loopback stand-in for the NetsBlox server: HTTP and one WebSocket, under the control of the case being run.
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};

pub enum Frame { Text(String), Other(u8) }
/// a service call waiting for its response
pub struct Call { pub path: String, pub query: String, pub body: String, pub reply: Sender<Reply> }
pub struct Reply { pub status: u16, pub ctype: Option<String>, pub body: Vec<u8>, pub cut: bool }
pub struct Server { pub port: u16, pub frames: Receiver<Frame>, pub calls: Receiver<Call>, pub log: Arc<Mutex<Vec<(String, String)>>>, ws: Arc<Mutex<Option<TcpStream>>> }

impl Server {
    pub fn start() -> Self {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        let (ftx, frames) = channel();
        let (ctx, calls) = channel();
        let log = Arc::new(Mutex::new(vec![]));
        let ws = Arc::new(Mutex::new(None));
        let (lg, w) = (log.clone(), ws.clone());
        std::thread::spawn(move || for s in l.incoming() {
            let Ok(s) = s else { return };
            s.set_nodelay(true).unwrap();
            let (ftx, ctx, lg, w) = (ftx.clone(), ctx.clone(), lg.clone(), w.clone());
            std::thread::spawn(move || serve(s, port, ftx, ctx, lg, w));
        });
        Self { port, frames, calls, log, ws }
    }
    /// one frame to the client
    pub fn send(&self, op: u8, data: &[u8]) {
        let mut b = vec![0x80 | op];
        match data.len() { n if n < 126 => b.push(n as u8), n if n < 65536 => { b.push(126); b.extend((n as u16).to_be_bytes()) } n => { b.push(127); b.extend((n as u64).to_be_bytes()) } }
        b.extend(data);
        self.ws.lock().unwrap().as_mut().expect("no socket").write_all(&b).unwrap();
    }
}
fn serve(s: TcpStream, port: u16, ftx: Sender<Frame>, ctx: Sender<Call>, log: Arc<Mutex<Vec<(String, String)>>>, ws: Arc<Mutex<Option<TcpStream>>>) {
    let mut out = s.try_clone().unwrap();
    let mut r = BufReader::new(Quick(s));
    loop {
        let mut line = String::new();
        if r.read_line(&mut line).unwrap_or(0) == 0 { return }
        let mut p = line.split_whitespace();
        let (method, url) = (p.next().unwrap_or("").to_owned(), p.next().unwrap_or("").to_owned());
        let mut h = BTreeMap::new();
        loop {
            let mut l = String::new();
            if r.read_line(&mut l).unwrap_or(0) == 0 { return }
            let l = l.trim_end();
            if l.is_empty() { break }
            if let Some((k, v)) = l.split_once(':') { h.insert(k.trim().to_lowercase(), v.trim().to_owned()); }
        }
        let mut body = vec![0; h.get("content-length").and_then(|x| x.parse().ok()).unwrap_or(0)];
        if r.read_exact(&mut body).is_err() { return }
        let body = String::from_utf8_lossy(&body).into_owned();
        if let Some(k) = h.get("sec-websocket-key") {
            let a = tungstenite::handshake::derive_accept_key(k.as_bytes());
            log.lock().unwrap().push((format!("{method} {url}"), "websocket".into()));
            if write!(out, "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: {a}\r\n\r\n").is_err() { return }
            *ws.lock().unwrap() = Some(out);
            frames(r, ftx);
            return;
        }
        let (path, query) = match url.split_once('?') { Some((a, b)) => (a.to_owned(), b.to_owned()), None => (url.clone(), String::new()) };
        let res = if path.starts_with("/svc/") || path.starts_with("/alt/") {
            let (tx, rx) = channel();
            if ctx.send(Call { path, query, body, reply: tx }).is_err() { return }
            match rx.recv() { Ok(x) => x, Err(_) => return }
        } else {
            log.lock().unwrap().push((format!("{method} {path}"), body));
            let j = match path.as_str() {
                "/configuration" => format!("{{\"servicesHosts\":[{{\"url\":\"http://127.0.0.1:{port}/svc\"}},{{\"url\":\"http://127.0.0.1:{port}/wrong\"}}]}}"),
                "/projects/" => "{\"id\":\"project-1\",\"roles\":{\"role-1\":{\"name\":\"myRole\"}}}".to_owned(),
                _ => "{}".to_owned(),
            };
            Reply { status: 200, ctype: Some("application/json".into()), body: j.into_bytes(), cut: false }
        };
        let mut head = format!("HTTP/1.1 {} X\r\nContent-Length: {}\r\n", res.status, res.body.len() + if res.cut { 10 } else { 0 });
        if let Some(c) = res.ctype { head += &format!("Content-Type: {c}\r\n"); }
        head += "\r\n";
        if out.write_all(head.as_bytes()).and_then(|_| out.write_all(&res.body)).is_err() { return }
        if res.cut { return }
    }
}
/// reads at once acknowledged, so that small frames are not held back by the client's socket
struct Quick(TcpStream);
extern "C" { fn setsockopt(fd: i32, level: i32, name: i32, value: *const i32, len: u32) -> i32; }
impl Quick {
    fn ack(&self) { unsafe { setsockopt(std::os::fd::AsRawFd::as_raw_fd(&self.0), 6, 12, &1, 4); } }
}
impl Read for Quick {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.ack(); let n = self.0.read(b); self.ack(); n }
}
fn frames(mut r: BufReader<Quick>, tx: Sender<Frame>) {
    let mut part: Vec<u8> = vec![];
    loop {
        let mut h = [0u8; 2];
        if r.read_exact(&mut h).is_err() { return }
        let n = match h[1] & 127 {
            126 => { let mut b = [0; 2]; if r.read_exact(&mut b).is_err() { return } u16::from_be_bytes(b) as usize }
            127 => { let mut b = [0; 8]; if r.read_exact(&mut b).is_err() { return } u64::from_be_bytes(b) as usize }
            n => n as usize,
        };
        let mut mask = [0u8; 4];
        if h[1] & 128 != 0 && r.read_exact(&mut mask).is_err() { return }
        let mut d = vec![0; n];
        if r.read_exact(&mut d).is_err() { return }
        for (i, x) in d.iter_mut().enumerate() { *x ^= mask[i & 3] }
        let op = h[0] & 15;
        if op >= 8 { if op == 8 { return } if tx.send(Frame::Other(op)).is_err() { return } continue }
        part.extend(d);
        if h[0] & 128 == 0 { continue }
        let d = std::mem::take(&mut part);
        if tx.send(match op { 2 => Frame::Other(2), _ => Frame::Text(String::from_utf8_lossy(&d).into_owned()) }).is_err() { return }
    }
}
