//! Histories of operations on the standard system, over a loopback server; see server.rs.
#[path = "../../harness/src/ast.rs"] mod ast;
mod server;
use netsblox_vm::bytecode::ByteCode;
use netsblox_vm::compact_str::{format_compact, CompactString};
use netsblox_vm::gc::*;
use netsblox_vm::json::Json;
use netsblox_vm::process::*;
use netsblox_vm::project::*;
use netsblox_vm::real_time::UtcOffset;
use netsblox_vm::runtime::*;
use netsblox_vm::std_system::StdSystem;
use netsblox_vm::std_util::Clock;
use serde_json::{json, Value as J};
use server::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ the clock: cases decide what time it is on their thread
#[repr(C)]
pub struct Timespec { sec: i64, nsec: i64 }
thread_local! { static NOW: Cell<i64> = const { Cell::new(-1) }; }
extern "C" { fn syscall(n: i64, ...) -> i64; }
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Timespec) -> i32 {
    let r = syscall(228, id as i64, t);
    if id == 0 {
        let ms = NOW.try_with(|x| x.get()).unwrap_or(-1);
        if ms >= 0 { (*t).sec = 1_700_000_000 + ms / 1000; (*t).nsec = ms % 1000 * 1_000_000; }
    }
    r as i32
}

// ------------------------------------------------------------------ types
#[derive(Debug)]
pub struct Native;
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct NType;
impl GetType for Native { type Output = NType; fn get_type(&self) -> NType { NType } }
impl Key<()> for Native { fn complete(self, _: ()) {} }
pub struct Cust;
#[derive(Debug)]
pub struct PState;
impl<'a> From<ProcessKind<'a, '_, Cust, Sys>> for PState { fn from(_: ProcessKind<'a, '_, Cust, Sys>) -> Self { PState } }
impl Unwindable for PState { type UnwindPoint = (); fn get_unwind_point(&self) {} fn unwind_to(&mut self, _: &()) {} }
pub struct EState;
impl<'a> From<EntityKind<'a, '_, Cust, Sys>> for EState { fn from(_: EntityKind<'a, '_, Cust, Sys>) -> Self { EState } }
pub type Sys = StdSystem<Cust>;
impl CustomTypes<Sys> for Cust {
    type NativeValue = Native;
    type Intermediate = SimpleValue;
    type EntityState = EState;
    type ProcessState = PState;
    fn from_intermediate<'gc>(mc: &Mutation<'gc>, v: SimpleValue) -> Value<'gc, Cust, Sys> { Value::from_simple(mc, v) }
}
#[derive(Collect)]
#[collect(no_drop)]
struct Env<'gc> { proj: Gc<'gc, RefLock<Project<'gc, Cust, Sys>>> }
type Ar = Arena<Rootable![Env<'_>]>;

// ------------------------------------------------------------------ encoding
fn i(x: &J) -> i64 { x.as_i64().unwrap() }
fn u(x: &J) -> usize { x.as_u64().unwrap() as usize }
fn st(x: &J) -> &str { x.as_str().unwrap() }
fn encn(x: f64) -> J {
    for k in 0..=12 {
        let y = x * (1u64 << k) as f64;
        if y.fract() == 0.0 {
            if y.abs() < (1u64 << 29) as f64 { return json!({"t": "n", "n": y as i64, "k": k}) }
            break;
        }
    }
    let m = x * 1e4;
    if m.abs() < 2e9 { json!({"t": "u", "m": m.round() as i64, "o": 0}) } else { json!({"t": "u", "m": 0, "o": if x > 0.0 { 1 } else { -1 }}) }
}
fn bytes(x: &J) -> Vec<u8> { x.as_array().unwrap().iter().map(|x| i(x) as u8).collect() }
fn number(x: &J) -> Number { Number::new(crate::ast::num(x)).unwrap() }
fn simple(v: &J) -> SimpleValue {
    match st(&v["t"]) {
        "b" => SimpleValue::Bool(v["b"].as_bool().unwrap()),
        "n" | "u" => SimpleValue::Number(number(v)),
        "s" => SimpleValue::Text(st(&v["s"]).into()),
        "l" => SimpleValue::List(v["e"].as_array().unwrap().iter().map(simple).collect()),
        x => panic!("simple {x}"),
    }
}
fn unsimple(v: &SimpleValue, cid: &str) -> J {
    match v {
        SimpleValue::Bool(b) => json!({"t": "b", "b": b}),
        SimpleValue::Number(n) => encn(n.get()),
        SimpleValue::Text(s) => json!({"t": "s", "s": s.replace(cid, "CID")}),
        SimpleValue::List(x) => json!({"t": "l", "e": x.iter().map(|x| unsimple(x, cid)).collect::<Vec<_>>()}),
        SimpleValue::Image(x) => json!({"t": "i", "i": x.name.as_str(), "c": x.content, "cx": x.center.iter().flat_map(|c| [encn(c.0.get()), encn(c.1.get())]).collect::<Vec<_>>()}),
        SimpleValue::Audio(x) => json!({"t": "au", "au": x.name.as_str(), "c": x.content}),
    }
}
fn b64(x: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    x.chunks(3).map(|c| {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        (0..4).map(|k| if k <= c.len() { T[(n >> (18 - 6 * k)) as usize & 63] as char } else { '=' }).collect::<String>()
    }).collect()
}
fn markup(v: &J) -> String {
    let mut s = format!("<{}", st(&v["tag"]));
    for a in v["at"].as_array().unwrap() {
        let val = format!("{}{}", st(&a["v"]), b64(&bytes(&a["c"])));
        let esc: String = val.chars().map(|c| match c { '&' => "&amp;".into(), '<' => "&lt;".into(), '>' => "&gt;".into(), '"' => "&quot;".into(), '\'' => "&#39;".into(), c => c.to_string() }).collect();
        s += &format!(" {}=\"{}\"", st(&a["n"]), esc);
    }
    s + st(&v["end"])
}

struct Sess {
    srv: Server, sys: Rc<Sys>, clock: Arc<Clock>, cid: String, prec: i64,
    keys: Vec<ExternReplyKey>, stash: VecDeque<J>, marks: i64, prints: Rc<RefCell<Vec<SimpleValue>>>, dead: bool, boot: J,
}
/// how long the client may take, however busy the machine is; less once it has been seen to hang
static HUNG: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
fn wait() -> Duration { if HUNG.load(std::sync::atomic::Ordering::Relaxed) < 4 { Duration::from_secs(30) } else { Duration::from_secs(1) } }
fn hung() { HUNG.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
fn prec(x: i64) -> Option<Precision> { match x { 0 => None, 1 => Some(Precision::Low), 2 => Some(Precision::Medium), _ => Some(Precision::High) } }
impl Sess {
    fn new(p: i64) -> Self {
        NOW.set(0);
        let srv = Server::start();
        let clock = Arc::new(Clock::new(UtcOffset::UTC, prec(p)));
        let prints = Rc::new(RefCell::new(vec![]));
        let pr = prints.clone();
        let config = Config {
            request: Some(Rc::new(|_: &_, key: <Sys as System<Cust>>::RequestKey, request, _: &mut _| match request {
                // an interception by the host, which leaves other calls to the system
                Request::Rpc { ref service, ref rpc, .. } if service.as_str() == "Hooked" => { key.complete(Ok(SimpleValue::Text(format_compact!("hook:{rpc}")))); RequestStatus::Handled }
                _ => RequestStatus::UseDefault { key, request },
            })),
            command: Some(Rc::new(move |_: &_, key: <Sys as System<Cust>>::CommandKey, command, _: &mut _| match command {
                Command::Print { value, .. } => {
                    if let Some(v) = value { pr.borrow_mut().push(v.to_simple().unwrap_or(SimpleValue::Bool(false))); }
                    key.complete(Ok(()));
                    CommandStatus::Handled
                }
                Command::ClearEffects => CommandStatus::UseDefault { key, command }, // not something this host does
                _ => { key.complete(Ok(())); CommandStatus::Handled }
            })),
        };
        let sys = Rc::new(Sys::new_sync(format_compact!("http://127.0.0.1:{}", srv.port), Some("my proj"), config, clock.clone()));
        let id = sys.get_public_id();
        let cid = id.strip_prefix("my proj@").and_then(|x| x.strip_suffix("#vm")).unwrap_or("?").to_owned();
        let mut s = Self { srv, sys, clock, cid, prec: p, keys: vec![], stash: Default::default(), marks: 0, prints, dead: false, boot: J::Null };
        let first = s.next();
        let log = s.srv.log.lock().unwrap().clone();
        s.boot = json!({"id": s.hide(&id), "first": first, "log": log.iter().map(|(a, b)| json!([s.hide(a), s.hide(b)])).collect::<Vec<_>>()});
        s
    }
    fn hide(&self, x: &str) -> String { x.replace(self.cid.as_str(), "CID") }
    fn encj(&self, v: &Json) -> J {
        match v {
            Json::Null => json!({"t": "null"}),
            Json::Bool(b) => json!({"t": "b", "b": b}),
            Json::Number(n) => encn(n.as_f64().unwrap()),
            Json::String(s) => match self.keys.iter().rposition(|k| k.request_id == s.as_str()) { Some(n) => json!({"t": "rid", "n": n + 1}), None => json!({"t": "s", "s": self.hide(s)}) },
            Json::Array(x) => json!({"t": "l", "e": x.iter().map(|x| self.encj(x)).collect::<Vec<_>>()}),
            Json::Object(x) => json!({"t": "o", "e": x.iter().map(|(k, v)| json!([k, self.encj(v)])).collect::<Vec<_>>()}),
        }
    }
    fn doc(&self, v: &J) -> Json { serde_json::from_str(&self.text(v)).unwrap() }
    /// the JSON text of a document
    fn text(&self, v: &J) -> String {
        match st(&v["t"]) {
            "null" => "null".into(),
            "b" => v["b"].to_string(),
            "n" | "u" => { let x = crate::ast::num(v); if x.fract() == 0.0 && x.abs() < 1e18 { format!("{}", x as i64) } else { json!(x).to_string() } }
            "s" => json!(st(&v["s"]).replace("CID", &self.cid)).to_string(),
            "l" => format!("[{}]", v["e"].as_array().unwrap().iter().map(|x| self.text(x)).collect::<Vec<_>>().join(",")),
            "o" => format!("{{{}}}", v["e"].as_array().unwrap().iter().map(|x| format!("{}:{}", json!(st(&x[0])), self.text(&x[1]))).collect::<Vec<_>>().join(", ")),
            "x" => json!(markup(v)).to_string(),
            "rid" => json!(self.keys.get(u(&v["n"]) - 1).map(|k| k.request_id.to_string()).unwrap_or(format!("rid {}", v["n"]))).to_string(),
            x => panic!("doc {x}"),
        }
    }
    /// the next frame the client sent
    fn next(&mut self) -> J {
        match self.srv.frames.recv_timeout(wait()) {
            Ok(Frame::Text(s)) => match serde_json::from_str::<Json>(&s) { Ok(x) => self.encj(&x), Err(_) => json!({"t": "notjson"}) },
            Ok(Frame::Other(n)) => json!({"t": "ws", "n": n}),
            Err(_) => { hung(); self.dead = true; json!({"t": "nothing"}) }
        }
    }
    /// waits until the client has handled every frame sent to it
    fn sync(&mut self) -> J {
        self.srv.send(1, b"{\"type\":\"ping\"}");
        let pong = json!({"t": "o", "e": [["type", {"t": "s", "s": "pong"}]]});
        let t = Instant::now();
        loop {
            let f = self.next();
            if f == pong { return json!("pong") }
            if f["t"] == "nothing" || t.elapsed() > wait() { hung(); return json!("no answer to a ping") }
            if f["t"] == "ws" && f["n"] == 10 { continue }
            self.stash.push_back(f);
        }
    }
    /// everything the client sent, up to a marker sent now
    fn flush(&mut self) -> J {
        self.marks += 1;
        let n = self.marks;
        if self.sys.send_message("mark".into(), [("n".into(), json!(n))].into_iter().collect(), vec!["x".into()], false).is_err() { return json!([{"t": "mark refused"}]) }
        let mut out: Vec<J> = self.stash.drain(..).collect();
        loop {
            let f = self.next();
            if f["t"] == "ws" && f["n"] == 10 { continue }
            let get = |k: &str| f["e"].as_array().and_then(|e| e.iter().find(|x| x[0] == k)).map(|x| x[1].clone());
            if get("msgType") == Some(json!({"t": "s", "s": "mark"})) && get("content") == Some(json!({"t": "o", "e": [["n", {"t": "n", "n": n, "k": 0}]]})) { return J::Array(out) }
            let end = f["t"] == "nothing";
            out.push(f);
            if end { return J::Array(out) }
        }
    }
    fn apply(&mut self, op: &J) -> J {
        match st(&op["o"]) {
            "boot" => self.boot.clone(),
            "send" => {
                let values = op["v"].as_array().unwrap().iter().map(|x| (CompactString::new(st(&x[0])), self.doc(&x[1]))).collect();
                let to = op["to"].as_array().unwrap().iter().map(|x| CompactString::new(st(x))).collect();
                match self.sys.send_message(st(&op["type"]).into(), values, to, op["w"].as_bool().unwrap()) {
                    Ok(None) => json!(0),
                    Ok(Some(k)) => { let fresh = !self.keys.contains(&k); self.keys.push(k); if fresh { json!(self.keys.len()) } else { json!(-1) } }
                    Err(_) => json!(-2),
                }
            }
            "reply" => { let v = self.doc(&op["v"]); json!(self.sys.send_reply(InternReplyKey { src_id: st(&op["src"]).into(), request_id: st(&op["req"]).into() }, v).is_ok()) }
            "inject" => { self.sys.inject_message(st(&op["type"]).into(), op["v"].as_array().unwrap().iter().map(|x| (CompactString::new(st(&x[0])), simple(&x[1]))).collect()); json!(0) }
            "recv" => match self.sys.receive_message() {
                None => json!([]),
                Some(m) => json!([{"type": m.msg_type.as_str(), "v": m.values.iter().map(|(k, v)| json!([k.as_str(), unsimple(v, &self.cid)])).collect::<Vec<_>>(), "rk": m.reply_key.iter().flat_map(|k| [k.src_id.to_string(), match self.keys.iter().rposition(|x| x.request_id == k.request_id) { Some(n) => format!("rid {}", n + 1), None => k.request_id.to_string() }]).collect::<Vec<_>>()}]),
            },
            "poll" => {
                let k = self.keys[u(&op["k"]) - 1].clone();
                match self.sys.poll_reply(&k) { AsyncResult::Pending => json!(["pending"]), AsyncResult::Consumed => json!(["consumed"]), AsyncResult::Completed(None) => json!(["none"]), AsyncResult::Completed(Some(x)) => json!(["value", self.encj(&x)]) }
            }
            "srv" => {
                match st(&op["f"]) {
                    "doc" => { let t = self.text(&op["d"]); self.srv.send(1, t.as_bytes()) }
                    "raw" => self.srv.send(1, st(&op["d"]).as_bytes()),
                    "bin" => self.srv.send(2, st(&op["d"]).as_bytes()),
                    "ping" => self.srv.send(9, b"hi"),
                    x => panic!("frame {x}"),
                }
                json!(0)
            }
            "srvs" => { let t = self.text(&op["d"]); self.srv.send(1, t.as_bytes()); self.sync() }
            "sync" => self.sync(),
            "flush" => self.flush(),
            "tick" => { NOW.set(NOW.get() + i(&op["ms"])); json!(0) }
            "update" => { self.clock.update(); json!(0) }
            x => panic!("op {x}"),
        }
    }
    /// a project whose scripts make service calls, answered in the given order
    fn prog(&mut self, case: &J) -> J {
        let base = format!("http://127.0.0.1:{}", self.srv.port);
        let case: &J = &serde_json::from_str(&case.to_string().replace("BASE", &base)).unwrap();
        let mut ctx = ast::Ctx { nodes: case["nodes"].as_array().unwrap(), imgs: Default::default(), locals: false };
        let role = ctx.role(&case["role"]);
        let (code, init, _, _) = ByteCode::compile(&role).unwrap();
        let (code, sys) = (Rc::new(code), self.sys.clone());
        let settings = Settings { max_call_depth: 30, rpc_error_scheme: if case["soft"].as_bool().unwrap() { ErrorScheme::Soft } else { ErrorScheme::Hard }, syscall_error_scheme: ErrorScheme::Hard };
        let mut arena = Ar::new(|mc| Env { proj: Gc::new(mc, RefLock::new(Project::from_init(mc, &init, code, settings, sys))) });
        self.prints.borrow_mut().clear();
        while self.srv.calls.try_recv().is_ok() {}
        arena.mutate(|mc, e| e.proj.borrow_mut(mc).input(mc, Input::Start));
        let order: Vec<J> = case["order"].as_array().unwrap().clone();
        let (mut pending, mut seen, mut next, mut errs) = (BTreeMap::<String, Call>::new(), vec![], 0usize, vec![]);
        let (t, mut quiet, mut idle) = (Instant::now(), 0, 0);
        loop {
            let mut ended = false;
            arena.mutate(|mc, e| {
                let mut p = e.proj.borrow_mut(mc);
                for _ in 0..400 { match p.step(mc) { ProjectStep::Idle => { ended = true; break } ProjectStep::Error { error, .. } => errs.push(json!(format!("{:?}", error.cause))), _ => () } }
            });
            let mut got = false;
            while let Ok(c) = self.srv.calls.try_recv() {
                let name = c.path.rsplit('/').next().unwrap_or("").to_owned();
                let body = serde_json::from_str::<Json>(&c.body).map(|x| self.encj(&x)).unwrap_or(json!({"t": "notjson"}));
                let q: Vec<&str> = c.query.split('&').collect();
                let qok = q.len() == 2 && q[0] == format!("clientId={}", self.cid) && q[1].strip_prefix("t=").is_some_and(|x| x.parse::<u64>().is_ok());
                seen.push(json!([c.path, body, qok]));
                pending.insert(name, c);
                got = true;
            }
            quiet = if got { 0 } else { quiet + 1 };
            if ended { idle += 1 } else { idle = 0 }
            if idle >= 5 && next >= order.len() && quiet > 2 { break }
            if next < order.len() && quiet >= 2 {
                let x = &order[next];
                if let Some(c) = pending.remove(st(&x["rpc"])) {
                    let body = match x["doc"].as_array().unwrap().first() { Some(d) => self.text(d).into_bytes(), None => bytes(&x["body"]) };
                    let _ = c.reply.send(Reply { status: u(&x["status"]) as u16, ctype: x["ctype"].as_array().unwrap().first().map(|x| st(x).to_owned()), body, cut: x["cut"].as_bool().unwrap() });
                    next += 1;
                    quiet = 0;
                }
            }
            if t.elapsed() > wait() { hung(); self.dead = true; break }
            if quiet > 1 { std::thread::sleep(Duration::from_micros(300)); }
        }
        seen.sort_by_key(|x| x[0].to_string());
        let prints: Vec<J> = self.prints.borrow().iter().map(|x| serde_json::from_str(&unsimple(x, &self.cid).to_string().replace(&base, "BASE")).unwrap()).collect();
        json!({"calls": seen, "prints": prints, "errs": errs, "unused": pending.len()})
    }
}
thread_local! { static SESS: RefCell<Vec<Sess>> = const { RefCell::new(vec![]) }; }
fn panic_text(e: &(dyn std::any::Any + Send)) -> String { e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default() }
fn run(case: &J) -> J {
    let p = i(&case["prec"]);
    let mut s = SESS.with(|x| { let mut x = x.borrow_mut(); match x.iter().position(|s| s.prec == p) { Some(n) => x.swap_remove(n), None => Sess::new(p) } });
    NOW.set(0);
    s.clock.update();
    s.keys.clear();
    // nothing left over from an earlier case
    s.sync();
    while s.sys.receive_message().is_some() {}
    s.flush();
    let mut out = vec![];
    let bad = s.dead;
    let obs = st(&case["obs"]);
    if bad { out.push(json!({"p": "the connection does not work", "r": 0, "x": []})); }
    let ops = case["ops"].as_array().unwrap();
    if !bad { for (n, op) in ops.iter().enumerate() {
        let r = catch_unwind(AssertUnwindSafe(|| if op["o"] == "prog" { s.prog(op) } else { s.apply(op) }));
        match r {
            Ok(r) => if obs != "last" || n + 1 == ops.len() { out.push(json!({"p": "", "r": r, "x": if obs == "last" { json!([0]) } else { json!([]) }})) },
            Err(e) => { out.push(json!({"p": format!("! {}", panic_text(&*e)), "r": [], "x": []})); s.dead = true; break }
        }
    } }
    if !s.dead { SESS.with(|x| x.borrow_mut().push(s)) } else { std::mem::forget(s) }
    json!({"id": case["id"], "p": "", "out": out})
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let dbg = std::env::var("VH_DEBUG").is_ok();
    std::panic::set_hook(Box::new(move |i| if dbg { eprintln!("{i}") }));
    let lines: Vec<String> = std::io::BufReader::new(std::fs::File::open(&args[2]).unwrap()).lines().map(|x| x.unwrap()).filter(|x| !x.trim().is_empty()).collect();
    let out = Arc::new(Mutex::new(std::fs::File::create(&args[3]).unwrap()));
    let work = Arc::new(Mutex::new(lines.into_iter()));
    let hs: Vec<_> = (0..args[4].parse().unwrap()).map(|_| {
        let (out, work) = (out.clone(), work.clone());
        std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            loop {
                let line = match work.lock().unwrap().next() { Some(x) => x, None => break };
                let case: J = serde_json::from_str(&line).unwrap();
                let s = serde_json::to_string(&run(&case)).unwrap() + "\n";
                out.lock().unwrap().write_all(s.as_bytes()).unwrap();
            }
            SESS.with(|x| std::mem::forget(std::mem::take(&mut *x.borrow_mut())));
        }).unwrap()
    }).collect();
    let mut ok = true;
    for h in hs { ok &= h.join().is_ok(); }
    std::process::exit(if ok { 0 } else { 3 })
}
