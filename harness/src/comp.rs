//! Replays histories of operations on the crate's component types and records what each operation gives.
use crate::run::{encj, encn, panic_text, Ar, Cust, Env, Native, Sys};
use netsblox_vm::compact_str::CompactString;
use netsblox_vm::gc::*;
use netsblox_vm::json::Json;
use netsblox_vm::new_key;
use netsblox_vm::project::*;
use netsblox_vm::runtime::*;
use netsblox_vm::slotmap::SlotMap;
use netsblox_vm::template::{ExtensionArgs, SyscallMenu};
use netsblox_vm::std_util::{AsyncKey, Clock};
use netsblox_vm::real_time::{OffsetDateTime, UtcOffset};
use netsblox_vm::vecmap::VecMap;
use serde_json::{json, Value as J};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

new_key! { pub struct H; }

trait Comp {
    fn apply(&mut self, op: &J) -> J;
    fn obs(&mut self) -> J { json!(0) }
}
fn i(x: &J) -> i64 { x.as_i64().unwrap() }
fn u(x: &J) -> usize { x.as_u64().unwrap() as usize }

// ------------------------------------------------------------------ the generational container
struct Slot { m: SlotMap<H, i64>, k: Vec<H>, at: BTreeMap<H, usize> }
impl Slot {
    fn issue(&mut self, k: H) { self.k.push(k); self.at.insert(k, self.k.len()); }
    fn name(&self, k: H) -> usize { self.at.get(&k).copied().unwrap_or(0) }
    fn pairs(&self, mut v: Vec<(usize, i64)>) -> J { v.sort(); json!(v) }
}
impl Comp for Slot {
    fn apply(&mut self, op: &J) -> J {
        let h = u(&op["h"]);
        let v = i(&op["v"]);
        let one = |x: Option<i64>| match x { Some(x) => json!([[h, x]]), None => json!([]) };
        match op["o"].as_str().unwrap() {
            "ins" => { let k = self.m.insert(v); self.issue(k); json!([]) }
            "get" => one(self.m.get(self.k[h - 1]).copied()),
            "rem" => one(self.m.remove(self.k[h - 1])),
            "set" => one(self.m.get_mut(self.k[h - 1]).map(|x| std::mem::replace(x, v))),
            "clear" => { self.m.clear(); json!([]) }
            "keep" => {
                let keep: Vec<usize> = op["hs"].as_array().unwrap().iter().map(u).collect();
                let mut seen = vec![];
                let at = &self.at;
                self.m.retain_mut(|k, x| {
                    let n = at.get(&k).copied().unwrap_or(0);
                    seen.push((n, *x));
                    *x += v;
                    keep.contains(&n)
                });
                self.pairs(seen)
            }
            "inc" => {
                let mut seen = vec![];
                let at = &self.at;
                for (k, x) in self.m.iter_mut() { seen.push((at.get(&k).copied().unwrap_or(0), *x)); *x += 1; }
                self.pairs(seen)
            }
            "copy" => {
                let c = self.m.clone();
                let ks: Vec<H> = self.k.clone();
                for k in ks { self.m.remove(k); }
                for j in 0..5 { self.m.insert(1000 + j); }
                self.m = c;
                json!([])
            }
            "churn" => {
                let mut ok = 0;
                for j in 0..v {
                    let k = self.m.insert(j);
                    self.issue(k);
                    if self.m.get(k) == Some(&j) && self.m.remove(k) == Some(j) && self.m.get(k).is_none() { ok += 1 }
                }
                json!([[v, ok]])
            }
            "fill" => { for j in 1..=v { let k = self.m.insert(j); self.issue(k); } json!([]) }
            x => panic!("op {x}"),
        }
    }
    fn obs(&mut self) -> J {
        let it = self.m.iter().map(|(k, x)| (self.name(k), *x)).collect();
        let g = self.k.iter().enumerate().filter_map(|(n, k)| self.m.get(*k).map(|x| (n + 1, *x))).collect();
        let ks = self.k.clone();
        let gm = ks.iter().enumerate().filter_map(|(n, k)| self.m.get_mut(*k).map(|x| (n + 1, *x))).collect();
        let at = &self.at;
        let im = self.m.iter_mut().map(|(k, x)| (at.get(&k).copied().unwrap_or(0), *x)).collect();
        let io = self.m.clone().into_iter().map(|(k, x)| (self.name(k), x)).collect();
        json!({"n": self.m.len(), "e": self.m.is_empty(), "it": self.pairs(it), "g": self.pairs(g), "gm": self.pairs(gm), "im": self.pairs(im), "io": self.pairs(io)})
    }
}

// ------------------------------------------------------------------ the small map
trait K: Ord + Clone + serde::Serialize + serde::de::DeserializeOwned + 'static {
    fn of(x: &J) -> Self;
    fn j(&self) -> J;
    fn get<'a, const S: bool>(m: &'a VecMap<Self, i64, S>, x: &J) -> Option<&'a i64>;
    fn get_mut<'a, const S: bool>(m: &'a mut VecMap<Self, i64, S>, x: &J) -> Option<&'a mut i64>;
}
impl K for i64 {
    fn of(x: &J) -> Self { i(x) }
    fn j(&self) -> J { json!(self) }
    fn get<'a, const S: bool>(m: &'a VecMap<Self, i64, S>, x: &J) -> Option<&'a i64> { m.get(&i(x)) }
    fn get_mut<'a, const S: bool>(m: &'a mut VecMap<Self, i64, S>, x: &J) -> Option<&'a mut i64> { m.get_mut(&i(x)) }
}
impl K for CompactString {
    fn of(x: &J) -> Self { CompactString::new(x.as_str().unwrap()) }
    fn j(&self) -> J { json!(self.as_str()) }
    fn get<'a, const S: bool>(m: &'a VecMap<Self, i64, S>, x: &J) -> Option<&'a i64> { m.get(x.as_str().unwrap()) }
    fn get_mut<'a, const S: bool>(m: &'a mut VecMap<Self, i64, S>, x: &J) -> Option<&'a mut i64> { m.get_mut(x.as_str().unwrap()) }
}
struct Vm<T: K, const S: bool>(VecMap<T, i64, S>);
impl<T: K, const S: bool> Comp for Vm<T, S> {
    fn apply(&mut self, op: &J) -> J {
        let k = &op["k"];
        let v = i(&op["v"]);
        let one = |x: Option<i64>| match x { Some(x) => json!([[k, x]]), None => json!([]) };
        match op["o"].as_str().unwrap() {
            "ins" => one(self.0.insert(T::of(k), v)),
            "get" => one(T::get(&self.0, k).copied()),
            "set" => one(T::get_mut(&mut self.0, k).map(|x| std::mem::replace(x, v))),
            "inc" => J::Array(self.0.iter_mut().map(|(k, x)| { *x += 1; json!([k.j(), *x - 1]) }).collect()),
            "ser" => {
                self.0 = match v { 0 => serde_json::from_str(&serde_json::to_string(&self.0).unwrap()).unwrap(), _ => bincode::deserialize(&bincode::serialize(&self.0).unwrap()).unwrap() };
                json!([])
            }
            "collect" => { self.0 = op["es"].as_array().unwrap().iter().map(|x| (T::of(&x[0]), i(&x[1]))).collect(); json!([]) }
            "rebuild" => {
                let old = std::mem::replace(&mut self.0, VecMap::with_capacity(2));
                let es: Vec<(T, i64)> = old.into_iter().collect();
                for (k, v) in es.iter() { self.0.insert(k.clone(), *v); }
                J::Array(es.iter().map(|(k, v)| json!([k.j(), v])).collect())
            }
            x => panic!("op {x}"),
        }
    }
    fn obs(&mut self) -> J {
        let p = |k: &T, v: &i64| json!([k.j(), v]);
        let it: Vec<J> = self.0.iter().map(|(k, v)| p(k, v)).collect();
        let im: Vec<J> = self.0.iter_mut().map(|(k, v)| p(k, v)).collect();
        let sl: Vec<J> = self.0.as_slice().iter().map(|e| p(&e.key, &e.value)).collect();
        json!({"n": self.0.len(), "z": self.0.is_empty(), "it": it, "im": im, "sl": sl})
    }
}

// ------------------------------------------------------------------ one-shot results, shared keys, barriers
fn polled(x: AsyncResult<i64>) -> J { match x { AsyncResult::Pending => json!(["pending", 0]), AsyncResult::Completed(v) => json!(["done", v]), AsyncResult::Consumed => json!(["consumed", 0]) } }
struct One(AsyncResult<i64>);
impl Comp for One {
    fn apply(&mut self, op: &J) -> J {
        match op["o"].as_str().unwrap() {
            "poll" => polled(self.0.poll()),
            "complete" => match self.0.complete(i(&op["v"])) { Ok(()) => json!(["ok", 0]), Err(v) => json!(["refused", v]) },
            x => panic!("op {x}"),
        }
    }
}
struct Shared(Vec<Option<AsyncKey<i64>>>);
impl Comp for Shared {
    fn apply(&mut self, op: &J) -> J {
        let h = u(&op["h"]) - 1;
        match op["o"].as_str().unwrap() {
            "poll" => polled(self.0[h].as_ref().unwrap().poll()),
            "clone" => { let k = self.0[h].clone(); self.0.push(k); json!(["", 0]) }
            "drop" => { self.0[h] = None; json!(["", 0]) }
            "complete" => {
                let k = self.0[h].take().unwrap();
                let v = i(&op["v"]);
                // a key refuses by panicking
                match catch_unwind(AssertUnwindSafe(|| k.complete(v))) { Ok(()) => json!(["ok", 0]), Err(_) => json!(["refused", v]) }
            }
            x => panic!("op {x}"),
        }
    }
}
struct Bar(Vec<Option<Barrier>>, Vec<BarrierCondition>);
impl Comp for Bar {
    fn apply(&mut self, op: &J) -> J {
        let h = u(&op["h"]).wrapping_sub(1);
        match op["o"].as_str().unwrap() {
            "new" => self.0.push(Some(Barrier::new())),
            "clone" => { let b = self.0[h].clone(); self.0.push(b) }
            "drop" => self.0[h] = None,
            "cond" => { let c = self.0[h].as_ref().unwrap().get_condition(); self.1.push(c) }
            "cclone" => { let c = self.1[h].clone(); self.1.push(c) }
            x => panic!("op {x}"),
        }
        json!(["", 0])
    }
    fn obs(&mut self) -> J { json!(self.1.iter().map(|c| c.is_completed()).collect::<Vec<_>>()) }
}

// ------------------------------------------------------------------ the idle action, fed with real steps of a real project
const IDLE: &str = r#"{"id":0,"role":{"globals":[["g",{"t":"n","n":0,"k":0}]],"funcs":[],"entities":[{"name":"s","fields":[],"costumes":[],"sounds":[],"funcs":[],"scripts":[
 {"hat":["key","a"],"body":3},{"hat":["key","b"],"body":5},{"hat":["key","c"],"body":7},{"hat":["key","d"],"body":9},{"hat":["key","e"],"body":11}],"active":0,"visible":true,"color":[0,0,0,255],"x":{"n":0,"k":0},"y":{"n":0,"k":0},"heading":{"n":90,"k":0},"scale":{"n":1,"k":0}}]},
 "nodes":[{"o":"lit","a":[],"s":[],"v":{"t":"s","s":"x"},"l":""},{"o":"say","a":[1],"s":[],"l":""},{"o":"block","a":[2],"s":[],"l":""},{"o":"throw","a":[1],"s":[],"l":""},{"o":"block","a":[4],"s":[],"l":""},{"o":"showvar","a":[],"s":["g"],"l":""},{"o":"block","a":[6],"s":[],"l":""},{"o":"pause","a":[],"s":[],"l":""},{"o":"block","a":[8],"s":[],"l":""},{"o":"forever","a":[12],"s":[],"l":""},{"o":"block","a":[10],"s":[],"l":""},{"o":"block","a":[],"s":[],"l":""}],
 "env":{"maxdepth":30,"rpcsoft":false,"sysoft":false,"timemode":"arb","base":[2024,2,28,23,59,30,0],"t0":0,"gc":0,"serde":0,"store":false,"snap0":false,"cap":1000,"rand":[1],"host":[],"replies":[],"turns":[]}}"#;
thread_local! { static IDLE_ENV: std::cell::RefCell<Option<(Ar, Rc<Sys>)>> = const { std::cell::RefCell::new(None) }; }
struct Idle(IdleAction, Rc<Cell<i64>>);
fn key_of(kind: &str) -> Option<char> { match kind { "Term" | "Normal" => Some('a'), "Err" => Some('b'), "Watch" => Some('c'), "Pause" => Some('d'), "Yield" => Some('e'), _ => None } }
impl Comp for Idle {
    fn apply(&mut self, op: &J) -> J {
        let want = op["o"].as_str().unwrap();
        if want == "trigger" { self.0.trigger(); return json!(["", 0]) }
        IDLE_ENV.with(|e| {
            let mut e = e.borrow_mut();
            if e.is_none() { *e = Some(crate::run::open(&serde_json::from_str(IDLE).unwrap())); }
            let (arena, sys) = e.as_mut().unwrap();
            arena.mutate(|mc, env: &Env| {
                let mut proj = env.proj().borrow_mut(mc);
                proj.input(mc, Input::Stop);
                for n in 0.. { if n > 1000 { panic!("never idle") } if matches!(proj.step(mc), ProjectStep::Idle) { break } }
                if let Some(c) = key_of(want) { proj.input(mc, Input::KeyDown { key: KeyCode::Char(c) }) }
                for n in 0.. {
                    if n > 1000 { panic!("no step of this kind") }
                    let r = proj.step(mc);
                    let kind = match &r {
                        ProjectStep::Idle => "Idle", ProjectStep::Yield => "Yield", ProjectStep::Normal => "Normal", ProjectStep::ProcessTerminated { .. } => "Term",
                        ProjectStep::Error { .. } => "Err", ProjectStep::Watcher { .. } => "Watch", ProjectStep::Pause => "Pause",
                    };
                    if kind == want { self.0.consume(&r); break }
                }
            });
            sys.ev.take();
            if u(&op["h"]) == 0 { arena.collect_debt() }
        });
        json!(["", 0])
    }
    fn obs(&mut self) -> J { json!(self.1.get()) }
}

// ------------------------------------------------------------------ the clock
struct Clk { c: Clock, off: UtcOffset, born: (OffsetDateTime, OffsetDateTime), reads: Vec<(i64, OffsetDateTime)>, n: i64 }
impl Comp for Clk {
    fn apply(&mut self, op: &J) -> J {
        self.n += 1;
        let pause = || { let t = std::time::Instant::now(); while t.elapsed().as_micros() < 3 {} };
        pause();
        let before = OffsetDateTime::now_utc();
        let r = match op["o"].as_str().unwrap() {
            "update" => self.c.update(),
            _ => self.c.read(match i(&op["v"]) { 1 => Precision::Low, 2 => Precision::Medium, _ => Precision::High }),
        };
        let after = OffsetDateTime::now_utc();
        pause();
        if r.offset() != self.off { return json!(["offset", 0]) }
        if r >= before && r <= after { self.reads.push((self.n, r)); return json!(["", self.n]) }
        if let Some(x) = self.reads.iter().rev().find(|x| x.1 == r) { return json!(["", x.0]) }
        json!(["", if r >= self.born.0 && r <= self.born.1 { 0 } else { -1 }])
    }
}

// ------------------------------------------------------------------ single evaluations
fn note(n: Option<Note>) -> J {
    match n {
        None => json!([]),
        Some(n) => { let (m, nat) = n.get_midi(); json!([{"m": m, "nat": nat, "f": (n.get_frequency().get() * 1e5).round() as i64, "sharp": n.get_name(true).as_str(), "flat": n.get_name(false).as_str()}]) }
    }
}
fn bytes(x: &J) -> Vec<u8> { x.as_array().unwrap().iter().map(|x| i(x) as u8).collect() }
fn number(x: &J) -> Number { Number::new(crate::ast::num(x)).unwrap() }
fn simple(v: &J) -> SimpleValue {
    match v["t"].as_str().unwrap() {
        "b" => SimpleValue::Bool(v["b"].as_bool().unwrap()),
        "n" | "u" => SimpleValue::Number(number(v)),
        "s" => SimpleValue::Text(v["s"].as_str().unwrap().into()),
        "l" => SimpleValue::List(v["e"].as_array().unwrap().iter().map(simple).collect()),
        "i" => SimpleValue::Image(Image { content: bytes(&v["c"]), name: v["i"].as_str().unwrap().into(), center: match v["cx"].as_array().unwrap().as_slice() { [] => None, c => Some((number(&c[0]), number(&c[1]))) } }),
        "au" => SimpleValue::Audio(Audio { content: bytes(&v["c"]), name: v["au"].as_str().unwrap().into() }),
        x => panic!("simple {x}"),
    }
}
fn unsimple(v: &SimpleValue) -> J {
    match v {
        SimpleValue::Bool(b) => json!({"t": "b", "b": b}),
        SimpleValue::Number(n) => encn(n.get()),
        SimpleValue::Text(s) => json!({"t": "s", "s": s.as_str()}),
        SimpleValue::List(x) => json!({"t": "l", "e": x.iter().map(unsimple).collect::<Vec<_>>()}),
        SimpleValue::Image(x) => json!({"t": "i", "i": x.name.as_str(), "c": x.content, "cx": x.center.iter().flat_map(|c| [encn(c.0.get()), encn(c.1.get())]).collect::<Vec<_>>()}),
        SimpleValue::Audio(x) => json!({"t": "au", "au": x.name.as_str(), "c": x.content}),
    }
}
fn b64(x: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    x.chunks(3).map(|c| {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        (0..4).map(|k| if k <= c.len() { T[(n >> (18 - 6 * k)) as usize & 63] as char } else { '=' }).collect::<String>()
    }).collect()
}
/// a document: markup is given by its parts
fn doc(v: &J) -> Json {
    match v["t"].as_str().unwrap() {
        "null" => Json::Null,
        "b" => json!(v["b"]),
        "n" | "u" => { let x = crate::ast::num(v); if x.fract() == 0.0 && x.abs() < 1e18 { json!(x as i64) } else { json!(x) } }
        "s" => json!(v["s"]),
        "l" => Json::Array(v["e"].as_array().unwrap().iter().map(doc).collect()),
        "o" => Json::Object(v["e"].as_array().unwrap().iter().map(|x| (x[0].as_str().unwrap().to_owned(), doc(&x[1]))).collect()),
        "x" => json!(markup(v)),
        x => panic!("doc {x}"),
    }
}
fn markup(v: &J) -> String {
    let mut s = format!("<{}", v["tag"].as_str().unwrap());
    for a in v["at"].as_array().unwrap() {
        let val = format!("{}{}", a["v"].as_str().unwrap(), b64(&bytes(&a["c"])));
        let esc: String = val.chars().map(|c| match c { '&' => "&amp;".into(), '<' => "&lt;".into(), '>' => "&gt;".into(), '"' => "&quot;".into(), '\'' => "&#39;".into(), c => c.to_string() }).collect();
        s += &format!(" {}=\"{}\"", a["n"].as_str().unwrap(), esc);
    }
    s + v["end"].as_str().unwrap()
}
fn back(r: Result<SimpleValue, String>, text: Option<&str>) -> J {
    match r {
        Ok(SimpleValue::Text(s)) if text == Some(s.as_str()) => json!({"k": "text"}),
        Ok(v) => json!({"k": "ok", "v": unsimple(&v)}),
        Err(e) => json!({"k": "err", "e": e}),
    }
}
fn json_of(v: &SimpleValue) -> Result<Json, String> {
    v.clone().into_json::<Cust, Sys>().map_err(|e| match e { IntoJsonError::ComplexType(t) => format!("{t:?}") })
}
#[derive(gc_arena::Collect)]
#[collect(no_drop)]
struct Vals<'gc> { v: Vec<Value<'gc, Cust, Sys>> }
/// addresses are not compared
fn unptr(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(k) = ["[Image 0x", "[Audio 0x"].iter().filter_map(|x| rest.find(x)).min() {
        out += &rest[..k + 9];
        rest = rest[k + 9..].trim_start_matches(|c: char| c.is_ascii_hexdigit());
    }
    out + rest
}
/// the value read as each type
fn reads(v: &Value<'_, Cust, Sys>) -> J {
    fn out<T>(r: Result<T, netsblox_vm::runtime::ConversionError<Cust, Sys>>, f: impl FnOnce(T) -> J) -> J {
        let name = |t: Type<Cust, Sys>| match t { Type::Native(_) => "Native".to_string(), t => format!("{t:?}") };
        match r { Ok(x) => json!([f(x)]), Err(e) => json!([name(e.got), name(e.expected)]) }
    }
    json!([
        out(v.as_bool(), |x| json!({"t": "b", "b": x})),
        out(v.as_number(), |x| encn(x.get())),
        out(v.as_text(), |x| json!({"t": "s", "s": x.as_str()})),
        out(v.as_image(), |x| unsimple(&SimpleValue::Image((**x).clone()))),
        out(v.as_audio(), |x| unsimple(&SimpleValue::Audio((**x).clone()))),
        out(v.as_list(), |x| json!(x.borrow().len())),
        out(v.as_closure(), |_| json!(0)),
        out(v.as_entity(), |_| json!(0)),
    ])
}
fn graph(op: &J) -> J {
    // op.g: one entry per object: a list with the entries' numbers, or a leaf; op.v: the root
    let mut arena: Arena<Rootable![Vals<'_>]> = Arena::new(|_| Vals { v: vec![] });
    arena.mutate_root(|mc, root| {
        let g = op["g"].as_array().unwrap();
        let vs: Vec<Value<'_, Cust, Sys>> = g.iter().map(|x| match x["t"].as_str().unwrap() {
            "l" => Value::List(Gc::new(mc, RefLock::new(Default::default()))),
            "native" => Value::Native(Rc::new(Native)),
            _ => Value::from_simple(mc, simple(x)),
        }).collect();
        for (n, x) in g.iter().enumerate() {
            if let (Value::List(l), Some(e)) = (&vs[n], x["m"].as_array()) {
                let mut l = l.borrow_mut(mc);
                for k in e { l.push_back(vs[u(k) - 1].clone()); }
            }
        }
        let v = vs[u(&op["v"]) - 1].clone();
        let r = v.to_simple();
        let (show, dbg) = (unptr(&format!("{v}")), unptr(&format!("{v:?}")));
        let read = reads(&v);
        // the copy is deep: changing the original does not show
        let shown = r.as_ref().ok().map(unsimple);
        for x in vs.iter() { if let Value::List(l) = x { let mut l = l.borrow_mut(mc); l.clear(); l.push_back(Value::Bool(true)); } }
        let res = match &r {
            Ok(s) => {
                let again = Value::<Cust, Sys>::from_simple(mc, s.clone()).to_simple().ok();
                json!({"k": "ok", "v": unsimple(s), "deep": Some(unsimple(s)) == shown, "again": again.as_ref() == Some(s)})
            }
            Err(ToSimpleError::Cyclic) => json!({"k": "err", "e": "Cyclic"}),
            Err(ToSimpleError::ComplexType(t)) => json!({"k": "err", "e": match t { Type::Native(_) => "Native".to_string(), t => format!("{t:?}") }}),
        };
        root.v = vs;
        let mut res = res;
        res["show"] = json!(show);
        res["dbg"] = json!(dbg);
        res["as"] = read;
        res
    })
}
struct Eval;
/// a compiled project: its bytes, where scripts and custom blocks begin, and what its dump says
fn compiled(role: &netsblox_vm::ast::Role) -> J {
    let Ok((code, _, _, info)) = netsblox_vm::bytecode::ByteCode::compile(role) else { return json!({ "ok": false }) };
    let mut at: Vec<usize> = info.funcs.iter().map(|x| x.1).collect();
    for (_, e) in &info.entities { at.extend(e.funcs.iter().map(|x| x.1)); at.extend(e.scripts.iter().map(|x| x.1)); }
    let z: J = serde_json::from_str(&serde_json::to_string(&code).unwrap()).unwrap();
    let mut out = b"instructions:\n".to_vec();
    code.dump_code(&mut out).unwrap();
    out.extend(b"\ndata:\n");
    code.dump_data(&mut out).unwrap();
    out.extend(format!("\ntotal size: {}\n", code.total_size()).as_bytes());
    json!({ "ok": true, "code": z["code"], "data": z["data"], "at": at, "text": String::from_utf8(out).unwrap() })
}
impl Comp for Eval {
    fn apply(&mut self, op: &J) -> J {
        match op["o"].as_str().unwrap() {
            "render" => {
                fn menu(v: &J) -> Vec<SyscallMenu> {
                    let t = |x: &J| x.as_str().unwrap().to_string();
                    v.as_array().unwrap().iter().map(|x| match x["k"].as_str().unwrap() {
                        "p" => SyscallMenu::simple_entry(t(&x["l"])),
                        "e" => SyscallMenu::Entry { label: t(&x["l"]), value: t(&x["v"]) },
                        _ => SyscallMenu::Submenu { label: t(&x["l"]), content: menu(&x["sub"]) },
                    }).collect()
                }
                let omit: Vec<&str> = op["omit"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
                json!(ExtensionArgs { server: op["server"].as_str().unwrap(), syscalls: &menu(&op["menu"]), omitted_elements: &omit, pull_interval: std::time::Duration::from_millis(op["ms"].as_u64().unwrap()) }.render())
            }
            "compile" => match netsblox_vm::ast::Parser::default().parse(op["xml"].as_str().unwrap()) {
                Ok(p) => p.roles.get(u(&op["k"])).map(compiled).unwrap_or_else(|| json!({ "ok": false })),
                Err(_) => json!({ "ok": false }),
            },
            "dumped" => {
                let mut ctx = crate::ast::Ctx { nodes: op["nodes"].as_array().unwrap(), imgs: Default::default(), locals: false };
                compiled(&ctx.role(&op["role"]))
            }
            "midi" => note(Note::from_midi(i(&op["v"]) as u8, op["nat"].as_bool().unwrap())),
            "name" => note(Note::from_name(op["s"].as_str().unwrap())),
            "hsva" => { let f = |k: &str| crate::ast::num(&op[k]) as f32; let c = Color::from_hsva(f("h"), f("s"), f("v"), f("a")); json!([c.r, c.g, c.b, c.a]) }
            "rgb" => {
                let c = bytes(&op["c"]);
                let (h, s, v, a) = Color { r: c[0], g: c[1], b: c[2], a: c[3] }.to_hsva();
                let b = Color::from_hsva(h, s, v, a);
                let q = |x: f32, m: f64| (x as f64 * m).round() as i64;
                json!({"h": q(h, 1e3), "s": q(s, 1e6), "v": q(v, 1e6), "a": q(a, 1e6), "back": [b.r, b.g, b.b, b.a]})
            }
            "tojson" => {
                let v = simple(&op["v"]);
                match json_of(&v) {
                    Err(e) => json!({"k": "err", "e": e}),
                    Ok(j) => { let b = SimpleValue::from_json(j.clone()); json!({"k": "ok", "j": encj(&j), "eq": b.as_ref().ok() == Some(&v)}) }
                }
            }
            "tonb" => {
                let v = simple(&op["v"]);
                let j = v.clone().into_netsblox_json();
                let s = j.to_string(); // as sent over the wire
                let b = SimpleValue::from_netsblox_json(serde_json::from_str(&s).unwrap());
                json!({"j": encj(&j), "eq": b.as_ref().ok() == Some(&v), "b": back(b.map_err(|e| format!("{e:?}")), None)})
            }
            "fromjson" => back(SimpleValue::from_json(doc(&op["j"])).map_err(|e| format!("{e:?}")), None),
            "fromnb" => {
                let d = doc(&op["j"]);
                let t = d.as_str().map(|x| x.to_owned());
                let r = SimpleValue::from_netsblox_json(d).map_err(|e| format!("{e:?}"));
                back(r, if op["j"]["t"] == "x" { t.as_deref() } else { None })
            }
            "parse" => match SimpleValue::parse_number(op["s"].as_str().unwrap()) { Some(n) => json!([encn(n.get())]), None => json!([]) },
            "graph" => graph(op),
            x => panic!("op {x}"),
        }
    }
}

pub fn run(case: &J) -> J {
    let kind = case["kind"].as_str().unwrap();
    let mut c: Box<dyn Comp> = match kind {
        "slot" => Box::new(Slot { m: SlotMap::new(), k: vec![], at: BTreeMap::new() }),
        "vec" => match (case["sorted"].as_bool().unwrap(), case["text"].as_bool().unwrap()) {
            (true, true) => Box::new(Vm::<CompactString, true>(VecMap::new())), (true, false) => Box::new(Vm::<i64, true>(VecMap::new())),
            (false, true) => Box::new(Vm::<CompactString, false>(VecMap::new())), (false, false) => Box::new(Vm::<i64, false>(VecMap::new())),
        },
        "one" => if case["shared"].as_bool().unwrap() { Box::new(Shared(vec![Some(AsyncKey::new())])) } else { Box::new(One(AsyncResult::new())) },
        "bar" => Box::new(Bar(vec![], vec![])),
        "idle" => { let n = Rc::new(Cell::new(0)); let k = n.clone(); Box::new(Idle(IdleAction::new(u(&case["thresh"]), Box::new(move || k.set(k.get() + 1))), n)) }
        "clock" => {
            let off = UtcOffset::from_whole_seconds(3600 * (i(&case["id"]) % 25 - 12) as i32).unwrap();
            let p = match i(&case["prec"]) { 0 => None, 1 => Some(Precision::Low), 2 => Some(Precision::Medium), _ => Some(Precision::High) };
            let a = OffsetDateTime::now_utc();
            let c = Clock::new(off, p);
            Box::new(Clk { c, off, born: (a, OffsetDateTime::now_utc()), reads: vec![], n: 0 })
        }
        "eval" => Box::new(Eval),
        x => panic!("kind {x}"),
    };
    let ops = case["ops"].as_array().unwrap();
    let obs = case["obs"].as_str().unwrap();
    let mut out = vec![];
    for (n, op) in ops.iter().enumerate() {
        let see = obs == "all" || (obs == "last" && n + 1 == ops.len());
        let r = catch_unwind(AssertUnwindSafe(|| { let r = c.apply(op); let x = if see { vec![c.obs()] } else { vec![] }; json!({"p": "", "r": r, "x": x}) }));
        match r {
            Ok(r) => if obs != "last" || see { out.push(r) },
            Err(e) => {
                out.push(json!({"p": format!("! {}", panic_text(&*e)), "r": [], "x": []}));
                if kind != "eval" { std::mem::forget(c); break }
            }
        }
    }
    json!({"id": case["id"], "p": "", "out": out})
}
