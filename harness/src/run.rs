//! Executes one case on the real VM under a scripted environment and records the observable trace.
use crate::ast::Ctx;
use netsblox_vm::bytecode::*;
use netsblox_vm::compact_str::*;
use netsblox_vm::gc::*;
use netsblox_vm::json::Json;
use netsblox_vm::process::*;
use netsblox_vm::project::*;
use netsblox_vm::real_time::time;
use netsblox_vm::runtime::*;
use netsblox_vm::vecmap::VecMap;
use rand::distr::uniform::{SampleRange, SampleUniform};
use rand::{Rng, RngCore};
use serde_json::{json, Value as J};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub struct Native;
impl std::fmt::Debug for Native { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Native") } }
impl GetType for Native { type Output = NativeTy; fn get_type(&self) -> NativeTy { NativeTy } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct NativeTy;
impl From<NativeTy> for Type<Cust, Sys> { fn from(x: NativeTy) -> Self { Type::Native(x) } }

thread_local! { static NEXT_ENT: Cell<usize> = const { Cell::new(1) }; }

pub struct EntState { pub id: usize, pub props: RefCell<Properties>, made: (&'static str, usize) }
impl<'gc, 'a> From<EntityKind<'gc, 'a, Cust, Sys>> for EntState {
    fn from(k: EntityKind<'gc, 'a, Cust, Sys>) -> Self {
        let id = NEXT_ENT.with(|x| x.replace(x.get() + 1));
        match k {
            EntityKind::Stage { props } => Self { id, props: RefCell::new(props), made: ("stage", 0) },
            EntityKind::Sprite { props } => Self { id, props: RefCell::new(props), made: ("sprite", 0) },
            EntityKind::Clone { parent } => Self { id, props: RefCell::new(parent.state.props.borrow().clone()), made: ("clone", parent.state.id) },
        }
    }
}
/// how many things this instance has printed; how many instances it descends from, what the last of those had printed by then, and its sprite
pub struct ProcState { log: usize, lin: usize, at: usize, born: usize }
impl<'gc, 'a> From<ProcessKind<'gc, 'a, Cust, Sys>> for ProcState {
    fn from(k: ProcessKind<'gc, 'a, Cust, Sys>) -> Self {
        let p = k.dispatcher.map(|p| &p.state);
        Self { log: 0, lin: p.map(|p| p.lin + 1).unwrap_or(0), at: p.map(|p| p.log).unwrap_or(0), born: k.entity.borrow().state.id }
    }
}
impl Unwindable for ProcState {
    type UnwindPoint = usize;
    fn get_unwind_point(&self) -> usize { self.log }
    fn unwind_to(&mut self, p: &usize) { self.log = *p; }
}
pub struct Cust;
impl CustomTypes<Sys> for Cust {
    type NativeValue = Native;
    type Intermediate = SimpleValue;
    type EntityState = EntState;
    type ProcessState = ProcState;
    fn from_intermediate<'gc>(mc: &Mutation<'gc>, v: SimpleValue) -> Value<'gc, Cust, Sys> { Value::from_simple(mc, v) }
}

type Res = Result<SimpleValue, CompactString>;
pub struct KeyOf<T> { polls: Rc<Cell<u64>>, slot: Rc<RefCell<AsyncResult<T>>> }
impl<T> KeyOf<T> {
    fn new() -> Self { Self { polls: Default::default(), slot: Rc::new(RefCell::new(AsyncResult::new())) } }
    fn dup(&self) -> Self { Self { polls: self.polls.clone(), slot: self.slot.clone() } }
    fn ready(&self) -> bool { match self.polls.get() { 0 => true, n => { self.polls.set(n - 1); false } } }
}
impl<T> Key<T> for KeyOf<T> { fn complete(self, v: T) { assert!(self.slot.borrow_mut().complete(v).is_ok(), "completed twice") } }

struct Scripted { ks: Vec<u64>, i: Rc<Cell<usize>> }
impl RngCore for Scripted {
    fn next_u32(&mut self) -> u32 { (self.pick() << 28) as u32 }
    fn next_u64(&mut self) -> u64 { self.pick() << 60 }
    fn fill_bytes(&mut self, dst: &mut [u8]) { let k = self.pick(); for x in dst.iter_mut() { *x = (k << 4) as u8 } }
}
impl Scripted {
    fn pick(&mut self) -> u64 {
        let i = self.i.get();
        self.i.set(i + 1);
        if self.ks.is_empty() { 0 } else { self.ks[i % self.ks.len()] & 15 }
    }
}

pub struct Sys {
    env: J,
    rand_i: Rc<Cell<usize>>,
    now: Cell<i64>,
    pub ev: RefCell<Vec<J>>,
    host_i: Cell<usize>,
    refused: RefCell<Option<Feature>>,
    reply_i: Cell<usize>,
    sent_i: Cell<usize>,
    pending: RefCell<BTreeMap<String, (Cell<u64>, Option<Option<Json>>)>>,
    msg: RefCell<Option<IncomingMessage>>,
    imgs: RefCell<BTreeMap<String, netsblox_vm::ast::Value>>,
}

pub fn encn(x: f64) -> J {
    for k in 0..=12 {
        let y = x * (1u64 << k) as f64;
        if y.fract() == 0.0 {
            if y.abs() < (1u64 << 29) as f64 { return json!({"t": "n", "n": y as i64, "k": k}) }
            break;
        }
    }
    let m = x * 1e4;
    if m.abs() < 2e9 { json!({"t": "u", "m": m.round() as i64, "o": 0}) } else {
        let mut r = json!({"t": "u", "m": 0, "o": if x > 0.0 { 1 } else { -1 }});
        if x.fract() == 0.0 && x.abs() > 1e9 && x.abs() < 9e15 { r["w"] = json!(format!("{}", x as i64)); } // all its digits
        r
    }
}
fn tree(v: &J) -> J { v.clone() }

#[derive(Default)]
pub struct Enc { ids: BTreeMap<usize, usize>, clos: BTreeMap<usize, usize> }
impl Enc {
    pub fn val<'gc>(&mut self, v: &Value<'gc, Cust, Sys>) -> J {
        match v {
            Value::Bool(b) => json!({"t": "b", "b": b}),
            Value::Number(n) => encn(n.get()),
            Value::Text(s) => json!({"t": "s", "s": s.as_str()}),
            Value::Image(i) => json!({"t": "i", "i": i.name.as_str(), "cx": i.center.map(|c| encn(c.0.get())).into_iter().chain(i.center.map(|c| encn(c.1.get()))).collect::<Vec<_>>()}),
            Value::Audio(a) => json!({"t": "au", "au": a.name.as_str()}),
            Value::Closure(c) => {
                let p = Gc::as_ptr(*c) as *const () as usize;
                let n = self.clos.len() + 1;
                let id = *self.clos.entry(p).or_insert(n);
                json!({"t": "c", "id": id})
            }
            Value::Entity(e) => json!({"t": "e", "e": e.borrow().state.id}),
            Value::Native(_) => json!({"t": "native"}),
            Value::List(l) => {
                let p = Gc::as_ptr(*l) as *const () as usize;
                if let Some(id) = self.ids.get(&p) { return json!({"t": "r", "r": id}) }
                let id = self.ids.len() + 1;
                self.ids.insert(p, id);
                let mut items = vec![];
                for x in l.borrow().iter() { items.push(self.val(x)); }
                json!({"t": "l", "e": items})
            }
        }
    }
}
fn one(v: &Value<'_, Cust, Sys>) -> J { Enc::default().val(v) }
pub fn encj(v: &Json) -> J {
    match v {
        Json::Null => json!({"t": "null"}),
        Json::Bool(b) => json!({"t": "b", "b": b}),
        Json::Number(n) => encn(n.as_f64().unwrap()),
        Json::String(s) => json!({"t": "s", "s": s}),
        Json::Array(x) => json!({"t": "l", "e": x.iter().map(encj).collect::<Vec<_>>()}),
        Json::Object(x) => json!({"t": "o", "e": x.iter().map(|(k, v)| json!([k, encj(v)])).collect::<Vec<_>>()}),
    }
}

impl Sys {
    fn simple(&self, v: &J) -> SimpleValue {
        match v["t"].as_str().unwrap() {
            "b" => SimpleValue::Bool(v["b"].as_bool().unwrap()),
            "n" | "u" => SimpleValue::Number(Number::new(crate::ast::num(v)).unwrap()),
            "s" => SimpleValue::Text(CompactString::new(v["s"].as_str().unwrap())),
            "lst" => SimpleValue::List(v["e"].as_array().unwrap().iter().map(|x| self.simple(x)).collect()),
            "i" => SimpleValue::Image(Image { content: v["i"].as_str().unwrap().as_bytes().to_vec(), center: v.get("cx").map(|c| (Number::new(crate::ast::num(c)).unwrap(), Number::new(crate::ast::num(&v["cy"])).unwrap())), name: CompactString::new(v["i"].as_str().unwrap()) }),
            "au" => SimpleValue::Audio(Audio { content: v["au"].as_str().unwrap().as_bytes().to_vec(), name: CompactString::new(v["au"].as_str().unwrap()) }),
            x => panic!("bad host value {x}"),
        }
    }
    /// the property a host keeps this one under (env.pmap)
    fn kept(&self, prop: Property) -> Property {
        let Some(x) = self.env["pmap"][format!("{prop:?}")].as_str() else { return prop };
        use Property::*;
        [XPos, YPos, Heading, Visible, Size, PenDown, PenSize, PenColor, PenColorH, PenColorS, PenColorV, PenColorT, Tempo, Volume, Balance, ColorH, ColorS, ColorV, ColorT, Fisheye, Whirl, Pixelate, Mosaic, Negative]
            .into_iter().find(|p| format!("{p:?}") == x).unwrap()
    }
    fn host(&self) -> J {
        let l = self.env["host"].as_array().unwrap();
        let i = self.host_i.get();
        self.host_i.set(i + 1);
        if l.is_empty() { json!({"p": 0, "r": "ok", "v": {"t": "n", "n": 0, "k": 0}}) } else { l[i % l.len()].clone() }
    }
    fn log(&self, x: J) { self.ev.borrow_mut().push(x) }
    /// the host's handlers (env.layers), each serving the kinds it lists, composed in the way env.fold tells; and the list of those consulted
    fn chain(&self) -> (Config<Cust, Sys>, Rc<RefCell<Vec<usize>>>) {
        let via = Rc::new(RefCell::new(vec![]));
        let mut layers: Vec<Config<Cust, Sys>> = self.env["layers"].as_array().into_iter().flatten().enumerate().map(|(n, l)| {
            let has = |k: &str| l[k].as_array().map(|x| x.iter().map(|x| x.as_str().unwrap().to_owned()).collect::<Vec<_>>());
            let (rv, cv) = (via.clone(), via.clone());
            Config {
                request: match has("req") { None => None, Some(ks) => Some(Rc::new(move |_: &_, key: KeyOf<Res>, request, proc: &mut _| {
                    rv.borrow_mut().push(n + 1);
                    if !ks.iter().any(|k| k == req_kind(&request)) { return RequestStatus::UseDefault { key, request } }
                    let sys = proc.global_context.borrow().system.clone();
                    sys.serve_request(key, request, proc, &rv.borrow());
                    RequestStatus::Handled
                })) },
                command: match has("cmd") { None => None, Some(ks) => Some(Rc::new(move |_: &_, key: KeyOf<Result<(), CompactString>>, command, proc: &mut _| {
                    cv.borrow_mut().push(n + 1);
                    if !ks.iter().any(|k| k == cmd_kind(&command)) { return CommandStatus::UseDefault { key, command } }
                    let sys = proc.global_context.borrow().system.clone();
                    sys.serve_command(key, command, proc, &cv.borrow());
                    CommandStatus::Handled
                })) },
            }
        }).collect();
        let left = self.env["fold"] == "left";
        while layers.len() > 1 {
            let i = if left { 0 } else { layers.len() - 2 };
            let b = layers.remove(i + 1);
            let a = layers.remove(i);
            layers.insert(i, a.fallback(&b));
        }
        (layers.pop().unwrap_or_default(), via)
    }
    fn serve_request<'gc>(&self, key: KeyOf<Res>, req: Request<'gc, Cust, Self>, proc: &mut Process<'gc, Cust, Self>, via: &[usize]) {
        let e = ent(proc);
        let (id, ul) = (e.borrow().state.id, proc.state.log);
        let mut en = Enc::default();
        let by = by(&self.env, proc);
        let log = |k: &str, s: Vec<J>, v: Vec<J>| self.log(json!({"e": "req", "k": k, "ent": id, "s": s, "v": v, "ul": ul, "by": by, "via": via}));
        match &req {
            Request::Input { prompt } => log("input", vec![], prompt.iter().map(|x| en.val(x)).collect()),
            Request::Syscall { name, args } => log("sys", vec![json!(name)], args.iter().map(|x| en.val(x)).collect()),
            Request::Rpc { host, service, rpc, args } => {
                let mut s = vec![json!(host.as_deref().unwrap_or("")), json!(service), json!(rpc)];
                s.extend(args.iter().map(|(k, _)| json!(k)));
                log("rpc", s, args.iter().map(|(_, v)| en.val(v)).collect())
            }
            Request::Property { prop } => log("prop", vec![json!(format!("{prop:?}"))], vec![]),
            Request::UnknownBlock { name, args } => log("unk", vec![json!(name)], args.iter().map(|x| en.val(x)).collect()),
        }
        if let (Request::Property { prop }, true) = (&req, self.env["store"].as_bool().unwrap()) {
            e.borrow().state.props.borrow().perform_get_property::<Cust, Sys>(key, self.kept(*prop));
            return;
        }
        let h = self.host();
        key.polls.set(h["p"].as_u64().unwrap());
        match h["r"].as_str().unwrap() {
            "ok" => key.complete(Ok(self.simple(&h["v"]))),
            "err" => key.complete(Err(CompactString::new(h["v"]["s"].as_str().unwrap()))),
            "ns" => *self.refused.borrow_mut() = Some(req.feature()),
            x => panic!("host {x}"),
        }
    }
    fn serve_command<'gc>(&self, key: KeyOf<Result<(), CompactString>>, cmd: Command<'gc, '_, Cust, Self>, proc: &mut Process<'gc, Cust, Self>, via: &[usize]) {
        let e = ent(proc);
        let id = e.borrow().state.id;
        let ul = proc.state.log;
        let mut en = Enc::default();
        let by = by(&self.env, proc);
        let log = |k: &str, s: Vec<J>, v: Vec<J>| self.log(json!({"e": "cmd", "k": k, "ent": id, "s": s, "v": v, "ul": ul, "by": by, "via": via}));
        let wait = |b: bool| json!(if b { "wait" } else { "" });
        let n = |x: &Number| encn(x.get());
        match &cmd {
            Command::Print { style, value } => { log("print", vec![json!(format!("{style:?}"))], value.iter().map(|x| en.val(x)).collect()); }
            Command::SetProperty { prop, value } => log("set", vec![json!(format!("{prop:?}"))], vec![en.val(value)]),
            Command::ChangeProperty { prop, delta } => log("change", vec![json!(format!("{prop:?}"))], vec![en.val(delta)]),
            Command::ClearEffects => log("cleareffects", vec![], vec![]),
            Command::ClearDrawings => log("cleardrawings", vec![], vec![]),
            Command::SetCostume => {
                let c = e.borrow().costume.clone();
                log("costume", vec![], vec![c.map(|c| one(&Value::Image(c))).unwrap_or(json!({"t": "s", "s": ""}))])
            }
            Command::PlaySound { sound, blocking } => log("sound", vec![wait(*blocking)], vec![json!({"t": "au", "au": sound.name.as_str()})]),
            Command::PlayNotes { notes, beats, blocking } => {
                let mut v: Vec<J> = notes.iter().map(|x| encn(x.get_midi().0 as f64)).collect();
                v.push(n(beats));
                log("notes", vec![wait(*blocking)], v)
            }
            Command::StopSounds => log("stopsounds", vec![], vec![]),
            Command::GotoXY { x, y } => log("goto", vec![], vec![n(x), n(y)]),
            Command::GotoEntity { target } => log("gotoent", vec![], vec![json!({"t": "e", "e": target.state.id})]),
            Command::PointTowardsXY { x, y } => log("point", vec![], vec![n(x), n(y)]),
            Command::PointTowardsEntity { target } => log("pointent", vec![], vec![json!({"t": "e", "e": target.state.id})]),
            Command::Forward { distance } => log("forward", vec![], vec![n(distance)]),
        }
        if let Command::Print { .. } = &cmd { proc.state.log += 1; }
        if self.env["store"].as_bool().unwrap() {
            let eb = e.borrow();
            let p = &eb.state.props;
            match cmd {
                Command::SetProperty { prop, value } => { p.borrow_mut().perform_set_property::<Cust, Sys>(key, self.kept(prop), value); return }
                Command::ChangeProperty { prop, delta } => { p.borrow_mut().perform_change_property::<Cust, Sys>(key, self.kept(prop), delta); return }
                Command::ClearEffects => { p.borrow_mut().perform_clear_effects::<Cust, Sys>(key); return }
                Command::GotoXY { x, y } => { p.borrow_mut().perform_goto_xy::<Cust, Sys>(key, x, y); return }
                Command::GotoEntity { target } => { let (x, y) = target.state.props.borrow().pos; p.borrow_mut().perform_goto_xy::<Cust, Sys>(key, x, y); return }
                Command::PointTowardsXY { x, y } => { p.borrow_mut().perform_point_towards_xy::<Cust, Sys>(key, x, y); return }
                Command::PointTowardsEntity { target } => { let (x, y) = target.state.props.borrow().pos; p.borrow_mut().perform_point_towards_xy::<Cust, Sys>(key, x, y); return }
                Command::Forward { distance } => { p.borrow_mut().perform_forward::<Cust, Sys>(key, distance); return }
                _ => (),
            }
            return self.finish(key, None);
        }
        let f = cmd.feature();
        self.finish(key, Some(f))
    }
}
fn req_kind(x: &Request<'_, Cust, Sys>) -> &'static str {
    match x { Request::Input { .. } => "input", Request::Syscall { .. } => "sys", Request::Rpc { .. } => "rpc", Request::Property { .. } => "prop", Request::UnknownBlock { .. } => "unk" }
}
fn cmd_kind(x: &Command<'_, '_, Cust, Sys>) -> &'static str {
    match x {
        Command::Print { .. } => "print", Command::SetProperty { .. } => "set", Command::ChangeProperty { .. } => "change", Command::ClearEffects => "cleareffects", Command::ClearDrawings => "cleardrawings",
        Command::SetCostume => "costume", Command::PlaySound { .. } => "sound", Command::PlayNotes { .. } => "notes", Command::StopSounds => "stopsounds", Command::GotoXY { .. } => "goto", Command::GotoEntity { .. } => "gotoent",
        Command::PointTowardsXY { .. } => "point", Command::PointTowardsEntity { .. } => "pointent", Command::Forward { .. } => "forward",
    }
}
fn by(env: &J, proc: &Process<'_, Cust, Sys>) -> J {
    if env["line"] != true { return json!([]) }
    let e = ent(proc);
    let e = e.borrow();
    json!([proc.state.lin, proc.state.at, proc.state.born, e.state.made.0, e.state.made.1])
}
fn ent<'gc>(proc: &Process<'gc, Cust, Sys>) -> Gc<'gc, RefLock<Entity<'gc, Cust, Sys>>> { proc.get_call_stack().last().unwrap().entity }

impl System<Cust> for Sys {
    type RequestKey = KeyOf<Res>;
    type CommandKey = KeyOf<Result<(), CompactString>>;

    fn rand<T: SampleUniform, R: SampleRange<T>>(&self, range: R) -> T {
        let ks = self.env["rand"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        Scripted { ks, i: self.rand_i.clone() }.random_range(range)
    }
    fn time(&self, _: Precision) -> SysTime {
        match self.env["timemode"].as_str().unwrap() {
            "none" => SysTime::Timeless,
            "arb" => SysTime::Arbitrary { ms: self.now.get() as u64 },
            "big" => SysTime::Arbitrary { ms: (u64::MAX - (1 << 40)) + self.now.get() as u64 },
            "real" => SysTime::Real { local: real(&self.env, self.now.get()) },
            x => panic!("timemode {x}"),
        }
    }
    fn perform_request<'gc>(&self, mc: &Mutation<'gc>, req: Request<'gc, Cust, Self>, proc: &mut Process<'gc, Cust, Self>) -> Result<Self::RequestKey, ErrorCause<Cust, Self>> {
        let (config, via) = self.chain();
        let key = KeyOf::new();
        let left = match config.request {
            Some(f) => match f(mc, key.dup(), req, proc) { RequestStatus::Handled => None, RequestStatus::UseDefault { key, request } => Some((key, request)) },
            None => Some((key.dup(), req)),
        };
        if let Some((key, req)) = left {
            via.borrow_mut().push(0);
            self.serve_request(key, req, proc, &via.borrow());
        }
        match self.refused.take() { Some(feature) => Err(ErrorCause::NotSupported { feature }), None => Ok(key) }
    }
    fn poll_request<'gc>(&self, mc: &Mutation<'gc>, key: &Self::RequestKey, _proc: &mut Process<'gc, Cust, Self>) -> Result<AsyncResult<Result<Value<'gc, Cust, Self>, CompactString>>, ErrorCause<Cust, Self>> {
        if !key.ready() { return Ok(AsyncResult::Pending) }
        Ok(match key.slot.borrow_mut().poll() {
            AsyncResult::Pending => AsyncResult::Pending,
            AsyncResult::Completed(x) => AsyncResult::Completed(x.map(|x| Value::from_simple(mc, x))),
            AsyncResult::Consumed => AsyncResult::Consumed,
        })
    }
    fn perform_command<'gc>(&self, mc: &Mutation<'gc>, cmd: Command<'gc, '_, Cust, Self>, proc: &mut Process<'gc, Cust, Self>) -> Result<Self::CommandKey, ErrorCause<Cust, Self>> {
        let (config, via) = self.chain();
        let key = KeyOf::new();
        let left = match config.command {
            Some(f) => match f(mc, key.dup(), cmd, proc) { CommandStatus::Handled => None, CommandStatus::UseDefault { key, command } => Some((key, command)) },
            None => Some((key.dup(), cmd)),
        };
        if let Some((key, cmd)) = left {
            via.borrow_mut().push(0);
            self.serve_command(key, cmd, proc, &via.borrow());
        }
        match self.refused.take() { Some(feature) => Err(ErrorCause::NotSupported { feature }), None => Ok(key) }
    }
    fn poll_command<'gc>(&self, _mc: &Mutation<'gc>, key: &Self::CommandKey, _proc: &mut Process<'gc, Cust, Self>) -> Result<AsyncResult<Result<(), CompactString>>, ErrorCause<Cust, Self>> {
        if !key.ready() { return Ok(AsyncResult::Pending) }
        Ok(key.slot.borrow_mut().poll())
    }
    fn send_message(&self, msg_type: CompactString, values: VecMap<CompactString, Json, false>, targets: Vec<CompactString>, expect_reply: bool) -> Result<Option<ExternReplyKey>, ErrorCause<Cust, Self>> {
        self.log(json!({"e": "msg", "k": msg_type, "names": values.iter().map(|(k, _)| k.to_string()).collect::<Vec<_>>(),
            "v": values.iter().map(|(_, v)| encj(v)).collect::<Vec<_>>(), "s": targets, "reply": expect_reply}));
        if !expect_reply { return Ok(None) }
        let l = self.env["replies"].as_array().unwrap();
        let i = self.reply_i.get();
        self.reply_i.set(i + 1);
        let r = if l.is_empty() { json!({"p": 0, "r": "none"}) } else { l[i % l.len()].clone() };
        let id = format!("k{}", self.sent_i.get());
        self.sent_i.set(self.sent_i.get() + 1);
        let val = match r["r"].as_str().unwrap() { "none" => None, "val" => Some(simple_json(&r["v"])), x => panic!("{x}") };
        self.pending.borrow_mut().insert(id.clone(), (Cell::new(r["p"].as_u64().unwrap()), Some(val)));
        Ok(Some(ExternReplyKey { request_id: id.as_str().into() }))
    }
    fn poll_reply(&self, key: &ExternReplyKey) -> AsyncResult<Option<Json>> {
        let mut p = self.pending.borrow_mut();
        let x = p.get_mut(key.request_id.as_str()).unwrap();
        if x.0.get() > 0 { x.0.set(x.0.get() - 1); return AsyncResult::Pending }
        match x.1.take() { Some(v) => AsyncResult::Completed(v), None => AsyncResult::Consumed }
    }
    fn send_reply(&self, key: InternReplyKey, value: Json) -> Result<(), ErrorCause<Cust, Self>> {
        self.log(json!({"e": "rep", "k": format!("{}/{}", key.src_id, key.request_id), "v": [encj(&value)]}));
        Ok(())
    }
    fn receive_message(&self) -> Option<IncomingMessage> { self.msg.borrow_mut().take() }
}
/// case literal -> raw wire JSON
fn simple_json(v: &J) -> Json {
    match v["t"].as_str().unwrap() {
        "b" => json!(v["b"]),
        "n" | "u" => { let x = crate::ast::num(v); if x.fract() == 0.0 { json!(x as i64) } else { json!(x) } }
        "s" => json!(v["s"]),
        "lst" => Json::Array(v["e"].as_array().unwrap().iter().map(simple_json).collect()),
        x => panic!("bad wire value {x}"),
    }
}
impl Sys {
    fn finish(&self, key: KeyOf<Result<(), CompactString>>, f: Option<Feature>) {
        let h = self.host();
        key.polls.set(h["p"].as_u64().unwrap());
        match (h["r"].as_str().unwrap(), f) {
            ("err", _) => key.complete(Err(CompactString::new(h["v"]["s"].as_str().unwrap()))),
            ("ns", Some(feature)) => *self.refused.borrow_mut() = Some(feature),
            _ => key.complete(Ok(())),
        }
    }
}
fn real(env: &J, t: i64) -> time::OffsetDateTime {
    let b = &env["base"];
    let i = |k: usize| b[k].as_i64().unwrap();
    let d = time::Date::from_calendar_date(i(0) as i32, time::Month::try_from(i(1) as u8).unwrap(), i(2) as u8).unwrap();
    let tm = time::Time::from_hms(i(3) as u8, i(4) as u8, i(5) as u8).unwrap();
    let off = time::UtcOffset::from_whole_seconds(i(6) as i32 * 60).unwrap();
    time::PrimitiveDateTime::new(d, tm).assume_offset(off) + time::Duration::milliseconds(t)
}

#[derive(Collect)]
#[collect(no_drop)]
pub struct Env<'gc> { proj: Gc<'gc, RefLock<Project<'gc, Cust, Sys>>> }
impl<'gc> Env<'gc> { pub fn proj(&self) -> Gc<'gc, RefLock<Project<'gc, Cust, Sys>>> { self.proj } }
pub type Ar = Arena<Rootable![Env<'_>]>;
fn system(env: &J) -> Rc<Sys> {
    Rc::new(Sys {
        env: env.clone(), rand_i: Default::default(), now: Cell::new(env["t0"].as_i64().unwrap()), ev: Default::default(), host_i: Cell::new(0), refused: Default::default(), reply_i: Cell::new(0), sent_i: Cell::new(0),
        pending: Default::default(), msg: Default::default(), imgs: Default::default(),
    })
}
/// a project ready to run
pub fn open(case: &J) -> (Ar, Rc<Sys>) {
    let mut ctx = Ctx { nodes: case["nodes"].as_array().unwrap(), imgs: Default::default(), locals: false };
    let role = ctx.role(&case["role"]);
    let (code, init, _, _) = ByteCode::compile(&role).unwrap();
    let sys = system(&case["env"]);
    let (code, s) = (Rc::new(code), sys.clone());
    (Ar::new(|mc| Env { proj: Gc::new(mc, RefLock::new(Project::from_init(mc, &init, code, Settings { max_call_depth: 30, rpc_error_scheme: ErrorScheme::Hard, syscall_error_scheme: ErrorScheme::Hard }, s))) }), sys)
}

fn key(s: &str) -> KeyCode {
    match s {
        "up arrow" => KeyCode::Up, "down arrow" => KeyCode::Down, "left arrow" => KeyCode::Left, "right arrow" => KeyCode::Right, "enter" => KeyCode::Enter,
        "space" => KeyCode::Char(' '),
        x => KeyCode::Char(x.chars().next().unwrap()),
    }
}

fn snapshot<'gc>(proj: &Project<'gc, Cust, Sys>) -> J {
    let gc = proj.get_global_context();
    let gc = gc.borrow();
    let mut en = Enc::default();
    let globals: Vec<J> = gc.globals.iter().map(|(k, v)| json!([k, en.val(&v.get())])).collect();
    let ents: Vec<J> = gc.entities.iter().map(|(k, e)| {
        let e = e.borrow();
        let p = e.state.props.borrow().clone();
        json!({"name": k.as_str(), "id": e.state.id,
            "fields": e.fields.iter().map(|(k, v)| json!([k, en.val(&v.get())])).collect::<Vec<_>>(),
            "costume": e.costume.clone().map(|c| en.val(&Value::Image(c))).unwrap_or(json!({"t": "s", "s": ""})),
            "costumes": e.costume_list.iter().map(|(k, v)| json!([k, en.val(&Value::Image(v.clone()))])).collect::<Vec<_>>(),
            "sounds": e.sound_list.iter().map(|(k, v)| json!([k, {"t": "au", "au": v.name.as_str()}])).collect::<Vec<_>>(),
            "props": [encn(p.pos.0.get()), encn(p.pos.1.get()), encn(p.heading.get()), json!({"t": "b", "b": p.visible}), encn(p.size.get()), json!({"t": "b", "b": p.pen_down}), encn(p.pen_size.get()),
                encn(p.pen_color_h.get()), encn(p.pen_color_s.get()), encn(p.pen_color_v.get()), encn(p.pen_color_t.get()), encn(p.tempo.get()), encn(p.volume.get()), encn(p.balance.get()),
                encn(p.effects.color_h.get()), encn(p.effects.color_s.get()), encn(p.effects.color_v.get()), encn(p.effects.color_t.get()),
                encn(p.effects.fisheye.get()), encn(p.effects.whirl.get()), encn(p.effects.pixelate.get()), encn(p.effects.mosaic.get()), encn(p.effects.negative.get())],
        })
    }).collect();
    json!({"globals": globals, "ents": ents})
}

fn event(hat: &J) -> Event {
    let s: Vec<&str> = hat.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    let fields = |s: &[&str]| s.iter().map(|x| CompactString::new(x)).collect();
    match s[0] {
        "flag" => Event::OnFlag,
        "clone" => Event::OnClone,
        "key" => Event::OnKey { key_filter: if s[1] == "any key" { None } else { Some(key(&if s[1].len() == 1 { s[1].to_ascii_lowercase() } else { s[1].to_string() })) } },
        "msg" => Event::LocalMessage { msg_type: Some(CompactString::new(s[1])) },
        "anymsg" => Event::LocalMessage { msg_type: None },
        "net" => Event::NetworkMessage { msg_type: CompactString::new(s[1]), fields: fields(&s[2..]) },
        "ev" => Event::Custom { name: CompactString::new(s[1]), fields: fields(&s[2..]) },
        x => panic!("event {x}"),
    }
}

pub fn run_case(case: &J) -> J {
    NEXT_ENT.with(|x| x.set(1));
    let id = case["id"].clone();
    let env = &case["env"];
    let nodes = case["nodes"].as_array().unwrap();
    let mut ctx = Ctx { nodes, imgs: Default::default(), locals: false };
    let role = ctx.role(&case["role"]);
    let compiled = catch_unwind(AssertUnwindSafe(|| ByteCode::compile(&role)));
    let (code, init, locs, info) = match compiled {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => { let s = format!("{e:?}"); return json!({"id": id, "compile": s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or(""), "msg": s, "turns": []}) }
        Err(e) => return json!({"id": id, "compile": "panic", "msg": panic_text(&*e), "turns": []}),
    };
    let (code, init, locs) = if env["serde"] != 0 {
        let bin = env["serde"] == 2;
        let c: ByteCode = rt(&code, bin);
        let i: InitInfo = rt(&init, bin);
        let l: Locations = rt(&locs, bin);
        (c, i, l)
    } else { (code, init, locs) };

    let scheme = |k: &str| if env[k].as_bool().unwrap() { ErrorScheme::Soft } else { ErrorScheme::Hard };
    let settings = Settings { max_call_depth: env["maxdepth"].as_u64().unwrap() as usize, rpc_error_scheme: scheme("rpcsoft"), syscall_error_scheme: scheme("sysoft") };
    let turns = env["turns"].as_array().unwrap();
    let sys = system(env);
    let _ = &sys.imgs;
    let mut out = vec![];
    let code = Rc::new(code);
    // "dyn": the host makes the project from its global context, and adds the scripts itself
    let dynamic = env["dyn"].as_bool().unwrap_or(false);
    let arena = catch_unwind(AssertUnwindSafe(|| Ar::new(|mc| {
        if !dynamic { return Env { proj: Gc::new(mc, RefLock::new(Project::from_init(mc, &init, code.clone(), settings, sys.clone()))) } }
        let gc = Gc::new(mc, RefLock::new(GlobalContext::from_init(mc, &init, code.clone(), settings, sys.clone())));
        let mut proj = Project::new(gc);
        for (e, (ent, x)) in case["role"]["entities"].as_array().unwrap().iter().zip(&info.entities) {
            for (s, (_, pos)) in e["scripts"].as_array().unwrap().iter().zip(&x.scripts) {
                if s["hat"][0] != "none" { let to = *gc.borrow().entities.get(ent.name.as_str()).unwrap(); proj.add_script(*pos, to, event(&s["hat"])) }
            }
        }
        Env { proj: Gc::new(mc, RefLock::new(proj)) }
    })));
    let mut arena = match arena { Ok(x) => x, Err(e) => return json!({"id": id, "compile": "initpanic", "msg": panic_text(&*e), "turns": []}) };
    let init_snap = match env["snap0"].as_bool().unwrap() { true => vec![arena.mutate(|_, e| snapshot(&*e.proj.borrow()))], false => vec![] };
    let cap = env["cap"].as_u64().unwrap();
    let gcmode = env["gc"].as_u64().unwrap();

    'turns: for turn in turns {
        sys.now.set(turn["t"].as_i64().unwrap());
        for inp in turn["in"].as_array().unwrap() {
            let r = catch_unwind(AssertUnwindSafe(|| arena.mutate(|mc, e| {
                let mut proj = e.proj.borrow_mut(mc);
                match inp["k"].as_str().unwrap() {
                    "start" => proj.input(mc, Input::Start),
                    "stop" => proj.input(mc, Input::Stop),
                    "key" => proj.input(mc, Input::KeyDown { key: key(inp["key"].as_str().unwrap()) }),
                    "keyup" => proj.input(mc, Input::KeyUp { key: key(inp["key"].as_str().unwrap()) }),
                    "add" => {
                        let (e, i) = (inp["e"].as_u64().unwrap() as usize, inp["i"].as_u64().unwrap() as usize - 1);
                        let pos = match (inp["fn"].as_bool().unwrap(), e) {
                            (true, 0) => info.funcs[i].1,
                            (true, e) => info.entities[e - 1].1.funcs[i].1,
                            (false, e) => info.entities[e - 1].1.scripts[i].1,
                        };
                        let gc = proj.get_global_context();
                        let to = *gc.borrow().entities.get(info.entities[inp["to"].as_u64().unwrap() as usize - 1].0.name.as_str()).unwrap();
                        proj.add_script(pos, to, event(&inp["hat"]))
                    }
                    "ev" => {
                        let args = inp["args"].as_array().unwrap().iter().map(|x| (CompactString::new(x[0].as_str().unwrap()), sys.simple(&x[1]))).collect();
                        let mq = inp["mq"].as_i64().unwrap();
                        proj.input(mc, Input::CustomEvent { name: CompactString::new(inp["name"].as_str().unwrap()), args, interrupt: inp["int"].as_bool().unwrap(), max_queue: if mq < 0 { usize::MAX } else { mq as usize } })
                    }
                    x => panic!("input {x}"),
                }
            })));
            if let Err(e) = r { out.push(json!({"kind": "Panic", "msg": panic_text(&*e), "ev": [], "src": "input"})); std::mem::forget(arena); return json!({"id": id, "compile": "ok", "snap0": init_snap, "turns": out}) }
        }
        if let Some(m) = turn["msg"].as_array().unwrap().first() {
            let values = m["vals"].as_array().unwrap().iter().map(|x| (CompactString::new(x[0].as_str().unwrap()), sys.simple(&x[1]))).collect();
            let rk = m["rk"].as_str().unwrap();
            let reply_key = if rk.is_empty() { None } else { let (a, b) = rk.split_once('/').unwrap(); Some(InternReplyKey { src_id: a.into(), request_id: b.into() }) };
            *sys.msg.borrow_mut() = Some(IncomingMessage { msg_type: CompactString::new(m["type"].as_str().unwrap()), values, reply_key });
        }
        let mut steps = 0u64;
        let res = loop {
            let r = catch_unwind(AssertUnwindSafe(|| arena.mutate(|mc, e| {
                let mut proj = e.proj.borrow_mut(mc);
                let r = proj.step(mc);
                Some(match r {
                    ProjectStep::Normal => return None,
                    ProjectStep::Idle => json!({"kind": "Idle"}),
                    ProjectStep::Yield => json!({"kind": "Yield"}),
                    ProjectStep::Pause => json!({"kind": "Pause"}),
                    ProjectStep::ProcessTerminated { result, proc } => json!({"kind": "Term", "v": [one(&result)], "ul": proc.state.log, "ent": proc.get_call_stack().last().unwrap().entity.borrow().state.id}),
                    ProjectStep::Watcher { create, watcher } => json!({"kind": "Watch", "create": create, "name": watcher.name.as_str(),
                        "ent": watcher.entity.upgrade(mc).map(|x| x.borrow().state.id).unwrap_or(0), "v": watcher.value.upgrade(mc).map(|x| one(&x.borrow())).into_iter().collect::<Vec<_>>()}),
                    ProjectStep::Error { error, proc } => {
                        let l = |p: usize| locs.lookup(p).map(|x| x.to_string()).unwrap_or_default();
                        let stk = proc.get_call_stack();
                        let frames: Vec<J> = stk.iter().enumerate().map(|(i, f)| {
                            let mut en = Enc::default();
                            json!({"from": if i == 0 { String::new() } else { l(f.called_from) }, "ent": f.entity.borrow().state.id,
                                "loc": f.locals.iter().map(|(k, v)| json!([k, en.val(&v.get())])).collect::<Vec<_>>()})
                        }).collect();
                        let s = ErrorSummary::extract(&error, &proc, &locs);
                        let ve = |x: &[VarEntry]| x.iter().map(|x| json!([x.name, x.value])).collect::<Vec<_>>();
                        json!({"kind": "Err", "cause": match &error.cause { ErrorCause::Custom { msg } => format!("Custom:{msg}"), x => format!("{x:?}") }, "l": l(error.pos), "frames": frames, "ul": proc.state.log,
                            "sum": {"cause": s.cause, "entity": s.entity, "globals": ve(&s.globals), "fields": ve(&s.fields), "trace": s.trace.iter().map(|t| json!({"l": t.location, "locals": ve(&t.locals)})).collect::<Vec<_>>()}})
                    }
                })
            })));
            match r {
                Err(e) => { std::mem::forget(arena); let msg = panic_text(&*e); out.push(json!({"kind": "Panic", "msg": msg, "ev": sys.ev.take()})); break 'turns }
                Ok(Some(x)) => break x,
                Ok(None) => (),
            }
            steps += 1;
            if gcmode == 3 && steps % 7 == 0 { arena.collect_all(); arena.collect_all(); }
            if steps >= cap { break json!({"kind": "Cut"}) }
        };
        let mut res = res;
        res["ev"] = J::Array(sys.ev.take());
        res["snap"] = match turn["sn"].as_bool().unwrap_or(false) { true => json!([arena.mutate(|_, e| snapshot(&*e.proj.borrow()))]), false => json!([]) };
        let cut = res["kind"] == "Cut";
        out.push(tree(&res));
        if cut { break }
        match gcmode { 0 => (), 1 => arena.collect_debt(), _ => { arena.collect_all(); arena.collect_all(); } }
    }
    json!({"id": id, "compile": "ok", "snap0": init_snap, "turns": out})
}
pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()
}
fn rt<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T, bin: bool) -> T {
    if bin { return bincode::deserialize(&bincode::serialize(x).unwrap()).unwrap() }
    let s = serde_json::to_string(x).unwrap();
    serde_json::from_str(&s).unwrap()
}
