//! Case JSON -> netsblox_ast::Role. The program is a flat table of nodes shared verbatim with the TLA+ specification.
use netsblox_vm::ast::{self, *};
use netsblox_vm::compact_str::CompactString;
use serde_json::Value as J;
use std::collections::BTreeMap;
use std::rc::Rc;

pub struct Ctx<'a> { pub nodes: &'a [J], pub imgs: BTreeMap<String, Value>, pub locals: bool }

fn cs(x: &str) -> CompactString { CompactString::new(x) }
fn vref(n: &str) -> VariableRef { VariableRef { name: cs(n), trans_name: cs(n), location: VarLocation::Local } }
fn vdef(n: &str) -> VariableDef { VariableDef { name: cs(n), trans_name: cs(n) } }

pub fn num(v: &J) -> f64 {
    if let Some(f) = v.get("f") { return f.as_str().unwrap().parse().unwrap() }
    v["n"].as_i64().unwrap() as f64 / (2f64).powi(v["k"].as_i64().unwrap() as i32)
}

impl<'a> Ctx<'a> {
    /// literal / initial values
    pub fn value(&mut self, v: &J) -> Value {
        match v["t"].as_str().unwrap() {
            "b" => Value::Bool(v["b"].as_bool().unwrap()),
            "n" | "u" => Value::Number(num(v)),
            "pi" => Value::Constant(Constant::Pi),
            "euler" => Value::Constant(Constant::E),
            "s" => Value::String(cs(v["s"].as_str().unwrap())),
            "i" => self.imgs.entry(format!("i:{}", v["i"].as_str().unwrap())).or_insert_with(|| {
                let n = v["i"].as_str().unwrap();
                let center = v.get("cx").map(|x| (num(x), num(&v["cy"])));
                Value::Image(Rc::new((n.as_bytes().to_vec(), center, cs(n))))
            }).clone(),
            "au" => self.imgs.entry(format!("a:{}", v["au"].as_str().unwrap())).or_insert_with(|| {
                let n = v["au"].as_str().unwrap();
                Value::Audio(Rc::new((n.as_bytes().to_vec(), cs(n))))
            }).clone(),
            "lst" => Value::List(v["e"].as_array().unwrap().iter().map(|x| self.value(x)).collect(), v.get("id").and_then(|x| x.as_u64()).map(|x| RefId(x as usize))),
            "ref" => Value::Ref(RefId(v["id"].as_u64().unwrap() as usize)),
            x => panic!("bad literal {x}"),
        }
    }
    fn info(&self, n: &J) -> Box<BlockInfo> {
        Box::new(BlockInfo { comment: None, location: n["l"].as_str().filter(|x| !x.is_empty()).map(cs) })
    }
    fn strs(&self, n: &J) -> Vec<String> { n["s"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() }
    fn args(&self, n: &J) -> Vec<usize> { n["a"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect() }

    pub fn stmts(&mut self, id: usize) -> Vec<Stmt> {
        let n = &self.nodes[id - 1];
        assert_eq!(n["o"], "block");
        self.args(n).into_iter().map(|x| self.stmt(x)).collect()
    }
    fn effect(s: &str) -> EffectKind {
        match s {
            "color" => EffectKind::Color, "saturation" => EffectKind::Saturation, "brightness" => EffectKind::Brightness, "ghost" => EffectKind::Ghost,
            "fisheye" => EffectKind::Fisheye, "whirl" => EffectKind::Whirl, "pixelate" => EffectKind::Pixelate, "mosaic" => EffectKind::Mosaic, "negative" => EffectKind::Negative,
            _ => panic!("effect {s}"),
        }
    }
    fn penattr(s: &str) -> PenAttribute {
        match s {
            "size" => PenAttribute::Size, "hue" => PenAttribute::Hue, "saturation" => PenAttribute::Saturation,
            "brightness" => PenAttribute::Brightness, "transparency" => PenAttribute::Transparency,
            _ => panic!("penattr {s}"),
        }
    }
    fn b(&mut self, id: usize) -> Box<Expr> { Box::new(self.expr(id)) }
    fn es(&mut self, ids: &[usize]) -> Vec<Expr> { ids.iter().map(|&x| self.expr(x)).collect() }
    fn named(&mut self, names: &[String], ids: &[usize]) -> Vec<(CompactString, Expr)> {
        assert_eq!(names.len(), ids.len());
        names.iter().zip(ids).map(|(n, &x)| (cs(n), self.expr(x))).collect()
    }
    fn rgba(n: &J) -> (u8, u8, u8, u8) {
        let c: Vec<u8> = n["v"]["c"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        (c[0], c[1], c[2], c[3])
    }

    pub fn expr(&mut self, id: usize) -> Expr {
        let n = &self.nodes[id - 1];
        let (o, a, s) = (n["o"].as_str().unwrap(), self.args(n), self.strs(n));
        macro_rules! e { ($($v:ident $name:literal $($f:ident)*);* $(;)?) => { match o {
            $($name => { let mut _i = 0usize; Some(ExprKind::$v { $($f: { _i += 1; self.b(a[_i - 1]) }),* }) })*
            _ => None,
        } } }
        // operands are listed in evaluation order
        let simple = e!(
            Atan2 "atan2" y x; Sub "sub" left right; Div "div" left right; Pow "pow" base power; Mod "mod" left right; Log "log" base value;
            Neg "neg" value; Abs "abs" value; Sqrt "sqrt" value; Sin "sin" value; Cos "cos" value; Tan "tan" value;
            Asin "asin" value; Acos "acos" value; Atan "atan" value; Round "round" value; Floor "floor" value; Ceil "ceil" value; Not "not" value;
            StrLen "strlen" value; UnicodeToChar "tochar" value; CharToUnicode "tocode" value;
            Greater "gt" left right; GreaterEq "ge" left right; Less "lt" left right; LessEq "le" left right; Eq "eq" left right; Neq "ne" left right;
            Identical "same" left right;
            ListGet "listget" index list; ListGetLast "listgetlast" list; ListGetRandom "listgetrandom" list; ListLen "listlen" value; ListDims "listdims" value;
            ListRank "listrank" value; ListRev "listrev" value; ListFlatten "listflatten" value; ListIsEmpty "listisempty" value; ListCons "listcons" item list;
            ListCdr "listcdr" value; ListFind "listfind" value list; ListContains "listcontains" list value; Range "range" start stop; Random "random" a b;
            ListColumns "listcolumns" value; ListLines "listlines" value; ListJson "listjson" value; ListCsv "listcsv" value;
            StrGet "strget" index string; StrGetLast "strgetlast" string; StrGetRandom "strgetrandom" string;
            Clone "clone" target; CostumeName "costumename" costume; SoundName "soundname" sound;
            Add "add" values; Mul "mul" values; Min "min" values; Max "max" values; StrCat "strcat" values; ListCat "listcat" lists; CopyList "copylist" list;
            ListReshape "reshape" value dims; ListCombinations "combinations" sources;
            Conditional "ifexpr" condition then otherwise; Or "or" left right; And "and" left right;
            Map "map" f list; Keep "keep" f list; FindFirst "findfirst" f list; Combine "combine" list f;
            ImageOfEntity "x_imageof" entity; Sign "x_sign" value; KeyDown "x_keydown" key;
        );
        let kind = match simple {
            Some(x) => x,
            None => match o {
                "lit" => ExprKind::Value(self.value(&n["v"])),
                "var" => ExprKind::Variable { var: vref(&s[0]) },
                "list" => ExprKind::MakeList { values: self.es(&a) },
                "this" => ExprKind::This,
                "heading" => ExprKind::Heading, "xpos" => ExprKind::XPos, "ypos" => ExprKind::YPos, "pendown" => ExprKind::PenDown,
                "size" => ExprKind::Size, "visible" => ExprKind::IsVisible,
                "effect" => ExprKind::Effect { kind: Self::effect(&s[0]) },
                "penattr" => ExprKind::PenAttr { attr: Self::penattr(&s[0]) },
                "rpcerror" => ExprKind::RpcError, "answer" => ExprKind::Answer, "message" => ExprKind::Message, "timer" => ExprKind::Timer,
                "realtime" => ExprKind::RealTime { query: match s[0].as_str() {
                    "year" => TimeQuery::Year, "month" => TimeQuery::Month, "date" => TimeQuery::Date, "dow" => TimeQuery::DayOfWeek,
                    "hour" => TimeQuery::Hour, "minute" => TimeQuery::Minute, "second" => TimeQuery::Second, "unix" => TimeQuery::UnixTimestampMs, x => panic!("{x}") } },
                "costume" => ExprKind::Costume, "costumenumber" => ExprKind::CostumeNumber, "costumelist" => ExprKind::CostumeList, "soundlist" => ExprKind::SoundList,
                "entity" => ExprKind::Entity { name: cs(&s[0]), trans_name: cs(&s[0]) },
                "callsys" => ExprKind::UnknownBlock { name: cs("nativeCallSyscall"), args: self.es(&a) },
                "syserror" => ExprKind::UnknownBlock { name: cs("nativeSyscallError"), args: vec![] },
                "unknown" => ExprKind::UnknownBlock { name: cs(&s[0]), args: self.es(&a) },
                "typeis" => ExprKind::TypeQuery { value: self.b(a[0]), ty: match s[0].as_str() {
                    "Number" => ValueType::Number, "Text" => ValueType::Text, "Bool" => ValueType::Bool, "List" => ValueType::List, "Entity" => ValueType::Sprite,
                    "Image" => ValueType::Costume, "Audio" => ValueType::Sound, "Command" => ValueType::Command, x => panic!("{x}") } },
                "callfn" => { let (f, u) = (s[0].clone(), s[1..].to_vec());
                    ExprKind::CallFn { function: FnRef { name: cs(&f), trans_name: cs(&f), location: FnLocation::Global }, args: self.es(&a), upvars: u.iter().map(|x| vref(x)).collect() } }
                "callclo" => ExprKind::CallClosure { new_entity: None, closure: self.b(a[0]), args: self.es(&a[1..]) },
                "callcloin" => ExprKind::CallClosure { new_entity: Some(self.b(a[0])), closure: self.b(a[1]), args: self.es(&a[2..]) },
                "rpc" => ExprKind::CallRpc { host: if s[0].is_empty() { None } else { Some(cs(&s[0])) }, service: cs(&s[1]), rpc: cs(&s[2]), args: self.named(&s[3..], &a) },
                "netreply" => { let (t, rest) = a.split_last().unwrap();
                    ExprKind::NetworkMessageReply { msg_type: cs(&s[0]), values: self.named(&s[1..], rest), target: self.b(*t) } }
                "closure" => { let np = n["v"]["n"].as_u64().unwrap() as usize;
                    ExprKind::Closure { kind: ClosureKind::Reporter, params: s[..np].iter().map(|x| vdef(x)).collect(), captures: s[np..].iter().map(|x| vref(x)).collect(), stmts: self.stmts(a[0]) } }
                "split" => ExprKind::TextSplit { text: self.b(a[0]), mode: match s[0].as_str() {
                    "letter" => TextSplitMode::Letter, "word" => TextSplitMode::Word, "tab" => TextSplitMode::Tab, "cr" => TextSplitMode::CR, "lf" => TextSplitMode::LF,
                    "csv" => TextSplitMode::Csv, "json" => TextSplitMode::Json, x => panic!("{x}") } },
                "splitby" => ExprKind::TextSplit { text: self.b(a[0]), mode: TextSplitMode::Custom(self.b(a[1])) },
                "x_stagewidth" => ExprKind::StageWidth,
                x => panic!("unknown expr op {x}"),
            }
        };
        Expr { kind, info: self.info(n) }
    }

    pub fn stmt(&mut self, id: usize) -> Stmt {
        let n = &self.nodes[id - 1];
        let (o, a, s) = (n["o"].as_str().unwrap(), self.args(n), self.strs(n));
        macro_rules! e { ($($v:ident $name:literal $($f:ident)*);* $(;)?) => { match o {
            $($name => { let mut _i = 0usize; Some(StmtKind::$v { $($f: { _i += 1; self.b(a[_i - 1]) }),* }) })*
            _ => None,
        } } }
        let simple = e!(
            ListInsert "listinsert" value index list; ListInsertLast "listinsertlast" value list; ListInsertRandom "listinsertrandom" value list;
            ListRemove "listremove" index list; ListRemoveLast "listremovelast" list; ListRemoveAll "listremoveall" list;
            ListAssign "listassign" index list value; ListAssignLast "listassignlast" list value; ListAssignRandom "listassignrandom" list value;
            Return "return" value; Throw "throw" error; Ask "ask" prompt; Sleep "sleep" seconds; WaitUntil "waituntil" condition; SendNetworkReply "reply" value;
            SetSize "setsize" value; ChangeSize "changesize" delta; Forward "forward" distance; GotoXY "gotoxy" x y; ChangeX "changex" delta; ChangeY "changey" delta;
            SetX "setx" value; SetY "sety" value; TurnRight "turnright" angle; TurnLeft "turnleft" angle; SetHeading "setheading" value;
            PointTowards "pointtowards" target; PointTowardsXY "pointtowardsxy" x y; Goto "goto" target; SetPenSize "setpensize" value; ChangePenSize "changepensize" delta;
            SetCostume "setcostume" costume; Rest "rest" beats; Clone "sclone" target;
            Write "x_write" content font_size;
        );
        let kind = match simple {
            Some(x) => x,
            None => match o {
                "assign" => StmtKind::Assign { var: vref(&s[0]), value: self.b(a[0]) },
                "addassign" => StmtKind::AddAssign { var: vref(&s[0]), value: self.b(a[0]) },
                "showvar" => StmtKind::ShowVar { var: vref(&s[0]) },
                "hidevar" => StmtKind::HideVar { var: vref(&s[0]) },
                "pause" => StmtKind::Pause,
                "seteffect" => StmtKind::SetEffect { kind: Self::effect(&s[0]), value: self.b(a[0]) },
                "changeeffect" => StmtKind::ChangeEffect { kind: Self::effect(&s[0]), delta: self.b(a[0]) },
                "cleareffects" => StmtKind::ClearEffects,
                "resettimer" => StmtKind::ResetTimer,
                "setpenattr" => StmtKind::SetPenAttr { attr: Self::penattr(&s[0]), value: self.b(a[0]) },
                "changepenattr" => StmtKind::ChangePenAttr { attr: Self::penattr(&s[0]), delta: self.b(a[0]) },
                "nextcostume" => StmtKind::NextCostume,
                "penclear" => StmtKind::PenClear,
                "deleteclone" => StmtKind::DeleteClone,
                "stop" => StmtKind::Stop { mode: match s[0].as_str() {
                    "script" => StopMode::ThisScript, "all" => StopMode::All, "allbut" => StopMode::AllButThisScript, "others" => StopMode::OtherScriptsInSprite,
                    "block" => StopMode::ThisBlock, "scenes" => StopMode::AllScenes, x => panic!("{x}") } },
                "playsound" => StmtKind::PlaySound { sound: self.b(a[0]), blocking: s[0] == "wait" },
                "playnotes" => StmtKind::PlayNotes { notes: self.b(a[0]), beats: self.b(a[1]), blocking: s[0] == "wait" },
                "stopsounds" => StmtKind::StopSounds,
                "setvisible" => StmtKind::SetVisible { value: s[0] == "true" },
                "setpendown" => StmtKind::SetPenDown { value: s[0] == "true" },
                "setpencolor" => StmtKind::SetPenColor { color: Self::rgba(n) },
                "say" => StmtKind::Say { content: self.b(a[0]), duration: a.get(1).map(|&x| self.b(x)) },
                "think" => StmtKind::Think { content: self.b(a[0]), duration: a.get(1).map(|&x| self.b(x)) },
                "locals" => StmtKind::DeclareLocals { vars: s.iter().map(|x| vdef(x)).collect() },
                "scallfn" => { let (f, u) = (s[0].clone(), s[1..].to_vec());
                    StmtKind::CallFn { function: FnRef { name: cs(&f), trans_name: cs(&f), location: FnLocation::Global }, args: self.es(&a), upvars: u.iter().map(|x| vref(x)).collect() } }
                "scallclo" => StmtKind::CallClosure { new_entity: None, closure: self.b(a[0]), args: self.es(&a[1..]) },
                "scallcloin" => StmtKind::CallClosure { new_entity: Some(self.b(a[0])), closure: self.b(a[1]), args: self.es(&a[2..]) },
                "fork" => StmtKind::ForkClosure { closure: self.b(a[0]), args: self.es(&a[1..]) },
                "warp" => StmtKind::Warp { stmts: self.stmts(a[0]) },
                "forever" => StmtKind::InfLoop { stmts: self.stmts(a[0]) },
                "until" => StmtKind::UntilLoop { condition: self.b(a[0]), stmts: self.stmts(a[1]) },
                "repeat" => StmtKind::Repeat { times: self.b(a[0]), stmts: self.stmts(a[1]) },
                "for" => StmtKind::ForLoop { var: vref(&s[0]), start: self.b(a[0]), stop: self.b(a[1]), stmts: self.stmts(a[2]) },
                "foreach" => StmtKind::ForeachLoop { var: vref(&s[0]), items: self.b(a[0]), stmts: self.stmts(a[1]) },
                "if" => StmtKind::If { condition: self.b(a[0]), then: self.stmts(a[1]) },
                "ifelse" => StmtKind::IfElse { condition: self.b(a[0]), then: self.stmts(a[1]), otherwise: self.stmts(a[2]) },
                "try" => StmtKind::TryCatch { code: self.stmts(a[0]), var: vref(&s[0]), handler: self.stmts(a[1]) },
                "broadcast" => StmtKind::SendLocalMessage { msg_type: self.b(a[0]), target: a.get(1).map(|&x| self.b(x)), wait: s[0] == "wait" },
                "srpc" => StmtKind::CallRpc { host: if s[0].is_empty() { None } else { Some(cs(&s[0])) }, service: cs(&s[1]), rpc: cs(&s[2]), args: self.named(&s[3..], &a) },
                "netsend" => { let (t, rest) = a.split_last().unwrap();
                    StmtKind::SendNetworkMessage { msg_type: cs(&s[0]), values: self.named(&s[1..], rest), target: self.b(*t) } }
                "runsys" => StmtKind::UnknownBlock { name: cs("nativeRunSyscall"), args: self.es(&a) },
                "sunknown" => StmtKind::UnknownBlock { name: cs(&s[0]), args: self.es(&a) },
                "x_gotomouse" => StmtKind::GotoMouse,
                x => panic!("unknown stmt op {x}"),
            }
        };
        Stmt { kind, info: self.info(n) }
    }

    fn defs(&mut self, v: &J) -> Vec<VariableDefInit> {
        v.as_array().unwrap().iter().map(|x| VariableDefInit { def: vdef(x[0].as_str().unwrap()), init: self.value(&x[1]) }).collect()
    }
    fn funcs(&mut self, v: &J) -> Vec<Function> {
        v.as_array().unwrap().iter().map(|f| Function {
            name: cs(f["name"].as_str().unwrap()), trans_name: cs(f["name"].as_str().unwrap()),
            params: f["params"].as_array().unwrap().iter().map(|x| vdef(x.as_str().unwrap())).collect(),
            upvars: f["upvars"].as_array().unwrap().iter().map(|x| vref(x.as_str().unwrap())).collect(),
            returns: true, stmts: self.stmts(f["body"].as_u64().unwrap() as usize),
        }).collect()
    }
    fn hat(&mut self, h: &J) -> Option<Box<Hat>> {
        let s: Vec<&str> = h.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        let kind = match s[0] {
            "none" => return None,
            "flag" => HatKind::OnFlag,
            "clone" => HatKind::OnClone,
            "key" => HatKind::OnKey { key: cs(s[1]) },
            "msg" => HatKind::LocalMessage { msg_type: Some(cs(s[1])) },
            "anymsg" => HatKind::LocalMessage { msg_type: None },
            "net" => HatKind::NetworkMessage { msg_type: cs(s[1]), fields: s[2..].iter().map(|x| vref(x)).collect() },
            "ev" => HatKind::Unknown { name: cs(s[1]), fields: s[2..].iter().map(|x| vref(x)).collect() },
            "mousedown" => HatKind::MouseDown,
            "stopped" => HatKind::Stopped,
            x => panic!("hat {x}"),
        };
        Some(Box::new(Hat { kind, info: BlockInfo::none() }))
    }
    pub fn role(&mut self, r: &J) -> ast::Role {
        let globals = self.defs(&r["globals"]);
        let funcs = self.funcs(&r["funcs"]);
        let entities = r["entities"].as_array().unwrap().iter().map(|e| {
            let n = e["name"].as_str().unwrap();
            let color: Vec<u8> = e["color"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
            Entity {
                name: cs(n), trans_name: cs(n),
                fields: self.defs(&e["fields"]), costumes: self.defs(&e["costumes"]), sounds: self.defs(&e["sounds"]),
                funcs: self.funcs(&e["funcs"]),
                scripts: e["scripts"].as_array().unwrap().iter().map(|s| Script { hat: self.hat(&s["hat"]), stmts: self.stmts(s["body"].as_u64().unwrap() as usize) }).collect(),
                active_costume: e["active"].as_u64().and_then(|x| (x as usize).checked_sub(1)),
                visible: e["visible"].as_bool().unwrap(),
                color: (color[0], color[1], color[2], color[3]),
                pos: (num(&e["x"]), num(&e["y"])), heading: num(&e["heading"]), scale: num(&e["scale"]),
            }
        }).collect();
        ast::Role { name: cs("role"), notes: cs(""), stage_size: (480, 360), globals, funcs, entities }
    }
}
