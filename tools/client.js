// Runs the extension for the NetsBlox editor, as the VM renders it, in an editor of stand-ins, and records what it does.
// node client.js IN.ndjson OUT.ndjson
'use strict';
const fs = require('fs'), vm = require('vm');

// anything asked of the editor which does not matter here
const magic = new Proxy(function () {}, {
    get(t, k) {
        if (k === Symbol.toPrimitive) return () => 1;
        if (k === Symbol.iterator) return function* () {};
        if (typeof k === 'symbol' || k === 'then') return undefined;
        return magic;
    },
    set: () => true, apply: () => magic, construct: () => magic, has: () => true,
});
const lenient = (o, not) => new Proxy(o, { get: (t, k) => k in t || typeof k === 'symbol' || (not || []).includes(k) ? t[k] : magic });

// ---------------------------------------------------------------- documents, with live collections as in browsers
class Elem {
    constructor(name) { this.nodeName = this.tagName = this.localName = name; this.nodeType = 1; this.childNodes = []; this.parentNode = null; }
    get children() { return this.childNodes.filter(x => x.nodeType === 1); }
    get parentElement() { return this.parentNode; }
    get firstChild() { return this.childNodes[0] || null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
    remove() { if (this.parentNode) this.parentNode.removeChild(this); }
    removeChild(x) { const i = this.childNodes.indexOf(x); if (i < 0) throw Error('NotFoundError'); this.childNodes.splice(i, 1); x.parentNode = null; return x; }
    appendChild(x) { if (x.remove) x.remove(); this.childNodes.push(x); x.parentNode = this; return x; }
    find(ok) { const r = []; for (const c of this.children) { if (ok(c)) r.push(c); r.push(...c.find(ok)); } return r; }
    getElementsByTagName(n) { return live(() => this.find(x => n === '*' || x.nodeName === n)); }
    querySelectorAll(q) { const ns = q.split(',').map(x => x.trim()); const a = this.find(x => ns.includes('*') || ns.includes(x.nodeName)); a.item = i => a[i] || null; return a; }
    querySelector(q) { return this.querySelectorAll(q)[0] || null; }
    get documentElement() { return this.children[0]; }
}
function live(get) {
    return new Proxy({}, {
        get(t, k) {
            if (k === 'length') return get().length;
            if (k === 'item') return i => get()[i] || null;
            if (k === Symbol.iterator) return function* () { for (let i = 0; i < get().length; i++) yield get()[i]; };
            if (typeof k === 'string' && /^[0-9]+$/.test(k)) return get()[+k];
            return undefined;
        },
        has: (t, k) => k === 'length' || (typeof k === 'string' && /^[0-9]+$/.test(k) && +k < get().length),
    });
}
function parse(s) {
    const doc = new Elem('#document'), at = [doc];
    for (const m of s.matchAll(/<(\/?)([\w-]+)>|([^<]+)/g)) {
        const top = at[at.length - 1];
        if (m[3] !== undefined) { top.childNodes.push({ nodeType: 3, nodeName: '#text', data: m[3], parentNode: top, remove() { top.removeChild(this); } }); continue; }
        if (m[1]) at.pop(); else { const e = new Elem(m[2]); top.appendChild(e); at.push(e); }
    }
    return doc;
}
const write = x => x.nodeType === 3 ? x.data : x.nodeName === '#document' ? x.childNodes.map(write).join('') : `<${x.nodeName}>${x.childNodes.map(write).join('')}</${x.nodeName}>`;

function flat(o, out) {
    for (const k of Object.keys(o)) {
        if (o[k] !== null && typeof o[k] === 'object') { out.push('s\t' + k); flat(o[k], out); out.push('end'); }
        else out.push('e\t' + k + '\t' + o[k]);
    }
    return out;
}

function run(c) {
    // what happened since the last operation
    let log = null;
    const fresh = () => { log = { req: [], alert: 0, drop: [], open: [] }; };
    fresh();
    // time
    let now = 0, ids = 0, timers = [];
    const later = (f, ms, every) => { const id = ++ids; timers.push({ id, at: now + (+ms || 0), f, every, ms: Math.max(1, +ms || 0) }); return id; };
    const cancel = id => { timers = timers.filter(x => x.id !== id); };
    const pass = ms => {
        const end = now + ms;
        for (let n = 0; n < 100000; n++) {
            const due = timers.filter(x => x.at <= end).sort((a, b) => a.at - b.at || a.id - b.id)[0];
            if (!due) break;
            now = Math.max(now, due.at);
            if (due.every) due.at += due.ms; else cancel(due.id);
            due.f();
        }
        now = end;
    };
    // requests
    const waiting = [];
    const kind = (m, u) => u.endsWith('/pull') ? 'pull' : m === 'GET' ? 'get' : 'post';
    class XMLHttpRequest {
        constructor() { this.readyState = 0; this.status = 0; this.responseText = ''; this.ls = {}; }
        open(m, u) { this.m = m; this.u = u; this.readyState = 1; }
        setRequestHeader() {}
        addEventListener(n, f) { (this.ls[n] = this.ls[n] || []).push(f); }
        send(body) {
            log.req.push(this.m + ' ' + this.u + ' ' + (body === undefined || body === null ? '' : body));
            waiting.push({ k: kind(this.m, this.u), done: (st, text) => {
                const fire = n => { if (this['on' + n]) this['on' + n]({ target: this, type: n }); for (const f of this.ls[n] || []) f({ target: this, type: n }); };
                for (const rs of [2, 3]) { this.readyState = rs; if (rs === 3) { this.status = st; this.responseText = text.slice(0, text.length >> 1); } fire('readystatechange'); }
                this.readyState = 4; this.status = st; this.response = this.responseText = text; fire('readystatechange');
                fire(st === 0 ? 'error' : 'load'); fire('loadend');
            } });
        }
    }
    XMLHttpRequest.DONE = XMLHttpRequest.prototype.DONE = 4;
    // the editor
    function Morph() {}
    Morph.prototype = new Proxy({}, { get: (t, k) => k in t || typeof k === 'symbol' || k === 'constructor' ? t[k] : magic });
    const morph = init => { function M(...a) { if (init) init.apply(this, a); } M.prototype = Object.create(Morph.prototype); M.prototype.constructor = M; M.uber = Morph.prototype; return M; };
    const buttons = [], texts = [];
    const symbol = x => x && typeof x === 'object' && x.symbolName ? x.symbolName : x;
    const SymbolMorph = morph(function (n) { this.symbolName = this.name = n; });
    const PushButtonMorph = morph(function (target, action, label) { this.target = target; this.action = action; this.labelString = label; this.label = label && typeof label === 'object' ? label : magic; buttons.push([symbol(label), this]); });
    const TextMorph = morph(function (t) { this.text = t; texts.push(this); });
    const CommentMorph = morph(function (t) { this.said = t; this.titleBar = magic; this.contents = lenient({ text: t }); this.block = null; });
    CommentMorph.prototype.destroy = function () { if (this.block) this.block.comment = null; };
    CommentMorph.prototype.fullCopy = function () { return new CommentMorph(this.said); };
    const blocks = [];
    const tree = t => { const b = lenient({ id: t.id === '' ? undefined : t.id, children: t.c.map(x => x), comment: null, uid: t.u }, ['comment']); b.children = t.c.map(tree); if (t.u) blocks.push(b); return b; };
    const world = tree(c.world), defs = ts => ts.map(t => lenient({ body: lenient({ expression: tree(t) }) }));
    const ide = lenient({
        stage: lenient({ globalBlocks: defs(c.globals), customBlocks: defs(c.stage) }),
        sprites: lenient({ contents: c.sprites.map(s => lenient({ customBlocks: defs(s) })) }),
        getSerializedRole: () => c.xml,
        droppedText: x => { log.drop.push(x); },
    });
    class Extension { constructor(name) { this.name = name; } }
    Extension.Block = class { constructor(name, type) { this.name = name; this.type = type; this.impl = [...arguments].find(x => typeof x === 'function'); } };
    Extension.Category = class { constructor(name) { this.name = name; } };
    Extension.PaletteCategory = class { constructor(name, blocks, on) { this.name = name; this.blocks = blocks; this.on = on; } };
    Extension.Palette = { Block: class { constructor(name) { this.name = name; } } };
    Extension.LabelPart = class { constructor(spec, make) { this.spec = spec; this.make = make; } };
    const SpriteMorph = morph(), StageMorph = morph();
    const InputSlotMorph = morph(function (...a) { this.choices = a.find(x => x !== null && typeof x === 'object'); });
    const regs = [];
    const quiet = { log() {}, warn() {}, error() {}, info() {}, debug() {} };
    const alert = () => { log.alert += 1; };
    const win = lenient({ open: u => { log.open.push(u); return magic; }, alert, world });
    const names = {
        window: win, open: win.open, alert, console: quiet, XMLHttpRequest, setTimeout: (f, ms) => later(f, ms, false), setInterval: (f, ms) => later(f, ms, true), clearTimeout: cancel, clearInterval: cancel,
        DOMParser: class { parseFromString(s) { return parse(s); } }, XMLSerializer: class { serializeToString(x) { return write(x); } },
        DialogBoxMorph: morph(), HandleMorph: morph(), ScrollFrameMorph: morph(), AlignmentMorph: morph(), Morph: morph(), TextMorph, PushButtonMorph, SymbolMorph, CommentMorph, InputSlotMorph, SpriteMorph, StageMorph,
        Color: morph(), Point: morph(), Extension, NetsBloxExtensions: { register: x => regs.push(x) }, world,
    };
    Object.assign(win, { console: quiet, XMLHttpRequest, setTimeout: names.setTimeout, setInterval: names.setInterval, clearTimeout: cancel, clearInterval: cancel, DOMParser: names.DOMParser, XMLSerializer: names.XMLSerializer, JSON, Math });
    const ctx = vm.createContext(names);
    let ext = null;
    const one = op => {
        if (op.o === 'load') {
            vm.runInContext(c.js, ctx);
            if (regs.length !== 1) throw Error(`${regs.length} extensions registered`);
            ext = new regs[0](ide);
            const bs = ext.getBlocks(), pal = ext.getPalette(), parts = ext.getLabelParts();
            const cats = ext.getCategories().map(x => x.name);
            const r = bs.map(b => { let f = false; try { b.impl(); } catch (e) { f = true; } return b.name + ' ' + b.type + (f ? ' fails' : ''); });
            r.push(...pal.map(x => (x.on === SpriteMorph ? 'sprite' : x.on === StageMorph ? 'stage' : '?') + (cats.includes(x.name) ? ': ' : '? ') + x.blocks.map(b => b.name).join(' ')).sort());
            for (const p of parts) { r.push('%' + p.spec); flat(p.make().choices, r); }
            return r;
        }
        if (op.o === 'wait') { for (let i = 0; i < op.n; i++) pass(c.ms); return []; }
        if (op.o === 'open') { ext.getMenu()['Open Terminal'](); return []; }
        if (op.o === 'press') {
            const b = buttons.filter(x => x[0] === op.b);
            if (b.length !== 1) throw Error(`${b.length} buttons ${op.b}`);
            b[0][1].action.call(b[0][1].target);
            return [];
        }
        if (op.o === 'dismiss') { const b = blocks.find(x => x.uid === op.n); if (b && b.comment) b.comment.destroy(); return []; }
        if (op.o === 'answer') {
            const i = waiting.findIndex(x => x.k === op.k);
            if (i >= 0) { const w = waiting.splice(i, 1)[0]; w.done(op.st, op.k === 'pull' && op.st === 200 ? JSON.stringify({ running: op.running, output: op.output, errors: op.errors }) : op.text); }
            return [];
        }
        throw Error('operation ' + op.o);
    };
    const out = [];
    for (const op of c.ops) {
        fresh();
        try {
            const r = one(op);
            const t = texts.length ? String(texts[texts.length - 1].text) : '';
            const icon = buttons.filter(x => x[0] === '$').map(x => symbol(x[1].labelString)).join();
            out.push({ p: '', r: { ...log, text: t.length <= 5000 ? t : t.slice(0, 60) + '...' + t.slice(-60), len: t.length, icon: icon === '$' ? '' : String(icon),
                notes: blocks.filter(b => b.comment).sort((a, b) => a.uid - b.uid).map(b => [b.uid, b.comment.said]), parts: r }, x: c.obs === 'last' && out.length === c.ops.length - 1 ? [0] : [] });
        } catch (e) { out.push({ p: String(e && e.stack || e).split('\n').slice(0, 3).join(' | '), r: {}, x: [] }); break; }
    }
    return { id: c.id, p: '', out };
}
const lines = fs.readFileSync(process.argv[2], 'utf8').split('\n'), js = JSON.parse(lines.shift());
const o = fs.openSync(process.argv[3], 'w');
for (const l of lines) if (l) { const c = JSON.parse(l); c.js = js[c.js]; fs.writeSync(o, JSON.stringify(run(c)) + '\n'); }
