/* Runs the web application (its real controller, routing, configurations, settings, MIDI scanning) outside of a
   browser: the user interface and Pyodide are stand-ins, as are the Web APIs (local storage, IndexedDB, file
   handles, Web MIDI, timers, location). Driven line by line by the parent process. */
const fs = require("fs");
const vm = require("vm");
const path = require("path");
const readline = require("readline");
const { webcrypto } = require("crypto");

const REPO = process.argv[2];
const WEB = path.join(REPO, "web/htdocs");
process.on("unhandledRejection", (e) => { if (page) page.unhandled.push(String(process.env.VERIF_STACK && e && e.stack || e && e.message || e)); });

// The scripts of index.html: the parts which draw the device, the display editor and the settings are left out
const STUBBED = /^js\/ui\/(parser\/|editors\/display\/|PySwitchFrontend|misc\/(MidiMonitor|WcRotationInput|ParameterList))/;
const FILES = fs.readFileSync(path.join(WEB, "index.html"), "utf8").split("\n").map((l) => /<script[^>]*src="([^"]+)"/.exec(l)).filter((m) => m).map((m) => m[1]).filter(
    (f) => f == "lib/sammy-latest.min.js" || f == "lib/jsmidibridge/JsMidiBridge.js" || (/^(js|clients|devices)\//.test(f) && !STUBBED.test(f) && !/ClientUI\.js$/.test(f)));
const SCRIPTS = FILES.map((f) => new vm.Script(fs.readFileSync(path.join(WEB, f), "utf8"), { filename: path.join(WEB, f) }));

let store = {};         // local storage
let handle = null;      // IndexedDB
let folders = {};       // directories: name -> files
let page = null;
let now = 1000000, timers = [], nextTimer = 1;

function toc(dir, name) {
    return { type: "dir", name: name, children: fs.readdirSync(dir, { withFileTypes: true }).filter((e) => e.name[0] != "." && e.name != "__pycache__").map((e) => e.isDirectory() ? toc(path.join(dir, e.name), e.name) : { type: "file", name: e.name }) };
}
function serve(url) {
    const f = decodeURI(url.split("?")[0].split("#")[0]);
    const p = path.normalize(f.startsWith("circuitpy/") ? path.join(REPO, "content", f.substring(10)) : f.startsWith("examples/") ? path.join(REPO, f) : path.join(WEB, f));
    if (p.startsWith(REPO) && path.basename(p) == "toc.php") return JSON.stringify(toc(path.dirname(p), ""));
    return p.startsWith(REPO) && fs.existsSync(p) && fs.statSync(p).isFile() ? fs.readFileSync(p, "utf8") : null;
}
const cache = {};
function cached(url) {
    if (!(url in cache)) cache[url] = serve(url);
    return cache[url];
}

// What Sammy and the user interface use of jQuery; elements are kept as a tree to be clicked at
class Element {
    constructor(tag) {
        this.tag = tag; this.classes = new Set(); this.handlers = []; this.kids = []; this.visible = true; this.own = ""; this.attrs = {}; this.store = {}; this.value = ""; this.parent = null;
        const el = this;
        const m = /class="([^"]*)"/.exec(tag || "");
        if (m) m[1].split(" ").forEach((c) => c && this.classes.add(c));
        for (const a of (tag || "").matchAll(/([a-z-]+)=(?:"([^"]*)"|([^\s>]+))/g)) this.attrs[a[1]] = a[2] === undefined ? a[3] : a[2];
        this.node = { get className() { return [...el.classes].join(" "); }, set className(v) { el.classes = new Set(v.split(" ").filter((c) => c)); }, dataset: {}, $el: this, style: {} };
    }
}
function jquery(win) {
    const special = new Map();
    const root = new Element("<body>");
    const wrapOf = new Map();
    function element(x) {
        if (x instanceof Element) return x;
        if (x && x.$element) return x.$element;
        if (x && x.$el) return x.$el;
        if (typeof x == "string") {
            if (x.trim()[0] == "<") return new Element(x);
            if (x[0] == "." ) { const list = all(root).filter((e) => e.classes.has(x.substring(1))); return list; }
            return root;
        }
        if (!special.has(x)) { special.set(x, new Element("special")); }
        return special.get(x);
    }
    function all(e) { return [e, ...e.kids.flatMap(all)]; }
    function add(el, items, first) {
        for (const i of items.flat(Infinity)) {
            if (i === null || i === undefined || i === false) continue;
            let k;
            if (i.$elements) { add(el, i.$elements, first); continue; }
            if (i instanceof Element) k = i;
            else { k = new Element("text"); k.own = String(i); }
            if (k.parent) k.parent.kids = k.parent.kids.filter((c) => c !== k);
            k.parent = el;
            if (first) el.kids.unshift(k); else el.kids.push(k);
        }
    }
    const full = (e) => e.own + e.kids.map(full).join("");
    function trigger(e, target, name, args) {
        const [base, ...ns] = name.split(".");
        const res = [];
        for (const h of [...e.handlers]) {
            if (h.base != base || (ns.length && h.full != name)) continue;
            res.push(h.f.call(target, Object.assign({ type: base, target: target, currentTarget: target, preventDefault() {}, stopPropagation() {}, isDefaultPrevented: () => false }, args && !Array.isArray(args) ? args : {}), ...(Array.isArray(args) ? args : [])));
        }
        return res;
    }
    const $ = (sel) => {
        if (sel && sel.$elements) return sel;
        const e0 = element(sel);
        const els = Array.isArray(e0) ? e0 : [e0];
        if (els.length == 1 && wrapOf.has(els[0])) return wrapOf.get(els[0]);
        const e = els[0] || new Element("none");
        const target = sel instanceof Element || typeof sel == "string" ? e.node : sel;
        const self = new Proxy({
            $elements: els, $element: e, length: els.length, 0: e.node,
            append: (...x) => { add(e, x); return self; }, prepend: (...x) => { add(e, x, true); return self; },
            on: (name, f, g) => { for (const n of name.split(" ")) e.handlers.push({ base: n.split(".")[0], full: n, f: g || f }); return self; },
            off: (name) => { e.handlers = name ? e.handlers.filter((h) => name[0] == "." ? !h.full.endsWith(name) : h.full != name && h.base != name) : []; return self; },
            trigger: (name, args) => {
                if (name == "click" && /type="file"/.test(e.tag)) page.fileInput = self;
                trigger(e, target, name, args); return self;
            },
            click: (f) => f ? self.on("click", f) : self.trigger("click"),
            remove: () => { for (const x of els) if (x.parent) { x.parent.kids = x.parent.kids.filter((c) => c !== x); x.parent = null; } return self; },
            empty: () => { for (const k of e.kids) k.parent = null; e.kids = []; e.own = ""; return self; },
            text: (...t) => { if (!t.length) return full(e); if (t[0] === undefined) return self; self.empty(); e.own = String(t[0] === null ? "" : t[0]); return self; },
            html: (...a) => { const t = a[0]; if (!a.length) return full(e); if (t === undefined) return self; self.empty(); if (t !== null && typeof t == "object") add(e, [t]); else e.own = String(t); return self; },
            show: () => { e.visible = true; return self; }, hide: () => { e.visible = false; return self; }, toggle: (v) => { e.visible = v === undefined ? !e.visible : !!v; return self; },
            addClass: (c) => { c.split(" ").forEach((x) => e.classes.add(x)); return self; }, removeClass: (c) => { c.split(" ").forEach((x) => e.classes.delete(x)); return self; },
            toggleClass: (c, v) => { const on = v === undefined ? !e.classes.has(c) : !!v; return on ? self.addClass(c) : self.removeClass(c); }, hasClass: (c) => e.classes.has(c),
            attr: (k, v) => { if (v === undefined) return e.attrs[k]; e.attrs[k] = v; return self; }, data: (k, v) => { if (v === undefined) return e.store[k]; e.store[k] = v; return self; },
            val: (...v) => { if (!v.length) return /^<input/.test(e.tag) ? String(e.value) : e.value; if (v[0] === undefined) return self; e.value = v[0] === null ? "" : v[0]; return self; },
            prop: (k, v) => { if (v === undefined && !(k in e.attrs)) return k == "step" || k == "type" ? "" : undefined; return self.attr(k, v); }, is: (q) => q == ":visible" ? e.visible : false,
            children: () => ({ each: (f) => e.kids.forEach((k, i) => f.call(k.node, i, k.node)), length: e.kids.length }), each: (f) => { els.forEach((k, i) => f.call(k.node, i, k.node)); return self; },
            width: (v) => v === undefined ? 800 : self, height: (v) => v === undefined ? 600 : self, get: (i) => els[i] && els[i].node,
        }, { get: (o, k) => k in o || typeof k == "symbol" || k == "then" || k == "toJSON" || k == "$el" ? o[k] : () => self });
        self.bind = self.on; self.unbind = self.off;
        if (els.length == 1) wrapOf.set(e, self);
        return self;
    };
    Object.assign($, {
        root: root, all: () => all(root), full: full, fire: trigger, $of: $,
        extend: (t, ...s) => { for (const o of s) for (const k in o) if (o[k] !== undefined) t[k] = o[k]; return t; },
        each: (o, f) => { if (o && o.length !== undefined) { for (let i = 0; i < o.length; i++) if (f.call(o[i], i, o[i]) === false) break; } else for (const k in o) if (f.call(o[k], k, o[k]) === false) break; return o; },
        inArray: (x, a) => a.indexOf(x), isEmptyObject: (o) => { for (const k in o) return false; return true; }, trim: (s) => s.trim(), makeArray: (a) => [...a],
        isFunction: (f) => typeof f == "function",
    });
    $.fn = {};
    return $;
}

class FileHandle {
    constructor(dir, name) { this.dir = dir; this.name = name; }
    async getFile() { return { $text: folders[this.dir][this.name], name: this.name }; }
    async createWritable() {
        if (page.failing.includes(this.name)) throw new Error("Cannot write " + this.name);
        const h = this;
        let text = "";
        return { async write(t) { text += t; await new Promise((r) => setTimeoutFake(r, 5)); }, async close() { folders[h.dir][h.name] = text; changed(h.dir, h.name); } };
    }
}
class DirHandle {
    constructor(name) { this.name = name; this.kind = "directory"; }
    async isSameEntry(other) { return other instanceof DirHandle && other.name == this.name; }
    async getFileHandle(name, options) {
        if (!(this.name in folders)) throw new Error("NotFoundError");
        if (!(name in folders[this.name])) {
            if (!options || !options.create) throw new Error("NotFoundError");
            folders[this.name][name] = "";
        }
        return new FileHandle(this.name, name);
    }
}
function changed(dir, name) {
    for (const o of [...page.observers]) if (o.files.some((f) => f.dir == dir && f.name == name)) o.callback([{}], o);
}

function setTimeoutFake(f, ms, ...args) { timers.push({ id: nextTimer, at: now + Math.max(0, ms || 0), f: () => f(...args), src: f, page: page }); return nextTimer++; }
function setIntervalFake(f, ms) { const id = nextTimer++; timers.push({ id: id, at: now + ms, f: f, every: Math.max(1, ms), page: page }); return id; }
function clearTimer(id) { timers = timers.filter((t) => t.id != id); }
const settle = () => new Promise((r) => setImmediate(() => setImmediate(() => setImmediate(r))));

// Web MIDI devices
const KEMPER = [0x00, 0x20, 0x33];
function device(spec, port) {
    const d = spec.device;
    const p = page;
    function answer(data, ms) { setTimeoutFake(() => { if (page === p && port.input.onmidimessage) { const r = port.input.onmidimessage({ data: new Uint8Array(data) }); if (r && r.catch) r.catch(() => {}); } }, ms === undefined ? spec.delay : ms); }
    port.answer = answer;
    let bridge = null;
    if (d == "controller" || d == "both") {
        bridge = new p.JsMidiBridge();
        const files = p.devices[spec.id].files;
        bridge.sendSysex = async (m, x) => { answer([0xf0, ...m, ...x, 0xf7]); };
        bridge.getFile = async (name) => { const n = name.replace(/^\//, ""); if (!(n in files)) throw new Error("File not found: " + name); return files[n]; };
        bridge.onReceiveFinish = async (r) => { files[r.path.replace(/^\//, "")] = r.data; };
        bridge.onError = async () => {};
    }
    return (data) => {
        data = Array.from(data);
        p.sent.push([spec.id, data]);
        if (d == "broken") throw new Error("Port is closed");
        if ((d == "kemper" || d == "both") && data[0] == 0xf0 && String(data.slice(1, 4)) == String(KEMPER) && data[6] == 0x41) {
            answer([0xf0, ...KEMPER, ...(spec.head || [0, 0]), 0x01, 0x00, data[8], data[9], ...(spec.value || [0x40, 0x00]), 0xf7], spec.delay);
        } else if (d == "noise") {
            for (const n of spec.noise) answer(n == "echo" ? data : n);
        } else if (bridge && data[0] == 0xf0) {
            bridge.receive({ manufacturerId: data.slice(1, 4), data: data.slice(4, data.length - 1) }).catch(() => {});
        }
    };
}

function open(req) {
    timers = [];
    const p = page = { messages: [], unhandled: [], failing: [], observers: [], sent: [], ran: null, fsys: {}, devices: {}, ports: {}, virtual: null, runs: 0, confirms: [], prompts: [], answer: true, answers: [], downloads: [], editors: [], connections: [] };
    const url = new URL("http://host/pyswitch/" + (req.hash ? "#" + req.hash : ""));
    let current = url.href;
    const location = {
        get href() { return current; },
        set href(v) { const old = current; current = new URL(v, current).href; if (old != current) setTimeoutFake(() => { $.fire($(p.window).$element, p.window, "hashchange"); }, 0); },
        get hash() { return new URL(current).hash; }, set hash(v) { this.href = new URL(current).pathname + (v[0] == "#" ? v : "#" + v); },
        get protocol() { return "http:"; }, get host() { return "host"; }, get hostname() { return "host"; }, get pathname() { return new URL(current).pathname; }, get search() { return new URL(current).search; },
        toString() { return current; }
    };
    p.location = location;
    const inputs = new Map(), outputs = new Map();
    const nop = () => {};
    const inert = () => new Proxy(class {}, { construct: () => inertObject() });
    const inertObject = () => new Proxy({}, { get: (o, k) => k == "then" || typeof k == "symbol" ? undefined : k in o ? o[k] : nop });
    const $ = jquery();
    const context = vm.createContext({
        console: { log: nop, info: nop, warn: nop, error: nop, debug: nop }, setTimeout: setTimeoutFake, setInterval: setIntervalFake, clearTimeout: clearTimer, clearInterval: clearTimer, crypto: webcrypto, TextEncoder, TextDecoder, Uint8Array,
        $: $, jQuery: $, get location() { return location; }, set location(v) { location.href = v; }, history: {}, addEventListener: nop, document: { title: "", domain: "host", addEventListener: nop, createElement: () => ({ style: {}, getContext: () => inertObject() }) }, URL: class extends URL { static createObjectURL(b) { return b; } static revokeObjectURL() {} }, Blob: class { constructor(parts) { this.$text = parts.join(""); } }, performance: { now: () => now },
        localStorage: { getItem: (k) => k in store ? store[k] : null, setItem: (k, v) => { if (p.full) throw new Error("QuotaExceededError"); store[k] = String(v); }, removeItem: (k) => { delete store[k]; } },
        idbKeyval: { get: async (k) => handle && k == "localDirHandle" ? new DirHandle(handle) : undefined, set: async (k, v) => { handle = v.name; } },
        showDirectoryPicker: async () => { if (!p.pick) { const e = new Error("x"); e.name = "AbortError"; throw e; } if (!(p.pick in folders)) folders[p.pick] = {}; return new DirHandle(p.pick); },
        FileReader: class { readAsText(f) { setTimeoutFake(() => this.onload({ target: { result: f.$text } }), 1); } },
        fetch: async (u) => { const t = cached(u); return { ok: t !== null, text: async () => t }; },
        confirm: (t) => { p.confirms.push(t); return p.answers.length ? p.answers.shift() : p.answer; }, prompt: (t) => { return p.prompts.length ? p.prompts.shift() : null; }, alert: nop, open: nop,
        downloadZip: (files) => ({ blob: async () => files.map((f) => [f.name, f.input]) }), saveAs: (u, name) => p.downloads.push([name, u]), tippy: nop, interact: inertObject,
        navigator: { requestMIDIAccess: async () => { if (req.midi === false) throw new Error("SecurityError"); return { sysexEnabled: true, inputs: inputs, outputs: outputs }; } },
        CodeMirror: () => {
            const cm = { value: "", f: [], getValue() { return this.value; }, setValue(v) { if (v === undefined || v === null) throw new TypeError("setValue"); this.value = v; this.f.forEach((x) => x(this)); }, on(n, f) { if (n == "change") this.f.push(f); } };
            p.editors.push(cm);
            return cm;
        },
        loadPyodide: async () => ({
            FS: { mkdir: async () => {}, writeFile: (n, c) => { p.fsys[n] = c; } }, loadPackage: async () => {},
            // Stands for the runner as well as for the parser (which is not of interest here)
            runPython: () => ({
                running: false, stop() { this.running = false; p.running = false; }, tick: nop, init: nop, from_source: async () => {}, inputs: () => "[]", splashes: () => "null", toString: () => "[]",
                run(w, h, client, config, comm) {
                    this.running = p.running = true; p.runs++;
                    p.ran = { size: [w, h], client: client.id, config: JSON.parse(JSON.stringify(config)), comm: JSON.parse(JSON.stringify(comm)), inputs_py: p.fsys["/home/pyodide/inputs.py"], display_py: p.fsys["/home/pyodide/display.py"] };
                }
            })
        }),
        PySwitchFrontend: class { parserFrontend = { showDisplayEditor: async () => {} }; reset() {} async apply() {} },
        MidiMonitor: class { container = $("<div/>"); name = "MIDI Monitor"; init() {} getHeader() { return $("<span/>"); } refresh() {} activate() {} deactivate() {} destroy() {} getButtons() { return null; } confirmIfDirty() { return true; } addComment() {} async initMonitor() {} },
        VirtualKemperClientUI: class { destroy() {} }, ParameterList: class {},
    });
    context.window = context.self = context.globalThis = context;
    p.context = context; p.window = vm.runInContext("window", context); p.$ = $;
    if (req.observer) context.FileSystemObserver = class { constructor(f) { this.callback = f; this.files = []; } async observe(h) { this.files.push(h); if (!p.observers.includes(this)) p.observers.push(this); } disconnect() { this.files = []; p.observers = p.observers.filter((o) => o !== this); } };
    class FakeDate extends Date { constructor(...a) { if (a.length) super(...a); else super(now); } static now() { return now; } }
    context.Date = FakeDate;
    for (const s of SCRIPTS) s.runInContext(context);
    p.classes = vm.runInContext("({ Controller, JsMidiBridge, LocalState })", context);
    p.JsMidiBridge = p.classes.JsMidiBridge;
    for (const [i, spec] of (req.ports || []).entries()) {
        p.devices[spec.id] = spec;
        spec.files = spec.files || {};
        const port = p.ports[spec.id] = { input: { name: spec.name, manufacturer: spec.manufacturer || "m", state: "connected" }, output: { name: spec.outName || spec.name, manufacturer: spec.manufacturer || "m", state: "connected" } };
        port.output.send = device(spec, port);
        if (spec.kind != "out") inputs.set("i" + i, port.input);
        if (spec.kind != "in") outputs.set("o" + i, port.output);
    }
    p.controller = new p.classes.Controller({});
    const ui = p.controller.ui, message = ui.message.bind(ui);
    const said = (m, t) => p.messages.push([t || "E", String(m && m.message || m)]);
    let notifications = null;
    ui.message = (m, t, o) => { if (!notifications) said(m, t); return message(m, t, o); };
    Object.defineProperty(ui, "notifications", { get: () => notifications, set: (n) => { notifications = n; const f = n.message.bind(n); n.message = (m, t, o) => { said(m, t); return f(m, t, o); }; } });
}

// Advances the time until the given moment; stops early when the condition is met
async function advance(ms, until) {
    const end = now + ms;
    await settle();
    let left = 100000;
    for (;;) {
        if (until && until()) return true;
        const due = timers.filter((t) => t.at <= end).sort((a, b) => a.at - b.at || a.id - b.id)[0];
        if (!due) break;
        now = Math.max(now, due.at);
        if (due.every) due.at = now + due.every; else clearTimer(due.id);
        if (!left--) throw new Error(`harness: too many timers until ${end}, at ${now}: ${due.every} ${due.src || due.f} ${JSON.stringify(page.sent.slice(-2).map((x) => [x[0], x[1].slice(0, 40)]))} ${page.sent.length}`);
        due.f();
        await settle();
    }
    now = end;
    return until ? until() : null;
}

async function finish(promise, ms) {
    let res = null;
    promise.then((r) => { res = ["ok", r === undefined ? null : r]; }, (e) => { res = ["failed", String(e && e.message || e)]; });
    await advance(ms, () => res !== null);
    return res || ["pending", null];
}

// What the user sees and can click at
function shown(e) { for (; e; e = e.parent) { if (!e.visible) return false; if (e === page.$.root) return true; } return false; }
function clickables(text) { return page.$.all().filter((e) => shown(e) && e.handlers.some((h) => h.base == "click") && (text[0] == "^" ? page.$.full(e).startsWith(text.substring(1)) : page.$.full(e) == text)); }
async function click(e) {
    const res = page.$.fire(e, e.node, "click");
    await finish(Promise.all(res), 120000);
    await advance(page.wait === undefined ? 3000 : page.wait);
}
async function browse(browser, list) {
    await finish(browser.browse(), 10000);
    for (let tries = 0; tries < 12; tries++) {
        // As deep in the path as already shown
        const at = page.$.all().filter((e) => shown(e) && e.classes.has("path-link")).map((e) => page.$.full(e)).slice(1);
        const i = at.length;
        const found = i < list.length && at.every((t, k) => t == list[k]) ? clickables(list[i]).filter((e) => !e.classes.has("path-link")) : [];
        if (!i && !found.length) { browser.hide(); return false; }
        if (!found.length) {
            const back = page.$.all().filter((e) => shown(e) && e.classes.has("fa-chevron-left"));
            if (!back.length) { browser.hide(); return false; }
            await click(back[0]);
            continue;
        }
        await click(found[found.length - 1]);
        if (i == list.length - 1) { await finish(Promise.resolve(), 1); browser.hide(); return true; }
    }
    throw new Error("harness: cannot browse to " + JSON.stringify(list));
}
function answers(req) {
    page.answer = req.answer === undefined ? true : req.answer;
    page.answers = req.answers || [];
    page.prompts = req.prompts || [];
    page.failing = req.failing || [];
    page.full = !!req.full;
    page.pick = req.pick;
    page.wait = req.wait;
}
const wrapper = () => page.context.externalRefs && page.context.externalRefs.midiWrapper;

const ops = {
    reset() { store = {}; handle = null; folders = {}; now = 1000000; return null; },
    async open(req) { open(req); page.controller.run(); await advance(req.ms === undefined ? 12000 : req.ms); return null; },
    async load(req) { answers(req); const r = await browse(page.controller.ui.loadBrowser, req.path); await advance(req.ms || 12000); return r; },
    async saveTo(req) { answers(req); const r = await browse(page.controller.ui.saveBrowser, req.path); await advance(req.ms || 12000); return r; },
    async key(req) {
        answers(req);
        const w = page.$(page.window);
        await finish(Promise.all(page.$.fire(w.$element, page.window, "keydown", { which: req.key.toUpperCase().charCodeAt(0), key: req.key, ctrlKey: true })), 120000);
        await advance(12000);
        page.controller.ui.saveBrowser.hide();
        return null;
    },
    async hash(req) { answers(req); page.location.href = "http://host/pyswitch/#" + req.hash; await advance(req.ms || 12000); return null; },
    async client(req) { answers(req); const r = await browse(page.controller.ui.clientBrowser, req.path); await advance(req.ms === undefined ? 5000 : req.ms); return r; },
    async loaded(req) { await advance(20000, () => page.controller.currentConfig && page.controller.pyswitch.isRunning()); await advance(req.ms); return !!page.controller.currentConfig; },
    async go(req) { answers(req); page.location.href = "http://host/pyswitch/#" + req.hash; await advance(1, () => !page.controller.currentConfig); await ops.loaded(req); return null; },
    // Text typed into a code editor (0: inputs.py, 1: display.py); Apply of the tab
    async type(req) { page.editors[req.editor].setValue(req.text); await advance(100); return null; },
    async apply(req) { answers(req); const t = page.controller.ui.tabs.getTabByName(["inputs.py", "display.py"][req.editor]); await finish(t.apply(), 10000); await advance(1000); return null; },
    typed() { return page.editors.slice(0, 2).map((e) => e.getValue()); },
    unapplied() { return ["inputs.py", "display.py"].map((n) => { const t = page.controller.ui.tabs.getTabByName(n); return t ? t.isDirty() : null; }); },
    // A change made with the parser
    async edit(req) {
        const c = page.controller;
        await finish(c.restart({ message: "none", changeCallback: async () => { c.currentConfig.set(req.data); } }), 10000);
        await advance(1000);
        return null;
    },
    async upload(req) {
        answers(req);
        page.fileInput = null;
        await browse(page.controller.ui.loadBrowser, ["Upload..."]);
        if (!page.fileInput) return false;
        page.fileInput.trigger("change", { target: { files: req.files.map(([n, t]) => ({ name: n, $text: t })) } });
        await advance(3000);
        return true;
    },
    async download() { page.downloads = []; await browse(page.controller.ui.saveBrowser, ["Download ZIP"]); return page.downloads; },
    folder(req) { folders[req.name] = req.files; return null; },
    async write(req) { answers(req); folders[req.name][req.file] = req.text; changed(req.name, req.file); await advance(req.ms || 12000); return null; },
    presets() { return page.controller.presets.getAll().map((i) => [i, page.controller.presets.get(i)]); },
    // The icons next to a preset in the load dialog
    async preset(req) {
        answers(req);
        const b = page.controller.ui.loadBrowser;
        await finish(b.browse(), 10000);
        for (let tries = 0; tries < 8; tries++) {
            const found = clickables(req.name).filter((e) => !e.classes.has("path-link"));
            if (found.length) {
                let row = found[found.length - 1];
                while (!/^<tr/.test(row.tag)) row = row.parent;
                const icon = page.$.all().filter((e) => e.classes.has(req.icon) && (function up(x) { return x && (x === row || up(x.parent)); })(e))[0];
                await click(icon);
                b.hide();
                return true;
            }
            const local = clickables("Local Presets").filter((e) => !e.classes.has("path-link"));
            const back = page.$.all().filter((e) => shown(e) && e.classes.has("fa-chevron-left"));
            if (local.length) await click(local[0]); else if (back.length) await click(back[0]); else break;
        }
        b.hide();
        return false;
    },
    hasPreset(req) { return page.controller.presets.has(req.name); },
    async advance(req) { await advance(req.ms); return null; },
    hashNow() { return page.location.hash; },
    async state() {
        const c = page.controller, cc = c.currentConfig;
        const marker = page.$.all().filter((e) => e.classes.has("change-marker"))[0];
        return {
            config: cc ? { kind: cc.constructor.name, name: await cc.name(), data: await cc.get(), dirty: cc.isDirty(), saveable: cc.canBeSaved() } : null,
            mark: marker ? shown(marker) : null, ran: page.ran, running: c.pyswitch.isRunning(), runs: page.runs, messages: page.messages.splice(0), unhandled: page.unhandled.splice(0),
            confirms: page.confirms.splice(0), client: c.client.current, wrapper: wrapper() ? wrapper().constructor.name : null, presets: ops.presets(), hash: page.location.hash,
            port: c.device.portName(), folders: folders, handle: handle, devices: Object.fromEntries(Object.entries(page.devices).map(([k, d]) => [k, d.files])), sent: page.sent.splice(0), time: now,
            observers: page.observers.length
        };
    },
    async restart(req) { await finish(page.controller.restart({ message: "none" }), 1000); await advance(1000); return null; },
    select(req) { page.controller.client.state.set("selectedClient", req.value); return null; },
    async midiIn(req) { page.ports[req.id].answer(req.data, 0); await advance(1); return null; },
    async midiOut(req) { const w = wrapper(); if (!w) return null; try { await w.send({ toJs: () => req.data }); } catch (e) { if (!/Port is closed/.test(e.message)) throw e; } await advance(1); return w.constructor.name; },
    sent() { return page.sent.splice(0); },
    queue() { const w = wrapper(); return w ? w.messageQueue.splice(0).map((m) => Array.from(m)) : null; },
    // Settings tab
    fields() {
        const res = [], list = page.$.all();
        list.forEach((e, i) => { if (/^<input/.test(e.tag) && e.parent.classes.has("box")) { const k = e.parent.kids, l = k[k.indexOf(e) - 1]; res.push([page.$.full(l), e]); } });
        return res;
    },
    settings() { return ops.fields().map(([label, e]) => [label, e.attrs.type == "checkbox" ? !!e.attrs.checked : String(e.value)]); },
    async setting(req) {
        answers(req);
        const e = ops.fields()[req.index][1];
        if (e.attrs.type == "checkbox") e.attrs.checked = req.value; else e.value = e.attrs.type == "number" && !/^[-+]?(\d+\.?\d*|\.\d+)(e[-+]?\d+)?$/i.test(req.value) ? "" : req.value;
        await finish(Promise.all(page.$.fire(e, e.node, "change")), 1000);
        return null;
    },
    async button(req) {
        page.downloads = [];
        const box = page.$.all().filter((e) => e.classes.has("box"))[req.box];
        await click(page.$.all().filter((e) => e.handlers.length && page.$.full(e) == req.text && (function up(x) { return x && (x === box || up(x.parent)); })(e))[0]);
        return page.downloads;
    },
};

const queue = [];
let running = false;
readline.createInterface({ input: process.stdin }).on("line", (line) => { queue.push(line); run(); });
async function run() {
    if (running) return;
    running = true;
    while (queue.length) {
        const req = JSON.parse(queue.shift());
        let out;
        try {
            out = { result: await ops[req.op](req) };
            if (out.result === undefined) out.result = null;
        } catch (e) {
            out = { failed: String(e && e.stack || e) };
        }
        process.stdout.write(JSON.stringify(out) + "\n");
    }
    running = false;
}
