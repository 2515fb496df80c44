/* Runs the web application's MIDI bridge and device controller outside of a browser: the Web MIDI API, clock and
   timers are stand-ins, driven line by line by the parent process. */
const fs = require("fs");
const vm = require("vm");
const path = require("path");
const readline = require("readline");

const WEB = path.join(process.argv[2], "web/htdocs");
console.log = console.info = console.warn = (...a) => {};
console.error = console.log;

let now = 1000000;
Date.now = () => now;
let timers = [], nextTimer = 1;
globalThis.setTimeout = (f, ms) => { timers.push({ id: nextTimer, at: now + (ms || 0), f: f }); return nextTimer++; };
globalThis.clearTimeout = (id) => { timers = timers.filter((t) => t.id != id); };

["lib/jsmidibridge/JsMidiBridge.js", "js/misc/Tools.js", "js/midi/MidiListener.js", "js/midi/MidiHandler.js", "js/midi/MidiBridgeHandler.js", "js/midi/PythonMidiWrapper.js", "js/DeviceController.js"].forEach((f) => {
    const code = fs.readFileSync(path.join(WEB, f), "utf8");
    vm.runInThisContext(code, { filename: path.join(WEB, f) });
});
const C = vm.runInThisContext("({ JsMidiBridge, MidiHandler, DeviceController, PythonMidiWrapper })");

process.on("unhandledRejection", () => {});

let s = null;
const settle = () => new Promise((r) => setImmediate(() => setImmediate(r)));

const ops = {
    async reset(req) {
        timers = [];
        s = { sent: [], events: [], results: {}, ports: {}, bridges: {}, outputs: {}, wrappers: {} };
        const st = s;
        if (req.seed !== null && req.seed !== undefined) C.JsMidiBridge.nextId = req.seed;
        if (req.random !== null && req.random !== undefined) { C.JsMidiBridge.nextId = -1; Math.random = () => req.random; }
        const inputs = new Map(), outputs = new Map();
        req.ports.forEach((name, i) => {
            inputs.set("i" + i, s.ports[name] = { name: name, manufacturer: "m" });
            outputs.set("o" + i, s.outputs[name] = { name: name, manufacturer: "m", send: (data) => {
                st.sent.push([name, Array.from(data)]);
            } });
        });
        Object.defineProperty(globalThis, "navigator", { configurable: true, value: { requestMIDIAccess: async () => ({ sysexEnabled: true, inputs: inputs, outputs: outputs }) } });
        const midi = new C.MidiHandler();
        await midi.init();
        s.midi = midi;
        const nop = () => {};
        s.device = new C.DeviceController({ midi: midi, ui: { progress: nop, notifications: { message: nop } }, message: nop });
    },
    // starts an operation of the user
    async start(req) {
        const st = s;
        const p = { connect: () => s.device.connect(req.args[0]), load: () => s.device.loadFile(...req.args), save: () => s.device.saveFile(...req.args),
            scan: () => new Promise((resolve, reject) => { s.device.scan((c) => resolve(c.name), () => reject("nothing found")); }) }[req.what]();
        p.then((r) => { st.results[req.id] = ["ok", r === undefined ? null : r]; }, (e) => { st.results[req.id] = ["failed", String(e && e.message !== undefined ? e.message : e)]; });
    },
    // a bridge of its own at a port
    async bridge(req) {
        const st = s;
        const b = (await Promise.resolve()) || new C.JsMidiBridge();
        st.bridges[req.id] = b;
        b.sendSysex = async (m, d) => { st.sent.push([req.id, [0xf0, ...m, ...d, 0xf7]]); };
        b.getFile = async (p) => { if (!(p in req.files)) throw new Error("not found: " + p); return req.files[p]; };
        b.onReceiveFinish = async (d) => { st.events.push([req.id, "file", d.path, d.data]); };
        b.onError = async (m) => { st.events.push([req.id, "error", m]); };
    },
    // connection of the emulated firmware to a port
    async wrap(req) { s.wrappers[req.id] = new C.PythonMidiWrapper(s.midi, s.ports[req.port], s.outputs[req.port]); },
    async unwrap(req) { s.wrappers[req.id].detach(); },
    async fetch(req) { s.events.push(["fetched", req.id, s.wrappers[req.id].messageQueue.splice(0, req.max).map((m) => Array.from(m))]); },
    async write(req) { await s.wrappers[req.id].send({ toJs: () => new Uint8Array(req.data) }); },
    async call(req) {
        const st = s;
        s.bridges[req.bridge][req.method](...req.args).catch((e) => { st.events.push([req.bridge, "exception", String(e.message)]); });
    },
    async deliver(req) {
        const st = s;
        if (req.to in s.bridges) {
            const d = req.data;
            if (d[0] == 0xf0 && d[d.length - 1] == 0xf7) {
                const p = s.bridges[req.to].receive({ manufacturerId: d.slice(1, 4), data: d.slice(4, d.length - 1) });
                p.catch((e) => { st.events.push([req.to, "exception", String(e.message)]); });
            }
        } else if (s.ports[req.to].onmidimessage) {
            s.ports[req.to].onmidimessage({ data: new Uint8Array(req.data) }).catch(() => {});
        }
    },
    async advance(req) {
        now += req.ms;
        for (;;) {
            const due = timers.filter((t) => t.at <= now).sort((a, b) => a.at - b.at)[0];
            if (!due) break;
            timers = timers.filter((t) => t !== due);
            due.f();
            await settle();
        }
    },
};

const queue = [];
let running = false;
readline.createInterface({ input: process.stdin }).on("line", (line) => { queue.push(line); run(); });

async function run() {
    if (running) return;
    running = true;
    while (queue.length) {
        const req = JSON.parse(queue.shift());
        let out;
        try {
            await ops[req.op](req);
            await settle();
            out = { sent: s.sent, events: s.events, results: s.results };
            s.sent = []; s.events = [];
            s.results = {};
        } catch (e) {
            out = { failed: String(e.stack) };
        }
        process.stdout.write(JSON.stringify(out) + "\n");
    }
    running = false;
}
