/* Runs the web application's virtual Kemper outside of a browser: clock and timers are stand-ins, driven line by
   line by the parent process. */
const fs = require("fs");
const vm = require("vm");
const path = require("path");
const readline = require("readline");

const WEB = path.join(process.argv[2], "web/htdocs");
let warnings = [];
console.log = console.info = () => {};
console.warn = console.error = (...a) => { warnings.push(a.map((x) => x && x.stack ? x.stack : String(x)).join(" ")); };

let now = 1000000;
Date.now = () => now;
const RealDate = Date;
globalThis.Date = class extends RealDate { constructor(...a) { if (a.length) super(...a); else super(now); } static now() { return now; } };
globalThis.setTimeout = globalThis.setInterval = () => 0;
globalThis.clearTimeout = globalThis.clearInterval = () => {};

["js/misc/Tools.js", "js/misc/PeriodCounter.js", "js/model/VirtualClient.js"].concat(
    fs.readdirSync(path.join(WEB, "clients/kemper/virtual")).sort().filter((f) => f.endsWith(".js") && f != "VirtualKemperClientUI.js").map((f) => "clients/kemper/virtual/" + f)
).sort((a, b) => rank(a) - rank(b)).forEach((f) => {
    vm.runInThisContext(fs.readFileSync(path.join(WEB, f), "utf8"), { filename: path.join(WEB, f) });
});
// Base classes first
function rank(f) { return f.endsWith("ParameterDefault.js") ? 1 : 0; }
const C = vm.runInThisContext("({ VirtualKemperClient, NRPNKey, CCKey, PCKey })");

let client = null;
const key = (k) => k[0] == "nrpn" ? new C.NRPNKey(k[1]) : k[0] == "cc" ? new C.CCKey(k[1]) : new C.PCKey();

const ops = {
    reset(req) { client = new C.VirtualKemperClient(req.options); if (req.virtualTime) client.options.overrideTimeCallback = () => now; },
    async receive(req) { for (const m of req.messages) await client.doSend(m); },
    advance(req) { for (let t = 0; t < req.ms; t += req.step) { now += Math.min(req.step, req.ms - t); client.update(); } },
    set(req) { client.parameters.get(key(req.key)).setValue(req.value); },
    rig(req) { client.setRigId(req.value); },
    name(req) { return client.getMessageProperties(req.message) || null; },
    values(req) { return req.keys.map((k) => client.parameters.get(key(k)).value).concat([client.getRigId()]); },
};

readline.createInterface({ input: process.stdin }).on("line", (line) => {
    const req = JSON.parse(line);
    warnings = [];
    const done = (failed, result) => {
        const out = client ? client.messageQueue.splice(0) : [];
        process.stdout.write(JSON.stringify({ failed: failed, result: result === undefined ? null : result, sent: out, warnings: warnings }) + "\n");
    };
    (async () => ops[req.op](req))().then((r) => done(null, r), (e) => done(String(e.stack)));
});
