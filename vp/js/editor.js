/* Runs the editor's own JavaScript (Parser, ParserInput ...) outside of a browser. The Python side of the
   editor is reached by line based requests to the parent process (stdin/stdout), synchronously like in Pyodide. */
const fs = require("fs");
const vm = require("vm");
const path = require("path");
const { webcrypto } = require("crypto");
const dom = require("./dom.js");

const REPO = process.argv[2];
const WEB = path.join(REPO, "web/htdocs");

let pending = Buffer.alloc(0);
function readLine() {
    const buf = Buffer.alloc(65536);
    while (true) {
        const pos = pending.indexOf(10);
        if (pos >= 0) {
            const line = pending.subarray(0, pos).toString("utf8");
            pending = pending.subarray(pos + 1);
            return line;
        }
        let n = 0;
        try {
            n = fs.readSync(0, buf, 0, buf.length, null);
        } catch (e) {
            if (e.code == "EAGAIN") { Atomics.wait(new Int32Array(new SharedArrayBuffer(4)), 0, 0, 1); continue; }
            throw e;
        }
        if (n == 0) process.exit(0);
        pending = Buffer.concat([pending, buf.subarray(0, n)]);
    }
}

function writeLine(obj) {
    // Pyodide hands over undefined as None, JSON would leave it out
    const data = Buffer.from(JSON.stringify(obj, (k, v) => v === undefined ? null : v) + "\n", "utf8");
    let pos = 0;
    while (pos < data.length) {
        try {
            pos += fs.writeSync(1, data, pos);
        } catch (e) {
            if (e.code != "EAGAIN") throw e;
        }
    }
}

function python(req) {
    writeLine(req);
    const res = JSON.parse(readLine());
    if (res.error) throw new Error("PythonError: " + res.error);
    return decode(res.result);
}

function decode(res) {
    if (res && typeof res == "object" && res.$proxy !== undefined) {
        return new Proxy({}, {
            get(t, name) {
                if (typeof name != "string" || name == "then") return undefined;
                if (res.attributes && name in res.attributes) return res.attributes[name];
                return (...args) => python({ call: res.$proxy, method: name, args: args });
            }
        });
    }
    if (res && typeof res == "object" && res.$dict !== undefined) {
        return { toJs: () => new Map(Object.entries(res.$dict)) };
    }
    return res;
}

console.log = (...args) => console.error(...args);
console.warn = console.log;

// Timers are simulated while dialogs are open
let timers = null, now = 0;
const tasks = [], failures = [], dialogs = [];
const fake = (f, ms, ...args) => { if (!timers) return setTimeout(f, ms, ...args); timers.push({ at: now + (ms || 0), f: () => f(...args) }); return 0; };
const win = { failed: (e) => failures.push(String(e && e.stack || e && e.message || e)) };
process.on("unhandledRejection", (e) => win.failed(e));
const $ = dom.jquery(win, tasks);
const context = vm.createContext({
    console, structuredClone, setTimeout: fake, clearTimeout: () => {}, crypto: webcrypto, process, $, Muuri: dom.muuri($), window: win, tippy: () => {},
    alert: (m) => dialogs.push(["alert", m]), confirm: (m) => { dialogs.push(["confirm", m]); return context.answer; }, answer: true,
});
const settle = async () => {
    for (let n = 0; n < 5; ++n) await new Promise((r) => setImmediate(r));
    while (tasks.length) { await Promise.all(tasks.splice(0)); await new Promise((r) => setImmediate(r)); }
};
async function advance(ms) {
    const end = now + ms;
    while (true) {
        await settle();
        timers.sort((a, b) => a.at - b.at);
        if (!timers.length || timers[0].at > end) break;
        const t = timers.shift();
        now = Math.max(now, t.at);
        const r = t.f();
        if (r && r.then) tasks.push(r.catch((e) => win.failed(e)));
    }
    now = end;
}

function load(file) {
    const code = fs.readFileSync(path.join(WEB, file), "utf8");
    vm.runInContext(code, context, { filename: path.join(WEB, file) });
}

[
    "js/misc/Tools.js",
    "js/model/Client.js", "js/model/VirtualClient.js", "js/model/Device.js", "devices/paintaudio/PaintAudioDevice.js",
    "js/model/configurations/Configuration.js", "js/PySwitchRunner.js",
    "js/model/parser/ParserTreeElement.js", "js/model/parser/ParserInput.js", "js/model/parser/ParserInputAction.js",
    "js/model/parser/ParserChecks.js", "js/model/parser/Parser.js", "js/model/parser/Resolver.js",
    "js/model/parser/FunctionMeta.js", "js/model/parser/ParameterMeta.js", "js/model/parser/ParameterRange.js",
    "js/model/parser/MappingOptions.js", "js/model/parser/ClassItemExtractor.js",
    "clients/kemper/KemperClient.js", "clients/kemper/KemperFunctionMeta.js", "clients/kemper/KemperParameterMeta.js",
    "clients/boomerang/BoomerangClient.js", "clients/boomerang/BoomerangFunctionMeta.js", "clients/ClientFactory.js",
    "js/ui/popups/Popup.js", "js/ui/popups/BrowserProvider.js", "js/ui/popups/BrowserEntry.js", "js/ui/popups/BrowserPopup.js", "js/ui/misc/ParameterList.js",
    "js/ui/parser/ActionsProvider.js", "js/ui/parser/ActionProperties.js", "js/ui/parser/ActionPropertiesEncoder.js", "js/ui/parser/ActionPropertiesInternal.js", "js/ui/parser/InputSettings.js", "js/ui/parser/PagerProperties.js",
    "js/ui/parser/PagesList.js", "js/ui/parser/ParserFrontendIcons.js", "js/ui/parser/ParserFrontendInput.js", "js/ui/parser/ParserFrontend.js",
].forEach(load);

context.fetchFile = function (url) {
    // Contents as the web server delivers them
    url = decodeURI(url);
    if (url.endsWith("/toc.php")) {
        const dir = path.join(REPO, "content", path.dirname(url).replace("circuitpy/", ""));
        return JSON.stringify({
            type: "dir", name: "", children: fs.readdirSync(dir, { withFileTypes: true })
                .filter((e) => e.name != "__pycache__").map((e) => ({ type: e.isDirectory() ? "dir" : "file", name: e.name, children: [] }))
        });
    }
    if (url.startsWith("circuitpy/")) return fs.readFileSync(path.join(REPO, "content", url.substring(10)), "utf8");
    return fs.readFileSync(path.join(WEB, url), "utf8");
};

context.emulatorFiles = async function () {
    const files = {};
    context.window = {};
    context.loadPyodide = async () => ({
        FS: { mkdir: async () => {}, writeFile: async (name, code) => { files[name] = code; } },
        loadPackage: async () => {}
    });
    const runner = vm.runInContext("new PySwitchRunner({ domNamespace: 'pyswitch', updateIntervalMillis: 10 }, 'x')", context);
    await runner.init("");
    return files;
};

context.advance = advance;
context.ui = { failures, dialogs, setAnswer(v) { context.answer = v; }, fire: $.fire, reset() { timers = []; failures.length = 0; dialogs.length = 0; tasks.length = 0; } };

const main = vm.runInContext(`
Tools.fetch = async function(url) { return fetchFile(url); };

(function(python) {
    class TextConfiguration extends Configuration {
        constructor(files) {
            super({ ui: { setDirty() {}, resetDirtyState() {} } }, "Test");
            this.files = files;
        }
        async load() { return this.files; }
    }

    const runner = { pyodide: { runPython: (code) => python({ run: code }) } };

    let config = null;
    let page = null;

    async function build() {
        if (page.frontend) await page.frontend.destroy();
        page.frontend = new ParserFrontend(page.controller, config.parser);
        page.inputs = [];
        for (const def of await config.parser.getHardwareInfo()) {
            const element = $('<div class="input" />');
            page.inputs.push({ name: def.data.name, element: element });
            await page.frontend.addInput(def, element);
        }
        await page.frontend.init();
    }
    const find = (e, cls) => e.all().filter((x) => x.classes.has(cls));

    function items(name) {
        return find(page.inputs.filter((i) => i.name == name)[0].element.$elements[0], "action-grid")[0].grid.items.map((i) => i.el);
    }
    // Rows of the open dialog: label and field
    function fields() {
        const ret = {};
        for (const row of page.container.$elements[0].all().filter((e) => e.name == "tr" && e.kids.length == 2 && e.kids.every((k) => k.name == "td"))) {
            const inputs = row.kids[1].all().filter((e) => e.name == "input" || e.name == "select" || e.classes.has("pages-list-container"));
            if (inputs.length) ret[row.kids[0].text()] = { input: inputs[0], extra: inputs.slice(1), row: row };
        }
        return ret;
    }
    function part(op) {
        if (op.what == "name" || op.what == "remove-action") return find(items(op.input)[op.index], op.what)[0];
        if (op.what == "add-action" || op.what == "input-settings") return find(page.inputs.filter((i) => i.name == op.input)[0].element.$elements[0], op.what)[0];
        const box = page.container.$elements[0];
        if (op.what == "entry") return find(box, "listing-link").filter((e) => e.text() == op.text)[0];
        if (op.what == "page") return find(find(box, "action-pages")[0], "button").filter((e) => e.text() == op.text)[0];
        if (op.what == "button") return find(box, "buttons").flatMap((e) => find(e, "button")).filter((e) => e.text() == op.text)[0];
        if (op.what == "remove-page") return find(box, "remove-page")[op.index];
        return find(box, op.what)[0];
    }
    function look() {
        const box = page.container.$elements[0];
        const open = find(box, "list-browser").length > 0;
        return {
            inputs: page.inputs.map((i) => ({ name: i.name, settings: find(i.element.$elements[0], "input-settings").length > 0, items: items(i.name).filter((e) => find(e, "name").length).map((e) => {
                const b = find(e, "name")[0];
                return { text: b.text(), warn: b.classes.has("warn") ? "W" : b.classes.has("error") ? "E" : null, hold: b.classes.has("actions-hold"), icons: find(b, "action-icon").map((x) => [...x.classes].filter((c) => c.startsWith("icon-"))[0] + (x.node.style["background-color"] ? " " + x.node.style["background-color"] : "")) };
            }) })),
            dialog: !open ? null : {
                headline: find(box, "headline").map((e) => e.text())[0],
                entries: find(box, "listing-link").map((e) => e.text()), selected: box.all().filter((e) => e.name == "tr" && e.classes.has("selected")).map((e) => e.text()),
                buttons: find(box, "buttons").flatMap((e) => find(e, "button")).map((e) => e.text()), pages: find(box, "action-pages").flatMap((e) => find(e, "button")).filter((e) => e.visible).map((e) => [e.text(), e.classes.has("page-selected")]),
                info: find(box, "info-panel").map((e) => e.text()).join(""),
                fields: Object.fromEntries(Object.entries(fields()).map(([k, f]) => [k, { type: f.input.name == "input" ? f.input.attrs.type : f.input.name, value: f.input.attrs.type == "checkbox" ? !!f.input.attrs.checked : f.input.classes.has("pages-list-container") ? find(f.input, "page-id").map((e, i) => ({ id: e.value, color: find(f.input, "page-color")[i].value, text: find(f.input, "page-text")[i].value })) : f.input.value,
                    options: f.input.name == "select" ? f.input.options().map((o) => o.optionValue()) : null, visible: f.row.visible, extra: f.extra.filter((e) => e.name == "select").flatMap((e) => e.options().map((o) => o.optionValue())) }]))
            },
            failures: ui.failures.splice(0), dialogs: ui.dialogs.splice(0), restarts: page.restarts
        };
    }
    const handles = new Map();

    async function input(op) {
        const inp = await config.parser.input(op.input, !!op.create);
        if (!inp) return null;
        return inp;
    }

    function describe(action) {
        return {
            name: action.name, assign: action.assign === undefined ? null : action.assign, client: action.client,
            arguments: action.arguments(), pager: action.pager(), page: action.page()
        };
    }

    function readInput(inp) {
        return {
            name: inp.assignment.name,
            actions: inp.actions(false).map(describe),
            actionsHold: inp.actions(true).map(describe),
            holdTimeMillis: inp.holdTimeMillis(),
            holdRepeat: inp.holdRepeat()
        }
    }

    const ops = {
        async open(op) {
            config = new TextConfiguration(op.files);
            handles.clear();
            await config.init(runner, "");
            await config.parser.init();
            return (await config.parser.getHardwareInfo()).map((i) => [i.data.name, i.name, i.data.model.type]);
        },
        async hardware() { await config.parser.init(); return (await config.parser.getHardwareInfo()).map((i) => [i.data.name, i.name, i.data.model.type]); },
        async files() { return await config.get(); },
        async inputs() { return config.parser.inputs(); },
        async splashes() { return config.parser.splashes(); },
        async displays() { await config.parser.init(); return config.parser.getAvailableDisplays(); },
        async write() { config.parser.updateConfig(); return null; },
        async read(op) {
            // Everything the editor shows for one input
            const inp = await input(op);
            return inp ? readInput(inp) : null;
        },
        async set(op) {
            const inp = await input(op);
            if (op.keep) handles.set(op.input, inp);
            inp.setActions(op.actions, op.hold);
            return op.reread ? readInput(inp) : null;
        },
        async holdTime(op) { (await input(op)).setHoldTimeMillis(op.value); return null; },
        async holdRepeat(op) { (await input(op)).setHoldRepeat(op.value); return null; },
        async emulatorFiles() {
            // What the emulator copies to Pyodide's file system: {name: source}
            return await emulatorFiles();
        },
        async protocolCode(op) { return ClientFactory.getInstance(op.client).getProtocolCode() },
        async setSplashes(op) { await config.parser.setSplashes(op.splashes); return null; },
        async source(op) { await config.parser.updateFromSource(op.file, op.code); return null; },
        async checks() {
            return (await config.parser.checks.messages()).map((m) => ({
                display: m.value, type: m.type,
                actions: m.actions.map((a) => [a.input.assignment.name, a.name, a.argument("display")])
            }));
        },
        async usages(op) {
            return (await config.parser.checks.getDisplayUsages(op.display, op.all)).map((a) => [a.input.assignment.name, a.name]);
        },
        /* The user interface: inputs with their actions, and the dialogs */
        async show() {
            ui.reset();
            await config.parser.init();
            page = { container: $('<div class="popups" />'), inputs: [] };
            const controller = {
                ui: {
                    getPopup: (o) => new Popup({ container: page.container, errorHandler: controller, ...o }),
                    getBrowserPopup: (o) => new BrowserPopup({ container: page.container, errorHandler: controller, ...o }),
                    tabs: { show() {}, setActiveByName() {} }
                },
                handle: (e) => ui.failures.push(String(e && e.stack || e && e.message || e)),
                restart: async (o) => { setTimeout(async () => { try { if (o && o.changeCallback) await o.changeCallback(); await build(); page.restarts++; } catch (e) { controller.handle(e); } }, 10); }
            };
            page.controller = controller;
            page.restarts = 0;
            await build();
            return look();
        },
        async look() { return look(); },
        async answer(op) { ui.setAnswer(op.value); return null; },
        async click(op) {
            const e = part(op);
            ui.fire(e, "click");
            await advance(2000);
            return look();
        },
        async field(op) {
            // The user enters a value in a field of the dialog
            const f = fields()[op.field].input;
            if (f.attrs.type == "checkbox") f.attrs.checked = !!op.value; else f.value = op.value;
            ui.fire(f, "change");
            await advance(2000);
            return look();
        },
        async option(op) {
            // The user picks an option of the list beside a field
            const f = fields()[op.field].extra.filter((e) => e.name == "select")[0];
            f.value = op.value;
            ui.fire(f, "change");
            await advance(2000);
            return look();
        },
        async color(op) {
            const f = fields()[op.field].extra.filter((e) => e.attrs.type == "color")[0];
            f.value = op.value;
            ui.fire(f, "change");
            await advance(2000);
            return look();
        },
        async pagefield(op) {
            const f = find(page.container.$elements[0], "page-" + op.what)[op.index];
            f.value = op.value;
            ui.fire(f, "change");
            await advance(2000);
            return look();
        },
        async drag(op) {
            const grid = (name) => find(page.inputs.filter((i) => i.name == name)[0].element.$elements[0], "action-grid")[0].grid;
            const moved = grid(op.input).drag(op.index, grid(op.target), op.to);
            await advance(2000);
            return { ...look(), moved: moved };
        },
        async offered() {
            // All actions offered, with the values offered for their parameters
            await config.parser.init();
            const ret = [];
            for (const client of await config.parser.getAvailableActions()) {
                for (const action of client.actions) {
                    const params = [];
                    for (const p of action.parameters) {
                        params.push({
                            name: p.name, fixed: p.default, type: p.meta.type(), default: p.meta.getDefaultValue(), untouched: p.meta.convertInput(p.meta.getDefaultValue()),
                            values: await p.meta.getValues(), min: p.meta.data.range ? p.meta.data.range.min : null,
                            max: p.meta.data.range ? p.meta.data.range.max : null
                        });
                    }
                    ret.push({ client: client.client, name: action.name, importPath: action.importPath, target: action.meta.data.target, parameters: params });
                }
            }
            return ret;
        }
    };

    return async function(op) {
        if (!ops[op.op]) throw new Error("Unknown operation " + op.op);
        return ops[op.op](op);
    };
})`, context)(python);

(async function () {
    while (true) {
        const op = JSON.parse(readLine());
        let res;
        try {
            res = { done: await main(op) };
        } catch (e) {
            res = { failed: String(e && e.stack || e) };
        }
        writeLine(res);
    }
})();
