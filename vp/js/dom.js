/* What the editor's dialogs use of jQuery and Muuri, on a plain tree of elements */

class Element {
    constructor(tag) {
        const m = /^<([a-z]+)/.exec(tag);
        this.name = m ? m[1] : tag;
        this.classes = new Set(); this.handlers = []; this.kids = []; this.parent = null; this.visible = true; this.own = ""; this.attrs = {}; this.store = {}; this.raw = ""; this.selected = null;
        for (const a of tag.matchAll(/([a-z-]+)=(?:"([^"]*)"|([^\s>]+))/g)) this.attrs[a[1]] = a[2] === undefined ? a[3] : a[2];
        for (const c of (this.attrs.class || "").split(" ")) if (c) this.classes.add(c);
        if (this.name == "input") this.raw = this.attrs.value || "";
        const el = this;
        this.node = { $el: this, style: {}, dataset: {}, get className() { return [...el.classes].join(" "); }, set className(v) { el.classes = new Set(v.split(" ").filter((c) => c)); } };
    }
    options() { return this.all().filter((e) => e.name == "option"); }
    all() { return [this, ...this.kids.flatMap((k) => k.all())]; }
    text() { return this.own + this.kids.map((k) => k.text()).join(""); }
    optionValue() { return "value" in this.attrs ? this.attrs.value : this.text(); }
    // Browsers select the first option when options are added to a list without a selected one
    added() {
        const sel = this.name == "select" ? this : this.parent && this.parent.name == "select" ? this.parent : null;
        if (sel && (!sel.selected || !sel.options().includes(sel.selected))) sel.selected = sel.options()[0] || null;
    }
    get value() {
        if (this.name == "select") return this.selected ? this.selected.optionValue() : null;
        return this.raw;
    }
    set value(v) {
        if (this.name == "select") { this.selected = this.options().find((o) => o.optionValue() === String(v)) || null; return; }
        v = v === null ? "" : String(v);
        if (this.attrs.type == "number" && !/^-?(\d+(\.\d+)?|\.\d+)(e[+-]?\d+)?$/i.test(v)) v = "";
        this.raw = this.attrs.type == "color" && !/^#[0-9a-f]{6}$/i.test(v) ? "#000000" : this.name == "input" ? v.replace(/[\r\n]/g, "") : v;
    }
    detach() {
        if (this.parent) { const p = this.parent; p.kids = p.kids.filter((k) => k !== this); this.parent = null; if (p.name == "select") p.added(); }
    }
}

function jquery(window, pending) {
    const wraps = new Map();
    const special = new Map();
    function elementsOf(x) {
        if (x === null || x === undefined) return [];
        if (x.$elements) return x.$elements;
        if (x instanceof Element) return [x];
        if (x.$el) return [x.$el];
        if (typeof x == "string" && x.trim()[0] == "<") return [new Element(x.trim())];
        if (typeof x == "string") return [];
        if (!special.has(x)) special.set(x, new Element("special"));
        return [special.get(x)];
    }
    function add(el, items, first) {
        for (const i of items.flat(Infinity)) {
            if (i === null || i === undefined || i === false || i === "") continue;
            let ks;
            if (i.$elements) ks = i.$elements;
            else if (i instanceof Element) ks = [i];
            else if (i.$el) ks = [i.$el];
            else { const t = new Element("text"); t.own = String(i); ks = [t]; }
            for (const k of ks) {
                k.detach(); k.parent = el;
                if (first) el.kids.unshift(k); else el.kids.push(k);
            }
        }
        el.added();
    }
    const matches = (e, q) => q == ":visible" ? e.visible : q[0] == "." ? q.substring(1).split(".").every((c) => e.classes.has(c)) : e.name == q;
    function fire(e, name, extra) {
        const [base, ns] = name.split(".");
        const ev = Object.assign({ type: base, target: e.node, currentTarget: e.node, stopped: false, preventDefault() {}, stopPropagation() { this.stopped = true; } }, extra || {});
        for (const h of [...e.handlers]) {
            if (h.base != base || (ns && h.ns != ns)) continue;
            const r = h.f.call(e.node, ev);
            if (r && typeof r.then == "function") pending.push(r.catch((x) => { window.failed(x); }));
        }
        return ev;
    }
    const $ = (sel) => wrap(elementsOf(sel));
    function wrap(els) {
        if (els.length == 1 && wraps.has(els[0])) return wraps.get(els[0]);
        const e = els[0];
        const each = (f) => { els.forEach(f); return self; };
        const self = {
            $elements: els, length: els.length,
            append: (...x) => { if (e) add(e, x); return self; }, prepend: (...x) => { if (e) add(e, x, true); return self; },
            appendTo: (o) => { $(o).append(self); return self; }, before: (x) => { for (const k of elementsOf(x)) { k.detach(); k.parent = e.parent; e.parent.kids.splice(e.parent.kids.indexOf(e), 0, k); } return self; },
            on: (name, f, g) => each((x) => { for (const n of name.split(" ")) x.handlers.push({ base: n.split(".")[0], ns: n.split(".")[1], f: g || f }); }),
            off: (name) => each((x) => { x.handlers = name ? x.handlers.filter((h) => name[0] == "." ? h.ns != name.substring(1) : h.base != name.split(".")[0] || (name.includes(".") && h.ns != name.split(".")[1])) : []; }),
            trigger: (name, extra) => each((x) => fire(x, typeof name == "string" ? name : name.type, extra)), click: (f) => f ? self.on("click", f) : self.trigger("click"), change: (f) => f ? self.on("change", f) : self.trigger("change"),
            remove: () => each((x) => x.detach()), detach: () => each((x) => x.detach()),
            empty: () => each((x) => { for (const k of x.kids) k.parent = null; x.kids = []; x.own = ""; if (x.name == "select") x.selected = null; }),
            text: (...t) => { if (!t.length) return els.map((x) => x.text()).join(""); self.empty(); return each((x) => { x.own = String(t[0] === null || t[0] === undefined ? "" : t[0]); }); },
            html: (...t) => { if (!t.length) return e ? e.text() : undefined; self.empty(); if (t[0] !== null && typeof t[0] == "object") add(e, [t[0]]); else each((x) => { x.own = String(t[0] === null || t[0] === undefined ? "" : t[0]); }); return self; },
            show: () => each((x) => { x.visible = true; }), hide: () => each((x) => { x.visible = false; }), toggle: (v) => each((x) => { x.visible = v === undefined ? !x.visible : !!v; }),
            addClass: (c) => each((x) => (c || "").split(" ").forEach((n) => n && x.classes.add(n))), removeClass: (c) => each((x) => (c || "").split(" ").forEach((n) => x.classes.delete(n))),
            toggleClass: (c, v) => each((x) => { if (v === undefined ? !x.classes.has(c) : v) x.classes.add(c); else x.classes.delete(c); }), hasClass: (c) => els.some((x) => x.classes.has(c)),
            attr: (k, v) => { if (v === undefined) return e ? e.attrs[k] : undefined; return each((x) => { x.attrs[k] = String(v); }); },
            removeAttr: (k) => each((x) => { delete x.attrs[k]; }),
            data: (k, v) => { if (v === undefined) return e ? e.store[k] : undefined; return each((x) => { x.store[k] = v; }); },
            val: (...v) => { if (!v.length) return e ? e.value : undefined; return each((x) => { x.value = v[0] === undefined ? "" : v[0]; }); },
            prop: (k, v) => {
                if (v === undefined) return !e ? undefined : k == "checked" ? !!e.attrs.checked : k == "value" ? e.value : e.attrs[k];
                return each((x) => { if (k == "value" && x.name != "option") x.value = v; else x.attrs[k] = k == "checked" ? !!v : k == "value" ? String(v) : v; });
            },
            css: (k, v) => typeof k == "string" && v === undefined ? e && e.node.style[k] : (each((x) => typeof k == "object" ? Object.assign(x.node.style, k) : (x.node.style[k] = v)), self),
            is: (q) => els.some((x) => matches(x, q)), parent: () => wrap(e && e.parent ? [e.parent] : []), children: () => wrap(els.flatMap((x) => x.kids)), closest: (q) => { let x = e; while (x && !matches(x, q)) x = x.parent; return wrap(x ? [x] : []); },
            find: (q) => wrap(els.flatMap((x) => x.all().slice(1)).filter((x) => q.split(" ").length == 1 && matches(x, q))), filter: (q) => wrap(els.filter((x, i) => typeof q == "function" ? q.call(x.node, i, x.node) : matches(x, q))),
            eq: (i) => wrap(els[i < 0 ? els.length + i : i] ? [els[i < 0 ? els.length + i : i]] : []), first: () => self.eq(0), last: () => self.eq(-1), get: (i) => i === undefined ? els.map((x) => x.node) : els[i] && els[i].node, each: (f) => { els.forEach((x, i) => f.call(x.node, i, x.node)); return self; },
            map: (f) => els.map((x, i) => f.call(x.node, i, x.node)), width: (v) => v === undefined ? 100 : self, height: (v) => v === undefined ? 20 : self, focus: () => self, blur: () => self, offset: () => ({ left: 0, top: 0 }), index: () => e && e.parent ? e.parent.kids.indexOf(e) : -1,
        };
        els.forEach((x, i) => { self[i] = x.node; });
        if (els.length == 1) wraps.set(e, self);
        return self;
    }
    $.fire = (e, name, extra) => {      // a user's event: bubbles
        let x = e;
        while (x) { const ev = fire(x, name, extra); if (ev.stopped) break; x = x.parent; }
    };
    return $;
}

/* Grids of items which can be dragged: keeps the order, like Muuri */
function muuri($) {
    class Item {
        constructor(grid, el) { this.grid = grid; this.el = el; }
        getElement() { return this.el.node; }
        getGrid() { return this.grid; }
    }
    let sorting = null;
    class Muuri {
        constructor(node, options) {
            this.el = node.$el; this.options = options; this.handlers = {};
            this.items = this.el.kids.map((k) => new Item(this, k));
            this.el.grid = this;
        }
        getItems() { return [...this.items]; }
        getElement() { return this.el.node; }
        on(ev, f) { (this.handlers[ev] = this.handlers[ev] || []).push(f); return this; }
        off() { return this; }
        refreshItems() { return this; }
        layout() { return this; }
        emit(ev, ...args) { for (const f of this.handlers[ev] || []) f(...args); }
        destroy() { this.items = []; }
        // The user drags one item to a place taken by another one (the two are swapped) and releases it there
        drag(index, target, to) {
            const item = this.items[index];
            if (this.options.dragStartPredicate && this.options.dragStartPredicate(item, { deltaTime: 500, distance: 50 }) === false) return false;
            const grids = this.options.dragSort ? this.options.dragSort.call(this, item) : [this];
            let moved = false;
            if (grids.includes(target) && target.items[to] && target.items[to] !== item) {
                sorting = { grid: target, index: to, action: "move" };
                const res = this.options.dragSortPredicate ? this.options.dragSortPredicate(item, {}) : sorting;
                if (res) {
                    moved = true;
                    const other = target.items[to];
                    if (target === this) {
                        if (res.action == "swap") { this.items[index] = other; this.items[to] = item; } else { this.items.splice(index, 1); this.items.splice(to, 0, item); }
                    } else {
                        this.items.splice(index, 1);
                        target.items.splice(to, 0, item);
                        if (res.action == "swap") { target.items.splice(target.items.indexOf(other), 1); this.items.splice(index, 0, other); other.grid = this; other.el.detach(); other.el.parent = this.el; this.el.kids.splice(index, 0, other.el); }
                        item.grid = target; item.el.detach(); item.el.parent = target.el; target.el.kids.splice(to, 0, item.el);
                    }
                }
            }
            this.emit("dragEnd", item, {});
            item.grid.emit("dragReleaseEnd", item);
            return moved;
        }
    }
    Muuri.ItemDrag = { defaultStartPredicate: () => true, defaultSortPredicate: (item, o) => Object.assign({}, sorting, { action: o.action || "move" }) };
    return Muuri;
}

module.exports = { Element, jquery, muuri };
