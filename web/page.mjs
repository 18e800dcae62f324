// A stand-in for the browser around index.js: the page of index.html, images, object URLs, the
// thread, and a user. The rules that the page has to follow are checked here.

const VOID = new Set(["input", "br", "img", "meta", "link", "hr"]);

class Collection {
    static of(list) {
        return new Proxy(list, {
            get(t, k) {
                if (k === "item") return (i) => t[i] ?? null;
                if (k === "namedItem") return (n) => Collection.named(t, n);
                if (typeof k === "string" && !/^\d+$/.test(k) && !(k in t)) return Collection.named(t, k) ?? undefined;
                return Reflect.get(t, k);
            },
        });
    }
    static named(t, n) {
        return t.find((e) => e.id === n || e.getAttribute("name") === n) ?? null;
    }
}

class Element {
    constructor(page, tag) {
        this.page = page;
        this.tagName = tag.toUpperCase();
        this.localName = tag;
        this.attrs = {};
        this.nodes = [];
        this.parentElement = null;
        this.listeners = {};
        this.style = styles();
        this.dataset = dataset(this);
        this.text = "";
        const write = (f) => {
            const names = new Set(this.classes());
            const r = f(names);
            this.attrs.class = [...names].join(" ");
            return r;
        };
        this.classList = {
            add: (...ns) => void write((s) => ns.forEach((n) => s.add(n))),
            remove: (...ns) => void write((s) => ns.forEach((n) => s.delete(n))),
            contains: (n) => this.classes().includes(n),
            toggle: (n, f) => write((s) => ((f ?? !s.has(n)) ? Boolean(s.add(n)) : (s.delete(n), false))),
            replace: (a, b) => write((s) => s.delete(a) && Boolean(s.add(b))),
        };
        this._disabled = false;
        this._value = undefined;
        this._src = "";
        this.files = [];
    }
    classes() { return (this.attrs.class ?? "").split(/\s+/).filter(Boolean); }
    get className() { return this.attrs.class ?? ""; }
    set className(v) { this.attrs.class = String(v); }
    get hidden() { return "hidden" in this.attrs; }
    set hidden(v) { this.toggleAttribute("hidden", Boolean(v)); }
    get nodeName() { return this.tagName; }
    get nodeType() { return 1; }
    get ownerDocument() { return this.page.document; }
    get isConnected() { return this === this.page.root || this.page.root.contains(this); }
    get id() { return this.attrs.id ?? ""; }
    set id(v) { this.attrs.id = v; }
    get name() { return this.attrs.name ?? ""; }
    set name(v) { this.attrs.name = v; }
    get type() { return this.attrs.type ?? "text"; }
    set type(v) { this.attrs.type = String(v); }
    get alt() { return this.attrs.alt ?? ""; }
    set alt(v) { this.attrs.alt = String(v); }
    get title() { return this.attrs.title ?? ""; }
    set title(v) { this.attrs.title = String(v); }
    getAttribute(n) { return n in this.attrs ? this.attrs[n] : null; }
    hasAttribute(n) { return n in this.attrs || (n === "disabled" && this._disabled); }
    setAttribute(n, v) {
        this.attrs[n] = String(v);
        if (n === "disabled") this._disabled = true;
        if (n === "src") this.src = v;
    }
    removeAttribute(n) {
        delete this.attrs[n];
        if (n === "disabled") this._disabled = false;
    }
    toggleAttribute(n, f) {
        const on = f ?? !this.hasAttribute(n);
        on ? this.setAttribute(n, "") : this.removeAttribute(n);
        return on;
    }
    get disabled() { return this._disabled; }
    set disabled(v) { this._disabled = Boolean(v); }
    get value() {
        if (this._value === undefined) return this.sanitize(this.attrs.value ?? "");
        return this._value;
    }
    set value(v) { this._value = this.sanitize(String(v)); }
    get valueAsNumber() { return this.value === "" ? NaN : Number(this.value); }
    sanitize(v) {
        if (this.localName !== "input") return v;
        if (this.type === "color") return /^#[0-9a-f]{6}$/i.test(v) ? v.toLowerCase() : "#000000";
        if (this.type === "number") return /^-?(\d+|\d*\.\d+)([eE][-+]?\d+)?$/.test(v) ? v : "";
        if (this.type === "text") return v.replace(/[\r\n]/g, "");
        return v;
    }
    get children() { return Collection.of(this.nodes); }
    get childElementCount() { return this.nodes.length; }
    get childNodes() { return this.children; }
    get firstElementChild() { return this.nodes[0] ?? null; }
    get lastElementChild() { return this.nodes[this.nodes.length - 1] ?? null; }
    get firstChild() { return this.firstElementChild; }
    get lastChild() { return this.lastElementChild; }
    get parentNode() { return this.parentElement; }
    get content() { return this; }
    sibling(d) {
        const s = this.parentElement?.nodes ?? [];
        return s[s.indexOf(this) + d] ?? null;
    }
    get nextElementSibling() { return this.sibling(1); }
    get previousElementSibling() { return this.sibling(-1); }
    hasChildNodes() { return this.nodes.length > 0 || this.text !== ""; }
    get textContent() { return this.text; }
    set textContent(t) {
        [...this.nodes].forEach((e) => this.removeChild(e));
        this.text = String(t);
    }
    get innerText() { return this.text; }
    set innerText(t) { this.textContent = t; }
    get innerHTML() { return this.text; }
    set innerHTML(h) {
        this.textContent = "";
        const r = parse(this.page, String(h));
        this.text = r.text;
        this.append(...r.nodes);
    }
    appendChild(e) {
        if (e.localName === "#fragment") {
            [...e.nodes].forEach((c) => this.appendChild(c));
            return e;
        }
        e.remove();
        e.parentElement = this;
        this.nodes.push(e);
        return e;
    }
    append(...es) { es.forEach((e) => (typeof e === "string" ? (this.text += e) : this.appendChild(e))); }
    before(...es) { es.forEach((e) => this.parentElement.insertBefore(e, this)); }
    after(...es) { es.reverse().forEach((e) => this.parentElement.insertBefore(e, this.nextElementSibling)); }
    replaceWith(...es) {
        this.before(...es);
        this.remove();
    }
    replaceChild(e, old) {
        this.insertBefore(e, old);
        return this.removeChild(old);
    }
    insertAdjacentElement(where, e) {
        ({ beforebegin: () => this.before(e), afterbegin: () => this.prepend(e), beforeend: () => this.append(e), afterend: () => this.after(e) })[where.toLowerCase()]();
        return e;
    }
    prepend(...es) { es.reverse().forEach((e) => this.insertBefore(e, this.nodes[0] ?? null)); }
    insertBefore(e, before) {
        if (e.localName === "#fragment") {
            [...e.nodes].forEach((c) => this.insertBefore(c, before));
            return e;
        }
        e.remove();
        e.parentElement = this;
        const i = before ? this.nodes.indexOf(before) : this.nodes.length;
        this.nodes.splice(i, 0, e);
        return e;
    }
    removeChild(e) {
        const i = this.nodes.indexOf(e);
        if (i < 0) throw new Error("NotFoundError: removeChild");
        this.nodes.splice(i, 1);
        e.parentElement = null;
        return e;
    }
    remove() { this.parentElement?.removeChild(this); }
    replaceChildren(...es) {
        [...this.nodes].forEach((e) => this.removeChild(e));
        this.append(...es);
    }
    cloneNode(deep) {
        const e = new Element(this.page, this.localName);
        Object.assign(e.attrs, this.attrs);
        Object.assign(e.style, this.style);
        e._disabled = this._disabled;
        e._value = this._value;
        e.text = this.text;
        if (this._src) e.src = this._src;
        if (this.localName === "img" && !this._src && "src" in this.attrs) e.src = this.attrs.src;
        if (deep) this.nodes.forEach((c) => e.appendChild(c.cloneNode(true)));
        return e;
    }
    matches(sel) {
        return sel.split(",").some((s) => this.match(s.trim()));
    }
    // compound selectors: tag, #id, .class, [attribute], and some pseudo classes
    match(s) {
        const part = /^(?:(\*|[a-z][a-z0-9]*)|#([\w-]+)|\.([\w-]+)|\[\s*([\w-]+)\s*(?:([~^$*]?=)\s*["']?([^"'\]]*)["']?\s*)?\]|:(disabled|enabled|first-child|last-child|checked|scope)|:not\(([^)]*)\)|:nth-child\((\d+)\))/i;
        while (s) {
            const m = part.exec(s);
            if (!m) throw new Error(`the stand-in doesn't understand the selector ${s}`);
            s = s.slice(m[0].length);
            const [, tag, id, cls, attr, op, v, pseudo, not, nth] = m;
            if (tag !== undefined && tag !== "*" && tag.toLowerCase() !== this.localName) return false;
            if (id !== undefined && id !== this.id) return false;
            if (cls !== undefined && !this.classes().includes(cls)) return false;
            if (attr !== undefined) {
                if (!this.hasAttribute(attr)) return false;
                const a = this.attrs[attr] ?? "";
                if (op && !{ "=": () => a === v, "~=": () => a.split(" ").includes(v), "^=": () => a.startsWith(v), "$=": () => a.endsWith(v), "*=": () => a.includes(v) }[op]()) return false;
            }
            if (pseudo === "disabled" && !this._disabled) return false;
            if (pseudo === "enabled" && this._disabled) return false;
            if (pseudo === "first-child" && this.previousElementSibling) return false;
            if (pseudo === "last-child" && this.nextElementSibling) return false;
            if (not !== undefined && this.matches(not)) return false;
            if (nth !== undefined && this.parentElement?.nodes.indexOf(this) !== Number(nth) - 1) return false;
        }
        return true;
    }
    *all() {
        for (const c of this.nodes) {
            yield c;
            yield* c.all();
        }
    }
    querySelectorAll(sel) {
        const set = new Set();
        for (const one of sel.split(",")) {
            const parts = one.trim().replace(/^:scope/, "").replace(/\s*([>+~])\s*/g, " $1").split(/\s+/).filter(Boolean);
            let at = [this];
            for (const p of parts) {
                const [, how, s] = /^([>+~]?)(.*)$/.exec(p);
                at = [...new Set(at.flatMap((e) => {
                    if (how === ">") return e.nodes.filter((c) => c.match(s));
                    if (how === "+") return e.nextElementSibling?.match(s) ? [e.nextElementSibling] : [];
                    if (how === "~") return e.parentElement.nodes.slice(e.parentElement.nodes.indexOf(e) + 1).filter((c) => c.match(s));
                    return [...e.all()].filter((c) => c.match(s));
                }))];
            }
            at.forEach((e) => set.add(e));
        }
        // in document order
        return Collection.of([...this.all()].filter((e) => set.has(e)));
    }
    querySelector(sel) { return this.querySelectorAll(sel)[0] ?? null; }
    getElementsByTagName(t) { return Collection.of([...this.all()].filter((e) => e.localName === t.toLowerCase())); }
    getElementsByClassName(n) { return Collection.of([...this.all()].filter((e) => n.split(/\s+/).every((c) => e.classes().includes(c)))); }
    getElementById(n) { return [...this.all()].find((e) => e.id === n) ?? null; }
    getElementsByName(n) { return [...this.all()].filter((e) => e.attrs.name === n); }
    closest(sel) {
        for (let e = this; e; e = e.parentElement) if (e.matches(sel)) return e;
        return null;
    }
    contains(o) { return o === this || [...this.all()].includes(o); }
    addEventListener(type, f, opt) { (this.listeners[type] ??= []).push({ f, once: opt && opt.once }); }
    removeEventListener(type, f) { this.listeners[type] = (this.listeners[type] ?? []).filter((l) => l.f !== f); }
    dispatch(type, bubbles) {
        const event = { type, target: this, preventDefault() {}, stopPropagation() { event.stopped = true; } };
        for (let e = this; e && !event.stopped; e = bubbles ? e.parentElement : null) {
            event.currentTarget = e;
            const on = e["on" + type];
            const fs = [...(e.listeners[type] ?? [])];
            e.listeners[type] = (e.listeners[type] ?? []).filter((l) => !l.once);
            if (typeof on === "function") fs.push({ f: on });
            for (const { f } of fs) {
                try {
                    typeof f === "function" ? f.call(e, event) : f.handleEvent(event);
                } catch (x) {
                    // a browser reports it and goes on
                    this.page.thrown(x);
                }
            }
        }
    }
    dispatchEvent(e) {
        this.dispatch(e.type, Boolean(e.bubbles));
        return true;
    }
    focus() {}
    blur() {}
    click() { if (!this._disabled) this.dispatch("click", true); }
    // images
    get src() { return this._src; }
    set src(url) {
        this._src = String(url);
        if (this.localName === "img") this.page.loadImage(this);
    }
    get width() { return this._width ?? this.image?.width ?? 0; }
    set width(v) { this._width = Number(v); this.canvas = undefined; }
    get height() { return this._height ?? this.image?.height ?? 0; }
    set height(v) { this._height = Number(v); this.canvas = undefined; }
    get naturalWidth() { return this.image?.width ?? 0; }
    get naturalHeight() { return this.image?.height ?? 0; }
    get complete() { return !this.page.loads.includes(this); }
    async decode() {}
    // canvases
    getContext(kind) { return (this.canvas ??= canvas(this._width ?? 300, this._height ?? 150)).getContext(kind); }
}

function canvas(width, height) {
    const c = { width, height };
    let data = new Uint8ClampedArray(4 * width * height);
    let size = [width, height];
    const each = (w, h, x, y, f) => {
        for (let j = 0; j < h; j++) for (let i = 0; i < w; i++) {
            if (x + i < 0 || y + j < 0 || x + i >= c.width || y + j >= c.height) continue;
            for (let k = 0; k < 4; k++) f(4 * (j * w + i) + k, 4 * ((y + j) * c.width + x + i) + k);
        }
    };
    c.getContext = () => {
        // setting the size clears a canvas
        if (size[0] !== c.width || size[1] !== c.height) {
            size = [c.width, c.height];
            data = new Uint8ClampedArray(4 * c.width * c.height);
        }
        return {
            canvas: c,
            drawImage(img, x, y, w, h) {
                const s = img.image;
                if (!s) return;
                if ((w !== undefined && w !== s.width) || (h !== undefined && h !== s.height)) throw new Error("the stand-in doesn't scale images");
                each(s.width, s.height, x, y, (a, b) => { data[b] = s.rgba[a]; });
            },
            clearRect(x, y, w, h) { each(w, h, x, y, (_, b) => { data[b] = 0; }); },
            getImageData(x, y, w, h) {
                if (!(w > 0 && h > 0)) throw new Error("IndexSizeError: getImageData");
                const d = new Uint8ClampedArray(4 * w * h);
                each(w, h, x, y, (a, b) => { d[a] = data[b]; });
                return { data: d, width: w, height: h };
            },
        };
    };
    return c;
}

function styles() {
    const s = {};
    const camel = (n) => n.replace(/-(.)/g, (_, c) => c.toUpperCase());
    for (const [k, f] of Object.entries({
        setProperty: (n, v) => { s[camel(n)] = v; },
        getPropertyValue: (n) => s[camel(n)] ?? "",
        removeProperty: (n) => { delete s[camel(n)]; },
    })) Object.defineProperty(s, k, { value: f });
    return s;
}

function dataset(e) {
    const name = (k) => "data-" + k.replace(/[A-Z]/g, (c) => "-" + c.toLowerCase());
    return new Proxy({}, {
        get: (_, k) => (typeof k === "string" ? e.attrs[name(k)] : undefined),
        set: (_, k, v) => { e.attrs[name(k)] = String(v); return true; },
        has: (_, k) => name(k) in e.attrs,
        deleteProperty: (_, k) => delete e.attrs[name(k)],
    });
}

function parse(page, html) {
    const root = new Element(page, "root");
    let at = root;
    for (const m of html.matchAll(/<!--[^]*?-->|<!doctype[^>]*>|<\/([a-z0-9]+)\s*>|<([a-z0-9]+)((?:\s+[\w-]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*\/?>|[^<]+/gi)) {
        if (m[1]) {
            const t = m[1].toLowerCase();
            if (VOID.has(t)) continue;
            let e = at;
            while (e && e.localName !== t) e = e.parentElement;
            if (e?.parentElement) at = e.parentElement;
        } else if (m[2]) {
            const e = new Element(page, m[2].toLowerCase());
            for (const [, n, a, b, c] of m[3].matchAll(/([\w-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g)) {
                const v = a ?? b ?? c ?? "";
                e.attrs[n.toLowerCase()] = v;
                if (n === "disabled") e._disabled = true;
                if (n === "style") for (const d of v.split(";")) {
                    const [k, w] = d.split(":").map((x) => x.trim());
                    if (k) e.style[k] = w;
                }
            }
            at.appendChild(e);
            if (!VOID.has(e.localName)) at = e;
        } else if (!m[0].startsWith("<")) {
            at.text += m[0];
        }
    }
    return root;
}

const rgb = (v) => [1, 3, 5].map((i) => parseInt(v.slice(i, i + 2), 16));
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);

export class Page {
    constructor(plan, library, html, settle) {
        Object.assign(this, { plan, library, settle });
        this.violations = [];
        this.log = [];
        this.stats = { answers: 0, errors: 0, clicks: 0, ignored: 0, quiet: 0, compared: 0, edits: 0, invalid: 0, overlaps: 0, during: 0, images: 0 };
        this.urls = new Map(); // live object URLs
        this.nextUrl = 1;
        this.loads = [];
        this.available = new Set();
        this.inbox = [];
        this.outbox = [];
        this.waiting = new Map();
        this.nextId = 0;
        this.clock = 0;
        this.history = { src: [], dst: [], sizes: [] };
        this.errors = 0;
        this.triggered = false;
        this.edited = { src: true, dst: true };
        this.images = plan.images;
        this.root = parse(this, html);
        this.windowListeners = {};
    }
    violation(m) {
        if (this.violations.length < 20) this.violations.push(m);
    }
    thrown() {
        this.errors++;
    }
    note(m) {
        if (this.log.length < 200) this.log.push(m);
    }
    el(id) {
        return [...this.root.all()].find((e) => e.id === id) ?? null;
    }

    globals() {
        const page = this;
        const remove = (t, f) => { page.windowListeners[t] = (page.windowListeners[t] ?? []).filter((g) => g !== f); };
        const document = {
            getElementById: (id) => page.el(id),
            querySelector: (s) => page.root.querySelector(s),
            querySelectorAll: (s) => page.root.querySelectorAll(s),
            removeEventListener: (t, f) => remove("document " + t, f),
            get documentElement() { return page.root.querySelector("html"); },
            createElement(t) {
                const e = new Element(page, t.toLowerCase());
                if (e.localName === "img") page.offscreen.push(e);
                return e;
            },
            createDocumentFragment: () => new Element(page, "#fragment"),
            createTextNode: (t) => String(t),
            importNode: (e, deep) => e.cloneNode(deep),
            getElementsByTagName: (t) => page.root.getElementsByTagName(t),
            getElementsByClassName: (n) => page.root.getElementsByClassName(n),
            getElementsByName: (n) => page.root.getElementsByName(n),
            get body() { return page.root.querySelector("body"); },
            addEventListener: (t, f) => (page.windowListeners["document " + t] ??= []).push(f),
            readyState: "loading",
        };
        const add = (t, f) => (page.windowListeners[t] ??= []).push(f);
        page.document = document;
        return {
            document,
            addEventListener: add,
            removeEventListener: remove,
            Event: class { constructor(type, o) { Object.assign(this, { type, bubbles: Boolean(o?.bubbles) }); } },
            requestAnimationFrame: (f) => setTimeout(f, 0),
            Image: class extends Element {
                constructor() { super(page, "img"); page.offscreen.push(this); }
            },
            URL: { createObjectURL: (b) => page.createUrl(b), revokeObjectURL: (u) => page.revokeUrl(u) },
            FileReader: class {},
            OffscreenCanvas: class { constructor(w, h) { return canvas(w, h); } },
            fetch: () => new Promise((r) => (page.fetched = () => r({ ok: true, blob: async () => page.images[0] }))),
        };
    }
    offscreen = [];

    // object URLs
    createUrl(blob) {
        if (!blob || !blob.width) throw new TypeError("createObjectURL: not a Blob");
        const u = `blob:http://localhost/${this.nextUrl++}`;
        this.urls.set(u, blob);
        return u;
    }
    revokeUrl(u) {
        if (!this.urls.has(u)) this.violation(`the object URL ${u} is revoked, but it ${/^blob:/.test(u) ? "was revoked before" : "isn't one"}`);
        this.urls.delete(u);
    }
    loadImage(img) {
        this.loads = this.loads.filter((l) => l !== img);
        if (img._src === "") return;
        const blob = this.urls.get(img._src);
        if (!blob) {
            if (img._src.startsWith("blob:")) this.violation(`an image shows ${img._src}, which was revoked`);
            return;
        }
        // Until an image is loaded, the one before it stays, unless the browser has it already.
        img.pending = { width: blob.width, height: blob.height, rgba: blob.rgba ?? blob.data };
        if (this.available.has(img._src)) img.image = img.pending;
        this.loads.push(img);
    }

    // the thread
    threadClass() {
        const page = this;
        return class Thread {
            sendRequest(payload, transfer) {
                const id = page.nextId++;
                let copy;
                try {
                    copy = structuredClone(payload, transfer ? { transfer } : undefined);
                } catch (e) {
                    return Promise.reject(e);
                }
                if (page.inbox.length + page.outbox.length > 0) page.stats.overlaps++;
                page.remember();
                page.inbox.push({ id, payload: copy, at: page.clock });
                return new Promise((resolve, reject) => page.waiting.set(id, { resolve, reject }));
            }
        };
    }
    answer(kind, id, payload) {
        this.outbox.push({ kind, id, payload });
    }

    // what is displayed
    divs() {
        return this.el("palette-wrapper").nodes;
    }
    fields(which) {
        return this.divs().map((d) => {
            const e = [...d.all()].find((e) => e.name === `palette-${which}-color` || e.id === `palette-${which}-color`);
            return e ? e.value : "none";
        });
    }
    field(i, name) {
        return [...this.divs()[i].all()].find((e) => e.name === name || e.id === name);
    }
    sizes() {
        return ["min-palette-cnt", "max-palette-cnt", "palette-err-limit"].map((n) => Number(this.el(n).value));
    }
    // All of the contents of the fields since the page was idle: what is sent has to be one of them.
    remember() {
        this.clock++;
        for (const [k, v] of [["src", this.fields("src").map(rgb)], ["dst", this.fields("dst").map(rgb)], ["sizes", this.sizes()]]) {
            const h = this.history[k];
            if (h.length === 0 || !same(h[h.length - 1].v, v)) h.push({ at: this.clock, v });
        }
    }
    shown(kind, value, what, until) {
        this.stats.compared++;
        if (!this.history[kind].some((h) => h.at <= until && same(h.v, value))) {
            this.violation(`${what} ${JSON.stringify(value)} is sent, but wasn't displayed (${JSON.stringify(this.history[kind].map((h) => h.v))})`);
        }
    }

    async workerStep() {
        const m = this.inbox.shift();
        const first = this.library.calls.length;
        const answered = this.outbox.length;
        this.library.request = m.id;
        const done = this.worker.request(m.id, m.payload);
        await this.settle();
        await Promise.race([done, this.settle().then(this.settle)]);
        const method = m.payload?.method;
        if (this.outbox.length !== answered + 1) this.violation(`the request ${method} gets ${this.outbox.length - answered} answers`);
        for (const b of this.library.buffers()) this.violation(`after the request ${method} there remains a ${b}`);
        for (const c of this.library.calls.slice(first)) this.judgeCall(c, m);
    }
    judgeCall(c, m) {
        const triples = (b) => Array.from({ length: b.length / 3 }, (_, i) => b.slice(3 * i, 3 * i + 3));
        if (c.fn === "create_image_weights" || c.fn === "compute_palette") {
            const img = this.images.find((i) => i.width === c.width && i.height === c.height && same(i.rgba.filter((_, k) => k % 4 !== 3), c.bytes));
            if (!img) this.violation(`${c.fn} gets a ${c.width}x${c.height} image that wasn't shown`);
            c.image = img;
        }
        if (c.fn === "create_decomposed_image") this.shown("src", triples(c.bytes), "the decomposition palette", m.at);
        if (c.fn === "reconstruct_image") this.shown("dst", triples(c.bytes), "the palette", m.at);
        if (c.fn === "compute_palette") this.shown("sizes", [c.min, c.max, c.bound], "the palette size and error bound", m.at);
    }
    async answerStep() {
        const a = this.outbox.shift();
        const w = this.waiting.get(a.id);
        if (!w) return this.violation("an answer nobody asked for");
        this.waiting.delete(a.id);
        this.stats.answers++;
        const call = this.library.calls.findLast((c) => c.request === a.id && c.fn === "compute_palette");
        if (a.kind === "response") {
            w.resolve(a.payload);
        } else {
            this.errors++;
            this.stats.errors++;
            w.reject(new Error(a.payload));
        }
        await this.settle();
        if (a.kind === "response" && call?.palette) {
            const want = call.palette;
            for (const k of ["src", "dst"]) {
                const got = this.fields(k).map(rgb);
                if (!same(got, want)) this.violation(`the computed palette is ${JSON.stringify(want)}, displayed as ${k} is ${JSON.stringify(got)}`);
                this.divs().forEach((_, i) => {
                    const t = this.field(i, `palette-${k}-color-txt`).value.toLowerCase();
                    if (t !== this.field(i, `palette-${k}-color`).value) this.violation(`the text of ${k} color ${i} is ${t}, the color ${this.field(i, `palette-${k}-color`).value}`);
                });
            }
            this.edited = { src: false, dst: false };
        }
        this.remember();
    }
    async loadStep() {
        const img = this.loads.shift();
        img.image = img.pending;
        this.available.add(img._src);
        if (img === this.el("src-img")) {
            this.trigger();
            this.stats.images++;
        }
        img.dispatch("load", false);
        await this.settle();
        this.remember();
    }
    trigger() {
        this.triggered = true;
        this.edited = { src: false, dst: false };
    }

    async fetch() {
        this.fetched?.();
        this.fetched = undefined;
        await this.settle();
    }
    async runAll() {
        for (let i = 0; i < 3000; i++) {
            if (this.inbox.length) await this.workerStep();
            else if (this.outbox.length) await this.answerStep();
            else if (this.loads.length) await this.loadStep();
            else {
                this.quiet();
                return;
            }
        }
        this.violation("the page never comes to rest");
    }

    // Nothing is going on.
    quiet() {
        this.stats.quiet++;
        const weights = this.library.live("weights");
        const decomps = this.library.live("decomposition");
        if (weights.length > 1) this.violation(`${weights.length} weights are never freed`);
        if (decomps.length > 1) this.violation(`${decomps.length} decompositions are never freed`);
        // object URLs: those that are displayed, and no others
        const shown = [...this.root.all()].filter((e) => e.localName === "img" && e.src.startsWith("blob:"));
        for (const e of shown) if (!this.urls.has(e.src)) this.violation(`${e.id || e.name} shows an object URL that was revoked`);
        for (const u of this.urls.keys()) if (!shown.some((e) => e.src === u)) this.violation("an object URL that isn't used any more was never revoked");
        for (const id of ["recompute-output-button", "recompute-palette-button", "src-img-picker"]) {
            if (this.el(id).disabled) this.violation(`${id} remains disabled`);
        }
        if (this.el("dst-spinner").style.visibility === "visible") this.violation("the spinner never stops");
        if (this.triggered && this.errors === 0 && weights.length === 1 && decomps.length === 1) {
            const [w, d] = [weights[0], decomps[0]];
            const made = this.library.calls.find((c) => c.fn === "create_image_weights" && c.ret === w.at);
            const src = this.urls.get(this.el("src-img").src);
            if (src && made && made.image && !same(made.image.rgba, src.rgba)) this.violation("the weights are those of another image than the displayed one");
            if (d.weights !== w.serial) this.violation("the decomposition belongs to another image");
            const flat = (k) => this.fields(k).map(rgb).flat();
            if (!this.edited.src && !same(d.palette, flat("src"))) this.violation(`the decomposition has the palette ${JSON.stringify(d.palette)}, displayed is ${JSON.stringify(flat("src"))}`);
            const r = this.library.calls.findLast((c) => c.fn === "reconstruct_image");
            if (!r || r.decomposition !== d.serial) this.violation("the output is that of another decomposition");
            else {
                if (!this.edited.dst && !same(r.bytes, flat("dst"))) this.violation(`the output has the palette ${JSON.stringify(r.bytes)}, displayed is ${JSON.stringify(flat("dst"))}`);
                this.sameImage("the output", this.el("dst-img"), r, 3);
            }
            this.divs().forEach((_, i) => {
                const g = this.library.calls.findLast((c) => c.fn === "grayscale_image_channel" && c.n === i);
                if (!g || g.decomposition !== d.serial) this.violation(`channel ${i} is that of another decomposition`);
                else this.sameImage(`channel ${i}`, this.field(i, "palette-img"), g, 1);
            });
            this.stats.compared++;
        }
        this.errors = 0;
        this.triggered = false;
        for (const k of Object.keys(this.history)) this.history[k] = [];
        this.remember();
    }
    sameImage(what, img, call, n) {
        const b = this.urls.get(img.src);
        const px = Array.from({ length: 4 * call.width * call.height }, (_, i) => (i % 4 === 3 ? 255 : n === 3 ? call.out[3 * (i >> 2) + (i % 4)] : call.out[i >> 2]));
        if (!b || !same(b.data, px)) this.violation(`${what} that is displayed isn't what was computed last`);
    }

    // The user
    async user(step) {
        const [what, a, b, text] = step;
        const n = this.divs().length;
        if (["click", "pick", "text", "color", "size"].includes(what) && this.inbox.length + this.outbox.length > 0) this.stats.during++;
        switch (what) {
            case "click": {
                const e = this.el(["recompute-output-button", "recompute-palette-button"][a % 2]);
                if (e.disabled) this.stats.ignored++;
                else {
                    this.trigger();
                    this.stats.clicks++;
                }
                e.click();
                break;
            }
            case "pick": {
                const p = this.el("src-img-picker");
                if (p.disabled) this.stats.ignored++;
                else {
                    p.files = Collection.of(a === 11 ? [] : [this.images[a % this.images.length]]);
                    p.dispatch("input", true);
                    p.dispatch("change", true);
                }
                break;
            }
            case "text": {
                if (n === 0) return;
                const which = ["src", "dst"][b % 2];
                const t = this.field(a % n, `palette-${which}-color-txt`);
                const c = this.field(a % n, `palette-${which}-color`);
                const prefixes = b >= 2 ? [...text].map((_, i) => [...text].slice(0, i + 1).join("")) : [text];
                for (const p of prefixes.length ? prefixes : [""]) {
                    const before = c.value;
                    t.value = p;
                    t.dispatch("input", true);
                    this.judgeText(t.value, p, before, c);
                }
                const before = c.value;
                t.dispatch("change", true);
                this.judgeText(t.value, text, before, c);
                this.edited[which] = true;
                this.stats.edits++;
                break;
            }
            case "color": {
                if (n === 0) return;
                const which = ["src", "dst"][b % 2];
                const c = this.field(a % n, `palette-${which}-color`);
                const t = this.field(a % n, `palette-${which}-color-txt`);
                c.value = text;
                c.dispatch("input", true);
                c.dispatch("change", true);
                if (c.value !== text) this.violation(`choosing ${text} gives ${c.value}`);
                if (t.value.toLowerCase() !== text) this.violation(`the color is ${text}, but the text ${t.value}`);
                this.edited[which] = true;
                this.stats.edits++;
                break;
            }
            case "size": {
                const e = this.el(["min-palette-cnt", "max-palette-cnt", "palette-err-limit"][a % 3]);
                e.value = text;
                e.dispatch("input", true);
                e.dispatch("change", true);
                break;
            }
            case "work": if (this.inbox.length) await this.workerStep(); break;
            case "answer": if (this.outbox.length) await this.answerStep(); break;
            case "load": if (this.loads.length) await this.loadStep(); break;
            case "all": await this.runAll(); break;
        }
        await this.settle();
        this.remember();
    }
    judgeText(now, text, before, c) {
        const valid = /^#[0-9a-f]{6}$/i.test(text);
        if (valid) {
            if (c.value !== text.toLowerCase()) this.violation(`the text ${text} gives the color ${c.value}`);
        } else {
            this.stats.invalid++;
            if (c.value !== before) this.violation(`the invalid text ${JSON.stringify(text)} changes the color from ${before} to ${c.value}`);
        }
        if (now.toLowerCase() !== text.replace(/[\r\n]/g, "").toLowerCase()) this.violation(`the text ${JSON.stringify(text)} is replaced by ${JSON.stringify(now)}`);
    }

    async run() {
        await this.settle();
        for (const t of ["document DOMContentLoaded", "load"]) for (const f of this.windowListeners[t] ?? []) f({ type: t });
        this.onload?.();
        await this.settle();
        this.remember();
        for (const [i, s] of this.plan.steps.entries()) {
            if (i === this.plan.fetched) await this.fetch();
            if (this.violations.length + this.library.violations.length) break;
            this.note(JSON.stringify(s));
            await this.user(s);
        }
        await this.fetch();
        if (this.violations.length + this.library.violations.length === 0) await this.runAll();
    }
}
