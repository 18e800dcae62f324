// Runs the web code of /repo: one JSON case per line on stdin, one JSON answer per line on stdout.
// The compiled library, the browser and the two imported packages are replaced by stand-ins.
import vm from "node:vm";
import fs from "node:fs";
import path from "node:path";
import readline from "node:readline";
import { lib as makeLib } from "./library.mjs";
import { Page } from "./page.mjs";

process.on("unhandledRejection", () => {});
const WEB = process.argv[2];
const JS = path.join(WEB, "src/js");

const tick = () => new Promise((r) => setImmediate(r));
// Lets everything happen that doesn't need anything from outside.
async function settle() {
    for (let i = 0; i < 4; i++) await tick();
}

async function load(file, context, packages) {
    const cache = new Map();
    const get = (file) => {
        if (!cache.has(file)) {
            cache.set(file, new vm.SourceTextModule(fs.readFileSync(file, "utf8"), { context, identifier: file }));
        }
        return cache.get(file);
    };
    const link = (spec, from) => {
        if (spec in packages) {
            if (!cache.has(spec)) {
                const names = Object.keys(packages[spec]);
                cache.set(spec, new vm.SyntheticModule(names, function () {
                    for (const n of names) this.setExport(n, packages[spec][n]);
                }, { context, identifier: spec }));
            }
            return cache.get(spec);
        }
        if (spec.startsWith(".")) {
            let f = path.resolve(path.dirname(from.identifier), spec);
            if (!fs.existsSync(f)) f += ".js";
            return get(f);
        }
        throw new Error(`no package ${spec}`);
    };
    const m = get(file);
    await m.link(link);
    await m.evaluate();
}

const wasi = {
    WASI: class {
        constructor() { this.wasiImport = {}; }
        start() {}
        initialize() {}
    },
    File: class { constructor(data) { this.data = new Uint8Array(data); } },
    OpenFile: class { constructor(file) { this.file = file; } },
    PreopenDirectory: class {},
    Directory: class {},
    ConsoleStdout: class { static lineBuffered() { return new this(); } },
    Fd: class {},
    Inode: class {},
};

const quiet = { log() {}, error() {}, warn() {}, info() {}, debug() {}, trace() {} };

function common() {
    return {
        console: quiet, TextDecoder, TextEncoder, structuredClone, setTimeout, clearTimeout, setInterval, clearInterval, queueMicrotask, performance, AbortController, Blob,
        ImageData: class {
            constructor(data, width, height) {
                if (!data || data.length !== 4 * width * height || width === 0 || height === 0) throw new Error("InvalidStateError: ImageData");
                Object.assign(this, { data, width, height });
            }
        },
    };
}

// A worker: the web worker's code, on top of the library. send(kind, id, payload) gets what it sends.
export async function startWorker(library, initFails, send) {
    let instance;
    class ThreadWorker {
        constructor() { instance = this; }
        sendResponse(id, payload, transfer) {
            send("response", id, structuredClone(payload, transfer ? { transfer } : undefined));
        }
        sendError(id, error) { send("error", id, String(error)); }
    }
    class OffscreenCanvas {
        constructor(width, height) { Object.assign(this, { width, height, data: new Uint8ClampedArray(4 * width * height) }); }
        getContext() {
            return {
                createImageData: (w, h) => ({ data: new Uint8ClampedArray(4 * w * h), width: w, height: h }),
                putImageData: (d, x, y) => {
                    if (x !== 0 || y !== 0 || d.width !== this.width || d.height !== this.height) throw new Error("unexpected putImageData");
                    this.data = d.data.slice();
                },
            };
        }
        async convertToBlob() {
            const data = Array.from(this.data);
            await null;
            return { blob: true, width: this.width, height: this.height, data };
        }
    }
    const context = vm.createContext({
        ...common(), OffscreenCanvas,
        fetch: async () => {
            if (initFails) throw new Error("NetworkError");
            return {};
        },
        WebAssembly: {
            Memory: WebAssembly.Memory, RuntimeError: WebAssembly.RuntimeError,
            compileStreaming: async (r) => { await r; return {}; },
            compile: async () => ({}),
            instantiate: async () => ({ exports: library.exports }),
            instantiateStreaming: async (r) => { await r; return { module: {}, instance: { exports: library.exports } }; },
        },
    });
    context.self = context;
    await load(path.join(JS, "webworker.js"), context, { "@bjorn3/browser_wasi_shim": wasi, "async-thread-worker": { ThreadWorker, Thread: class {} } });
    if (!instance) throw new Error("no worker was created");
    return {
        // resolves when the request was handled, however it ends
        async request(id, payload, transfer) {
            try {
                await instance.onRequest(id, payload);
            } catch (e) {
                send("rejected", id, String(e));
            }
        },
    };
}

async function workerCase(c) {
    const library = makeLib(c);
    const outcomes = c.requests.map(() => []);
    const w = await startWorker(library, c.init_fails, (kind, id, payload) => {
        if (outcomes[id]) outcomes[id].push({ kind, payload: plain(payload) });
        else library.violation(`an answer to the unknown request ${id}`);
    });
    let running = [];
    const leaks = [];
    for (let i = 0; i < c.requests.length; i++) {
        const r = c.requests[i];
        const args = r.args.map((a) => {
            if (a && a.rgba) return new Uint8ClampedArray(a.rgba);
            if (a && a.handle !== undefined) {
                // the answer to an earlier request
                const o = outcomes[a.handle][0];
                const p = o && o.kind === "response" ? o.payload : undefined;
                return Array.isArray(p) ? p[0] : p;
            }
            return a;
        });
        library.request = i;
        running.push(w.request(i, { method: r.method, args }));
        if (r.wait) {
            await settle();
            const done = await Promise.race([Promise.all(running).then(() => true), settle().then(settle).then(() => false)]);
            if (!done) library.violation(`request ${i} isn't answered`);
            running = [];
            leaks.push({ after: i, buffers: library.buffers() });
        }
    }
    return { outcomes, calls: library.calls, violations: library.violations, leaks };
}

function plain(x) {
    if (ArrayBuffer.isView(x)) return { bytes: Array.from(x) };
    if (Array.isArray(x)) return x.map(plain);
    return x === undefined ? null : x;
}

async function pageCase(c) {
    const library = makeLib(c);
    const page = new Page(c, library, fs.readFileSync(path.join(WEB, "src/html/index.html"), "utf8"), settle);
    page.worker = await startWorker(library, false, (kind, id, payload) => page.answer(kind, id, payload));
    const context = vm.createContext({ ...common(), ...page.globals() });
    context.self = context.window = context;
    Object.defineProperty(context, "onload", { set: (f) => { page.onload = f; } });
    await load(path.join(JS, "index.js"), context, { "@bjorn3/browser_wasi_shim": wasi, "async-thread-worker": { Thread: page.threadClass(), ThreadWorker: class {} } });
    await page.run();
    return { violations: page.violations.concat(library.violations), log: page.log, stats: page.stats };
}

for await (const line of readline.createInterface({ input: process.stdin })) {
    let answer;
    try {
        const c = JSON.parse(line);
        answer = await (c.kind === "page" ? pageCase(c) : workerCase(c));
    } catch (e) {
        answer = { error: String((e && e.stack) || e) };
    }
    fs.writeSync(1, JSON.stringify(answer) + "\n");
}
