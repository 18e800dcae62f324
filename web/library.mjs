// A stand-in for the compiled library: it computes nothing useful, but records each call, knows all
// buffers and handles, and fails on demand.
//
// With `base`, everything is allocated from that address on. Addresses are 32 bit integers, which
// WebAssembly hands to JavaScript as signed ones: from 2 GiB on they are negative.
export function lib({ faults = {}, grow = [], palettes = [], base = 0 }) {
    const memory = new WebAssembly.Memory({ initial: 2 + base / 65536, maximum: Math.max(4096, Math.min(65536, base / 32768)) });
    const HANDLES = base + 0x1000000;
    const live = new Map(); // address -> { size, type, ... }
    const dead = new Map();
    const calls = [];
    const violations = [];
    const self = { calls, violations, request: 0 };
    let counter = 0, fallible = 0, serial = 0, computed = 0;
    const bytes = () => new Uint8Array(memory.buffer);

    self.violation = (m) => { if (violations.length < 20) violations.push(m); };
    const bad = self.violation;

    function tickMemory() {
        // Growing detaches every view of the memory.
        if (grow.includes(counter++)) memory.grow(1);
    }
    function alloc(size, type, more) {
        if (type === "weights" || type === "decomposition") {
            // never the same handle again, and none that could be mistaken for an address
            const at = HANDLES + 16 * serial;
            live.set(at, { size, type, serial: serial++, ...more });
            return at | 0;
        }
        const need = Math.max(16, (size + 31) & ~15);
        let at = base + 1024;
        for (const a of [...live.keys()].filter((a) => a < HANDLES).sort((a, b) => a - b)) {
            if (a - at >= need + 16) break;
            at = a + Math.max(16, (live.get(a).size + 31) & ~15);
        }
        at += 16;
        while (at + need > memory.buffer.byteLength) memory.grow(1);
        bytes().fill(type === "buffer" ? 0 : 0xa7, at, at + size);
        live.set(at, { size, type, serial: serial++, ...more });
        dead.delete(at);
        return at | 0;
    }
    function release(at, type, size, fn) {
        at >>>= 0;
        const b = live.get(at);
        if (!b || b.type !== type) {
            bad(`${fn}(${at}): ${dead.has(at) && dead.get(at).type === type ? "was freed before" : "isn't allocated"}`);
            return;
        }
        if (size !== undefined && size !== b.size) bad(`${fn}: freed with size ${size}, allocated with ${b.size}`);
        live.delete(at);
        dead.set(at, b);
        if (at < HANDLES) bytes().fill(0xdd, at, at + b.size);
    }
    function handle(at, type, fn) {
        const b = live.get(at >>> 0);
        if (b && b.type === type) return b;
        bad(`${fn} with the handle ${at} that ${dead.has(at >>> 0) && dead.get(at >>> 0).type === type ? "was freed" : "doesn't exist"}`);
        throw new WebAssembly.RuntimeError("memory access out of bounds");
    }
    function inside(at, size, fn) {
        at >>>= 0;
        for (const [a, b] of live) if (b.type === "buffer" && a <= at && at + size <= a + b.size) return;
        if (size === 0) return;
        bad(`${fn} accesses ${size} bytes at ${at}, which isn't inside of a buffer`);
        throw new WebAssembly.RuntimeError("memory access out of bounds");
    }
    function read(at, size, fn) {
        inside(at, size, fn);
        at >>>= 0;
        return Array.from(bytes().subarray(at, at + size));
    }
    function write(at, data, fn) {
        inside(at, data.length, fn);
        bytes().set(data, at >>> 0);
    }
    function noise(n, seed) {
        let s = (seed * 2654435761) >>> 0;
        return Array.from({ length: n }, () => {
            s = (Math.imul(s, 1664525) + 1013904223) >>> 0;
            return s >>> 24;
        });
    }
    // the fault of this call, if any
    function begin(fn, rec) {
        const c = { fn, request: self.request, ...rec };
        calls.push(c);
        const f = faults[fallible++];
        if (f) c.fault = f;
        if (f === "trap") {
            tickMemory();
            throw new WebAssembly.RuntimeError("unreachable");
        }
        return c;
    }
    const int = (x, fn) => {
        if (!Number.isInteger(x) || x < 0) bad(`${fn} with the argument ${x}`);
        return x;
    };

    self.exports = {
        memory,
        create_image_buffer(size) {
            int(size, "create_image_buffer");
            tickMemory();
            return alloc(size, "buffer", { request: self.request });
        },
        free_image_buffer(size, at) {
            tickMemory();
            release(at, "buffer", size, "free_image_buffer");
        },
        create_image_weights(width, height, at) {
            const c = begin("create_image_weights", { width, height, bytes: read(at, 3 * width * height, "create_image_weights") });
            tickMemory();
            if (c.fault) return 0;
            return (c.ret = alloc(16, "weights", { width, height }));
        },
        free_image_weights(at) {
            calls.push({ fn: "free_image_weights", request: self.request, at });
            release(at, "weights", undefined, "free_image_weights");
        },
        compute_palette(width, height, at, min, max, bound, out) {
            const c = begin("compute_palette", { width, height, min, max, bound, bytes: read(at, 3 * width * height, "compute_palette") });
            inside(out, 1, "compute_palette");
            tickMemory();
            if (c.fault) {
                if (c.fault !== "unset") write(out, [0], "compute_palette");
                return 0;
            }
            const p = palettes.length ? palettes[computed++ % palettes.length] : [[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255]];
            const r = alloc(3 * p.length, "palette", {});
            bytes().set(p.flat(), r >>> 0);
            write(out, [p.length], "compute_palette");
            c.palette = p;
            return (c.ret = r);
        },
        free_computed_palette(at, n) {
            tickMemory();
            release(at, "palette", 3 * n, "free_computed_palette");
        },
        create_decomposed_image(weights, n, at) {
            const w = handle(weights, "weights", "create_decomposed_image");
            const c = begin("create_decomposed_image", { weights, n, bytes: read(at, 3 * n, "create_decomposed_image") });
            tickMemory();
            if (c.fault) return 0;
            return (c.ret = alloc(16, "decomposition", { width: w.width, height: w.height, n, palette: c.bytes, weights: w.serial }));
        },
        free_decomposed_image(at) {
            calls.push({ fn: "free_decomposed_image", request: self.request, at });
            release(at, "decomposition", undefined, "free_decomposed_image");
        },
        get_decomposed_image_width: (d) => handle(d, "decomposition", "get_decomposed_image_width").width,
        get_decomposed_image_height: (d) => handle(d, "decomposition", "get_decomposed_image_height").height,
        get_decomposed_image_num_channels: (d) => handle(d, "decomposition", "get_decomposed_image_num_channels").n,
        reconstruct_image(d, at, out) {
            const h = handle(d, "decomposition", "reconstruct_image");
            const c = begin("reconstruct_image", { d, bytes: read(at, 3 * h.n, "reconstruct_image") });
            const size = 3 * h.width * h.height;
            inside(out, size, "reconstruct_image");
            tickMemory();
            if (c.fault) return 0;
            c.out = noise(size, ++serial);
            c.width = h.width;
            c.height = h.height;
            c.decomposition = h.serial;
            write(out, c.out, "reconstruct_image");
            return 1;
        },
        grayscale_image_channel(d, n, out) {
            const h = handle(d, "decomposition", "grayscale_image_channel");
            const c = begin("grayscale_image_channel", { d, n });
            const size = h.width * h.height;
            inside(out, size, "grayscale_image_channel");
            tickMemory();
            if (c.fault || !(n < h.n)) return 0;
            c.out = noise(size, ++serial);
            c.width = h.width;
            c.height = h.height;
            c.decomposition = h.serial;
            write(out, c.out, "grayscale_image_channel");
            return 1;
        },
    };
    self.buffers = () => [...live.values()].filter((b) => b.type === "buffer" || b.type === "palette").map((b) => `${b.type} of ${b.size} bytes`);
    self.live = (type) => [...live.entries()].filter(([, b]) => b.type === type).map(([at, b]) => ({ at: at | 0, ...b }));
    return self;
}
