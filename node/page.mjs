// Loads the real main.js and wasm.js in a fresh JavaScript context with a stand-in page, and compares
// the canvas with the frame buffer bits.
// usage: node --experimental-vm-modules page.mjs DIR SEED TRIALS OUT [WASM...]
import fs from 'node:fs';
import path from 'node:path';
import vm from 'node:vm';

const [dir, seed, trials, out, ...modules] = process.argv.slice(2);
const W = 336, H = 536, WPL = 11, SIZE = WPL * H * 4;

// splitmix-like generator
let state = BigInt(seed) * 0x9E3779B97F4A7C15n & 0xFFFFFFFFFFFFFFFFn;
function u32() {
    state = (state + 0x9E3779B97F4A7C15n) & 0xFFFFFFFFFFFFFFFFn;
    let z = state;
    z = ((z ^ (z >> 30n)) * 0xBF58476D1CE4E5B9n) & 0xFFFFFFFFFFFFFFFFn;
    z = ((z ^ (z >> 27n)) * 0x94D049BB133111EBn) & 0xFFFFFFFFFFFFFFFFn;
    return Number((z ^ (z >> 31n)) & 0xFFFFFFFFn);
}
const below = (n) => u32() % n;

// a faster generator for bulk data
function bulk(view) {
    let s = u32() | 1;
    for (let i = 0; i < view.length; i++) {
        s ^= s << 13; s ^= s >>> 17; s ^= s << 5;
        view[i] = s;
    }
}

class ImageDataMock {
    constructor(a, b, c) {
        if (typeof a === 'number') {
            this.width = a; this.height = b; this.data = new Uint8ClampedArray(a * b * 4);
        } else {
            this.data = a; this.width = b; this.height = c === undefined ? a.length / 4 / b : c;
        }
    }
}
class Canvas {
    constructor(log) { this._w = 300; this._h = 150; this.log = log; this.style = {}; this.id = 'screen'; this._reset(); }
    _reset() { this.px = new Uint8ClampedArray(this._w * this._h * 4); }
    get width() { return this._w; }
    set width(v) { this._w = v >>> 0; this._reset(); }
    get height() { return this._h; }
    set height(v) { this._h = v >>> 0; this._reset(); }
    setAttribute(k, v) { if (k === 'width') this.width = +v; if (k === 'height') this.height = +v; }
    getAttribute(k) { return k === 'width' ? String(this._w) : k === 'height' ? String(this._h) : null; }
    addEventListener() {}
    getContext(kind) {
        if (kind !== '2d') return null;
        const cv = this;
        if (this._ctx) return this._ctx;
        return this._ctx = {
            canvas: cv,
            imageSmoothingEnabled: true,
            createImageData(w, h) { return typeof w === 'number' ? new ImageDataMock(w, h) : new ImageDataMock(w.width, w.height); },
            getImageData(x, y, w, h) {
                const d = new ImageDataMock(w, h);
                for (let j = 0; j < h; j++) for (let i = 0; i < w; i++) {
                    const a = x + i, b = y + j;
                    if (a < 0 || b < 0 || a >= cv._w || b >= cv._h) continue;
                    for (let k = 0; k < 4; k++) d.data[(j * w + i) * 4 + k] = cv.px[(b * cv._w + a) * 4 + k];
                }
                return d;
            },
            putImageData(d, x, y, dx = 0, dy = 0, dw = d.width, dh = d.height) {
                cv.log.puts++;
                for (let j = Math.max(0, dy); j < Math.min(d.height, dy + dh); j++) for (let i = Math.max(0, dx); i < Math.min(d.width, dx + dw); i++) {
                    const a = x + i, b = y + j;
                    if (a < 0 || b < 0 || a >= cv._w || b >= cv._h) continue;
                    for (let k = 0; k < 4; k++) cv.px[(b * cv._w + a) * 4 + k] = d.data[(j * d.width + i) * 4 + k];
                }
            },
            clearRect(x, y, w, h) { this.fill(x, y, w, h, [0, 0, 0, 0]); },
            fillRect(x, y, w, h) {
                const m = /^#([0-9a-f]{2})([0-9a-f]{2})([0-9a-f]{2})$/i.exec(this.fillStyle || '') || /^#([0-9a-f])([0-9a-f])([0-9a-f])$/i.exec(this.fillStyle || '');
                const c = m ? m.slice(1, 4).map((s) => parseInt(s.length === 1 ? s + s : s, 16)) : [0, 0, 0];
                this.fill(x, y, w, h, [...c, 255]);
            },
            fill(x, y, w, h, c) {
                cv.log.puts++;
                for (let b = Math.max(0, y); b < Math.min(cv._h, y + h); b++) for (let a = Math.max(0, x); a < Math.min(cv._w, x + w); a++) for (let k = 0; k < 4; k++) cv.px[(b * cv._w + a) * 4 + k] = c[k];
            },
        };
    }
}

const source = (f) => fs.readFileSync(path.join(dir, f), 'utf8');
// the page: which script does it load, which canvas does it hold?
const html = source('index.html');
const entry = (/<script[^>]*type\s*=\s*["']?module["']?[^>]*src\s*=\s*["']?([^"'\s>]+)/i.exec(html) || /<script[^>]*src\s*=\s*["']?([^"'\s>]+)["']?[^>]*type\s*=\s*["']?module/i.exec(html) || [])[1];
const canvasId = (/<canvas[^>]*id\s*=\s*["']?([\w-]+)/i.exec(html) || [])[1];

async function load(mode, page) {
    // page: {bytes} a real module, or {fake: {memory, exports}}
    const log = { puts: 0, fetches: [], errors: [], traces: 0 };
    const canvas = new Canvas(log);
    const find = (s) => (s === '#' + canvasId || s === canvasId || s === 'canvas' || s === 'canvas#' + canvasId ? canvas : null);
    const listeners = [];
    const pending = new Set();
    const track = (p) => { pending.add(p); p.then(() => pending.delete(p), () => pending.delete(p)); return p; };
    const sandbox = {
        document: {
            querySelector: find, getElementById: (s) => (s === canvasId ? canvas : null), getElementsByTagName: (s) => (s === 'canvas' ? [canvas] : []),
            addEventListener: (e, f) => listeners.push(f), readyState: 'complete', body: { appendChild() {} },
        },
        console: { log() { log.traces++; }, error(...a) { log.errors.push(a.join(' ')); }, warn() {}, debug() {}, info() {} },
        TextDecoder, TextEncoder, ImageData: ImageDataMock, URL,
        setTimeout: (f, ms, ...a) => track(new Promise((ok) => setTimeout(() => { f(...a); ok(); }, Math.min(ms || 0, 5)))),
        clearTimeout() {}, setInterval() { return 0; }, clearInterval() {},
        requestAnimationFrame: (f) => { track(new Promise((ok) => setTimeout(() => { f(0); ok(); }, 0))); return 1; },
        addEventListener: (e, f) => listeners.push(f),
        location: { href: 'http://localhost:8000/', search: '' },
        devicePixelRatio: 1,
        performance: { now: () => Date.now(), mark() {}, measure() {} },
        queueMicrotask,
    };
    sandbox.window = sandbox;
    sandbox.self = sandbox;
    const context = vm.createContext(sandbox);
    const Real = vm.runInContext('WebAssembly', context);
    const bytes = page.bytes || Buffer.from('not used');
    sandbox.fetch = (url) => {
        log.fetches.push(String(url));
        const ab = bytes.buffer.slice(bytes.byteOffset, bytes.byteOffset + bytes.length);
        return Promise.resolve({ ok: true, status: 200, url: String(url), headers: { get: () => 'application/wasm' }, arrayBuffer: () => Promise.resolve(ab), clone() { return this; } });
    };
    const instantiate = async (b, imports) => {
        if (page.fake) return { module: {}, instance: { exports: page.fake } };
        return track(Real.instantiate(b, imports));
    };
    const WA = { Memory: Real.Memory, Module: Real.Module, Instance: Real.Instance, RuntimeError: Real.RuntimeError, compile: (b) => track(Real.compile(b)), validate: Real.validate, instantiate };
    if (mode === 'streaming') WA.instantiateStreaming = async (r, imports) => instantiate(await (await r).arrayBuffer(), imports);
    context.WebAssembly = WA;
    vm.runInContext('0', context);
    const cache = new Map();
    const link = async (spec, ref) => {
        const f = path.basename(new URL(spec, 'http://x/').pathname);
        if (!cache.has(f)) cache.set(f, new vm.SourceTextModule(source(f), { context, identifier: f, initializeImportMeta: (meta) => { meta.url = 'http://localhost:8000/' + f; }, importModuleDynamically: async (s) => { const m = await link(s); if (m.status === 'unlinked') await m.link(link); await m.evaluate(); return m; } }));
        return cache.get(f);
    };
    const rejections = [];
    const onrej = (e) => rejections.push(String(e && e.stack || e));
    process.on('unhandledRejection', onrej);
    try {
        const main = await link(entry);
        await main.link(link);
        await main.evaluate();
        for (const f of listeners) f({ type: 'load' });
        // everything started so far runs to completion: nothing pending, nothing drawn or fetched for a while
        for (let i = 0, quiet = 0; i < 4000 && quiet < (page.bytes ? 10 : 4); i++) {
            const before = log.puts + log.fetches.length;
            await new Promise((ok) => setImmediate(ok));
            if (i % 4 === 3) await new Promise((ok) => setTimeout(ok, page.bytes ? 2 : 0));
            quiet = pending.size === 0 && log.puts > 0 && log.puts + log.fetches.length === before ? quiet + 1 : 0;
            if (rejections.length) break;
            if (log.puts === 0 && i > 1500) break;
        }
    } catch (e) {
        rejections.push(String(e && e.stack || e));
    } finally {
        process.off('unhandledRejection', onrej);
    }
    return { canvas, log, rejections };
}

function judge(canvas, bits, what) {
    if (canvas._w !== W || canvas._h !== H) return `canvas is ${canvas._w} x ${canvas._h}`;
    const v = new DataView(bits.buffer, bits.byteOffset, SIZE);
    let bad = 0, first = '';
    for (let y = 0; y < H; y++) for (let x = 0; x < W; x++) {
        const bit = v.getUint32((y * WPL + (x >> 5)) * 4, true) >>> (x & 31) & 1;
        const p = (y * W + x) * 4;
        const [r, g, b, a] = [canvas.px[p], canvas.px[p + 1], canvas.px[p + 2], canvas.px[p + 3]];
        const ok = bit ? a === 0 : a === 255 && r < 128 && g < 128 && b < 128;
        if (!ok && bad++ === 0) first = `(${x},${y}): bit ${bit}, canvas rgba ${[r, g, b, a]}`;
    }
    return bad ? `${bad} pixels differ from the frame buffer, first at ${first}` : null;
}

const KINDS = ['random', 'zeros', 'ones', 'one bit set', 'one bit clear', 'column', 'row', 'sparse', 'bytes', 'padding only', 'words', 'literals'];
// numbers that the page's sources did not have when this was written
const NEW = JSON.parse(process.env.NEW_NUMBERS || '[]');
function content(kind, words) {
    switch (kind) {
        case 'random': bulk(words); break;
        case 'zeros': words.fill(0); break;
        case 'ones': words.fill(0xFFFFFFFF); break;
        case 'one bit set': words.fill(0); words[below(words.length)] = (1 << below(32)) >>> 0; break;
        case 'one bit clear': words.fill(0xFFFFFFFF); words[below(words.length)] = ~(1 << below(32)) >>> 0; break;
        case 'column': { words.fill(0); const w = below(WPL), b = below(32); for (let y = 0; y < H; y++) words[y * WPL + w] = (1 << b) >>> 0; break; }
        case 'row': { words.fill(0xFFFFFFFF); const y = below(H); words.fill(0, y * WPL, y * WPL + WPL); break; }
        case 'sparse': words.fill(0); for (let i = 0; i < 200; i++) words[below(words.length)] ^= 1 << below(32); break;
        case 'bytes': { const b = below(4); for (let i = 0; i < words.length; i++) words[i] = (0xFF << (8 * b)) >>> 0; break; }
        // few different words, everywhere
        case 'words': { const w = Array.from({ length: 1 + below(4) }, () => [u32(), 0xFFFFFFFF << below(32), 1 << below(32), ~(1 << below(32)), 0][below(5)] >>> 0); for (let i = 0; i < words.length; i++) words[i] = w[below(w.length)]; break; }
        case 'literals': { const w = Array.from({ length: 1 + below(4) }, () => (NEW.length && below(8) ? NEW[below(NEW.length)] : u32()) * [1, 1, 256, 65536, 16777216][below(5)] >>> 0); for (let i = 0; i < words.length; i++) words[i] = below(6) ? w[below(w.length)] : u32(); break; }
        case 'padding only': words.fill(0); for (let y = 0; y < H; y++) words[y * WPL + 10] = 0xFFFF0000; break;
    }
}

const res = { evaluations: 0, distinct: 0, pixels: 0, samples: [], counters: {}, violation: null };
const count = (k) => { res.counters[k] = (res.counters[k] || 0) + 1; };
async function main() {
    if (!entry || !canvasId) { res.violation = { message: 'index.html loads no module script or has no canvas', case: 'index.html' }; return; }
    const seen = new Set();
    const check = async (mode, page, bitsOf, desc) => {
        const { canvas, log, rejections } = await load(mode, page);
        res.evaluations++;
        count(mode);
        let bad = null;
        if (rejections.length) bad = 'the page fails: ' + rejections[0].slice(0, 400);
        else if (log.puts === 0) bad = 'nothing was put on the canvas';
        else bad = judge(canvas, bitsOf(), desc);
        res.pixels += W * H;
        seen.add(desc);
        if (res.samples.length < 6) res.samples.push(desc);
        if (bad && !res.violation) res.violation = { message: bad, case: desc };
        return bad;
    };
    // the real modules
    for (const m of modules) for (const mode of ['streaming', 'fallback']) {
        const bytes = fs.readFileSync(m);
        const inst = (await WebAssembly.instantiate(bytes, { js: { js_log_trace() {} } })).instance;
        inst.exports.init();
        const p = inst.exports.frame_buf_ptr() >>> 0;
        const bits = new Uint8Array(inst.exports.memory.buffer.slice(p, p + SIZE));
        if (await check(mode, { bytes }, () => bits, `${path.basename(m)} loaded by ${mode}`)) return;
    }
    // stand-in modules with any frame buffer at any address
    const pages = [1, 2, 17, 200, 1024];
    for (let t = 0; t < +trials; t++) {
        const mode = below(2) ? 'streaming' : 'fallback';
        const kind = t < 2 * KINDS.length ? KINDS[t % KINDS.length] : NEW.length && below(3) === 0 ? 'literals' : KINDS[below(3) ? 0 : below(KINDS.length)];
        // now and then a memory of 2 GiB, which is never touched but for the frame buffer
        const size = t % 50 === 7 ? 2 ** 31 : pages[below(t % 8 === 0 ? 5 : 4)] * 65536;
        const room = Math.floor((size - SIZE) / 4);
        const near = NEW.filter((v) => v / 4 <= room);
        const ptr = near.length && below(6) === 0 ? 4 * Math.floor(near[below(near.length)] / 4) : 4 * [0, room, below(room + 1), below(room + 1), 1][below(5)];
        const memory = { buffer: new ArrayBuffer(size) };
        const around = below(2);
        if (around && size <= 200 * 65536) bulk(new Uint32Array(memory.buffer));
        const words = new Uint32Array(memory.buffer, ptr, SIZE / 4);
        const stale = below(2);
        if (stale) bulk(words);
        const final = new Uint32Array(SIZE / 4);
        content(kind, final);
        const fake = { memory, init() { words.set(final); }, frame_buf_ptr: () => ptr };
        const desc = `frame buffer ${kind} at ${ptr} of ${size} bytes, ${mode} loading, trial ${t}`;
        count('content ' + kind);
        if (await check(mode, { fake }, () => new Uint8Array(final.buffer), desc)) return;
    }
    res.distinct = seen.size;
}
await main();
fs.writeFileSync(out, JSON.stringify(res));
