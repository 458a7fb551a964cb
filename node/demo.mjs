// Drives the exports of the WebAssembly demo and watches its memory.
// usage: node demo.mjs MODULE POEM SEED TRIALS OUT     (POEM: frame buffer of the poem scene, little endian)
import fs from 'node:fs';
const [modulePath, poemPath, seed, trials, out] = process.argv.slice(2);
const WPL = 11, H = 536, N = WPL * H, SIZE = N * 4;
const poemBytes = fs.readFileSync(poemPath);
const poem = new Uint32Array(N);
for (let i = 0; i < N; i++) poem[i] = poemBytes.readUInt32LE(i * 4);
// numbers that the demo's sources did not have when this was written
const NEW = JSON.parse(process.env.NEW_NUMBERS || '[]');
let s = (Number(seed) * 2654435761 >>> 0) | 1;
const rnd = () => { s ^= s << 13; s ^= s >>> 17; s ^= s << 5; return s >>> 0; };
const res = { evaluations: 0, distinct: 0, samples: [], counters: { instances: 0, init: 0, frame_buf_ptr: 0, scribbles: 0 }, exports: [], violation: null };
const mod = new WebAssembly.Module(fs.readFileSync(modulePath));
res.exports = WebAssembly.Module.exports(mod).map((e) => e.name);
const imports = { js: { js_log_trace() {} } };
let hist;
const fail = (m) => { if (!res.violation) res.violation = { message: m, case: hist.join(', ') }; };
const seen = new Set();
for (let t = 0; t < +trials && !res.violation; t++) {
    hist = ['new instance'];
    const inst = new WebAssembly.Instance(mod, imports);
    const x = inst.exports;
    res.counters.instances++;
    let inited = false;
    const ptr = () => {
        res.counters.frame_buf_ptr++;
        const p = x.frame_buf_ptr() >>> 0;
        hist.push('frame_buf_ptr()=' + p);
        if (p % 4) return fail('pointer ' + p + ' is not aligned'), null;
        if (p === 0 || p + SIZE > x.memory.buffer.byteLength) return fail(`pointer ${p} + ${SIZE} lies outside of the memory (${x.memory.buffer.byteLength} bytes)`), null;

        return new Uint32Array(x.memory.buffer, p, N);
    };
    const look = () => {
        const w = ptr();
        if (!w) return;
        res.evaluations++;
        for (let i = 0; i < N; i++) {
            const d = ((w[i] ^ poem[i]) & (i % WPL === 10 ? 0xFFFF : -1)) >>> 0;
            if (d) return fail(`pixel (${(i % WPL) * 32 + 31 - Math.clz32(d & -d)},${Math.floor(i / WPL)}) is not as in the poem scene`);
        }
    };
    // in a few instances very many calls, of which only some are looked at
    if (t % 100 === 5) {
        const n = NEW.filter((v) => v < 20000);
        const many = 300 + (n.length ? n[rnd() % n.length] : rnd() % 300), which = t === 5 ? 'i' : t === 105 ? 'p' : 'ip'[rnd() % 2];
        for (let i = 0; i < many && !res.violation; i++) {
            if (which === 'i') { x.init(); res.counters.init++; inited = true; } else { x.frame_buf_ptr(); res.counters.frame_buf_ptr++; }
            if (i % 16 === 0 && inited) { hist = ['new instance', `${i + 1} times ${which}`]; look(); }
        }
        hist = ['new instance', `${many} times ${which === 'i' ? 'init' : 'frame_buf_ptr'}`];
    }
    const steps = t === 0 ? ['i'] : t === 1 ? ['p', 'i', 'i', 'i'] : Array.from({ length: 1 + rnd() % 10 }, () => 'iiips'[rnd() % 5]);
    for (const st of steps) {
        if (res.violation) break;
        try {
            if (st === 'i') { x.init(); inited = true; hist.push('init()'); res.counters.init++; look(); }
            else if (st === 'p') { ptr(); if (inited && hist[hist.length - 2] === 'init()') look(); }
            else {
                const w = ptr();
                if (w) {
                    const k = rnd() % (NEW.length ? 6 : 4), v = NEW.length ? NEW[rnd() % NEW.length] : 0;
                    for (let i = 0; i < N; i++) w[i] = k > 3 ? v : k === 0 ? 0 : k === 1 ? 0xFFFFFFFF : k === 2 ? rnd() : i % 2 ? rnd() : 0;
                    hist.push('frame buffer overwritten');
                    res.counters.scribbles++;
                }
            }
        } catch (e) {
            fail('call trapped: ' + e);
        }
    }
    const k = hist.map((h) => h.split('=')[0]).join(',');
    if (inited) seen.add(k);
    if (res.samples.length < 4) res.samples.push(k);
}
res.distinct = seen.size;
fs.writeFileSync(out, JSON.stringify(res));
