// Runs the workloads of a check in the WebAssembly build, eight instances at a time.
// usage: node runwasm.mjs MODULE MODEL SEED TIER CHECKNUMBER SCALE DIGESTS OUT
import { Worker, isMainThread, workerData, parentPort } from 'node:worker_threads';
import fs from 'node:fs';
import { fileURLToPath } from 'node:url';

const THREADS = 8;
if (isMainThread) {
    const [module, model, seed, tier, check, scale, digests, out] = process.argv.slice(2);
    const all = [];
    let failed = null, evaluations = 0, distinct = 0, left = THREADS;
    const finish = () => {
        all.sort((a, b) => a[0] - b[0] || a[2] - b[2]);
        fs.writeFileSync(digests, all.map(([, n, i, d]) => `${n} ${i} ${d}`).join('\n') + '\n');
        fs.writeFileSync(out, JSON.stringify({ evaluations, distinct, indices: all.length, violation: failed }));
    };
    for (let t = 0; t < THREADS; t++) {
        const w = new Worker(fileURLToPath(import.meta.url), { workerData: { t, module, model, seed: +seed, thorough: tier === 'thorough' ? 1 : 0, check: +check, scale: +scale } });
        w.on('message', (m) => {
            evaluations += m.evaluations;
            distinct += m.distinct;
            for (const d of m.digests) all.push(d);
            if (m.failed && (!failed || m.failed.order < failed.order)) failed = m.failed;
            if (--left === 0) finish();
        });
        w.on('error', (e) => { console.error('worker', t, e); process.exit(3); });
    }
} else {
    const { t, module, model, seed, thorough, check, scale } = workerData;
    const inst = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(module)), {});
    const x = inst.exports;
    const str = (p, n) => Buffer.from(x.memory.buffer, p >>> 0, n >>> 0).toString('utf8');
    const data = fs.readFileSync(model);
    const p = x.give(data.length) >>> 0;
    new Uint8Array(x.memory.buffer).set(data, p);
    x.setup(p, data.length, seed, thorough, check);
    const digests = [];
    let failed = null;
    outer: for (let w = 0; w < x.workloads(); w++) {
        const name = str(x.name_ptr(w), x.name_len(w));
        const full = x.size(w) >>> 0;
        const n = scale === 100 ? full : Math.max(1, Math.floor(full * scale / 100));
        for (let k = t; k < n; k += THREADS) {
            const i = n < full ? Math.floor(k * full / n) : k;
            let r, trap = '';
            try {
                r = x.run(w, i);
            } catch (e) {
                if (!(e instanceof WebAssembly.RuntimeError)) throw e;
                r = 1;
                trap = String(e) + ' ';
            }
            if (r !== 0) {
                failed = { order: w * 2 ** 40 + i, workload: name, index: i, message: trap + str(x.msg_ptr(), x.msg_len()) };
                break outer;
            }
            digests.push([w, name, i, (x.digest_hi() >>> 0).toString(16).padStart(8, '0') + (x.digest_lo() >>> 0).toString(16).padStart(8, '0')]);
        }
    }
    let evaluations = 0, distinct = 0;
    try { evaluations = x.evaluations(); distinct = x.distinct(); } catch (e) { /* after a trap */ }
    parentPort.postMessage({ digests, failed, evaluations, distinct });
}
