// Drives www/js/ulight.js against the library compiled to WebAssembly.
//   node drive.mjs JS LIB.wasm THUNK.wasm JOBS OUT
// JOBS: one history per line: [{k, ...call, plan: [decision per allocation], run, cap}]; OUT: the same with what happened.
// A history is a sequence of calls on one instance. Decisions: 0 go on, -1 fail, n > 0 memory grows by n pages first.
import fs from 'node:fs';
import { pathToFileURL } from 'node:url';

const [js, lib, thunk, jobsPath, outPath] = process.argv.slice(2);
const libModule = new WebAssembly.Module(fs.readFileSync(lib));
const { loadWasm } = await import(pathToFileURL(js));

let cur = null; // what is recorded at the moment
let inApi = false, plan = [], inner = [];
let ex = null; // the exports of the instance
const sizes = new Map(); // address -> size, of everything allocated
const mem8 = () => new Uint8Array(ex.memory.buffer);
const bytesAt = (p, n) => Array.from(mem8().subarray(p >>> 0, (p >>> 0) + (n >>> 0)));
const clean = (p, n) => bytesAt(p - 16, 16).every(b => b === 0) && bytesAt(p + (n || 1), 16).every(b => b === 0);

function wrap(raw) {
    const w = {};
    for (const [name, f] of Object.entries(raw)) {
        w[name] = f;
    }
    const api = (f) => (...a) => {
        const was = inApi;
        inApi = true;
        try {
            return f(...a);
        } finally {
            inApi = was;
        }
    };
    const note = (e) => { if (cur) cur.ev.push(e); };
    w.ulight_alloc = api((size, align) => {
        const p = raw.ulight_alloc(size, align);
        if (p) sizes.set(p, size);
        note({ t: 'a', p, size, align });
        return p;
    });
    w.ulight_free = api((p, size, align) => {
        note({ t: 'f', p, size, align, ok: sizes.has(p) && clean(p, sizes.get(p)) ? 1 : 0 });
        raw.ulight_free(p, size, align);
    });
    w.ulight_new = api(() => {
        const p = raw.ulight_new();
        const size = raw.vp_get(0, 16);
        if (p) sizes.set(p, size);
        note({ t: 'n', p, size });
        return p;
    });
    w.ulight_delete = api((p) => {
        note({ t: 'd', p, ok: sizes.has(p) && clean(p, sizes.get(p)) ? 1 : 0 });
        raw.ulight_delete(p);
    });
    w.ulight_get_lang = (p, n) => {
        const id = raw.ulight_get_lang(p, n);
        note({ t: 'g', p, n, bytes: bytesAt(p, n), id });
        return id;
    };
    w.ulight_source_to_html = (s) => {
        const g = (i) => raw.vp_get(s, i);
        const e = {
            t: 'h', s, src: g(0), n: g(1), lang: g(2), flags: g(3), tok: g(4), ntok: g(5), text: g(10), ntext: g(11),
            tag: bytesAt(g(6), g(7)), attr: bytesAt(g(8), g(9)), bytes: bytesAt(g(0), g(1)),
            tsize: g(14), talign: g(15), status: -99, error: '',
        };
        note(e);
        const d = cur?.call.run ?? [0, 0, 0];
        const cap = cur?.call.cap ?? 0;
        if (cap) {
            raw.vp_set(s, Math.min(e.ntok, cap), Math.min(e.ntext, cap));
        }
        if (d[0]) raw.vp_grow(d[0]);
        inner = [d[1]];
        const status = raw.ulight_source_to_html(s);
        inner = [];
        if (d[2]) raw.vp_grow(d[2]);
        e.status = status;
        e.error = status ? Buffer.from(bytesAt(g(12), g(13))).toString() : '';
        return status;
    };
    return w;
}

globalThis.fetch = async (uri) => ({
    bytes: async () => new Uint8Array(fs.readFileSync(thunk)),
    arrayBuffer: async () => Uint8Array.from(fs.readFileSync(thunk)).buffer,
    uri,
});
const makeInstance = async (imports) => {
    const env = { ...imports.env };
    env.vp_plan = () => {
        const d = inApi ? plan.shift() : inner.shift();
        return d ?? 0;
    };
    env.vp_freed = (p, size, align, kind) => {
        if (!kind && p) mem8().fill(0xdd, p >>> 0, (p >>> 0) + size);
    };
    for (const i of WebAssembly.Module.imports(libModule)) {
        env[i.name] ??= () => { throw new Error('not provided: ' + i.name); };
    }
    const instance = await WebAssembly.instantiate(libModule, { env });
    ex = instance.exports;
    sizes.clear();
    return { module: libModule, instance: { exports: wrap(instance.exports) } };
};
WebAssembly.instantiateStreaming = async (response, imports) => {
    await response;
    return makeInstance(imports);
};

const str = (units) => {
    let s = '';
    for (const u of units) s += String.fromCharCode(u);
    return s;
};
const utf8 = (s) => ({ b: Array.from(new TextEncoder().encode(s)), wf: s.isWellFormed() ? 1 : 0 });

const out = fs.openSync(outPath, 'w');
let log = [];
console.error = (...a) => { log.push(a.map(x => String(x)).join(' ')); };
console.warn = console.error;
for (const line of fs.readFileSync(jobsPath, 'utf8').split('\n')) {
    if (!line) continue;
    const calls = JSON.parse(line);
    cur = null;
    const w = await loadWasm();
    const result = [];
    for (const call of calls) {
        cur = { call, ev: [] };
        plan = [...(call.plan ?? [])];
        log = [];
        const key = call.name ? str(call.name) : call.id;
        let res;
        try {
            let v;
            if (call.k === 'html') {
                v = w.toHtml(call.units ? str(call.units) : Uint8Array.from(call.bytes), key);
                res = typeof v === 'string' ? { t: 'text', ...utf8(v) } : { t: 'odd', what: typeof v };
            } else if (call.k === 'id') {
                v = w.getLanguageId(key);
                res = Number.isInteger(v) ? { t: 'id', id: v } : { t: 'odd', what: typeof v };
            } else if (call.k === 'display') {
                v = w.getLanguageDisplayName(key);
                res = v === null ? { t: 'null' } : typeof v === 'string' ? { t: 'text', ...utf8(v) } : { t: 'odd', what: typeof v };
            } else if (call.k === 'list') {
                v = w.getLanguageList();
                res = { t: 'list', n: w.getLanguageListLength(), list: v.map(x => [utf8(x.name).b, utf8(x.displayName).b, x.id]) };
            }
        } catch (e) {
            res = typeof e === 'number' ? { t: 'status', status: e }
                : { t: 'error', name: e?.name ?? '?', what: String(e?.message), alloc: e?.name === 'Error' && /alloc/i.test(e.message) ? 1 : 0 };
        }
        res.logged = log;
        result.push({ ev: cur.ev, res });
        cur = null;
        plan = [];
    }
    fs.writeSync(out, JSON.stringify(result) + '\n');
}
fs.closeSync(out);
