// Reads one request per line: {wasm: base64, imports: [{name, params: [t], ret: t}], runs: [{f, params: [t], ret: t, args: [s], answers: [s]}]}
// Answers one line: bad US message | fail US message | per run, separated by RS: ok|trap|js US value US events US output (hex)
const rl = require('readline').createInterface({ input: process.stdin, crlfDelay: Infinity });
const dv = new DataView(new ArrayBuffer(8));
function dec(t, s) {
  if (t === 'i64') return BigInt(s);
  if (t === 'f32') { if (s === 'nan32') return NaN; dv.setUint32(0, parseInt(s.slice(4), 16)); return dv.getFloat32(0); }
  if (t === 'f64') { if (s === 'nan64') return NaN; dv.setBigUint64(0, BigInt('0x' + s.slice(4))); return dv.getFloat64(0); }
  if (t === 'nil') return undefined;
  return Number(s) | 0;
}
function enc(t, v) {
  if (t === 'i64') return String(v);
  if (t === 'f32') { if (Number.isNaN(v)) return 'nan32'; dv.setFloat32(0, v); return 'f32:' + dv.getUint32(0).toString(16).padStart(8, '0'); }
  if (t === 'f64') { if (Number.isNaN(v)) return 'nan64'; dv.setFloat64(0, v); return 'f64:' + dv.getBigUint64(0).toString(16).padStart(16, '0'); }
  if (t === 'nil') return '()';
  if (t === 'i1') return String(v >>> 0);
  return String(v);
}
rl.on('line', line => {
  const q = JSON.parse(line);
  let out;
  try {
    const bytes = Buffer.from(q.wasm, 'base64');
    const state = { ev: [], answers: [], writes: [], out: '' };
    const env = {};
    for (const i of q.imports) env[i.name] = (...a) => {
      state.ev.push(i.name + '(' + a.map((x, k) => enc(i.params[k], x)).join(', ') + ')');
      return dec(i.ret, state.answers.length ? state.answers.shift() : (i.ret[0] === 'f' ? i.ret + ':0' : '0'));
    };
    let inst = null;
    const wasi = {
      fd_write(fd, iovs, n, nwritten) {
        const m = new DataView(inst.exports.memory.buffer);
        let total = 0, limit = state.writes.length ? state.writes.shift() : -1;
        if (limit < -1) return -limit;
        for (let k = 0; k < n; k++) {
          const p = m.getUint32(iovs + 8 * k, true);
          let l = m.getUint32(iovs + 8 * k + 4, true);
          if (limit >= 0) { l = Math.min(l, limit); limit -= l; }
          state.out += Buffer.from(new Uint8Array(inst.exports.memory.buffer, p, l)).toString('hex');
          total += l;
        }
        state.ev.push('fd_write ' + fd);
        m.setUint32(nwritten, total, true);
        return 0;
      }
    };
    let mod;
    try { mod = new WebAssembly.Module(bytes); } catch (e) { out = { bad: String(e.message) }; }
    if (mod) {
      inst = new WebAssembly.Instance(mod, { env, wasi_snapshot_preview1: wasi });
      const res = [];
      for (const r of q.runs) {
        state.ev = []; state.answers = r.answers.slice(); state.writes = r.writes.slice(); state.out = '';
        let o;
        try {
          const v = inst.exports[r.f](...r.args.map((a, k) => dec(r.params[k], a)));
          o = { ok: enc(r.ret, v) };
        } catch (e) {
          if (e instanceof WebAssembly.RuntimeError) o = { trap: String(e.message) };
          else o = { js: String(e && e.message || e) };
        }
        o.ev = state.ev; o.out = state.out;
        res.push(o);
      }
      out = { res };
    }
  } catch (e) { out = { fail: String(e && e.stack || e) }; }
  const one = s => s.replace(/[\x00-\x1f]/g, ' ');
  let t;
  if (out.bad !== undefined) t = 'bad\x1f' + one(out.bad);
  else if (out.fail !== undefined) t = 'fail\x1f' + one(out.fail);
  else t = out.res.map(o => {
    const k = 'ok' in o ? 'ok' : 'trap' in o ? 'trap' : 'js';
    return k + '\x1f' + one(o[k]) + '\x1f' + o.ev.map(one).join('; ') + '\x1f' + o.out;
  }).join('\x1e');
  process.stdout.write(t + '\n');
});
