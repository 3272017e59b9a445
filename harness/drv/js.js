// runs calls of the WebAssembly module: one JSON request per line, one JSON answer per line
const fs = require('fs');
const m = require(process.argv[2] + '/cosmian_abe_gpsw.js');
const kinds = {
  b: (v) => new Uint8Array(Buffer.from(v, 'hex')),
  s: (v) => v,
  i: (v) => Number(v),
  f: (v) => Number(v),
  n: () => undefined,
};
const arg = (a) => { const k = Object.keys(a)[0]; return kinds[k](a[k]); };
const val = (v) => {
  if (v === undefined || v === null) return null;
  if (v instanceof Uint8Array) return { b: Buffer.from(v).toString('hex') };
  if (typeof v === 'number') return { i: String(v) };
  if (typeof v === 'string') return { s: v };
  return { '?': typeof v };
};
let rest = '';
process.stdin.setEncoding('utf8');
process.stdin.on('data', (d) => {
  rest += d;
  for (;;) {
    const i = rest.indexOf('\n');
    if (i < 0) return;
    const r = JSON.parse(rest.slice(0, i));
    rest = rest.slice(i + 1);
    const a = r.a.map(arg);
    let o;
    try {
      o = { ok: val(m[r.f](...a)) };
    } catch (e) {
      if (typeof e === 'string') o = { err: ['string', e] };
      else o = { bad: `${e && e.constructor && e.constructor.name}: ${e && e.message}` };
    }
    const t = Buffer.from(JSON.stringify(o) + '\n');
    for (let p = 0; p < t.length;) {
      try { p += fs.writeSync(1, t, p); } catch (e) { if (e.code !== 'EAGAIN') throw e; }
    }
  }
});
process.stdin.on('end', () => process.exit(0));
