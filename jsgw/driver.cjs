// A JavaScript gateway: verifies the messages it is handed (one JSON object per line) with the
// WebAssembly build of the verifier and answers one JSON object per line.
const fs = require('fs');
for (const k of ['log', 'info', 'warn', 'error', 'debug', 'trace']) console[k] = () => {};
const gw = require(process.argv[2]);
const bytes = (s) => new Uint8Array(Buffer.from(s, 'base64'));
const names = Object.fromEntries(Object.entries(gw.ResponseVerificationErrorCode).filter(([k]) => isNaN(Number(k))).map(([k, v]) => [v, k]));

function answer(m) {
  const body = (s, list) => (list ? Array.from(bytes(s)) : bytes(s));
  const req = { method: m.method, url: m.url, headers: m.req_headers, body: body(m.req_body, m.list), certificate_version: [] };
  const resp = { status_code: m.status, headers: m.resp_headers, body: body(m.resp_body, m.list) };
  let r;
  try {
    r = gw.verifyRequestResponsePair(req, resp, bytes(m.canister), BigInt(m.now), BigInt(m.offset), bytes(m.key), m.min);
  } catch (e) {
    if (e instanceof gw.ResponseVerificationError) {
      return { err: names[e.code] ?? `code ${e.code}`, message: e.message };
    }
    return { trap: `${e && e.name}: ${e && e.message}` };
  }
  const p = r.response;
  return {
    ok: {
      version: r.verificationVersion,
      response: p === undefined || p === null ? null : {
        status: p.statusCode === undefined ? null : p.statusCode,
        headers: p.headers,
        body: Buffer.from(p.body).toString('base64'),
        bytes: p.body instanceof Uint8Array,
      },
    },
  };
}

function put(o) {
  const b = Buffer.from(JSON.stringify(o) + '\n');
  for (let i = 0; i < b.length; ) i += fs.writeSync(1, b, i);
}

put({ min: gw.getMinVerificationVersion(), max: gw.getMaxVerificationVersion() });
const chunk = Buffer.alloc(1 << 16);
let parts = [];
for (;;) {
  const n = fs.readSync(0, chunk);
  if (n === 0) break;
  let at = 0;
  for (let nl; (nl = chunk.subarray(0, n).indexOf(10, at)) >= 0; at = nl + 1) {
    parts.push(Buffer.from(chunk.subarray(at, nl)));
    const line = Buffer.concat(parts).toString('utf8');
    parts = [];
    put(answer(JSON.parse(line)));
  }
  parts.push(Buffer.from(chunk.subarray(at, n)));
}
