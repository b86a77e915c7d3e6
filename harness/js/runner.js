'use strict';
// Runs the JavaScript client on behalf of the C24 monitor: one JSON request per line on stdin, one JSON answer per line on stdout.
const fs = require('fs'), http = require('http'), vm = require('vm'), readline = require('readline');

const agent = new http.Agent({ keepAlive: true, maxSockets: 8 });
const realSetTimeout = setTimeout;
globalThis.setTimeout = (f, ms, ...a) => realSetTimeout(() => { try { f(...a); } catch (e) { onThrow(e); } }, ms / 100);

let onThrow = () => {}; // exceptions out of callbacks of the operation under way
let requests = 0;
let late = []; // callbacks of earlier operations after their first

let origin = null; // where the page is from, if not from the server: then the rules for requests across origins apply (the Fetch standard)
let preflights = 0;
const list = (v) => String(v === undefined ? '' : v).split(',').map((x) => x.trim()).filter((x) => x !== '');
const safeHeaders = ['cache-control', 'content-language', 'content-length', 'content-type', 'expires', 'last-modified', 'pragma'];
const allowsOrigin = (res, o) => { const v = res.headers['access-control-allow-origin']; return v === '*' || v === o; };

class XHR {
  open(method, url, async) { this.method = method; this.url = url; this.hdr = {}; }
  setRequestHeader(k, v) { this.hdr[k] = v; }
  getResponseHeader(k) {
    if (this.origin !== null && !safeHeaders.includes(k.toLowerCase()) && !list(this.res.headers['access-control-expose-headers']).some((x) => x === '*' || x.toLowerCase() === k.toLowerCase())) return null;
    const v = this.res.headers[k.toLowerCase()];
    return v === undefined ? null : (Array.isArray(v) ? v.join(', ') : v);
  }
  send(data) {
    requests++;
    const me = onThrow;
    let over = false;
    const done = (f) => { if (over) return; over = true; const old = onThrow; onThrow = me; try { f(); } catch (e) { me(e); } finally { onThrow = old; } };
    const fail = () => done(() => { if (this.onerror) this.onerror({}); });
    let body = null;
    if (typeof data === 'string') body = Buffer.from(data, 'utf8');
    else if (data !== null && data !== undefined) body = Buffer.from(data.buffer ? data.buffer.slice(data.byteOffset, data.byteOffset + data.byteLength) : data);
    this.origin = origin;
    const exchange = (method, h, payload, f) => {
      let q;
      try {
        q = http.request(this.url, { method, headers: h, agent, maxHeaderSize: 4 << 20 }, (res) => {
          const parts = [];
          res.on('data', (d) => parts.push(d));
          res.on('aborted', fail);
          res.on('error', fail);
          res.on('end', () => {
            if (!res.complete || (this.origin !== null && !allowsOrigin(res, this.origin))) { fail(); return; }
            f(res, Buffer.concat(parts));
          });
        });
        q.on('error', fail);
      } catch (e) { realSetTimeout(fail, 0); return; }
      q.end(payload === null ? undefined : payload);
    };
    const real = () => {
      const h = Object.assign({}, this.hdr);
      if (body !== null) {
        h['Content-Length'] = body.length;
        if (typeof data === 'string') h['Content-Type'] = 'text/plain;charset=UTF-8';
      } else if (this.method !== 'GET') h['Content-Length'] = 0;
      if (this.origin !== null) h['Origin'] = this.origin;
      exchange(this.method, h, body, (res, b) => {
        this.res = res;
        this.status = res.statusCode;
        this.response = b.buffer.slice(b.byteOffset, b.byteOffset + b.length);
        done(() => { if (this.onload) this.onload({}); });
      });
    };
    const names = Object.keys(this.hdr).map((x) => x.toLowerCase()).filter((x) => !['accept', 'accept-language', 'content-language'].includes(x)).sort();
    const simple = ['GET', 'HEAD', 'POST'].includes(this.method);
    if (this.origin === null || (simple && names.length === 0)) { real(); return; }
    preflights++;
    const h = { Origin: this.origin, 'Access-Control-Request-Method': this.method };
    if (names.length > 0) h['Access-Control-Request-Headers'] = names.join(',');
    exchange('OPTIONS', h, null, (res) => {
      const methods = list(res.headers['access-control-allow-methods']), headers = list(res.headers['access-control-allow-headers']).map((x) => x.toLowerCase());
      if (res.statusCode < 200 || res.statusCode > 299) fail();
      else if (!simple && !methods.includes(this.method) && !methods.includes('*')) fail();
      else if (!names.every((x) => headers.includes(x) || (x !== 'authorization' && headers.includes('*')))) fail();
      else real();
    });
  }
}
globalThis.XMLHttpRequest = XHR;
// as in a browser: characters beyond 255 aren't allowed
globalThis.btoa = (s) => { s = String(s); for (let i = 0; i < s.length; i++) if (s.charCodeAt(i) > 255) throw new Error('InvalidCharacterError'); return Buffer.from(s, 'latin1').toString('base64'); };
globalThis.atob = (s) => {
  s = String(s).replace(/[\t\n\f\r ]/g, '');
  if (s.length % 4 === 0) s = s.replace(/==?$/, '');
  if (s.length % 4 === 1 || /[^A-Za-z0-9+/]/.test(s)) throw new Error('InvalidCharacterError');
  return Buffer.from(s, 'base64').toString('latin1');
};
vm.runInThisContext(fs.readFileSync(process.argv[2], 'utf8'), { filename: 'continusec.js' });

const bin = (b) => b === null || b === undefined ? null : Buffer.from(b, 'base64').toString('latin1');
const b64 = (s) => {
  if (s === null || s === undefined) return null;
  if (typeof s !== 'string') return '!' + typeof s;
  for (let i = 0; i < s.length; i++) if (s.charCodeAt(i) > 255) return '!wide';
  return Buffer.from(s, 'latin1').toString('base64');
};
const reasonOf = (e) => typeof e === 'string' ? e : 'exception: ' + (e && e.stack ? e.stack.split('\n').slice(0, 3).join(' ') : String(e));

const lhead = (h) => h ? new LogTreeHead(h.size, bin(h.root)) : null;
const mhead = (h) => h ? new MapTreeHead(lhead(h.log), bin(h.root)) : null;
const mstate = (s) => s ? new MapTreeState(mhead(s.head), lhead(s.thl)) : null;
const outL = (h) => ({ size: h.getTreeSize(), root: b64(h.getRootHash()) });
const outM = (h) => ({ log: outL(h.getMutationLogTreeHead()), root: b64(h.getRootHash()), size: h.getTreeSize() });
const outS = (s) => ({ head: outM(s.getMapHead()), thl: outL(s.getTreeHeadLogTreeHead()) });
const leafOf = (e) => { try { return b64(e.getLeafHash()); } catch (x) { return '!' + reasonOf(x); } };
const factories = { raw: RAW_DATA_ENTRY_FACTORY, json: JSON_ENTRY_FACTORY, red: REDACTED_JSON_ENTRY_FACTORY };
const outE = (e, fac) => {
  const rv = { leaf: leafOf(e) };
  try { const d = e.getData(); if (fac === 'raw') rv.data = b64(d); else rv.text = d === undefined ? '!undefined' : d; } catch (x) { rv.text = '!' + reasonOf(x); }
  return rv;
};
const outP = (p) => ({ leaf: b64(p.getLeafHash()), size: p.getTreeSize(), index: p.getLeafIndex(), path: p.getAuditPath().map(b64) });
const outC = (p) => ({ from: p.getFirstSize(), size: p.getSecondSize(), path: p.getAuditPath().map(b64) });
const outA = (a) => ({ leaf: b64(a.getLeafHash()) });
const entry = (v) => ({ raw: () => new RawDataEntry(bin(v.data)), json: () => new JsonEntry(v.text), redactable: () => new RedactableJsonEntry(v.text), mtl: () => new AddEntryResponse(bin(v.data)), head: () => mhead(v.head) })[v.kind]();
const proofOf = (p) => new LogInclusionProof(bin(p.leaf), p.size, p.index, p.path.map(bin));

function pure(q) {
  switch (q.op) {
    case 'sha256': return b64(sha256(bin(q.data)));
    case 'leaf': return b64(leafMerkleTreeHash(bin(q.data)));
    case 'node': return b64(nodeMerkleTreeHash(bin(q.l), bin(q.r)));
    case 'obj': return b64(objectHash(JSON.parse(q.text)));
    case 'objstd': return b64(objectHashWithStdRedaction(JSON.parse(q.text)));
    case 'entryleaf': return b64(entry(q.v).getLeafHash());
    case 'kp': return constructKeyPath(bin(q.data)).map((b) => b ? 1 : 0).join('');
    case 'defaults': return generateMapDefaultLeafValues().map(b64);
    case 'shed': { const v = JSON.stringify(shedRedactedWithStdRedaction(JSON.parse(q.text))); return v === undefined ? '!undefined' : v; }
    case 'reddata': return new RedactedJsonEntry(q.text).getData();
    case 'mapleaf': return b64(mhead(q.head).getLeafHash());
    case 'vincl': proofOf(q.proof).verify(lhead(q.head)); return null;
    case 'vcons': new LogConsistencyProof(q.from, q.size, q.path.map(bin)).verify(lhead(q.a), lhead(q.b)); return null;
    case 'vmap': new MapEntryResponse(bin(q.key), new RawDataEntry(bin(q.li)), q.size, q.path.map(bin)).verify(mhead(q.head)); return null;
  }
  throw new Error('no such op ' + q.op);
}

function call(q, finish) {
  const calls = [];
  origin = q.origin || null;
  let timer = null, ended = false, each = [];
  const end = () => { if (ended) return; ended = true; finish({ calls, each, late, requests: requests - r0, preflights: preflights - p0 }); late = []; };
  // a second callback, if there is to be one, comes at once or with the next answer
  const note = (c) => { if (ended) { late.push(q.m + ' ' + JSON.stringify(c)); return; } calls.push(c); realSetTimeout(end, 0); };
  const r0 = requests, p0 = preflights;
  const ok = (out) => function (v) { let val; try { val = arguments.length === 0 || out === null ? null : out(v); } catch (e) { val = '!' + reasonOf(e); } note({ ok: true, val, args: arguments.length }); };
  const bad = (reason) => note({ ok: false, reason: reasonOf(reason) });
  onThrow = (e) => note({ threw: true, reason: reasonOf(e) });
  const cl = new ContinusecClient(q.account, q.key, q.base);
  try {
    if (q.kind === 'map' && !q.sub) {
      const m = cl.getVerifiableMap(q.name);
      switch (q.m) {
        case 'getTreeHead': return m.getTreeHead(q.n, ok(outM), bad);
        case 'getValue': return m.getValue(bin(q.k), q.n, factories[q.fac], ok((x) => ({ key: b64(x.getKey()), size: x.getTreeSize(), value: outE(x.getValue(), q.fac), path: x.getAuditPath().map(b64) })), bad);
        case 'getVerifiedValue': return m.getVerifiedValue(bin(q.k), mstate(q.state), factories[q.fac], ok((e) => outE(e, q.fac)), bad);
        case 'setValue': return m.setValue(bin(q.k), entry(q.v), ok(outA), bad);
        case 'deleteValue': return m.deleteValue(bin(q.k), ok(outA), bad);
        case 'getVerifiedMapState': return m.getVerifiedMapState(mstate(q.prev), q.n, ok(outS), bad);
        case 'getVerifiedLatestMapState': return m.getVerifiedLatestMapState(mstate(q.prev), ok(outS), bad);
        case 'blockUntilSize': return m.blockUntilSize(q.n, ok(outM), bad);
      }
    } else {
      const l = q.kind === 'map' ? (q.sub === 'mutation' ? cl.getVerifiableMap(q.name).getMutationLog() : cl.getVerifiableMap(q.name).getTreeHeadLog()) : cl.getVerifiableLog(q.name);
      const saw = (i, e) => { each.push({ i, e: outE(e, q.fac) }); };
      switch (q.m) {
        case 'add': return l.add(entry(q.v), ok(outA), bad);
        case 'getTreeHead': return l.getTreeHead(q.n, ok(outL), bad);
        case 'getEntry': return l.getEntry(q.i, factories[q.fac], ok((e) => outE(e, q.fac)), bad);
        case 'getEntries': return l.getEntries(q.a, q.b, factories[q.fac], saw, ok(null), bad);
        case 'verifyEntries': return l.verifyEntries(lhead(q.prev), lhead(q.head), factories[q.fac], saw, ok(null), bad);
        case 'getInclusionProof': return l.getInclusionProof(q.n, entry(q.v), ok(outP), bad);
        case 'getInclusionProofByIndex': return l.getInclusionProofByIndex(q.n, q.i, ok(outP), bad);
        case 'verifyInclusion': return l.verifyInclusion(lhead(q.head), entry(q.v), ok(null), bad);
        case 'getConsistencyProof': return l.getConsistencyProof(q.a, q.b, ok(outC), bad);
        case 'verifyConsistency': return l.verifyConsistency(lhead(q.ha), lhead(q.hb), ok(null), bad);
        case 'getVerifiedTreeHead': return l.getVerifiedTreeHead(lhead(q.prev), q.n, ok(outL), bad);
        case 'getVerifiedLatestTreeHead': return l.getVerifiedLatestTreeHead(lhead(q.prev), ok(outL), bad);
        case 'verifySuppliedInclusionProof': return l.verifySuppliedInclusionProof(lhead(q.prev), proofOf(q.proof), ok(outL), bad);
        case 'blockUntilPresent': return l.blockUntilPresent(entry(q.v), ok(outL), bad);
      }
    }
    throw new Error('no such call');
  } catch (e) { onThrow(e); }
}

readline.createInterface({ input: process.stdin }).on('line', (line) => {
  const q = JSON.parse(line);
  const send = (a) => process.stdout.write(JSON.stringify(a) + '\n');
  if (q.op === 'call') { call(q, send); return; }
  try { send({ calls: [{ ok: true, val: pure(q) }] }); } catch (e) { send({ calls: [{ ok: false, reason: reasonOf(e) }] }); }
}).on('close', () => process.exit(0));
