'use strict';
// Stands in for a browser in which a person uses the explorer page: one JSON request per line on stdin, one JSON answer per line on stdout.
// It has as much of the DOM, of jQuery and of the 2d canvas as such a page needs. What the page uses beyond that is answered as unsupported.
const http = require('http'), vm = require('vm'), readline = require('readline');

const agent = new http.Agent({ keepAlive: true, maxSockets: 8 });
const realSetTimeout = setTimeout;

let unsupported = []; // what the page used that isn't here
class Unsupported extends Error {}
const strict = (o, what) => new Proxy(o, {
  get(t, k, r) {
    if (typeof k === 'string' && !(k in t) && k !== 'then' && k !== 'toJSON') { unsupported.push(what + '.' + k); throw new Unsupported(what + '.' + k); }
    return Reflect.get(t, k, r);
  },
});

// ---- elements

class Text { constructor(s) { this.data = s; this.parentNode = null; } get textContent() { return this.data; } }

class El {
  constructor(page, tag) {
    this.page = page; this.tag = tag; this.attrs = {}; this.childNodes = []; this.parentNode = null; this.handlers = {}; this.val = undefined; this.style_ = {};
    if (tag === 'canvas') this.ctx = new Ctx(this);
  }
  get tagName() { return this.tag.toUpperCase(); }
  get id() { return this.attrs.id || ''; }
  set id(v) { this.attrs.id = String(v); }
  get className() { return this.attrs.class || ''; }
  set className(v) { this.attrs.class = String(v); }
  get classes() { return this.className.split(/\s+/).filter((x) => x !== ''); }
  get classList() {
    const el = this;
    return { contains: (c) => el.classes.includes(c), add: (...cs) => cs.forEach((c) => el.addClass(c)), remove: (...cs) => cs.forEach((c) => el.removeClass(c)), toggle: (c) => { if (el.classes.includes(c)) el.removeClass(c); else el.addClass(c); } };
  }
  addClass(c) { if (!this.classes.includes(c)) this.className = this.classes.concat([c]).join(' '); }
  removeClass(c) { this.className = this.classes.filter((x) => x !== c).join(' '); }
  get style() { return this.style_; }
  getAttribute(k) { return k in this.attrs ? this.attrs[k] : null; }
  setAttribute(k, v) { this.attrs[k] = String(v); if (k === 'style') this.parseStyle(); }
  removeAttribute(k) { delete this.attrs[k]; }
  hasAttribute(k) { return k in this.attrs; }
  parseStyle() {
    for (const d of (this.attrs.style || '').split(';')) {
      const i = d.indexOf(':');
      if (i > 0) this.style_[d.slice(0, i).trim().replace(/-(\w)/g, (_, c) => c.toUpperCase())] = d.slice(i + 1).trim();
    }
  }
  get children() { return this.childNodes.filter((c) => c instanceof El); }
  get firstChild() { return this.childNodes.length > 0 ? this.childNodes[0] : null; }
  get lastChild() { return this.childNodes.length > 0 ? this.childNodes[this.childNodes.length - 1] : null; }
  get parentElement() { return this.parentNode; }
  appendChild(c) { detach(c); c.parentNode = this; this.childNodes.push(c); return c; }
  append(...cs) { for (const c of cs) this.appendChild(typeof c === 'object' ? c : new Text(String(c))); }
  insertBefore(c, ref) { detach(c); c.parentNode = this; const i = this.childNodes.indexOf(ref); this.childNodes.splice(i < 0 ? this.childNodes.length : i, 0, c); return c; }
  removeChild(c) { detach(c); return c; }
  remove() { detach(this); }
  replaceChildren(...cs) { this.clear(); this.append(...cs); }
  clear() { for (const c of this.childNodes.slice()) detach(c); }
  get textContent() { return this.childNodes.map((c) => c.textContent).join(''); }
  set textContent(s) { this.clear(); if (s !== null && s !== undefined && String(s) !== '') this.appendChild(new Text(String(s))); }
  get innerText() { return this.textContent; }
  set innerText(s) { this.textContent = s; }
  get innerHTML() { unsupported.push('innerHTML'); throw new Unsupported('innerHTML'); }
  set innerHTML(s) { this.clear(); for (const c of parseHTML(this.page, String(s)).childNodes.slice()) this.appendChild(c); }
  get value() { return this.val !== undefined ? this.val : this.tag === 'textarea' ? this.textContent : this.attrs.value || ''; }
  set value(v) { this.val = String(v); }
  get hidden() { return 'hidden' in this.attrs; }
  set hidden(v) { if (v) this.attrs.hidden = ''; else delete this.attrs.hidden; }
  get disabled() { return 'disabled' in this.attrs; }
  set disabled(v) { if (v) this.attrs.disabled = ''; else delete this.attrs.disabled; }
  get visible() { for (let e = this; e !== null; e = e.parentNode) if (e.style_.display === 'none' || e.style_.visibility === 'hidden' || e.hidden) return false; return true; }
  get attached() { for (let e = this; e !== null; e = e.parentNode) if (e === this.page.root) return true; return false; }
  focus() {}
  blur() {}
  scrollIntoView() {}
  click() { this.page.fire(this, 'click'); }
  addEventListener(evt, f) { (this.handlers[evt] = this.handlers[evt] || []).push(f); }
  removeEventListener(evt, f) { this.handlers[evt] = (this.handlers[evt] || []).filter((x) => x !== f); }
  getContext(kind) { if (this.tag !== 'canvas' || kind !== '2d') throw new TypeError('no context'); return this.ctx.face; }
  set width(v) { if (this.tag === 'canvas') { this.ctx.w = size(v, 300); this.ctx.reset(); } else this.attrs.width = String(v); }
  get width() { return this.tag === 'canvas' ? this.ctx.w : 0; }
  set height(v) { if (this.tag === 'canvas') { this.ctx.h = size(v, 150); this.ctx.reset(); } else this.attrs.height = String(v); }
  get height() { return this.tag === 'canvas' ? this.ctx.h : 0; }
  *all() { for (const c of this.children) { yield c; yield* c.all(); } }
  matches(sel) { return sel.split(',').some((s) => matches(this, s.trim().split(/\s+/))); }
  querySelectorAll(sel) { return [...this.all()].filter((e) => e.matches(sel)); }
  querySelector(sel) { const a = this.querySelectorAll(sel); return a.length > 0 ? a[0] : null; }
  getElementsByClassName(c) { return [...this.all()].filter((e) => e.classes.includes(c)); }
  getElementsByTagName(t) { return [...this.all()].filter((e) => e.tag === t.toLowerCase()); }
  closest(sel) { for (let e = this; e !== null; e = e.parentNode) if (e.matches(sel)) return e; return null; }
}
const size = (v, dflt) => { v = Number(v); return Number.isFinite(v) && v >= 0 && v <= 0x7fffffff ? Math.trunc(v) : Number.isFinite(v) ? dflt : 0; };
const detach = (c) => { const p = c.parentNode; if (p) { p.childNodes.splice(p.childNodes.indexOf(c), 1); c.parentNode = null; } };

const simple = (el, s) => {
  const m = /^([a-zA-Z][\w-]*|\*)?((?:[#.][\w-]+)*)$/.exec(s);
  if (!m) { unsupported.push('selector ' + s); throw new Unsupported('selector ' + s); }
  if (m[1] && m[1] !== '*' && el.tag !== m[1].toLowerCase()) return false;
  return (m[2].match(/[#.][\w-]+/g) || []).every((p) => p[0] === '#' ? el.id === p.slice(1) : el.classes.includes(p.slice(1)));
};
const matches = (el, parts) => {
  if (!simple(el, parts[parts.length - 1])) return false;
  if (parts.length === 1) return true;
  for (let e = el.parentNode; e !== null; e = e.parentNode) if (matches(e, parts.slice(0, -1))) return true;
  return false;
};

const voids = ['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'source', 'wbr'];
const unescapeHTML = (s) => s.replace(/&(#\d+|#x[0-9a-fA-F]+|\w+);/g, (all, n) => {
  const known = { amp: '&', lt: '<', gt: '>', quot: '"', nbsp: '\u00a0', copy: '\u00a9', mdash: '\u2014', ndash: '\u2013', hellip: '\u2026' };
  if (n[0] !== '#') return n in known ? known[n] : all;
  return String.fromCodePoint(n[1] === 'x' ? parseInt(n.slice(2), 16) : parseInt(n.slice(1), 10));
});

function parseHTML(page, s) {
  const root = new El(page, '#document');
  let cur = root, i = 0;
  while (i < s.length) {
    if (s.startsWith('<!--', i)) { const j = s.indexOf('-->', i); i = j < 0 ? s.length : j + 3; continue; }
    if (s.startsWith('<!', i)) { const j = s.indexOf('>', i); i = j < 0 ? s.length : j + 1; continue; }
    const close = /^<\/([a-zA-Z][\w-]*)\s*>/.exec(s.slice(i, i + 100));
    if (close) {
      const t = close[1].toLowerCase();
      i += close[0].length;
      let e = cur;
      while (e !== root && e.tag !== t) e = e.parentNode;
      if (e !== root) cur = e.parentNode;
      continue;
    }
    if (s[i] === '<' && /[a-zA-Z]/.test(s[i + 1] || '')) {
      const m = /<([a-zA-Z][\w-]*)((?:\s+[^\s=>\/"']+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>"']+))?)*)\s*(\/?)>/y;
      m.lastIndex = i;
      const t = m.exec(s);
      if (t) {
        i += t[0].length;
        const el = new El(page, t[1].toLowerCase());
        for (const a of t[2].matchAll(/([^\s=>\/"']+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>"']+)))?/g)) {
          const v = a[2] !== undefined ? a[2] : a[3] !== undefined ? a[3] : a[4] !== undefined ? a[4] : '';
          el.attrs[a[1].toLowerCase()] = unescapeHTML(v);
        }
        el.parseStyle();
        if (el.tag === 'p' && cur.tag === 'p') cur = cur.parentNode;
        cur.appendChild(el);
        if (['script', 'style', 'textarea', 'title'].includes(el.tag) && t[3] !== '/') {
          const j = s.toLowerCase().indexOf('</' + el.tag, i), raw = s.slice(i, j < 0 ? s.length : j);
          if (raw !== '') el.appendChild(new Text(el.tag === 'textarea' || el.tag === 'title' ? unescapeHTML(raw) : raw));
          i = j < 0 ? s.length : s.indexOf('>', j) + 1;
        } else if (t[3] !== '/' && !voids.includes(el.tag)) cur = el;
        continue;
      }
    }
    let j = s.indexOf('<', i + 1);
    if (j < 0) j = s.length;
    cur.appendChild(new Text(unescapeHTML(s.slice(i, j))));
    i = j;
  }
  return root;
}

// ---- canvas: what is drawn, in the canvas' own pixels

const names = { black: '#000000', white: '#ffffff', lightcoral: '#f08080', darkkhaki: '#bdb76b', blueviolet: '#8a2be2' };
const colour = (v, old) => {
  if (typeof v !== 'string') return old; // as browsers do with what isn't a colour
  const s = v.trim().toLowerCase();
  if (s in names) return names[s];
  if (/^#[0-9a-f]{6}$/.test(s)) return s;
  if (/^#[0-9a-f]{3}$/.test(s)) return '#' + s[1] + s[1] + s[2] + s[2] + s[3] + s[3];
  const m = /^rgb\(\s*(\d+)\s*,\s*(\d+)\s*,\s*(\d+)\s*\)$/.exec(s);
  if (m) return '#' + m.slice(1).map((x) => (256 + Math.min(255, Number(x))).toString(16).slice(1)).join('');
  if (/^[a-z]+$/.test(s)) return s;
  return old;
};
const IDENT = [1, 0, 0, 1, 0, 0];

class Ctx {
  constructor(canvas) { this.canvas = canvas; this.w = 300; this.h = 150; this.ops = []; this.reset(); this.face = this.makeFace(); }
  reset() { this.ops.length = 0; this.m = IDENT; this.dash = []; this.fill = '#000000'; this.stroke = '#000000'; this.align = 'start'; this.stack = []; this.path = []; this.at = null; this.start = null; }
  pt(x, y) { const m = this.m; return [m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5]]; }
  mul(n) { const m = this.m; this.m = [m[0] * n[0] + m[2] * n[1], m[1] * n[0] + m[3] * n[1], m[0] * n[2] + m[2] * n[3], m[1] * n[2] + m[3] * n[3], m[0] * n[4] + m[2] * n[5] + m[4], m[1] * n[4] + m[3] * n[5] + m[5]]; }
  box(kind, x, y, w, h, c) {
    if (![x, y, w, h].every(Number.isFinite)) return;
    if (this.m[1] !== 0 || this.m[2] !== 0) { unsupported.push('turned box'); return; }
    const [a, b] = this.pt(x, y), [p, q] = this.pt(x + w, y + h);
    this.ops.push({ k: kind, x: Math.min(a, p), y: Math.min(b, q), w: Math.abs(p - a), h: Math.abs(q - b), c });
  }
  makeFace() {
    const t = this;
    const f = {
      canvas: t.canvas, font: '10px sans-serif', lineWidth: 1, textBaseline: 'alphabetic', lineCap: 'butt', lineJoin: 'miter', globalAlpha: 1,
      get fillStyle() { return t.fill; }, set fillStyle(v) { t.fill = colour(v, t.fill); },
      get strokeStyle() { return t.stroke; }, set strokeStyle(v) { t.stroke = colour(v, t.stroke); },
      get textAlign() { return t.align; }, set textAlign(v) { t.align = v; },
      save() { t.stack.push([t.m, t.dash, t.fill, t.stroke, t.align]); },
      restore() { if (t.stack.length > 0) [t.m, t.dash, t.fill, t.stroke, t.align] = t.stack.pop(); },
      scale(x, y) { t.mul([x, 0, 0, y, 0, 0]); },
      translate(x, y) { if (Number.isFinite(x) && Number.isFinite(y)) t.mul([1, 0, 0, 1, x, y]); },
      transform(...n) { t.mul(n); }, setTransform(...n) { t.m = n; }, resetTransform() { t.m = IDENT; },
      setLineDash(d) { t.dash = [...d]; }, getLineDash() { return t.dash; },
      fillRect(x, y, w, h) { t.box('fill', x, y, w, h, t.fill); },
      strokeRect(x, y, w, h) { t.box('stroke', x, y, w, h, t.stroke); },
      clearRect(x, y, w, h) { t.box('clear', x, y, w, h, ''); },
      fillText(s, x, y) { if (Number.isFinite(x) && Number.isFinite(y)) { const p = t.pt(x, y); t.ops.push({ k: 'text', s: String(s), x: p[0], y: p[1], c: t.fill, align: t.align }); } },
      measureText(s) { return { width: 6 * String(s).length }; },
      beginPath() { t.path = []; t.at = t.start = null; },
      moveTo(x, y) { if (Number.isFinite(x) && Number.isFinite(y)) t.at = t.start = t.pt(x, y); },
      lineTo(x, y) { if (!Number.isFinite(x) || !Number.isFinite(y)) return; const p = t.pt(x, y); if (t.at !== null) t.path.push([t.at, p]); else t.start = p; t.at = p; },
      closePath() { if (t.at !== null) { t.path.push([t.at, t.start]); t.at = t.start; } },
      stroke() { for (const [a, b] of t.path) t.ops.push({ k: 'line', x: a[0], y: a[1], w: b[0], h: b[1], dash: t.dash.length > 0 }); },
    };
    return strict(f, 'canvas');
  }
}

// ---- jQuery

class JQ {
  constructor(page, els) { this.page = page; this.length = els.length; els.forEach((e, i) => { this[i] = e; }); }
  get els() { return Array.from({ length: this.length }, (_, i) => this[i]); }
  wrap(els) { return wrap(this.page, [...new Set(els)]); }
  each(f) { this.els.forEach((e, i) => f.call(e, i, e)); return this; }
  get(i) { return i === undefined ? this.els : this[i < 0 ? this.length + i : i]; }
  toArray() { return this.els; }
  eq(i) { return this.wrap(this.els.slice(i, i + 1 || undefined)); }
  first() { return this.wrap(this.els.slice(0, 1)); }
  last() { return this.wrap(this.els.slice(-1)); }
  find(s) { return this.wrap(this.els.flatMap((e) => e.querySelectorAll(s))); }
  filter(s) { return this.wrap(this.els.filter((e, i) => typeof s === 'function' ? s.call(e, i, e) : e.matches(s))); }
  not(s) { return this.wrap(this.els.filter((e) => !e.matches(s))); }
  is(s) { return this.els.some((e) => s === ':visible' ? e.visible : s === ':hidden' ? !e.visible : e.matches(s)); }
  parent() { return this.wrap(this.els.map((e) => e.parentNode).filter((e) => e !== null)); }
  closest(s) { return this.wrap(this.els.map((e) => e.closest(s)).filter((e) => e !== null)); }
  children(s) { return this.wrap(this.els.flatMap((e) => e.children).filter((e) => s === undefined || e.matches(s))); }
  siblings(s) { return this.wrap(this.els.flatMap((e) => e.parentNode.children.filter((x) => x !== e)).filter((e) => s === undefined || e.matches(s))); }
  on(evt, f) { this.els.forEach((e) => evt.split(/\s+/).forEach((v) => e.addEventListener(v, f))); return this; }
  bind(evt, f) { return this.on(evt, f); }
  off(evt) { this.els.forEach((e) => { e.handlers[evt] = []; }); return this; }
  click(f) { if (f !== undefined) return this.on('click', f); return this.trigger('click'); }
  trigger(evt) { this.els.forEach((e) => this.page.fire(e, evt)); return this; }
  focus() { return this; }
  text(s) { if (s === undefined) return this.els.map((e) => e.textContent).join(''); this.els.forEach((e) => { e.textContent = typeof s === 'number' ? String(s) : s; }); return this; }
  html(s) { if (s === undefined) return this[0].innerHTML; this.els.forEach((e) => { e.innerHTML = s; }); return this; }
  val(v) { if (v === undefined) return this.length > 0 ? this[0].value : undefined; this.els.forEach((e) => { e.value = v; }); return this; }
  append(...xs) { if (this.length > 0) for (const c of nodes(this.page, xs)) this[0].appendChild(c); return this; }
  prepend(...xs) { if (this.length > 0) { const ref = this[0].firstChild; for (const c of nodes(this.page, xs)) this[0].insertBefore(c, ref); } return this; }
  appendTo(t) { wrap(this.page, t instanceof JQ ? t.els : [t]).append(this); return this; }
  empty() { this.els.forEach((e) => e.clear()); return this; }
  remove() { this.els.forEach((e) => e.remove()); return this; }
  show() { this.els.forEach((e) => { if (e.style_.display === 'none') e.style_.display = ''; }); return this; }
  hide() { this.els.forEach((e) => { e.style_.display = 'none'; }); return this; }
  toggle(b) { this.els.forEach((e) => { if (b === undefined ? !e.visible : b) this.wrap([e]).show(); else this.wrap([e]).hide(); }); return this; }
  hasClass(c) { return this.els.some((e) => e.classes.includes(c)); }
  addClass(c) { this.els.forEach((e) => c.split(/\s+/).forEach((x) => e.addClass(x))); return this; }
  removeClass(c) { this.els.forEach((e) => c.split(/\s+/).forEach((x) => e.removeClass(x))); return this; }
  toggleClass(c, b) { this.els.forEach((e) => { if (b === undefined ? !e.classes.includes(c) : b) e.addClass(c); else e.removeClass(c); }); return this; }
  css(k, v) { if (typeof k === 'object') { for (const x in k) this.css(x, k[x]); return this; } if (v === undefined) return this.length > 0 ? this[0].style_[k] : undefined; this.els.forEach((e) => { e.style_[k] = typeof v === 'number' ? v + 'px' : String(v); }); return this; }
  attr(k, v) { if (typeof k === 'object') { for (const x in k) this.attr(x, k[x]); return this; } if (v === undefined) { const a = this.length > 0 ? this[0].getAttribute(k) : null; return a === null ? undefined : a; } this.els.forEach((e) => e.setAttribute(k, v)); return this; }
  removeAttr(k) { this.els.forEach((e) => e.removeAttribute(k)); return this; }
  prop(k, v) { if (v === undefined) return this.length > 0 ? this[0][k] : undefined; this.els.forEach((e) => { e[k] = v; }); return this; }
  data(k, v) { this.els.forEach((e) => { e.data_ = e.data_ || {}; }); if (v === undefined) return this.length > 0 ? this[0].data_[k] : undefined; this.els.forEach((e) => { e.data_[k] = v; }); return this; }
  ready(f) { this.page.whenReady(f); return this; }
}
const wrap = (page, els) => strict(new JQ(page, els), 'jQuery');
const nodes = (page, xs) => xs.flatMap((x) => {
  if (x instanceof JQ) return x.els;
  if (Array.isArray(x)) return nodes(page, x);
  if (x instanceof El || x instanceof Text) return [x];
  if (x === null || x === undefined) return [];
  return parseHTML(page, String(x)).childNodes.slice();
});

// ---- the page

const get = (url) => new Promise((res, rej) => {
  http.get(url, { agent }, (r) => { const parts = []; r.on('data', (d) => parts.push(d)); r.on('end', () => r.complete ? res({ status: r.statusCode, body: Buffer.concat(parts) }) : rej(new Error('cut'))); r.on('error', rej); }).on('error', rej);
});

class Page {
  constructor(url, ratio) { this.url = url; this.ratio = ratio; this.busy = 0; this.requests = 0; this.thrown = []; this.ready = []; this.loaded = false; this.answer = null; this.sums = []; }

  async load() {
    const r = await get(this.url);
    if (r.status !== 200) throw new Error('status ' + r.status);
    this.root = parseHTML(this, r.body.toString('utf8'));
    const page = this;
    const doc = strict({
      getElementById: (id) => { for (const e of page.root.all()) if (e.id === id) return e; return null; },
      querySelector: (s) => page.root.querySelector(s), querySelectorAll: (s) => page.root.querySelectorAll(s),
      getElementsByClassName: (s) => page.root.getElementsByClassName(s), getElementsByTagName: (s) => page.root.getElementsByTagName(s),
      createElement: (t) => new El(page, t.toLowerCase()), createTextNode: (s) => new Text(String(s)),
      addEventListener: (evt, f) => { if (evt === 'DOMContentLoaded') page.whenReady(f); },
      get body() { return page.root.querySelector('body'); }, get documentElement() { return page.root.querySelector('html'); },
    }, 'document');
    const $ = (x, ctx) => {
      if (typeof x === 'function') { page.whenReady(x); return wrap(page, []); }
      if (x instanceof JQ) return x;
      if (x === null || x === undefined || x === '') return wrap(page, []);
      if (typeof x === 'string') {
        if (/^\s*</.test(x)) return wrap(page, parseHTML(page, x).children.map((e) => { detach(e); return e; }));
        return wrap(page, (ctx === undefined ? page.root : ctx instanceof JQ ? ctx[0] : ctx).querySelectorAll(x));
      }
      if (x === doc || x === win) return strict({ ready: (f) => { page.whenReady(f); }, on: () => {} }, 'jQuery(document)');
      return wrap(page, Array.isArray(x) ? x : [x]);
    };
    $.each = (a, f) => { if (Array.isArray(a)) a.forEach((v, i) => f.call(v, i, v)); else for (const k in a) f.call(a[k], k, a[k]); };
    const win = {
      document: doc, $, jQuery: $, console: { log() {}, warn() {}, error() {}, info() {}, debug() {} },
      prompt: (q, d) => { page.prompts.push(String(q)); return page.say === undefined ? null : page.say; },
      alert: (s) => { page.alerts.push(String(s)); }, confirm: () => true,
      location: { href: this.url, origin: new URL(this.url).origin, pathname: new URL(this.url).pathname, hash: '', search: '' },
      devicePixelRatio: this.ratio, innerWidth: 1280, innerHeight: 800,
      btoa: (s) => { s = String(s); for (let i = 0; i < s.length; i++) if (s.charCodeAt(i) > 255) throw new Error('InvalidCharacterError'); return Buffer.from(s, 'latin1').toString('base64'); },
      atob: (s) => {
        s = String(s).replace(/[\t\n\f\r ]/g, '');
        if (s.length % 4 === 0) s = s.replace(/==?$/, '');
        if (s.length % 4 === 1 || /[^A-Za-z0-9+/]/.test(s)) throw new Error('InvalidCharacterError');
        return Buffer.from(s, 'base64').toString('latin1');
      },
      setTimeout: (f, ms, ...a) => { page.busy++; return realSetTimeout(() => { page.guard(() => f(...a)); page.idle(); }, Math.min(50, (ms || 0) / 20)); },
      clearTimeout: () => {}, TextEncoder, TextDecoder, URL,
      requestAnimationFrame: (f) => win.setTimeout(f, 0),
      XMLHttpRequest: xhr(this),
    };
    win.window = win.self = win.globalThis = win;
    this.ctx = vm.createContext(win);
    for (const s of [...this.root.all()].filter((e) => e.tag === 'script')) {
      const src = s.getAttribute('src');
      if (src === null) this.run(s.textContent, 'page');
      else if (!/jquery/i.test(src)) {
        const b = await get(new URL(src, this.url).href);
        if (b.status !== 200) throw new Error(src + ' has status ' + b.status);
        this.run(b.body.toString('utf8'), src);
      }
    }
    this.loaded = true;
    for (const f of this.ready.splice(0)) this.guard(() => f.call(doc, $));
  }
  run(code, name) { this.guard(() => vm.runInContext(code, this.ctx, { filename: name })); }
  whenReady(f) { if (this.loaded) this.guard(() => f(this.ctx.$)); else this.ready.push(f); }
  guard(f) { try { return f(); } catch (e) { if (!(e instanceof Unsupported)) this.thrown.push(e && e.stack ? String(e.stack).split('\n').slice(0, 3).join(' ') : String(e)); return undefined; } }
  fire(el, evt) {
    let stop = false;
    const event = { type: evt, target: el, preventDefault() {}, stopPropagation() { stop = true; } };
    for (let e = el; e !== null && !stop; e = e.parentNode) {
      event.currentTarget = e;
      const inline = e.getAttribute('on' + evt);
      if (inline !== null) {
        const f = this.guard(() => vm.runInContext('(function (event) {' + inline + '\n})', this.ctx));
        if (f && this.guard(() => f.call(e, event)) === false) stop = true;
      }
      for (const h of (e.handlers[evt] || []).slice()) if (this.guard(() => h.call(e, event)) === false) stop = true;
    }
  }
  // idle is called when something that was under way is over
  idle() {
    this.busy--;
    setImmediate(() => { if (this.busy === 0 && this.answer !== null) { const f = this.answer; this.answer = null; f(); } });
  }
  // click is what a person does to press something: open the panel it's in, if that is closed, and press it
  click(el) {
    if (!el.visible) {
      const shell = el.closest('.shellselector');
      const head = shell && shell.querySelector('.ssheader');
      if (head && head.visible && !head.classes.includes('isOpen')) this.fire(head, 'click');
    }
    if (!el.visible) return false;
    this.fire(el, 'click');
    return true;
  }
  act(q, send) {
    this.thrown = []; unsupported = []; this.prompts = []; this.alerts = []; this.say = q.say; this.requests = 0; this.statuses = [];
    let missing = null;
    this.busy++;
    this.answer = () => send(this.look(q, missing));
    for (const s of q.steps) {
      const els = s.id !== undefined ? [...this.root.all()].filter((e) => e.id === s.id) : [...this.root.all()].filter((e) => e.tag === s.tag && e.textContent.trim() === s.label);
      if (els.length === 0) { missing = 'no ' + JSON.stringify(s); break; }
      if (s.type !== undefined) { els[0].value = s.type; continue; }
      if (!els.some((e) => this.click(e))) { missing = 'not shown: ' + JSON.stringify(s); break; }
    }
    this.idle();
  }
  look(q, missing) {
    const el = [...this.root.all()].find((e) => e.id === (q.result || 'result'));
    const rv = { missing, thrown: this.thrown, unsupported: [...new Set(unsupported)], requests: this.requests, statuses: this.statuses, prompts: this.prompts, alerts: this.alerts, error: false, lines: [], canvases: [] };
    if (!el) { rv.missing = rv.missing || 'no result'; return rv; }
    rv.shown = el.visible;
    rv.error = el.classes.includes('inputError');
    const walk = (n) => {
      if (n instanceof Text) { rv.lines.push(n.data); return; }
      if (n.tag === 'canvas') { rv.canvases.push({ w: n.ctx.w, h: n.ctx.h, cw: n.style_.width || '', ch: n.style_.height || '', ops: n.ctx.ops.slice() }); return; }
      if (n.childNodes.every((c) => c instanceof Text)) { if (n.childNodes.length > 0) rv.lines.push(n.textContent); return; }
      n.childNodes.forEach(walk);
    };
    el.childNodes.forEach(walk);
    const sel = [...this.root.all()].find((e) => e.id === 'selectedobject');
    rv.selected = sel ? sel.textContent : '';
    return rv;
  }
}

const xhr = (page) => class {
  constructor() { this.hdr = {}; }
  open(method, url) { this.method = method; this.url = new URL(url, page.url).href; }
  setRequestHeader(k, v) { this.hdr[k] = v; }
  getResponseHeader(k) { const v = this.res.headers[k.toLowerCase()]; return v === undefined ? null : Array.isArray(v) ? v.join(', ') : v; }
  send(data) {
    page.busy++;
    page.requests++;
    let over = false;
    const done = (f) => { if (over) return; over = true; page.guard(f); page.idle(); };
    const fail = () => done(() => { page.statuses.push(0); if (this.onerror) this.onerror({}); });
    let body = null;
    if (typeof data === 'string') body = Buffer.from(data, 'utf8');
    else if (data !== null && data !== undefined) body = Buffer.from(data.buffer ? data.buffer.slice(data.byteOffset, data.byteOffset + data.byteLength) : data);
    const h = Object.assign({}, this.hdr);
    if (body !== null) h['Content-Length'] = body.length; else if (this.method !== 'GET') h['Content-Length'] = 0;
    let q;
    try {
      q = http.request(this.url, { method: this.method, headers: h, agent, maxHeaderSize: 4 << 20 }, (res) => {
        const parts = [];
        res.on('data', (d) => parts.push(d));
        res.on('aborted', fail);
        res.on('error', fail);
        res.on('end', () => {
          if (!res.complete) { fail(); return; }
          const b = Buffer.concat(parts);
          this.res = res;
          this.status = res.statusCode;
          this.readyState = 4;
          this.response = this.responseType === 'arraybuffer' ? b.buffer.slice(b.byteOffset, b.byteOffset + b.length) : b.toString('utf8');
          if (this.responseType !== 'arraybuffer') this.responseText = this.response;
          done(() => { page.statuses.push(this.status); if (this.onload) this.onload({}); });
        });
      });
      q.on('error', fail);
    } catch (e) { realSetTimeout(fail, 0); return; }
    q.end(body === null ? undefined : body);
  }
};

let page = null;
process.on('uncaughtException', (e) => { process.stderr.write(String(e && e.stack) + '\n'); process.exit(3); });
readline.createInterface({ input: process.stdin }).on('line', (line) => {
  const q = JSON.parse(line);
  const send = (a) => process.stdout.write(JSON.stringify(a) + '\n');
  if (q.op === 'open') {
    unsupported = [];
    page = new Page(q.url, q.ratio || 1);
    page.prompts = []; page.alerts = []; page.statuses = [];
    page.load().then(() => send({ thrown: page.thrown, unsupported }), (e) => send({ missing: String(e), thrown: page.thrown, unsupported }));
    return;
  }
  page.act(q, send);
}).on('close', () => process.exit(0));
