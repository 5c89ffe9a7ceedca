// The JavaScript side of the stand-in for emscripten: runs the EM_ASM snippets and
// emscripten::val operations the C++ side asks for, over stdin and stdout, line by line.
'use strict';
const fs = require('fs');
let pending = '';
const chunk = Buffer.alloc(1 << 16);
function line() {
  for (;;) {
    const at = pending.indexOf('\n');
    if (at >= 0) { const l = pending.slice(0, at); pending = pending.slice(at + 1); return l; }
    const n = fs.readSync(0, chunk, 0, chunk.length, null);
    if (n === 0) process.exit(0);
    pending += chunk.latin1Slice(0, n);
  }
}
function say(s) { const b = Buffer.from(s + '\n', 'latin1'); let at = 0; while (at < b.length) { try { at += fs.writeSync(1, b, at); } catch (e) { if (e.code !== 'EAGAIN') throw e; } } }
function from_hex(h) { return Buffer.from(h, 'hex'); }
function hex_of_text(s) { return Buffer.from(s, 'utf8').toString('hex'); }

// memory of the C++ side
function peek(address, n) { if (n === 0) return Buffer.alloc(0); say(`M r ${address} ${n}`); return from_hex(line()); }
function poke(address, bytes) { if (bytes.length === 0) return; say(`M w ${address} ${Buffer.from(bytes).toString('hex')}`); line(); }
const heap_buffer = { is_heap: true };
const heap_index = {
  get(t, k) { return typeof k === 'string' && /^[0-9]+$/.test(k) ? (+k < t.length ? peek(t.at + +k, 1)[0] : undefined) : t[k]; },
  set(t, k, v) { if (typeof k === 'string' && /^[0-9]+$/.test(k)) { if (+k < t.length) poke(t.at + +k, [v & 0xff]); } else t[k] = v; return true; }
};
class HeapView {
  constructor(b, at, n) { this.at = at; this.length = n; this.byteLength = n; this.byteOffset = at; this.buffer = heap_buffer; return new Proxy(this, heap_index); }
  *[Symbol.iterator]() { yield* this.slice(); }
  fill(v, a, b) { a = a || 0; if (b === undefined) b = this.length; poke(this.at + a, new Uint8Array(b - a).fill(v)); return this; }
  set(v, off) { poke(this.at + (off || 0), Uint8Array.from(v)); }
  subarray(a, b) { return new HeapView(heap_buffer, this.at + a, (b === undefined ? this.length : b) - a); }
  slice(a, b) { a = a || 0; if (b === undefined) b = this.length; return new Uint8Array(peek(this.at + a, b - a)); }
}
// typed arrays over the heap are views of the C++ side's memory
const Bytes = new Proxy(Uint8Array, {
  construct(t, args) {
    if (args[0] && args[0].is_heap) return new HeapView(...args);
    return args[0] instanceof HeapView ? args[0].slice() : new Uint8Array(...args);
  },
  get(t, k) { return k === 'from' ? (v, ...more) => Uint8Array.from(v, ...more) : t[k]; }
});
class Decoder { constructor(...a) { this.d = new TextDecoder(...a); } decode(v, ...o) { return v === undefined ? this.d.decode() : this.d.decode(v instanceof HeapView ? v.slice() : v, ...o); } }
const HEAPU8 = new HeapView(heap_buffer, 0, 2 ** 47);
function UTF8ToString(p, max) {
  if (!p) return '';
  const out = [];
  if (max === undefined) { for (;;) { const c = peek(p++, 1)[0]; if (!c) break; out.push(c); } return Buffer.from(out).toString('utf8'); }
  let b = peek(p, max);
  const z = b.indexOf(0);
  if (z >= 0) b = b.subarray(0, z);
  return Buffer.from(b).toString('utf8');
}
function stringToAscii(s, p) { const b = Buffer.alloc(s.length + 1); for (let i = 0; i < s.length; ++i) b[i] = s.charCodeAt(i) & 0xff; poke(p, b); }
function AsciiToString(p) { let s = ''; for (;;) { const c = peek(p++, 1)[0]; if (!c) return s; s += String.fromCharCode(c); } }
function writeArrayToMemory(a, p) { poke(p, Uint8Array.from(a)); }
function lengthBytesUTF8(s) { return Buffer.byteLength(s, 'utf8'); }
function stringToUTF8(s, p, max) {
  if (!(max > 0)) return 0;
  let b = Buffer.from(s, 'utf8');
  if (b.length > max - 1) { let n = max - 1; while (n > 0 && (b[n] & 0xc0) === 0x80) --n; b = b.subarray(0, n); }
  poke(p, Buffer.concat([b, Buffer.from([0])]));
  return b.length;
}

// ---- the document
class Style { }
let next_node = 0;
class Node_ {
  constructor() { this.parentNode = null; this.childNodes = []; this.listeners = []; this.id_ = ++next_node; }
  get lastChild() { return this.childNodes.length ? this.childNodes[this.childNodes.length - 1] : null; }
  get firstChild() { return this.childNodes.length ? this.childNodes[0] : null; }
  get nextSibling() { const p = this.parentNode; return p ? p.childNodes[p.childNodes.indexOf(this) + 1] || null : null; }
  get previousSibling() { const p = this.parentNode; return p ? p.childNodes[p.childNodes.indexOf(this) - 1] || null : null; }
  contains(o) { for (; o; o = o.parentNode) if (o === this) return true; return false; }
  remove_(c) { const at = this.childNodes.indexOf(c); if (at < 0) throw new Error('NotFoundError'); this.childNodes.splice(at, 1); c.parentNode = null; }
  check_(c) { if (!(c instanceof Node_)) throw new TypeError('parameter is not a Node'); if (c.contains(this)) throw new Error('HierarchyRequestError'); }
  appendChild(c) { this.check_(c); if (c instanceof Fragment) { while (c.firstChild) this.appendChild(c.firstChild); return c; } if (c.parentNode) c.parentNode.remove_(c); this.childNodes.push(c); c.parentNode = this; return c; }
  removeChild(c) { if (!(c instanceof Node_)) throw new TypeError('parameter is not a Node'); this.remove_(c); return c; }
  replaceChild(n, o) {
    this.check_(n);
    if (!(o instanceof Node_)) throw new TypeError('parameter is not a Node');
    if (this.childNodes.indexOf(o) < 0) throw new Error('NotFoundError');
    if (n === o) return o;
    if (n instanceof Fragment) { while (n.firstChild) this.insertBefore(n.firstChild, o); this.remove_(o); return o; }
    if (n.parentNode) n.parentNode.remove_(n);
    const at = this.childNodes.indexOf(o);
    this.childNodes[at] = n; n.parentNode = this; o.parentNode = null;
    return o;
  }
  insertBefore(n, ref) {
    this.check_(n);
    if (ref === null || ref === undefined) return this.appendChild(n);
    if (this.childNodes.indexOf(ref) < 0) throw new Error('NotFoundError');
    if (n === ref) return n;
    if (n instanceof Fragment) { while (n.firstChild) this.insertBefore(n.firstChild, ref); return n; }
    if (n.parentNode) n.parentNode.remove_(n);
    this.childNodes.splice(this.childNodes.indexOf(ref), 0, n); n.parentNode = this;
    return n;
  }
  node_(x) { return x instanceof Node_ ? x : new Text(x); }
  append(...a) { for (const x of a) this.appendChild(this.node_(x)); }
  prepend(...a) { const f = this.firstChild; for (const x of a) this.insertBefore(this.node_(x), f); }
  before(...a) { for (const x of a) this.parentNode.insertBefore(this.node_(x), this); }
  after(...a) { const n = this.nextSibling; for (const x of a) this.parentNode.insertBefore(this.node_(x), n); }
  hasChildNodes() { return this.childNodes.length > 0; }
  get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
  get children() { return this.childNodes.filter(c => c.nodeType === 1); }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
  get isConnected() { return document_.body.contains(this); }
  remove() { if (this.parentNode) this.parentNode.remove_(this); }
  replaceWith(n) { if (this.parentNode) this.parentNode.replaceChild(n, this); }
  addEventListener(t, f) { if (f === null || f === undefined) return; if (!this.listeners.some(l => l.t === t && l.f === f)) this.listeners.push({ t, f }); }
  removeEventListener(t, f) { const at = this.listeners.findIndex(l => l.t === t && l.f === f); if (at >= 0) this.listeners.splice(at, 1); }
  dispatchEvent(ev) {
    ev.target = this;
    const chain = []; for (let n = this; n; n = ev.alone ? null : n.parentNode) chain.push(n);
    for (const n of chain) { ev.currentTarget = n; for (const l of n.listeners.slice()) if (l.t === ev.type && n.listeners.includes(l)) l.f.call(n, ev); }
    return !ev.defaultPrevented;
  }
  get textContent() { return this.childNodes.map(c => c.textContent).join(''); }
}
const escaped = s => String(s).replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
const quoted = s => String(s).replace(/&/g, '&amp;').replace(/"/g, '&quot;');
class Text extends Node_ {
  constructor(s) { super(); this.value_ = String(s); }
  get nodeType() { return 3; }
  get nodeValue() { return this.value_; } set nodeValue(v) { this.value_ = v === null ? '' : String(v); }
  get data() { return this.value_; } set data(v) { this.nodeValue = v; }
  get textContent() { return this.value_; } set textContent(v) { this.nodeValue = v; }
  get outerHTML() { return escaped(this.value_); }
}
class Raw extends Node_ { constructor(s) { super(); this.s = s; } get nodeType() { return 1; } get outerHTML() { return this.s; } get textContent() { return this.s; } }
class Comment extends Text { get nodeType() { return 8; } get outerHTML() { return ''; } get textContent() { return ''; } }
class Fragment extends Node_ { get nodeType() { return 11; } }
class Element extends Node_ {
  constructor(name) {
    super();
    if (!/^[A-Za-z][A-Za-z0-9_.-]*$/.test(name)) throw new Error('InvalidCharacterError');
    this.tagName = name.toUpperCase(); this.name_ = name.toLowerCase(); this.attributes_ = new Map(); this.style = new Style();
    const el = this;
    this.classList = {
      list() { const a = el.attributes_.get('class'); return a ? a.split(/\s+/).filter(x => x) : []; },
      ok(c) { if (c === '') throw new Error('SyntaxError'); if (/\s/.test(c)) throw new Error('InvalidCharacterError'); },
      add(c) { c = String(c); this.ok(c); const l = this.list(); if (!l.includes(c)) l.push(c); el.attributes_.set('class', l.join(' ')); },
      remove(c) { c = String(c); this.ok(c); if (!el.attributes_.has('class')) return; el.attributes_.set('class', this.list().filter(x => x !== c).join(' ')); },
      toggle(c, f) { const has = this.list().includes(String(c)); if (f === undefined) f = !has; if (f) this.add(c); else this.remove(c); return f; },
      contains(c) { return this.list().includes(String(c)); }
    };
  }
  get nodeType() { return 1; }
  setAttribute(k, v) { this.attributes_.set(String(k).toLowerCase(), String(v)); }
  removeAttribute(k) { this.attributes_.delete(String(k).toLowerCase()); }
  toggleAttribute(k, f) { if (f) this.setAttribute(k, ''); else this.removeAttribute(k); return f; }
  getAttribute(k) { const v = this.attributes_.get(String(k).toLowerCase()); return v === undefined ? null : v; }
  hasAttribute(k) { return this.attributes_.has(String(k).toLowerCase()); }
  get id() { return this.getAttribute('id') || ''; } set id(v) { this.setAttribute('id', v); }
  get className() { return this.getAttribute('class') || ''; } set className(v) { this.setAttribute('class', v); }
  get textContent() { return super.textContent; }
  set textContent(v) { this.innerHTML = ''; if (v !== '') this.appendChild(new Text(v)); }
  get innerHTML() { return this.childNodes.map(c => c.outerHTML).join(''); }
  set innerHTML(v) { for (const c of this.childNodes) c.parentNode = null; this.childNodes = []; v = v === null ? '' : String(v); if (v !== '') this.appendChild(new Raw(v)); }
  replaceChildren(...n) { this.innerHTML = ''; for (const c of n) this.appendChild(c); }
  get outerHTML() {
    let s = '<' + this.name_;
    for (const [k, v] of [...this.attributes_].sort()) s += ` ${k}="${quoted(v)}"`;
    return s + '>' + this.innerHTML + `</${this.name_}>`;
  }
  click() { if (this.clicking_) return; this.clicking_ = true; try { this.dispatchEvent({ type: 'click', preventDefault() { this.defaultPrevented = true; } }); } finally { this.clicking_ = false; } }
}
const document_ = {
  createElement(n) { return new Element(String(n)); },
  createTextNode(s) { return new Text(s); },
  createComment(s) { return new Comment(s); },
  createDocumentFragment() { return new Fragment(); },
  body: new Element('body'),
  getElementById(id) {
    const find = n => { for (const c of n.childNodes) { if (c.attributes_ && c.getAttribute('id') === id) return c; const f = find(c); if (f) return f; } return null; };
    return find(this.body);
  }
};
globalThis.document = document_;

// ---- the window
const entries = [];
let entry = -1;
const win = {
  location: { get pathname() { return entry < 0 ? '/' : entries[entry]; }, get href() { return 'http://localhost' + this.pathname; }, origin: 'http://localhost', search: '', hash: '' },
  history: {
    pushState(state, title, url) { url = String(url); if (url === '') url = win.location.pathname; entries.length = entry + 1; entries.push(new URL(url, 'http://localhost' + (win.location.pathname)).pathname); ++entry; },
    replaceState(state, title, url) { if (entry < 0) { entries.push(''); entry = 0; } entries[entry] = new URL(String(url), 'http://localhost' + win.location.pathname).pathname; },
    go(n) { const to = entry + n; if (to < 0 || to >= entries.length || n === 0) return; entry = to; if (win.onpopstate) win.onpopstate({ type: 'popstate', state: null }); },
    back() { this.go(-1); }, forward() { this.go(1); },
    get length() { return entries.length; }
  },
  onpopstate: null,
  addEventListener(t, f) { if (t === 'popstate') { const o = win.onpopstate; win.onpopstate = e => { if (o) o(e); f(e); }; } },
  sockets: [], servers: [], uncaught: [], logged: [],
  reset() { win.sockets = []; win.servers = []; win.uncaught = []; win.logged = []; entries.length = 0; entry = -1; win.onpopstate = null; document_.body.innerHTML = ''; document_.body.listeners = []; }
};
globalThis.window = win;
globalThis.console = { log(...a) { win.logged.push(a.map(String).join(' ')); }, error(...a) { win.logged.push('error: ' + a.map(String).join(' ')); }, warn() { }, info() { }, debug() { } };

const Module = globalThis.Module = {
  UTF8ToString, AsciiToString, stringToAscii, lengthBytesUTF8, stringToUTF8, writeArrayToMemory, HEAPU8, HEAP8: HEAPU8,
  __nbdl_webui_detail_event_callback(p) { return called(0, p); },
  __nbdl_endpoint_ready(p) { return called(1, p); },
  __nbdl_endpoint_message(p) { return called(2, p); },
  __nbdl_endpoint_close(p) { return called(3, p); },
  __nbdl_endpoint_value_handle(p) { return called(4, p); }
};
function called(which, p) { say(`C ${which} ${p}`); return serve(true); }

// ---- sockets of the window: the other end is played by the test
class Socket {
  constructor(url) {
    if (!/^wss?:\/\/[^#]*$/.test(url)) throw new Error('SyntaxError: ' + url);
    this.url = url; this.readyState = 0; this.binaryType = 'blob'; this.listeners = []; this.sent = []; this.wire = []; this.onopen = this.onmessage = this.onclose = null;
    win.sockets.push(this);
  }
  addEventListener(t, f) { this.listeners.push({ t, f }); }
  removeEventListener(t, f) { this.listeners = this.listeners.filter(l => l.t !== t || l.f !== f); }
  happens_(ev) {
    ev.target = this;
    if (this['on' + ev.type]) this['on' + ev.type](ev);
    for (const l of this.listeners.slice()) if (l.t === ev.type) { try { l.f.call(this, ev); } catch (e) { if (e && e.aborted) throw e; win.uncaught.push(String(e)); } }
  }
  send(d) {
    if (this.readyState === 0) throw new Error('InvalidStateError');
    if (this.readyState !== 1) return;
    this.wire.push(d);
    if (typeof d === 'string') this.sent.push('t' + hex_of_text(d));
    else if (d instanceof HeapView) this.sent.push('b' + Buffer.from(d.slice()).toString('hex'));
    else if (d && d.is_heap) this.sent.push('everything');
    else if (d instanceof ArrayBuffer) this.sent.push('b' + Buffer.from(d).toString('hex'));
    else if (ArrayBuffer.isView(d)) this.sent.push('b' + Buffer.from(d.buffer, d.byteOffset, d.byteLength).toString('hex'));
    else this.sent.push('t' + hex_of_text(String(d)));
  }
  close(code) { if (this.readyState < 2) { this.readyState = 2; this.code_ = code === undefined ? 1005 : code; } }
  // the test's side
  open_() { this.readyState = 1; this.happens_({ type: 'open' }); }
  message_(data) {
    if (this.readyState !== 1) return;
    if (ArrayBuffer.isView(data)) data = data.buffer.slice(data.byteOffset, data.byteOffset + data.byteLength);
    if (data instanceof ArrayBuffer && this.binaryType !== 'arraybuffer') data = new Blob([data]);
    this.happens_({ type: 'message', data });
  }
  closed_(code) { if (this.readyState === 3) return; this.readyState = 3; this.happens_({ type: 'close', code: code === undefined ? this.code_ : code, wasClean: true }); }
}
// servers of sockets, as of the package ws: what is under way between the ends moves when the test says so
class Emitter {
  constructor() { this.listeners = []; }
  on(t, f) { this.listeners.push({ t, f }); return this; }
  addEventListener(t, f) { return this.on(t, t === 'message' ? data => f({ type: t, data, target: this }) : f); }
  once(t, f) { const g = (...a) => { this.off(t, g); f(...a); }; return this.on(t, g); }
  off(t, f) { this.listeners = this.listeners.filter(l => l.t !== t || l.f !== f); return this; }
  removeListener(t, f) { return this.off(t, f); }
  emit(t, ...a) { if (this['on' + t]) { try { this['on' + t](t === 'message' ? { type: t, data: a[0], target: this } : { type: t, target: this }); } catch (e) { if (e && e.aborted) throw e; win.uncaught.push(String(e)); } } for (const l of this.listeners.slice()) if (l.t === t) { try { l.f.call(this, ...a); } catch (e) { if (e && e.aborted) throw e; win.uncaught.push(String(e)); } } }
}
class Connection extends Emitter {
  constructor(client) { super(); this.client = client; this.readyState = 1; this.out = []; this.late = 0; }
  send(d) { if (this.readyState === 3) ++this.late; if (this.readyState === 1) this.out.push(String(d)); }
  close() { if (this.readyState === 1) this.readyState = 2; }
  terminate() { this.close(); }
}
class Server extends Emitter {
  constructor(o) { super(); this.port = o.port; this.clients = new Set(); win.servers.push(this); }
  close() { }
  // the test's side
  accept_(i) { const s = win.sockets[i], c = s.connection = new Connection(s); this.clients.add(c); this.emit('connection', c, {}); }
  up_(i) { const s = win.sockets[i]; if (!s.wire.length || s.connection.readyState > 2) return false; s.connection.emit('message', s.wire.shift()); return true; }
  down_(i) { const s = win.sockets[i]; if (s.readyState !== 1 || !s.connection.out.length) return false; s.message_(s.connection.out.shift()); return true; }
  leave_(i) { const s = win.sockets[i], c = s.connection; s.closed_(1006); if (c) { c.readyState = 3; this.clients.delete(c); c.emit('close', 1006, ''); } }
}
Socket.Server = Socket.WebSocketServer = Server;
win.WebSocket = globalThis.WebSocket = Socket;
const names = ['AsciiToString', 'writeArrayToMemory', 'TextDecoder', 'HEAP8', 'Module', 'UTF8ToString', 'stringToAscii', 'lengthBytesUTF8', 'stringToUTF8', 'HEAPU8', 'Uint8Array', 'window', 'document'];
const values = [AsciiToString, writeArrayToMemory, Decoder, HEAPU8, Module, UTF8ToString, stringToAscii, lengthBytesUTF8, stringToUTF8, HEAPU8, Bytes, win, document_];

// ---- snippets and values
const snippets = [];
const table = new Map();
let next_val = 0;
function keep(v) { const id = ++next_val; table.set(id, v); return id; }
function arg(a) {
  switch (a[0]) {
    case 'u': return undefined; case 'l': return null; case 't': return true; case 'f': return false;
    case 'n': return Number(a.slice(1));
    case 's': return from_hex(a.slice(1)).toString('utf8');
    case 'v': if (!table.has(+a.slice(1))) throw new Error('a value that is gone'); return table.get(+a.slice(1));
    default: throw new Error('argument ' + a);
  }
}
function answer(v, kind) {
  if (kind === 'v') return 'R ' + keep(v);
  if (kind === 'i') return 'R ' + (v | 0);
  if (kind === 'b') return 'R ' + (v ? 1 : 0);
  if (kind === 'd') return 'R ' + Number(v);
  if (kind === 's') { if (typeof v !== 'string') throw new TypeError('Cannot pass non-string to std::string'); return 'R ' + hex_of_text(v); }
  return 'R 0';
}
function serve(nested) {
  for (;;) {
    const w = line().split(' ');
    let out;
    try {
      switch (w[0]) {
        case 'Q': if (nested) return +w[1]; continue;            // the callback has returned
        case 'J': if (nested) { const x = new Error(from_hex(w[1]).toString('utf8')); x.leaving = true; throw x; } continue; // an exception of JavaScript went through it
        case 'X': if (nested) throw { aborted: true, leaving: true }; continue;  // the callback has thrown
        case 'D': snippets[+w[1]] = new Function(...names, ...Array.from({ length: +w[2] }, (_, i) => '$' + i), from_hex(w[3]).toString('utf8')); continue;
        case 'A': out = answer(snippets[+w[1]](...values, ...w.slice(3).map(arg)), w[2]); break;
        case 'T': out = 'R ' + hex_of_text(String(new Function(...names, '$0', '$1', from_hex(w[3]).toString('utf8'))(...values, Number(w[1]), Number(w[2])))); break;
        case 'g': out = answer(globalThis[arg(w[1])], 'v'); break;
        case 'm': out = answer(Module[arg(w[1])], 'v'); break;
        case 'k': out = answer(arg(w[1]), 'v'); break;
        case 'a': out = answer(arg(w[2]), w[1]); break;
        case 'c': out = answer(arg(w[2])[arg(w[3])](...w.slice(4).map(arg)), w[1]); break;
        case 'f': out = answer(arg(w[2])(...w.slice(3).map(arg)), w[1]); break;
        case 'p': out = answer(arg(w[1])[arg(w[2])], 'v'); break;
        case 's': arg(w[1])[arg(w[2])] = arg(w[3]); out = 'R 0'; break;
        case '=': out = 'R ' + (arg(w[1]) === arg(w[2]) ? 1 : 0); break;
        case 'y': { const v = arg(w[1]); out = 'R ' + hex_of_text(typeof v); break; }
        case 'i': out = 'R ' + (arg(w[1]) instanceof arg(w[2]) ? 1 : 0); break;
        case 'n': out = answer(new (arg(w[1]))(...w.slice(2).map(arg)), 'v'); break;
        case '?': out = 'R ' + (arg(w[2]) in arg(w[1]) ? 1 : 0); break;
        case 'd': table.delete(+w[1]); continue;
        default: throw new Error('command ' + w[0]);
      }
    } catch (e) {
      if (e && e.leaving) { e.leaving = false; throw e; }
      if (e && e.aborted) { out = 'E ' + hex_of_text('aborted'); }
      else out = 'E ' + hex_of_text(String(e && e.stack ? e.stack.split('\n').slice(0, 2).join(' | ') : e));
    }
    say(out);
  }
}
serve(false);
