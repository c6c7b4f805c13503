'use strict';
// A small document object model, enough for a page with a few elements and
// the ways in which its script may reach and change them.

class DOMException2 extends Error {
  constructor(m, n) { super(m); this.name = n || 'Error'; }
}

class Event {
  constructor(type, init) {
    this.type = String(type);
    Object.assign(this, { bubbles: false, cancelable: false }, init);
    this.defaultPrevented = false;
    this.target = null;
    this.currentTarget = null;
    this._stop = false;
    this._stopNow = false;
    this.isTrusted = false;
  }
  preventDefault() { if (this.cancelable) this.defaultPrevented = true; }
  stopPropagation() { this._stop = true; }
  stopImmediatePropagation() { this._stop = this._stopNow = true; }
}
class CustomEvent extends Event {
  constructor(type, init) { super(type, init); this.detail = init && 'detail' in init ? init.detail : null; }
}

// fire runs the listeners of one target.
function fire(target, ev, report, win) {
  ev.currentTarget = target;
  const list = (target._listeners.get(ev.type) || []).slice();
  for (const l of list) {
    if (l.removed) continue;
    if (l.once) target.removeEventListener(ev.type, l.fn, l.capture);
    try {
      if (typeof l.fn === 'function') l.fn.call(target, ev);
      else if (l.fn && typeof l.fn.handleEvent === 'function') l.fn.handleEvent(ev);
    } catch (e) { report(e); }
    if (ev._stopNow) return;
  }
  const h = target === win ? win['on' + ev.type] : target['on' + ev.type];
  if (typeof h === 'function') {
    try {
      const r = h.call(target, ev);
      if (r === false && ev.cancelable) ev.defaultPrevented = true;
    } catch (e) { report(e); }
  }
}

class EventTarget {
  constructor() { this._listeners = new Map(); }
  addEventListener(type, fn, opts) {
    if (!fn) return;
    const capture = typeof opts === 'boolean' ? opts : !!(opts && opts.capture);
    const once = !!(opts && opts.once);
    if (opts && opts.signal) {
      if (opts.signal.aborted) return;
      opts.signal.addEventListener('abort', () => this.removeEventListener(type, fn, opts));
    }
    let l = this._listeners.get(type);
    if (!l) this._listeners.set(type, l = []);
    if (l.some(x => x.fn === fn && x.capture === capture)) return;
    l.push({ fn, capture, once, removed: false });
  }
  removeEventListener(type, fn, opts) {
    const capture = typeof opts === 'boolean' ? opts : !!(opts && opts.capture);
    const l = this._listeners.get(type);
    if (!l) return;
    const i = l.findIndex(x => x.fn === fn && x.capture === capture);
    if (i >= 0) { l[i].removed = true; l.splice(i, 1); }
  }
  dispatchEvent(ev) {
    ev.target = this;
    let t = this;
    while (t) {
      fire(t, ev, this._report.bind(this), this._win());
      if (ev._stop || !ev.bubbles) break;
      t = t._eventParent();
    }
    ev.currentTarget = null;
    return !ev.defaultPrevented;
  }
  _eventParent() { return null; }
}

class Node extends EventTarget {
  constructor(doc) { super(); this.ownerDocument = doc; this.parentNode = null; this.childNodes = []; }
  _report(e) { this.ownerDocument._page.uncaught(e); }
  _win() { return this.ownerDocument._page.window; }
  _eventParent() { return this.parentNode; }
  get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
  get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n === this.ownerDocument; }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get nextSibling() { const c = this.parentNode && this.parentNode.childNodes; return c ? c[c.indexOf(this) + 1] || null : null; }
  get children() { return this.childNodes.filter(c => c instanceof Element); }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
  hasChildNodes() { return this.childNodes.length > 0; }
  contains(n) { while (n) { if (n === this) return true; n = n.parentNode; } return false; }
  appendChild(n) { return this.insertBefore(n, null); }
  insertBefore(n, ref) {
    if (n.contains(this)) throw new DOMException2('The new child element contains the parent.', 'HierarchyRequestError');
    if (n instanceof Fragment) { for (const c of n.childNodes.slice()) this.insertBefore(c, ref); return n; }
    n.remove();
    const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
    if (i < 0) throw new DOMException2('not a child of this node', 'NotFoundError');
    this.childNodes.splice(i, 0, n);
    n.parentNode = this;
    return n;
  }
  removeChild(n) {
    const i = this.childNodes.indexOf(n);
    if (i < 0) throw new DOMException2('The node to be removed is not a child of this node.', 'NotFoundError');
    this.childNodes.splice(i, 1);
    n.parentNode = null;
    return n;
  }
  replaceChild(n, old) { this.insertBefore(n, old); return this.removeChild(old); }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  _nodes(l) { return l.map(x => x instanceof Node ? x : new Text(this.ownerDocument, String(x))); }
  append(...l) { for (const n of this._nodes(l)) this.appendChild(n); }
  prepend(...l) { const f = this.firstChild; for (const n of this._nodes(l)) this.insertBefore(n, f); }
  replaceChildren(...l) { for (const c of this.childNodes.slice()) this.removeChild(c); this.append(...l); }
  get textContent() { return this.childNodes.map(c => c.textContent).join(''); }
  set textContent(v) { this.replaceChildren(...(v === null || v === undefined || v === '' ? [] : [String(v)])); }
  *_walk() { for (const c of this.childNodes) if (c instanceof Element) { yield c; yield* c._walk(); } }
  querySelectorAll(sel) { const ms = parseSelector(sel); return [...this._walk()].filter(e => ms.some(m => m(e))); }
  querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
  getElementsByTagName(t) { t = t.toUpperCase(); return [...this._walk()].filter(e => t === '*' || e.tagName === t); }
  getElementsByClassName(c) { return [...this._walk()].filter(e => e.classList.contains(c)); }
}

class Text extends Node {
  constructor(doc, s) { super(doc); this.data = s; this.nodeType = 3; }
  get textContent() { return this.data; }
  set textContent(v) { this.data = String(v); }
  get nodeValue() { return this.data; }
  set nodeValue(v) { this.data = String(v); }
}
class Fragment extends Node { }

// parseSelector supports compounds of tag, id, class and attribute, descendant
// combinators and lists.
function parseSelector(sel) {
  return String(sel).split(',').map(s => {
    const parts = s.trim().replace(/\s*>\s*/g, ' ').split(/\s+/).map(c => {
      const tests = [];
      const rx = /^(\*|[a-zA-Z][\w-]*)|#([\w-]+)|\.([\w-]+)|\[([\w-]+)(?:=["']?([^"'\]]*)["']?)?\]|(:[\w-]+(?:\([^)]*\))?)/g;
      let m, end = 0;
      while ((m = rx.exec(c))) {
        end = rx.lastIndex;
        const [, tag, id, cls, att, val, pseudo] = m;
        if (tag) { if (tag !== '*') tests.push(e => e.tagName === tag.toUpperCase()); }
        else if (id) tests.push(e => e.id === id);
        else if (cls) tests.push(e => e.classList.contains(cls));
        else if (att) tests.push(e => val === undefined ? e.hasAttribute(att) : e.getAttribute(att) === val);
        else if (pseudo === ':empty') tests.push(e => e.childNodes.length === 0);
        else if (pseudo === ':root') tests.push(e => e.tagName === 'HTML');
        else if (pseudo.startsWith(':not(')) { const n = parseSelector(pseudo.slice(5, -1)); tests.push(e => !n.some(x => x(e))); }
        else tests.push(() => false);
      }
      if (end !== c.length) throw new DOMException2(`'${sel}' is not a valid selector`, 'SyntaxError');
      return e => tests.every(t => t(e));
    });
    return e => {
      if (!parts[parts.length - 1](e)) return false;
      let i = parts.length - 2, p = e.parentNode;
      while (i >= 0 && p instanceof Element) { if (parts[i](p)) i--; p = p.parentNode; }
      return i < 0;
    };
  });
}

function makeStyle() {
  const props = new Map();
  const dash = k => k.replace(/[A-Z]/g, c => '-' + c.toLowerCase());
  const base = {
    setProperty(k, v) { if (v === '' || v === null) props.delete(k); else props.set(k, String(v)); },
    getPropertyValue(k) { return props.get(k) || ''; },
    removeProperty(k) { const v = props.get(k) || ''; props.delete(k); return v; },
  };
  return new Proxy(base, {
    get(t, k) {
      if (k in t) return t[k];
      if (typeof k !== 'string') return undefined;
      if (k === 'cssText') return [...props].map(([a, b]) => `${a}: ${b};`).join(' ');
      return props.get(dash(k)) || '';
    },
    set(t, k, v) {
      if (k === 'cssText') {
        props.clear();
        for (const d of String(v).split(';')) {
          const i = d.indexOf(':');
          if (i > 0) props.set(d.slice(0, i).trim(), d.slice(i + 1).replace(/!important/, '').trim());
        }
      } else base.setProperty(dash(String(k)), v === null ? '' : String(v).trim());
      return true;
    },
  });
}

class ClassList {
  constructor(e) { this._e = e; }
  _get() { return (this._e.getAttribute('class') || '').split(/\s+/).filter(Boolean); }
  _set(l) { this._e.setAttribute('class', l.join(' ')); }
  contains(c) { return this._get().includes(c); }
  add(...l) { this._set([...new Set([...this._get(), ...l])]); }
  remove(...l) { this._set(this._get().filter(c => !l.includes(c))); }
  toggle(c, force) {
    const on = force === undefined ? !this.contains(c) : !!force;
    if (on) this.add(c); else this.remove(c);
    return on;
  }
  replace(a, b) { if (!this.contains(a)) return false; this.remove(a); this.add(b); return true; }
  get length() { return this._get().length; }
  get value() { return this._get().join(' '); }
  toString() { return this.value; }
}

const decodeEntities = s => s.replace(/&(lt|gt|amp|quot|#39|apos|nbsp);/g, (m, e) => ({ lt: '<', gt: '>', amp: '&', quot: '"', '#39': "'", apos: "'", nbsp: '\u00a0' }[e]));
const encodeEntities = s => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');

class Element extends Node {
  constructor(doc, tag) {
    super(doc);
    this.nodeType = 1;
    this.tagName = tag.toUpperCase();
    this._attr = new Map();
    this.style = makeStyle();
    this.classList = new ClassList(this);
    this._value = '';
    this._dirty = false;
    this.selectionStart = this.selectionEnd = 0;
    this.scrollTop = 0;
    this.scrollHeight = 0;
    this.dataset = new Proxy({}, {
      get: (t, k) => { const v = this.getAttribute('data-' + String(k).replace(/[A-Z]/g, c => '-' + c.toLowerCase())); return v === null ? undefined : v; },
      set: (t, k, v) => { this.setAttribute('data-' + String(k).replace(/[A-Z]/g, c => '-' + c.toLowerCase()), v); return true; },
      deleteProperty: (t, k) => { this.removeAttribute('data-' + String(k).replace(/[A-Z]/g, c => '-' + c.toLowerCase())); return true; },
      has: (t, k) => this.hasAttribute('data-' + String(k)),
    });
  }
  get localName() { return this.tagName.toLowerCase(); }
  get nodeName() { return this.tagName; }
  get id() { return this.getAttribute('id') || ''; }
  set id(v) { this.setAttribute('id', v); }
  get className() { return this.getAttribute('class') || ''; }
  set className(v) { this.setAttribute('class', v); }
  get title() { return this.getAttribute('title') || ''; }
  set title(v) { this.setAttribute('title', v); }
  get type() { return this.getAttribute('type') || (this.tagName === 'INPUT' ? 'text' : ''); }
  set type(v) { this.setAttribute('type', v); }
  get hidden() { return this.hasAttribute('hidden'); }
  set hidden(v) { this.toggleAttribute('hidden', !!v); }
  get disabled() { return this.hasAttribute('disabled'); }
  set disabled(v) { this.toggleAttribute('disabled', !!v); }
  get readOnly() { return this.hasAttribute('readonly'); }
  set readOnly(v) { this.toggleAttribute('readonly', !!v); }
  getAttribute(k) { k = k.toLowerCase(); if (k === 'style') return this.style.cssText || null; return this._attr.has(k) ? this._attr.get(k) : null; }
  setAttribute(k, v) { k = k.toLowerCase(); if (k === 'style') { this.style.cssText = v; return; } this._attr.set(k, String(v)); if (k === 'value' && !this._dirty) this._value = String(v); }
  removeAttribute(k) { k = k.toLowerCase(); if (k === 'style') this.style.cssText = ''; this._attr.delete(k); }
  hasAttribute(k) { return this.getAttribute(k) !== null; }
  toggleAttribute(k, force) {
    const on = force === undefined ? !this.hasAttribute(k) : !!force;
    if (on) { if (!this.hasAttribute(k)) this.setAttribute(k, ''); } else this.removeAttribute(k);
    return on;
  }
  matches(sel) { return parseSelector(sel).some(m => m(this)); }
  closest(sel) { let e = this; while (e instanceof Element) { if (e.matches(sel)) return e; e = e.parentNode; } return null; }
  get value() {
    if (this.tagName === 'TEXTAREA') return (this._dirty ? this._value : this.textContent).replace(/\r\n?/g, '\n');
    return this._value;
  }
  set value(v) {
    v = v === null && this.tagName === 'TEXTAREA' ? '' : String(v);
    this._dirty = true;
    if (this.tagName === 'INPUT' && /^(text|url|search|tel|email|password)$/.test(this.type)) v = v.replace(/[\r\n]/g, '');
    if (this.tagName === 'TEXTAREA') v = v.replace(/\r\n?/g, '\n');
    this._value = v;
    this.selectionStart = this.selectionEnd = v.length;
  }
  get defaultValue() { return this.tagName === 'TEXTAREA' ? this.textContent : this.getAttribute('value') || ''; }
  set defaultValue(v) { if (this.tagName === 'TEXTAREA') this.textContent = v; else this.setAttribute('value', v); }
  get textLength() { return this.value.length; }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v === null ? '' : v; }
  get outerText() { return this.textContent; }
  get innerHTML() { return this.childNodes.map(c => c instanceof Text ? encodeEntities(c.data) : c.outerHTML).join(''); }
  set innerHTML(v) { this.replaceChildren(); parseHTML(String(v), this.ownerDocument, this, () => { }); }
  get outerHTML() { return `<${this.localName}>${this.innerHTML}</${this.localName}>`; }
  insertAdjacentText(where, s) { const t = new Text(this.ownerDocument, String(s)); if (where === 'afterbegin') this.prepend(t); else this.append(t); }
  insertAdjacentElement(where, e) { if (where === 'afterbegin') this.prepend(e); else if (where === 'beforeend') this.append(e); else if (where === 'beforebegin') this.parentNode.insertBefore(e, this); else this.parentNode.insertBefore(e, this.nextSibling); return e; }
  insertAdjacentHTML(where, s) { const d = new Element(this.ownerDocument, 'div'); d.innerHTML = s; for (const c of d.childNodes.slice()) where === 'afterbegin' ? this.prepend(c) : this.append(c); }
  focus() { const d = this.ownerDocument; d.activeElement = this; }
  blur() { const d = this.ownerDocument; if (d.activeElement === this) d.activeElement = d.body; }
  select() { this.focus(); this.selectionStart = 0; this.selectionEnd = this.value.length; this.ownerDocument._selected = this; }
  setSelectionRange(a, b) { this.selectionStart = a; this.selectionEnd = b; this.ownerDocument._selected = b > a ? this : null; }
  setRangeText(s, a = this.selectionStart, b = this.selectionEnd) { this.value = this.value.slice(0, a) + s + this.value.slice(b); }
  click() { if (this.tagName === 'BUTTON' && this.disabled) return; this.dispatchEvent(new Event('click', { bubbles: true, cancelable: true })); }
  scrollIntoView() { }
  scrollTo() { }
  getBoundingClientRect() { return { x: 0, y: 0, width: 100, height: 20, top: 0, left: 0, right: 100, bottom: 20 }; }
  cloneNode(deep) {
    const e = new Element(this.ownerDocument, this.tagName);
    for (const [k, v] of this._attr) e._attr.set(k, v);
    e.style.cssText = this.style.cssText;
    if (deep) for (const c of this.childNodes) e.append(c instanceof Text ? c.data : c.cloneNode(true));
    return e;
  }
}

const voids = new Set(['AREA', 'BASE', 'BR', 'COL', 'EMBED', 'HR', 'IMG', 'INPUT', 'LINK', 'META', 'SOURCE', 'TRACK', 'WBR']);
const raws = new Set(['SCRIPT', 'STYLE', 'TEXTAREA', 'TITLE']);

// parseHTML builds a tree and calls onElement for each element that is complete.
function parseHTML(html, doc, root, onElement) {
  let at = 0;
  const stack = [root];
  const top = () => stack[stack.length - 1];
  const text = s => { if (s) top().appendChild(new Text(doc, decodeEntities(s))); };
  while (at < html.length) {
    const lt = html.indexOf('<', at);
    if (lt < 0) { text(html.slice(at)); break; }
    text(html.slice(at, lt));
    if (html.startsWith('<!--', lt)) { const e = html.indexOf('-->', lt + 4); at = e < 0 ? html.length : e + 3; continue; }
    if (html[lt + 1] === '!' || html[lt + 1] === '?') { const e = html.indexOf('>', lt); at = e < 0 ? html.length : e + 1; continue; }
    let m = /^<\/([a-zA-Z][^\s>]*)[^>]*>/.exec(html.slice(lt, lt + 200));
    if (m) {
      at = lt + m[0].length;
      const tag = m[1].toUpperCase();
      let i = stack.length - 1;
      while (i > 0 && stack[i].tagName !== tag) i--;
      if (i > 0) while (stack.length > i) onElement(stack.pop());
      continue;
    }
    m = /^<([a-zA-Z][^\s\/>]*)((?:[^>"']|"[^"]*"|'[^']*')*)>/.exec(html.slice(lt));
    if (!m) { text('<'); at = lt + 1; continue; }
    at = lt + m[0].length;
    const el = new Element(doc, m[1]);
    const rx = /([^\s=\/"'<>]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+)))?/g;
    let a;
    while ((a = rx.exec(m[2]))) el.setAttribute(a[1], decodeEntities(a[2] ?? a[3] ?? a[4] ?? ''));
    top().appendChild(el);
    if (voids.has(el.tagName)) { onElement(el); continue; }
    if (raws.has(el.tagName)) {
      const close = new RegExp('</' + el.tagName + '\\s*>', 'ig');
      close.lastIndex = at;
      const c = close.exec(html);
      let body = html.slice(at, c ? c.index : html.length);
      if (el.tagName === 'TEXTAREA' || el.tagName === 'TITLE') { body = decodeEntities(body); if (body[0] === '\n') body = body.slice(1); }
      if (body) el.appendChild(new Text(doc, body));
      at = c ? close.lastIndex : html.length;
      onElement(el);
      continue;
    }
    stack.push(el);
  }
  while (stack.length > 1) onElement(stack.pop());
}

// parseCSS keeps the rules that say whether something is shown.
function parseCSS(css) {
  const rules = [];
  css = css.replace(/\/\*[^]*?\*\//g, '').replace(/@[^{]*\{(?:[^{}]*\{[^{}]*\})*[^{}]*\}/g, '');
  for (const m of css.matchAll(/([^{}]+)\{([^{}]*)\}/g)) {
    const decl = {};
    for (const d of m[2].split(';')) {
      const i = d.indexOf(':');
      if (i < 0) continue;
      const k = d.slice(0, i).trim().toLowerCase();
      if (k === 'display' || k === 'visibility') decl[k] = d.slice(i + 1).replace('!important', '').trim();
    }
    if (!Object.keys(decl).length) continue;
    for (const sel of m[1].split(',')) {
      try {
        const spec = (sel.match(/#/g) || []).length * 100 + (sel.match(/[.\[:]/g) || []).length * 10;
        rules.push({ match: parseSelector(sel)[0], decl, spec });
      } catch (e) { /* of no interest */ }
    }
  }
  return rules;
}

class Document extends Node {
  constructor(page) {
    super(null);
    this.ownerDocument = this;
    this._page = page;
    this._selected = null;
    this.activeElement = null;
    this.nodeType = 9;
    this.readyState = 'loading';
    this.visibilityState = 'visible';
    this.hidden = false;
    this.title = '';
    this.currentScript = null;
    this.cookie = '';
    this.rules = [];
  }
  _eventParent() { return this._page.windowTarget; }
  get defaultView() { return this._page.window; }
  get documentElement() { return this.children[0] || null; }
  get head() { return this.querySelector('head'); }
  get body() { return this.querySelector('body'); }
  get location() { return this._page.location; }
  set location(v) { this._page.navigate(String(v), 'assign'); }
  get URL() { return this._page.url.href; }
  get baseURI() { return this._page.url.href; }
  getElementById(id) { for (const e of this._walk()) if (e.id === id) return e; return null; }
  createElement(tag) { return new Element(this, tag); }
  createTextNode(s) { return new Text(this, String(s)); }
  createDocumentFragment() { return new Fragment(this); }
  createEvent() { const e = new Event(''); e.initEvent = (t, b, c) => { e.type = t; e.bubbles = !!b; e.cancelable = !!c; }; return e; }
  hasFocus() { return true; }
  execCommand(cmd) { return this._page.execCommand(cmd); }
  getSelection() {
    return {
      removeAllRanges: () => { this._selected = null; },
      addRange: r => { this._selected = r._node || null; },
      selectAllChildren: n => { this._selected = n; },
      toString: () => this._selected ? selectedText(this._selected) : '',
    };
  }
  createRange() {
    const r = { _node: null, selectNode(n) { r._node = n; }, selectNodeContents(n) { r._node = n; } };
    return r;
  }
}

function selectedText(n) {
  return n.tagName === 'INPUT' || n.tagName === 'TEXTAREA' ? n.value.slice(n.selectionStart, n.selectionEnd) : n.textContent;
}

// visible returns whether an element would be shown.
function visible(el) {
  if (!el || !el.isConnected) return false;
  for (let e = el; e instanceof Element; e = e.parentNode) {
    const of = prop => {
      const inline = e.style.getPropertyValue(prop);
      if (inline) return inline;
      let best = '', spec = -1;
      for (const r of e.ownerDocument.rules) if (r.decl[prop] && r.spec >= spec && r.match(e)) { best = r.decl[prop]; spec = r.spec; }
      return best;
    };
    const d = of('display');
    if (d === 'none' || (d === '' && e.hidden)) return false;
    const v = of('visibility');
    if (e === el && (v === 'hidden' || v === 'collapse')) return false;
  }
  return true;
}

module.exports = { Event, CustomEvent, EventTarget, Node, Element, Text, Document, DOMException2, parseHTML, parseCSS, visible, selectedText };
