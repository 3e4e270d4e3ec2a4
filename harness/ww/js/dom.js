// A document, as far as components need one: nodes, selectors, events, media queries, and reading of HTML.
'use strict';
class DOMException extends Error {
  constructor(message, name) {
    super(message);
    this.name = name;
  }
}
const IDENT = /^(--|-?(?:[A-Za-z_\u0080-\uffff]|\\[^\n]))(?:[\w\-\u0080-\uffff]|\\[^\n])*/;
const unescape = s => s.replace(/\\([0-9a-fA-F]{1,6})[ \t\n\f\r]?|\\([^\n])/g, (_, h, c) => (h ? String.fromCodePoint(parseInt(h, 16)) : c));

/// One compound selector, or a list of them; combinators are descendant and child.
function parseSelector(sel) {
  const bad = () => {
    throw new DOMException(`'${sel}' is not a valid selector.`, 'SyntaxError');
  };
  let s = sel.trim();
  const lists = [];
  let chain = [];
  let comp = null;
  let comb = null;
  const done = () => {
    if (!comp) bad();
    chain.push({ comb, tests: comp });
    comp = null;
  };
  if (!s) bad();
  while (s) {
    let m;
    const add = f => (comp = comp || []).push(f);
    if ((m = /^[ \t\n\f\r]*,[ \t\n\f\r]*/.exec(s))) {
      done();
      lists.push(chain);
      chain = [];
      comb = null;
    } else if ((m = /^[ \t\n\f\r]*>[ \t\n\f\r]*/.exec(s))) {
      done();
      comb = '>';
    } else if ((m = /^[ \t\n\f\r]+/.exec(s))) {
      done();
      comb = ' ';
    } else if (s[0] === '*') {
      m = ['*'];
      add(() => true);
    } else if ((m = IDENT.exec(s)) && !comp) {
      const t = unescape(m[0]).toLowerCase();
      add(e => e.localName.toLowerCase() === t);
    } else if (s[0] === '#' && (m = IDENT.exec(s.slice(1)))) {
      const t = unescape(m[0]);
      m = ['#' + m[0]];
      add(e => e.getAttribute('id') === t);
    } else if (s[0] === '.' && (m = IDENT.exec(s.slice(1)))) {
      const t = unescape(m[0]);
      m = ['.' + m[0]];
      add(e => (e.getAttribute('class') || '').split(/[ \t\n\f\r]+/).includes(t));
    } else if (s[0] === '[') {
      const a = /^\[[ \t\n\f\r]*([\w-]+)[ \t\n\f\r]*/.exec(s);
      if (!a) bad();
      let r = s.slice(a[0].length);
      if (r[0] === ']') {
        m = [s.slice(0, s.length - r.length + 1)];
        add(e => e.hasAttribute(a[1]));
      } else {
        const op = /^([~|^$*]?=)[ \t\n\f\r]*/.exec(r);
        if (!op) bad();
        r = r.slice(op[0].length);
        let v, q;
        if ((q = /^"((?:[^"\\\n]|\\[^])*)"/.exec(r)) || (q = /^'((?:[^'\\\n]|\\[^])*)'/.exec(r))) v = unescape(q[1].replace(/\\\n/g, ''));
        else if ((q = IDENT.exec(r))) v = unescape(q[0]);
        else bad();
        r = r.slice(q[0].length);
        const close = /^[ \t\n\f\r]*(?:[is][ \t\n\f\r]*)?\]/.exec(r);
        if (!close) bad();
        m = [s.slice(0, s.length - r.length + close[0].length)];
        const f = { '=': x => x === v, '~=': x => x.split(/[ \t\n\f\r]+/).includes(v), '^=': x => v !== '' && x.startsWith(v), '$=': x => v !== '' && x.endsWith(v), '*=': x => v !== '' && x.includes(v), '|=': x => x === v || x.startsWith(v + '-') }[op[1]];
        add(e => e.hasAttribute(a[1]) && f(e.getAttribute(a[1])));
      }
    } else bad();
    s = s.slice(m[0].length);
  }
  done();
  lists.push(chain);
  return e => lists.some(c => matchChain(c, c.length - 1, e));
}
function matchChain(c, i, e) {
  if (!c[i].tests.every(f => f(e))) return false;
  if (i === 0) return true;
  for (let p = e.parentElement; p; p = p.parentElement) {
    if (matchChain(c, i - 1, p)) return true;
    if (c[i].comb === '>') return false;
  }
  return false;
}

const VOID = new Set(['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'source', 'track', 'wbr']);
const esc = s => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
const escAttr = s => s.replace(/&/g, '&amp;').replace(/"/g, '&quot;');

function makeWindow() {
  const log = { mutations: 0, created: 0, selectors: 0, listeners: 0 };
  class EventTarget {
    addEventListener(type, f, o) {
      const capture = typeof o === 'boolean' ? o : !!(o && o.capture);
      const l = (this._listeners = this._listeners || []);
      if (!l.some(x => x.type === type && x.f === f && x.capture === capture)) {
        l.push({ type, f, capture, once: !!(o && o.once) });
        log.listeners++;
      }
    }
    removeEventListener(type, f, o) {
      const capture = typeof o === 'boolean' ? o : !!(o && o.capture);
      this._listeners = (this._listeners || []).filter(x => !(x.type === type && x.f === f && x.capture === capture));
    }
    dispatchEvent(ev) {
      ev.target = ev.target || this;
      const path = [];
      for (let n = this; n; n = n.parentNode || (n instanceof Document ? window : null)) path.push(n);
      ev._path = path;
      const run = (n, capture) => {
        for (const l of [...(n._listeners || [])]) {
          if (l.type !== ev.type || (capture !== null && l.capture !== capture)) continue;
          if (!n._listeners.includes(l)) continue;
          if (l.once) n.removeEventListener(l.type, l.f, l.capture);
          ev.currentTarget = n;
          typeof l.f === 'function' ? l.f.call(n, ev) : l.f.handleEvent(ev);
        }
      };
      for (const n of [...path.slice(1)].reverse()) run(n, true);
      run(this, null);
      if (ev.bubbles) for (const n of path.slice(1)) if (!ev.cancelBubble) run(n, false);
      return true;
    }
  }
  class Event {
    constructor(type, o) {
      this.type = type;
      this.bubbles = !!(o && o.bubbles);
      this.cancelBubble = false;
    }
    composedPath() {
      return [...(this._path || [])];
    }
    stopPropagation() {
      this.cancelBubble = true;
    }
    preventDefault() {}
  }
  class Node extends EventTarget {
    constructor(doc) {
      super();
      this.ownerDocument = doc;
      this._kids = [];
      this.parentNode = null;
    }
    get childNodes() {
      return this._kids;
    }
    get firstChild() {
      return this._kids[0] || null;
    }
    get lastChild() {
      return this._kids[this._kids.length - 1] || null;
    }
    get nextSibling() {
      return this.parentNode ? this.parentNode._kids[this.parentNode._kids.indexOf(this) + 1] || null : null;
    }
    get previousSibling() {
      return this.parentNode ? this.parentNode._kids[this.parentNode._kids.indexOf(this) - 1] || null : null;
    }
    get parentElement() {
      return this.parentNode instanceof Element ? this.parentNode : null;
    }
    get isConnected() {
      const r = this.getRootNode({ composed: true });
      return r instanceof Document;
    }
    getRootNode(o) {
      let n = this;
      for (;;) {
        if (n.parentNode) n = n.parentNode;
        else if (o && o.composed && n instanceof ShadowRoot) n = n.host;
        else return n;
      }
    }
    hasChildNodes() {
      return this._kids.length > 0;
    }
    contains(o) {
      for (let n = o; n; n = n.parentNode) if (n === this) return true;
      return false;
    }
    _insert(node, ref) {
      if (!(node instanceof Node)) throw new TypeError('not a node');
      if (this instanceof CharacterData || node instanceof Document || node instanceof ShadowRoot || node.contains(this)) throw new DOMException('The operation would yield an incorrect node tree.', 'HierarchyRequestError');
      if (this instanceof Document && !(node instanceof Comment) && (!(node instanceof Element) || this._kids.some(k => k instanceof Element && k !== node))) throw new DOMException('Only one element on document allowed.', 'HierarchyRequestError');
      if (ref && ref.parentNode !== this) throw new DOMException('The node before which the new node is to be inserted is not a child of this node.', 'NotFoundError');
      if (this._full) throw new DOMException('Quota exceeded.', 'QuotaExceededError');
      log.mutations++;
      if (node instanceof DocumentFragment) {
        for (const k of [...node._kids]) this._insert(k, ref);
        return node;
      }
      if (node.parentNode) {
        if (ref === node) ref = node.nextSibling;
        node.parentNode._kids.splice(node.parentNode._kids.indexOf(node), 1);
      }
      const i = ref ? this._kids.indexOf(ref) : this._kids.length;
      this._kids.splice(i, 0, node);
      node.parentNode = this;
      node.ownerDocument = this instanceof Document ? this : this.ownerDocument;
      return node;
    }
    appendChild(n) {
      return this._insert(n, null);
    }
    insertBefore(n, ref) {
      return this._insert(n, ref === undefined ? null : ref);
    }
    removeChild(n) {
      if (!(n instanceof Node)) throw new TypeError('not a node');
      if (n.parentNode !== this) throw new DOMException('The node to be removed is not a child of this node.', 'NotFoundError');
      log.mutations++;
      this._kids.splice(this._kids.indexOf(n), 1);
      n.parentNode = null;
      return n;
    }
    replaceChild(n, old) {
      const next = old.nextSibling;
      this.removeChild(old);
      this._insert(n, next);
      return old;
    }
    remove() {
      if (this.parentNode) this.parentNode.removeChild(this);
    }
    append(...n) {
      for (const x of n) this._insert(typeof x === 'string' ? new Text(this.ownerDocument, x) : x, null);
    }
    prepend(...n) {
      const first = this.firstChild;
      for (const x of n) this._insert(typeof x === 'string' ? new Text(this.ownerDocument, x) : x, first);
    }
    before(...n) {
      for (const x of n) this.parentNode._insert(x, this);
    }
    after(...n) {
      const next = this.nextSibling;
      for (const x of n) this.parentNode._insert(x, next);
    }
    replaceChildren(...n) {
      for (const k of [...this._kids]) this.removeChild(k);
      this.append(...n);
    }
    get textContent() {
      return this._kids.filter(k => !(k instanceof Comment)).map(k => k.textContent).join('');
    }
    set textContent(s) {
      for (const k of [...this._kids]) this.removeChild(k);
      if (s !== null && s !== undefined && s !== '') this._insert(new Text(this.ownerDocument, String(s)), null);
    }
    get nodeValue() {
      return null;
    }
    set nodeValue(_) {}
    *_walk() {
      for (const k of this._kids) {
        if (k instanceof Element) {
          yield k;
          yield* k._walk();
        }
      }
    }
    querySelector(sel) {
      log.selectors++;
      const f = parseSelector(String(sel));
      for (const e of this._walk()) if (f(e)) return e;
      return null;
    }
    querySelectorAll(sel) {
      log.selectors++;
      const f = parseSelector(String(sel));
      return list([...this._walk()].filter(f));
    }
    getElementsByTagName(t) {
      t = t.toLowerCase();
      return list([...this._walk()].filter(e => t === '*' || e.localName === t));
    }
    getElementsByClassName(t) {
      return list([...this._walk()].filter(e => (e.getAttribute('class') || '').split(/[ \t\n\f\r]+/).includes(t)));
    }
    get children() {
      return list(this._kids.filter(k => k instanceof Element));
    }
    get firstElementChild() {
      return this.children[0] || null;
    }
    get lastElementChild() {
      return [...this.children].pop() || null;
    }
    get childElementCount() {
      return this.children.length;
    }
    cloneNode(deep) {
      const c = this._shallow();
      if (deep) for (const k of this._kids) c._insert(k.cloneNode(true), null);
      return c;
    }
    isSameNode(o) {
      return this === o;
    }
    isEqualNode(o) {
      return html(this) === html(o);
    }
  }
  const list = a => {
    a.item = i => a[i] || null;
    a.get = i => a[i];
    return a;
  };
  Object.assign(Node, { ELEMENT_NODE: 1, TEXT_NODE: 3, COMMENT_NODE: 8, DOCUMENT_NODE: 9 });
  class CharacterData extends Node {
    constructor(doc, data) {
      super(doc);
      this.data = data;
    }
    get textContent() {
      return this.data;
    }
    set textContent(s) {
      this.data = s === null || s === undefined ? '' : String(s);
    }
    get nodeValue() {
      return this.data;
    }
    set nodeValue(s) {
      this.data = s === null || s === undefined ? '' : String(s);
    }
    _shallow() {
      return new this.constructor(this.ownerDocument, this.data);
    }
  }
  class Text extends CharacterData {
    get nodeType() {
      return 3;
    }
    get nodeName() {
      return '#text';
    }
  }
  class Comment extends CharacterData {
    get nodeType() {
      return 8;
    }
    get nodeName() {
      return '#comment';
    }
  }
  class DocumentFragment extends Node {
    get nodeType() {
      return 11;
    }
    get nodeName() {
      return '#document-fragment';
    }
  }
  class ShadowRoot extends DocumentFragment {
    constructor(host) {
      super(host.ownerDocument);
      this.host = host;
    }
  }
  class Element extends Node {
    constructor(doc, name, ns) {
      super(doc);
      this.localName = name;
      this.namespaceURI = ns;
      this._attrs = new Map();
      this._shadow = null;
      log.created++;
    }
    get nodeType() {
      return 1;
    }
    get tagName() {
      return this.namespaceURI === HTML ? this.localName.toUpperCase() : this.localName;
    }
    get nodeName() {
      return this.tagName;
    }
    setAttribute(k, v) {
      if (!/^[^ \t\n\f\r"'<>/=\u0000]+$/.test(k)) throw new DOMException(`'${k}' is not a valid attribute name.`, 'InvalidCharacterError');
      log.mutations++;
      this._attrs.set(k.toLowerCase(), String(v));
    }
    getAttribute(k) {
      const v = this._attrs.get(k.toLowerCase());
      return v === undefined ? null : v;
    }
    hasAttribute(k) {
      return this._attrs.has(k.toLowerCase());
    }
    removeAttribute(k) {
      this._attrs.delete(k.toLowerCase());
    }
    getAttributeNames() {
      return [...this._attrs.keys()];
    }
    get id() {
      return this.getAttribute('id') || '';
    }
    set id(v) {
      this.setAttribute('id', v);
    }
    get className() {
      return this.getAttribute('class') || '';
    }
    set className(v) {
      this.setAttribute('class', v);
    }
    get dataset() {
      const e = this;
      const key = k => 'data-' + String(k).replace(/[A-Z]/g, c => '-' + c.toLowerCase());
      return new Proxy({}, { get: (_, k) => { const v = e.getAttribute(key(k)); return v === null ? undefined : v; }, set: (_, k, v) => (e.setAttribute(key(k), v), true) });
    }
    matches(sel) {
      log.selectors++;
      return parseSelector(String(sel))(this);
    }
    closest(sel) {
      const f = parseSelector(String(sel));
      for (let n = this; n; n = n.parentElement) if (f(n)) return n;
      return null;
    }
    insertAdjacentElement(where, e) {
      switch (where.toLowerCase()) {
        case 'beforebegin': if (!this.parentNode) return null; this.parentNode._insert(e, this); break;
        case 'afterbegin': this._insert(e, this.firstChild); break;
        case 'beforeend': this._insert(e, null); break;
        case 'afterend': if (!this.parentNode) return null; this.parentNode._insert(e, this.nextSibling); break;
        default: throw new DOMException('where', 'SyntaxError');
      }
      return e;
    }
    attachShadow() {
      if (this._shadow) throw new DOMException('already a shadow host', 'NotSupportedError');
      return (this._shadow = new ShadowRoot(this));
    }
    get shadowRoot() {
      return this._shadow;
    }
    get innerHTML() {
      return this._kids.map(html).join('');
    }
    set innerHTML(s) {
      for (const k of [...this._kids]) this.removeChild(k);
      parseInto(this, s);
    }
    get outerHTML() {
      return html(this);
    }
    _shallow() {
      const e = this.ownerDocument.createElementNS(this.namespaceURI, this.localName);
      for (const [k, v] of this._attrs) e._attrs.set(k, v);
      return e;
    }
  }
  const HTML = 'http://www.w3.org/1999/xhtml';
  class HTMLElement extends Element {
    get innerText() {
      return this.textContent;
    }
    set innerText(v) {
      this.textContent = v;
    }
    click() {
      this.dispatchEvent(new Event('click', { bubbles: true }));
    }
  }
  const reflect = (c, ...names) => {
    for (const n of names) Object.defineProperty(c.prototype, n, { get() { return this.getAttribute(n) || ''; }, set(v) { this.setAttribute(n, v); } });
    return c;
  };
  const HTMLHeadElement = class HTMLHeadElement extends HTMLElement {};
  const HTMLBodyElement = class HTMLBodyElement extends HTMLElement {};
  const HTMLStyleElement = reflect(class HTMLStyleElement extends HTMLElement {}, 'type', 'media');
  const HTMLScriptElement = reflect(class HTMLScriptElement extends HTMLElement {
    get text() {
      return this.textContent;
    }
    set text(v) {
      this.textContent = v;
    }
  }, 'type', 'src');
  const HTMLIFrameElement = class HTMLIFrameElement extends HTMLElement {
    get contentDocument() {
      return (this._doc = this._doc || newDocument());
    }
  };
  const HTMLInputElement = class HTMLInputElement extends HTMLElement {};
  const HTMLTextAreaElement = class HTMLTextAreaElement extends HTMLElement {};
  const BY_TAG = { head: HTMLHeadElement, body: HTMLBodyElement, style: HTMLStyleElement, script: HTMLScriptElement, iframe: HTMLIFrameElement, input: HTMLInputElement, textarea: HTMLTextAreaElement };
  class Document extends Node {
    constructor() {
      super(null);
    }
    get nodeType() {
      return 9;
    }
    get nodeName() {
      return '#document';
    }
    get textContent() {
      return null;
    }
    get documentElement() {
      return this._kids.find(k => k instanceof Element) || null;
    }
    get head() {
      const e = this.documentElement;
      return (e && e._kids.find(k => k.localName === 'head')) || null;
    }
    get body() {
      const e = this.documentElement;
      return (e && e._kids.find(k => k.localName === 'body')) || null;
    }
    createElement(name) {
      if (!/^[A-Za-z][^ \t\n\f\r/>\u0000]*$/.test(name)) throw new DOMException(`'${name}' is not a valid name.`, 'InvalidCharacterError');
      name = name.toLowerCase();
      return new (BY_TAG[name] || HTMLElement)(this, name, HTML);
    }
    createElementNS(ns, name) {
      if (ns === HTML) return this.createElement(name);
      return new Element(this, name, ns);
    }
    createTextNode(s) {
      return new Text(this, s);
    }
    createComment(s) {
      return new Comment(this, s);
    }
    createDocumentFragment() {
      return new DocumentFragment(this);
    }
    getElementById(id) {
      for (const e of this._walk()) if (e.getAttribute('id') === id) return e;
      return null;
    }
  }
  function newDocument() {
    const d = new Document();
    const h = d.appendChild(d.createElement('html'));
    h.appendChild(d.createElement('head'));
    h.appendChild(d.createElement('body'));
    return d;
  }
  function html(n) {
    if (n instanceof Text) return n.parentNode && ['style', 'script'].includes(n.parentNode.localName) ? n.data : esc(n.data);
    if (n instanceof Comment) return `<!--${n.data}-->`;
    if (!(n instanceof Element)) return n._kids.map(html).join('');
    const attrs = [...n._attrs].map(([k, v]) => ` ${k}="${escAttr(v)}"`).join('');
    if (VOID.has(n.localName)) return `<${n.localName}${attrs}>`;
    return `<${n.localName}${attrs}>${n._kids.map(html).join('')}</${n.localName}>`;
  }
  function decode(s) {
    return s.replace(/&(#x[0-9a-fA-F]+|#\d+|amp|lt|gt|quot|apos);/g, (_, e) => (e[0] === '#' ? String.fromCodePoint(e[1] === 'x' ? parseInt(e.slice(2), 16) : +e.slice(1)) : { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'" }[e]));
  }
  function parseInto(root, s) {
    const doc = root.ownerDocument;
    const stack = [root];
    let p = 0;
    const top = () => stack[stack.length - 1];
    const text = t => t && top()._insert(new Text(doc, t), null);
    while (p < s.length) {
      if (s.startsWith('<!--', p)) {
        const e = s.indexOf('-->', p + 4);
        if (e < 0) throw Error('comment without end');
        top()._insert(new Comment(doc, s.slice(p + 4, e)), null);
        p = e + 3;
        continue;
      }
      let m;
      const rest = s.slice(p, p + 100000);
      if ((m = /^<\/([A-Za-z][^ \t\n\f\r>]*)[ \t\n\f\r]*>/.exec(rest))) {
        if (top().localName !== m[1].toLowerCase()) throw Error(`</${m[1]}> ends <${top().localName}>`);
        stack.pop();
        p += m[0].length;
        continue;
      }
      if ((m = /^<([A-Za-z][^ \t\n\f\r/>]*)/.exec(rest))) {
        const e = doc.createElement(m[1]);
        p += m[0].length;
        for (;;) {
          const r = s.slice(p, p + 1000000);
          const end = /^[ \t\n\f\r]*(\/?)>/.exec(r);
          if (end) {
            p += end[0].length;
            break;
          }
          const a = /^[ \t\n\f\r]*([^ \t\n\f\r"'<>/=]+)(?:[ \t\n\f\r]*=[ \t\n\f\r]*(?:"([^"]*)"|'([^']*)'|([^ \t\n\f\r"'=<>`]+)))?/.exec(r);
          if (!a) throw Error('attribute in ' + r.slice(0, 60));
          e._attrs.set(a[1].toLowerCase(), decode(a[2] ?? a[3] ?? a[4] ?? ''));
          p += a[0].length;
        }
        top()._insert(e, null);
        if (VOID.has(e.localName)) continue;
        if (e.localName === 'script' || e.localName === 'style') {
          const re = new RegExp(`</${e.localName}[ \\t\\n\\f\\r/>]`, 'i');
          const k = s.slice(p).search(re);
          if (k < 0) throw Error(`<${e.localName}> without end`);
          if (k) e._insert(new Text(doc, s.slice(p, p + k)), null);
          p = s.indexOf('>', p + k) + 1;
          continue;
        }
        stack.push(e);
        continue;
      }
      let k = s.indexOf('<', p + 1);
      if (k < 0) k = s.length;
      text(decode(s.slice(p, k)));
      p = k;
    }
    if (stack.length !== 1) throw Error(`<${top().localName}> without end`);
  }
  class MediaQueryList extends EventTarget {
    constructor(media) {
      super();
      this.media = media;
    }
    get matches() {
      return media.eval(this.media);
    }
    addListener(f) {
      this.addEventListener('change', f);
    }
    removeListener(f) {
      this.removeEventListener('change', f);
    }
  }
  // the surroundings media queries ask for
  const media = {
    env: { width: 1000, dark: false, print: false },
    lists: [],
    supported: true,
    eval(q) {
      let m;
      if ((m = /^\((min|max)-width: (\d+)px\)$/.exec(q))) return m[1] === 'min' ? media.env.width >= +m[2] : media.env.width <= +m[2];
      if (q === '(prefers-color-scheme: dark)') return media.env.dark;
      if (q === 'print') return media.env.print;
      return false;
    },
    set(env) {
      const before = media.lists.map(l => l.matches);
      Object.assign(media.env, env);
      media.lists.forEach((l, i) => {
        if (l.matches !== before[i]) l.dispatchEvent(Object.assign(new Event('change'), { matches: l.matches, media: l.media }));
      });
    },
    listeners: () => media.lists.reduce((n, l) => n + (l._listeners || []).length, 0),
  };
  // data: addresses only; answers come after a number of turns
  const net = { pending: 0, asked: 0, seed: 1 };
  class Response {
    constructor(b) {
      this._bytes = b;
    }
    arrayBuffer() {
      return Promise.resolve(new Uint8Array(this._bytes).buffer);
    }
  }
  class Window extends EventTarget {
    fetch(url) {
      const m = /^data:application\/octet-binary;base64,([A-Za-z0-9+/]*=*)$/.exec(url);
      if (!m) return Promise.reject(new TypeError('Failed to fetch ' + url));
      net.asked++;
      net.pending++;
      net.seed = (Math.imul(net.seed, 1103515245) + 12345) >>> 0;
      let turns = (net.seed >>> 16) % 4;
      return new Promise(done => {
        const turn = () => {
          if (turns-- > 0) return void setImmediate(turn);
          net.pending--;
          done(new Response(Buffer.from(m[1], 'base64')));
        };
        turn();
      });
    }
    matchMedia(q) {
      const l = new MediaQueryList(q);
      media.lists.push(l);
      return l;
    }
  }
  const window = new Window();
  const logged = [];
  const con = {};
  for (const k of ['error', 'warn', 'log', 'info', 'debug', 'trace']) con[k] = (...a) => void logged.push([k, a.map(String).join(' ')]);
  Object.assign(window, {
    document: newDocument(), console: con, queueMicrotask: f => queueMicrotask(f), setTimeout, clearTimeout,
    Object, Array, Promise, Reflect, Uint8Array, Error, TypeError, Map, Set, WeakMap, Function, Symbol, JSON, Math, Number, String, Date, performance,
    EventTarget, Event, Node, Element, HTMLElement, HTMLHeadElement, HTMLBodyElement, HTMLStyleElement, HTMLScriptElement, HTMLIFrameElement, HTMLInputElement, HTMLTextAreaElement,
    CharacterData, Text, Comment, Document, DocumentFragment, ShadowRoot, Window, MediaQueryList, Response,
    crypto: globalThis.crypto,
  });
  window.window = window.self = window.globalThis = window;
  return { window, document: window.document, media, net, log, logged, html, newDocument };
}
module.exports = { makeWindow, parseSelector };
