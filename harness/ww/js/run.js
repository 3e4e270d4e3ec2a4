// node run.js WASM PROPERTY SEED FROM TO STRIDE: runs the cases FROM, FROM+STRIDE, … below TO;
// MARKUP names the file of the pages rendered on the server.
'use strict';
const fs = require('fs');
const { instantiate } = require('./bindgen.js');
const { makeWindow } = require('./dom.js');
const [file, prop, seed, from, to, stride] = process.argv.slice(2);
const markupFile = process.env.MARKUP;
const module_ = new WebAssembly.Module(fs.readFileSync(file));
const lines = [];
const say = s => {
  lines.push(s);
  if (lines.length > 500) fs.writeSync(1, lines.splice(0).join('\n') + '\n');
};
const one = s => String(s).replace(/\\/g, '\\\\').replace(/\n/g, '\\n');
const markup = markupFile ? fs.readFileSync(markupFile, 'utf8').split('\n') : null;
const stray = e => {
  e = (e && e.stack) || String(e);
  if (!current) throw Error(e);
  current.async = current.async || e;
};
process.on('unhandledRejection', stray);
process.on('uncaughtException', stray);
let current = null;

class Place {
  constructor(i) {
    const w = makeWindow();
    Object.assign(this, w);
    this.containers = [];
    this.roots = [['document', w.document]];
    this.foreign = 0;
    this.index = i;
  }
  make(kind, start) {
    const d = this.document;
    const el = (doc, parent, n = 'div') => {
      const e = parent.appendChild(doc.createElement(n));
      e._holder = parent === d.body;
      return e;
    };
    let c;
    let holder = null;
    switch (kind) {
      case 'head': c = d.head; break;
      case 'body': c = d.body; break;
      case 'div': c = holder = el(d, d.body); break;
      case 'detached': c = d.createElement('div'); break;
      case 'fragment': c = d.createDocumentFragment(); break;
      case 'svg':
        c = d.body.appendChild(d.createElementNS('http://www.w3.org/2000/svg', 'svg'));
        c._holder = true;
        break;
      case 'shadow': holder = el(d, d.body); c = holder.attachShadow(); break;
      case 'inner-shadow': c = el(d, el(d, d.body).attachShadow()); break;
      case 'iframe': c = el(d, d.body, 'iframe').contentDocument.head; break;
      case 'iframe-shadow': {
        const x = el(d, d.body, 'iframe').contentDocument;
        c = el(x, x.body).attachShadow();
        break;
      }
      default: throw Error(kind);
    }
    const root = c.getRootNode();
    if (root !== d) this.roots.push([kind, root]);
    const o = c.ownerDocument;
    const first = {
      nothing: () => null,
      text: () => o.createTextNode('first'),
      comment: () => o.createComment('first'),
      element: () => {
        const e = o.createElement('b');
        e.setAttribute('id', 'first');
        return e;
      },
    }[start || 'element']();
    if (first) c.appendChild(first);
    this.containers.push({ node: c, holder, out: false });
    return this.containers.length - 1;
  }
  kid(k) {
    if (k.localName === 'style' && k.hasAttribute('data-style') && !k._foreign) return ['S', k.getAttribute('data-style'), k.textContent].join('\x1f');
    return 'O\x1f' + (k.nodeName + '#' + (k.getAttribute ? k.getAttribute('id') || '' : k.textContent));
  }
  ask(s) {
    const [cmd, ...a] = s.split(' ');
    const c = this.containers[+a[0]];
    switch (cmd) {
      case 'container': return String(this.make(a[0], a[1]));
      case 'kids': return c.node._kids.filter(k => !(k._holder)).map(k => this.kid(k)).join('\x1e');
      case 'styles': {
        const o = [];
        const roots = [...this.roots];
        this.containers.forEach((c, i) => {
          const r = c.node.getRootNode();
          if (!roots.some(x => x[1] === r)) roots.push(['container ' + i, r]);
        });
        for (const [n, r] of roots) for (const e of r._walk()) if (e.localName === 'style' && e.hasAttribute('data-style') && !e._foreign) {
          const i = this.containers.findIndex(c => c.node === (e.parentNode === this.shipped ? this.document.head : e.parentNode));
          o.push([i < 0 ? n : String(i), e.getAttribute('data-style'), e.textContent].join('\x1f'));
        }
        return o.join('\x1e');
      }
      case 'html': return c.node.innerHTML;
      case 'media': this.media.set({ width: +a[0], dark: a[1] === '1', print: a[2] === '1' }); return '';
      case 'refs': return [this.refs(), this.roots.reduce((n, r) => n + [...r[1]._walk()].length, 0), this.media.listeners()].join(' ');
      case 'listeners': return String(this.media.listeners());
      case 'errors': return this.logged.filter(l => l[0] === 'error').map(l => l[1]).join('\n');
      case 'markup': {
        const m = JSON.parse(markup[this.index]);
        // the page may have them anywhere
        let at = this.document.head;
        if (this.index % 3) {
          at = this.shipped = this.document.createElement(['section', 'div'][this.index % 2]);
          at._holder = true;
          this.index % 3 === 1 ? this.document.body.appendChild(at) : this.document.body.insertBefore(at, this.document.body.firstChild);
        }
        at.innerHTML = m.head;
        c.node.innerHTML = m.body;
        return m.body;
      }
      case 'full': c.node._full = a[1] === '1'; return '';
      case 'foreign': {
        const n = 'f' + this.foreign++;
        const d = c.node.ownerDocument;
        let e;
        if (a[2] === 'text') e = d.createTextNode(n);
        else if (a[2] === 'comment') e = d.createComment(n);
        else if (a[2] === 'copy') {
          // a copy of one of the styles
          e = c.node._kids.find(k => k.localName === 'style' && k.hasAttribute('data-style'));
          e = e ? e.cloneNode(true) : d.createElement('style');
          e._foreign = true;
          e.setAttribute('id', n);
        } else {
          e = d.createElement(a[2]);
          e.setAttribute('id', n);
        }
        a[1] === '1' ? c.node.insertBefore(e, c.node.firstChild) : c.node.appendChild(e);
        return this.kid(e).slice(2);
      }
      case 'move': {
        // a style is moved to the end or the beginning of a container
        const e = c.node._kids.filter(k => !k._holder)[+a[1]];
        const to = this.containers[+a[2]].node;
        to.insertBefore(e, a[3] === '1' ? to.firstChild : null);
        return '';
      }
      case 'steal': c.node.removeChild(c.node._kids.filter(k => !k._holder)[+a[1]]); return '';
      case 'toggle':
        if (c.out) {
          c.next && c.next.parentNode === this.document.body ? this.document.body.insertBefore(c.holder, c.next) : this.document.body.appendChild(c.holder);
        } else {
          c.next = c.holder.nextSibling;
          c.holder.remove();
        }
        c.out = !c.out;
        return '';
    }
    throw Error('asked ' + s);
  }
}
const settle = async net => {
  for (let i = 0; i < 3; i++) {
    await new Promise(r => setImmediate(r));
    if (net.pending) i = -1;
  }
};
async function run(i) {
  const place = new Place(i);
  current = { async: null };
  place.net.seed = Math.imul(i + 1, 2654435761) ^ +seed;
  let answer = Buffer.alloc(0);
  let rt;
  let panic = null;
  const env = {
    say: (p, n) => {
      const s = rt.text(p, n);
      if (s.startsWith('P ')) panic = panic || s.slice(2);
      else say(s);
    },
    ask: (p, n) => {
      answer = Buffer.from(place.ask(rt.text(p, n)));
      return answer.length;
    },
    answer: p => void new Uint8Array(rt.exports.memory.buffer).set(answer, p >>> 0),
    container: i => rt.put(place.containers[i].node),
  };
  try {
    rt = instantiate(module_, place.window, env);
    place.refs = rt.heapLive;
    rt.exports.start(+prop.slice(1), +seed, i);
    while (rt.exports.step() && !rt.fault) await settle(place.net);
  } catch (e) {
    if (!rt || !rt.fault) throw e;
  }
  await settle(place.net);
  if (rt.fault || current.async) {
    const f = rt.fault || current.async;
    if (/vendor\/yew-.*Please report this as an internal bug in yew/s.test(panic)) say('N cases_yew_gave_up 1');
    else if (/is not available here|no import|no description|cannot (take|give)/.test(f)) say(`I ${one(f)}`);
    else {
      say(`C 1 case ${i} ended early`);
      say(`V panic ${one((panic || f) + `\n(case ${i})`)}`);
    }
  }
  say(`N calls_into_the_document ${rt.calls}`);
  say(`N states_fetched ${place.net.asked}`);
  say(`N mutations_of_the_document ${place.log.mutations}`);
}
(async () => {
  for (let i = +from; i < +to; i += +stride) await run(i);
  say('E');
  fs.writeSync(1, lines.splice(0).join('\n') + '\n');
})().catch(e => {
  fs.writeSync(1, lines.splice(0).join('\n') + '\n');
  console.error(e);
  process.exit(2);
});
