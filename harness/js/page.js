// Opens a drawn page: HTML input preprocessing, script extraction by the HTML script-data rules, evaluation of
// the module against a small document and chart library; reports the data handed over, what is drawn, and what is
// drawn after each of a list of user actions.
const fs = require('fs'), vm = require('vm'), readline = require('readline');

function scriptEnd(s, i) { // s from i: script data; returns [endOfContent, afterTag] or null
  let mode = 0; // 0 normal, 1 escaped, 2 double escaped
  for (; i < s.length; i++) {
    if (s[i] === '<') {
      if (mode === 0 && s.startsWith('<!--', i)) { mode = 1; i += 1; continue; } // the dashes may also close
      const close = /^<\/script[\t\n\f \/>]/i.exec(s.slice(i, i + 10));
      if (close) {
        if (mode === 2) { mode = 1; i += 8; continue; }
        const g = s.indexOf('>', i);
        return [i, g < 0 ? s.length : g + 1];
      }
      if (mode === 1 && /^<script[\t\n\f \/>]/i.test(s.slice(i, i + 9))) { mode = 2; i += 6; continue; }
    } else if (mode > 0 && s.startsWith('-->', i)) { mode = 0; i += 2; }
  }
  return null;
}
const ENT = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'" };
function decode(s) {
  return s.replace(/&(#x[0-9a-fA-F]+|#[0-9]+|[a-z]+);/g, (m, e) => {
    if (e[0] === '#') { const c = e[1] === 'x' ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10); return String.fromCodePoint(c); }
    return e in ENT ? ENT[e] : m;
  });
}
function parse(html) {
  const scripts = []; let title = null, i = 0;
  while (i < html.length) {
    const lt = html.indexOf('<', i);
    if (lt < 0) break;
    i = lt;
    if (html.startsWith('<!--', i)) { const e = html.indexOf('-->', i + 4); i = e < 0 ? html.length : e + 3; continue; }
    const m = /^<([a-zA-Z][^\s\/>]*)/.exec(html.slice(i, i + 60));
    if (!m) { i++; continue; }
    const name = m[1].toLowerCase();
    let g = html.indexOf('>', i); if (g < 0) break;
    const tag = html.slice(i, g + 1);
    i = g + 1;
    if (name === 'title' || name === 'style' || name === 'textarea') {
      const e = new RegExp('</' + name + '[\\t\\n\\f \\/>]', 'i').exec(html.slice(i));
      const end = e ? i + e.index : html.length;
      if (name === 'title' && title === null) title = decode(html.slice(i, end));
      i = end;
    } else if (name === 'script') {
      const e = scriptEnd(html, i);
      scripts.push({ tag, code: html.slice(i, e ? e[0] : html.length) });
      i = e ? e[1] : html.length;
    }
  }
  return { scripts, title };
}
// ---- a small document and chart library: enough of the DOM, d3-hierarchy, d3-selection and d3-shape to really draw
const soft = (target) => new Proxy(target, { // anything not modelled is accepted and ignored
  get(t, k, r) {
    if (k in t || typeof k === 'symbol' || k === 'then') return Reflect.get(t, k, r);
    return anything;
  },
});
const anything = (() => {
  const f = function () { };
  const p = new Proxy(f, {
    get(t, k) {
      if (k === Symbol.toPrimitive) return () => 0;
      if (k === Symbol.iterator) return function* () { };
      if (k === 'then') return undefined;
      return p;
    },
    set() { return true; }, apply() { return p; }, construct() { return p; }, has() { return true; },
  });
  return p;
})();
class El {
  constructor(tag) { this.tag = String(tag).toLowerCase(); this.kids = []; this.parent = null; this.attrs = {}; this.own = ''; this.handlers = {}; this.datum = undefined; this.style = soft({}); this.html = ''; }
  appendChild(c) { if (!(c instanceof El)) throw new TypeError('appendChild: not a node'); c.remove(); c.parent = this; this.kids.push(c); return c; }
  append(...cs) { for (const c of cs) this.appendChild(c); }
  replaceChildren(...cs) { this.textContent = ''; this.append(...cs); }
  removeChild(c) { c.remove(); return c; }
  remove() { if (this.parent) { this.parent.kids = this.parent.kids.filter((x) => x !== this); this.parent = null; } }
  get firstChild() { return this.kids[0] || null; }
  get children() { return this.kids.slice(); }
  get textContent() { return this.own + this.kids.map((k) => k.textContent).join(''); }
  set textContent(v) { for (const k of this.kids.slice()) k.remove(); this.own = v === null || v === undefined ? '' : String(v); }
  get innerHTML() { return this.html; }
  set innerHTML(v) { this.textContent = ''; this.html = String(v); }
  addEventListener(type, f) { (this.handlers[type] = this.handlers[type] || []).push(f); }
  setAttribute(k, v) { this.attrs[k] = String(v); }
  getAttribute(k) { return k in this.attrs ? this.attrs[k] : null; }
  hears(type) { return (this.handlers[type] || []).length > 0 || typeof this['on' + type] === 'function'; }
  fire(type, e, d) {
    const ev = soft(Object.assign({ type, target: this, currentTarget: this, preventDefault() { }, stopPropagation() { }, button: 0 }, e));
    for (const f of (this.handlers[type] || []).slice()) f.call(this, ev, d);
    if (typeof this['on' + type] === 'function') this['on' + type](ev);
  }
  all(tag, out = []) { for (const k of this.kids) { if (tag === '*' || k.tag === tag) out.push(k); k.all(tag, out); } return out; }
  copy() { const c = new El(this.tag); Object.assign(c.attrs, this.attrs); c.own = this.own; c.html = this.html; for (const k of this.kids) c.appendChild(k.copy()); return c; }
}
const val = (v, el, i, els) => typeof v === 'function' ? v.call(el, el.datum, i, els) : v;
class Sel {
  constructor(els, parents) { this.els = els; this.parents = parents || els.map((e) => e.parent); }
  each(f) { this.els.forEach((e, i) => f.call(e, e.datum, i, this.els)); return this; }
  attr(k, v) { if (v === undefined && arguments.length < 2) return this.els[0] && this.els[0].getAttribute(k); return this.each2((e, i) => { const x = val(v, e, i, this.els); if (x === null || x === undefined) delete e.attrs[k]; else e.attrs[k] = String(x); }); }
  style(k, v) { return this.each2((e, i) => { val(v, e, i, this.els); }); }
  property(k, v) { return this.each2((e, i) => { e[k] = val(v, e, i, this.els); }); }
  classed() { return this; }
  each2(f) { this.els.forEach(f); return this; }
  text(v) { if (arguments.length === 0) return this.els[0] ? this.els[0].textContent : null; return this.each2((e, i) => { e.textContent = val(v, e, i, this.els); }); }
  html(v) { return this.each2((e, i) => { e.innerHTML = val(v, e, i, this.els); }); }
  on(types, f) { return this.each2((e) => { for (const t of String(types).split(/\s+/)) { e.handlers[t] = f ? [f] : []; } }); }
  dispatch(t) { return this.each2((e) => e.fire(t, {}, e.datum)); }
  append(n) { return new Sel(this.els.map((e, i) => { const c = typeof n === 'function' ? n.call(e, e.datum, i, this.els) : new El(n); c.datum = e.datum; return e.appendChild(c); })); }
  insert(n) { return this.append(n); }
  select(q) { return new Sel(this.els.flatMap((e) => { const x = typeof q === 'string' ? e.all(q)[0] : val(q, e, 0, []); if (x) { x.datum = e.datum; return [x]; } return []; })); }
  selectAll(q) { const p = this.els; return new Sel(p.flatMap((e) => typeof q === 'string' ? e.all(q) : Array.from(val(q, e, 0, []))), p); }
  selectChildren(q) { const p = this.els; return new Sel(p.flatMap((e) => e.kids.filter((k) => !q || k.tag === q)), p); }
  data(v, key) {
    const parent = this.parents[0];
    const data = Array.from(typeof v === 'function' ? v.call(parent, parent && parent.datum) : v);
    const update = [], enter = [], left = new Map(), used = new Set();
    this.els.forEach((e, i) => { left.set(key ? '$' + key.call(e, e.datum, i, this.els) : '$' + i, e); });
    data.forEach((d, i) => {
      const k = key ? '$' + key.call(parent, d, i, data) : '$' + i;
      const e = left.get(k);
      if (e && !used.has(k)) { e.datum = d; update.push(e); } else if (!used.has(k)) enter.push(d);
      used.add(k);
    });
    const s = new Sel(update, this.parents);
    s._enter = enter.map((d) => ({ d, parent }));
    s._exit = this.els.filter((e) => !update.includes(e));
    return s;
  }
  datum(v) { if (arguments.length === 0) return this.els[0] && this.els[0].datum; return this.each2((e, i) => { e.datum = val(v, e, i, this.els); }); }
  enter() { const s = this, list = this._enter || []; const make = (n) => new Sel(list.map((x, i) => { const c = typeof n === 'function' ? n.call(x.parent, x.d, i, []) : new El(n); c.datum = x.d; return x.parent.appendChild(c); })); return soft({ append: make, insert: make, size: () => list.length, empty: () => list.length === 0 }); }
  exit() { return new Sel(this._exit || []); }
  join(n) { const e = typeof n === 'function' ? n(this.enter()) : this.enter().append(n); this.exit().remove(); return e.merge(this); }
  merge(o) { return new Sel(this.els.concat(o.els || []), this.parents); }
  filter(f) { return new Sel(this.els.filter((e, i) => typeof f === 'string' ? e.tag === f : f.call(e, e.datum, i, this.els)), this.parents); }
  remove() { for (const e of this.els) e.remove(); return this; }
  clone(deep) { return new Sel(this.els.map((e) => { const c = e.copy(); if (!deep) { c.kids = []; c.own = ''; } c.datum = e.datum; if (e.parent) e.parent.appendChild(c); return c; })); }
  lower() { return this.each2((e) => { const p = e.parent; if (p) { p.kids = [e].concat(p.kids.filter((x) => x !== e)); } }); }
  raise() { return this.each2((e) => { const p = e.parent; if (p) p.appendChild(e); }); }
  order() { return this; } sort() { return this; } interrupt() { return this; }
  node() { return this.els[0] || null; }
  nodes() { return this.els.slice(); }
  size() { return this.els.length; }
  empty() { return this.els.length === 0; }
  call(f, ...a) { f(this, ...a); return this; }
  // transitions happen at once
  transition() { return this; } duration() { return this; } delay() { return this; } ease() { return this; } tween() { return this; } attrTween() { return this; }
  [Symbol.iterator]() { return this.els[Symbol.iterator](); }
}
class HNode {
  constructor(data, parent) { this.data = data; this.parent = parent; this.depth = parent ? parent.depth + 1 : 0; this.height = 0; }
  *[Symbol.iterator]() { let cur = [this]; while (cur.length) { const next = []; for (const n of cur) { yield n; if (n.children) next.push(...n.children); } cur = next; } }
  descendants() { return Array.from(this); }
  each(f, that) { let i = 0; for (const n of this) f.call(that, n, i++, this); return this; }
  eachBefore(f, that) { const st = [this]; let i = 0; while (st.length) { const n = st.pop(); f.call(that, n, i++, this); if (n.children) for (let k = n.children.length - 1; k >= 0; k--) st.push(n.children[k]); } return this; }
  eachAfter(f, that) { const out = []; const go = (n) => { if (n.children) n.children.forEach(go); out.push(n); }; go(this); out.forEach((n, i) => f.call(that, n, i, this)); return this; }
  ancestors() { const o = []; for (let n = this; n; n = n.parent) o.push(n); return o; }
  leaves() { const o = []; this.eachBefore((n) => { if (!n.children) o.push(n); }); return o; }
  links() { const o = []; this.each((n) => { if (n !== this) o.push({ source: n.parent, target: n }); }); return o; }
  find(f, that) { for (const n of this) if (f.call(that, n)) return n; }
  sum(f) { return this.eachAfter((n) => { n.value = (+f(n.data) || 0) + (n.children || []).reduce((a, c) => a + c.value, 0); }); }
  count() { return this.eachAfter((n) => { n.value = n.children ? n.children.reduce((a, c) => a + c.value, 0) : 1; }); }
  sort(f) { return this.eachBefore((n) => { if (n.children) n.children.sort(f); }); }
}
function hierarchy(data, children) {
  children = children || ((d) => d.children);
  const mk = (d, p, depth) => { const n = new HNode(d, p); const c = children(d); if (c) { const a = Array.from(c); if (a.length) n.children = a.map((x) => mk(x, n)); } return n; };
  const root = mk(data, null);
  root.eachAfter((n) => { n.height = n.children ? 1 + Math.max(...n.children.map((c) => c.height)) : 0; });
  return root;
}
function layout() {
  let dx = 1, dy = 1;
  const f = (root) => { let x = 0; root.eachAfter((n) => { n.x = n.children ? (n.children[0].x + n.children[n.children.length - 1].x) / 2 : dx * x++; n.y = n.depth * dy; }); return root; };
  f.nodeSize = (s) => { dx = +s[0]; dy = +s[1]; return f; };
  f.size = () => f; f.separation = () => f;
  return f;
}
function link() {
  let fx = (d) => d[0], fy = (d) => d[1];
  const l = (d) => `M${fx(d.source)},${fy(d.source)}C${fx(d.target)},${fy(d.target)}`;
  l.x = (f) => { fx = typeof f === 'function' ? f : () => f; return l; };
  l.y = (f) => { fy = typeof f === 'function' ? f : () => f; return l; };
  l.source = l.target = () => l;
  return l;
}
function ids(html) { // elements with an id, outside scripts and comments
  const o = {};
  const clean = html.replace(/<!--[\s\S]*?-->/g, '').replace(/<script[\s\S]*?<\/script>/gi, '').replace(/<style[\s\S]*?<\/style>/gi, '').replace(/<title[\s\S]*?<\/title>/gi, '');
  const re = /<([a-zA-Z][a-zA-Z0-9]*)\b([^>]*)>([^<]*)/g;
  for (let m; (m = re.exec(clean));) {
    const id = /\bid\s*=\s*["']?([^"'\s>]+)/.exec(m[2]);
    if (!id) continue;
    const e = new El(m[1]); e.html = m[3]; const v = /\bvalue\s*=\s*["']?([^"'\s>]+)/.exec(m[2]); e.value = v ? v[1] : '';
    if (!(id[1] in o)) o[id[1]] = e;
  }
  return o;
}
const NAMES = ['default', 'event', 'select', 'selectAll', 'create', 'hierarchy', 'tree', 'cluster', 'stratify', 'linkVertical', 'linkHorizontal', 'linkRadial', 'link', 'curveBumpX', 'curveBumpY', 'curveBasis', 'curveLinear', 'curveStep',
  'zoom', 'zoomIdentity', 'drag', 'transition', 'max', 'min', 'extent', 'range', 'ascending', 'descending', 'scaleLinear', 'scaleOrdinal', 'path', 'line', 'pointer', 'easeLinear', 'easeCubic', 'color', 'hsl', 'rgb'];

// a drawing: every datum-carrying group with what it shows, and the links
function drawing(svg, pathOf) {
  const nodes = [], links = [];
  const seen = new Map();
  for (const e of svg.all('*')) {
    const d = e.datum;
    if (d && d.source instanceof HNode && d.target instanceof HNode) { links.push([pathOf(d.source.data), pathOf(d.target.data)]); continue; }
    if (!(d instanceof HNode)) continue;
    if (e.parent.datum === d) continue; // inside a group that is counted
    const at = /^\s*translate\(\s*([-0-9.e]+)[\s,]+([-0-9.e]+)\s*\)\s*$/.exec(e.attrs.transform || '');
    const show = { at: pathOf(d.data), labels: [], titles: [], pos: at ? [Number(at[1]), Number(at[2])] : null };
    for (const k of e.all('*')) { if (k.tag === 'text' || k.tag === 'tspan') show.labels.push(k.textContent); if (k.tag === 'title') show.titles.push(k.textContent); }
    nodes.push(show);
  }
  return { nodes, links };
}
function svgs(doc) { const o = []; for (const id of Object.keys(doc)) for (const s of doc[id].all('svg')) o.push({ id, svg: s }); return o; }

async function open(path, plan) {
  let html = fs.readFileSync(path, 'utf8');
  html = html.replace(/\r\n?/g, '\n');
  const { scripts, title } = parse(html);
  const captured = [];
  let error = null, evaluated = 0;
  const doc = ids(html);
  const lib = {
    hierarchy: (d, c) => { captured.push(d); return hierarchy(d, c); }, create: (t) => new Sel([new El(t)]), tree: layout, cluster: layout,
    linkVertical: link, linkHorizontal: link, linkRadial: link, link, event: null,
    select: (q) => new Sel([typeof q === 'string' ? (doc[q.replace(/^#/, '')] || new El('g')) : q]), selectAll: (q) => new Sel([]),
  };
  const body = soft(new El('body'));
  const document = soft({ getElementById: (i) => doc[i] || null, querySelector: (q) => doc[String(q).replace(/^#/, '')] || null, body, createElement: (t) => new El(t), createElementNS: (n, t) => new El(t), documentElement: soft(new El('html')), addEventListener() { } });
  const window = soft({ innerWidth: 1000, innerHeight: 800, ResizeObserver: function () { }, addEventListener() { }, document });
  const ctx = vm.createContext({ document, window, console: { log() { }, error() { }, warn() { } } });
  for (const s of scripts) {
    try {
      const m = new vm.SourceTextModule(s.code.replace(/\0/g, '\ufffd'), { context: ctx });
      await m.link(async () => new vm.SyntheticModule(NAMES, function () {
        for (const k of NAMES) this.setExport(k, k in lib ? lib[k] : k === 'default' ? lib : anything);
      }, { context: ctx }));
      await m.evaluate({ timeout: 20000 });
      evaluated++;
    } catch (e) { error = String(e); }
  }
  const out = { scripts: scripts.length, evaluated, error, title, trees: captured.map((c) => plain(c)), complete: /<\/html>\s*$/.test(html) };
  if (!error && captured.length) {
    // data object -> path of child indices
    const where = new Map();
    const walk = (n, p) => { where.set(n, p); (n.children || []).forEach((c, i) => walk(c, p.concat(i))); };
    walk(captured[0], []);
    const pathOf = (d) => where.get(d) || ['?'];
    const all = () => svgs(doc).map(({ id, svg }) => ({ id, ...drawing(svg, pathOf) }));
    try {
      out.drawings = all();
      if (plan) out.steps = play(plan, doc, all, pathOf);
    } catch (e) { out.error = String(e.stack || e); }
  }
  return out;
}
// user actions: {fold: path, in: svg index} | {focus: path} | {press: id} | {slide: id, value}
function play(plan, doc, all, pathOf) {
  const steps = [];
  const same = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);
  for (const act of plan) {
    const miss = () => steps.push({ act, missed: true });
    if (act.press) { const e = doc[act.press]; if (!e || !e.hears('click')) { miss(); break; } e.fire('click', {}); }
    else if (act.slide) { const e = doc[act.slide]; if (!e || !e.hears('change')) { miss(); break; } e.value = act.value; e.fire('change', {}); }
    else {
      let hit = false;
      const host = doc[act.host];
      for (const e of host ? host.all('*') : []) {
        if (!(e.datum instanceof HNode) || !same(pathOf(e.datum.data), act.at)) continue;
        if (e.tag === act.tag && (e.handlers[act.type] || []).length) { e.fire(act.type, {}, e.datum); hit = true; break; }
      }
      if (!hit) { miss(); break; }
    }
    steps.push({ act, drawings: all() });
  }
  return steps;
}
function plain(n) { // preorder, with child counts
  const out = [];
  const go = (n) => {
    if (n === null || typeof n !== 'object') { out.push({ bad: typeof n }); return; }
    const o = {};
    for (const k of Object.keys(n)) if (!(k === 'children' && Array.isArray(n[k]))) o[k] = String(n[k]);
    if (Array.isArray(n.children)) o.kids = n.children.length;
    out.push(o);
    if (Array.isArray(n.children)) n.children.forEach(go);
  };
  go(n);
  return out;
}
const rl = readline.createInterface({ input: process.stdin });
(async () => {
  for await (const line of rl) {
    let r;
    try { const q = JSON.parse(line); r = await open(q.path, q.plan); } catch (e) { r = { fatal: String(e) }; }
    process.stdout.write(JSON.stringify(r) + '\n');
  }
})();
