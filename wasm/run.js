'use strict';
// Runs the browser build under cases that `rt bundle` generates, with a monitor per property.
// node run.js PROP --rt EXE --wasm FILE --seed S --worker W --secs T --out FILE --current FILE [--files FILE] [--case C]
const fs = require('fs');
const readline = require('readline');
const { spawn } = require('child_process');
const glue = require('./glue.js');

const args = process.argv.slice(2);
const prop = args[0];
const option = (name, fallback) => { const i = args.indexOf('--' + name); return i < 0 ? fallback : args[i + 1]; };

function die(message) {
  process.stderr.write('harness: ' + (message && message.stack ? message.stack : message) + '\n');
  process.exit(3);
}

class Violation extends Error {
  constructor(message, detail) { super(message); this.detail = detail ?? null; }
}
const violate = (message, detail) => { throw new Violation(message, detail); };
const show = (v) => { const s = JSON.stringify(v); return s === undefined ? 'nothing' : s.length > 500 ? s.slice(0, 500) + '…' : s; };

// ------------------------------------------------------------ what was observed

const seen = { evaluations: 0, distinct: new Set(), counters: {}, samples: [], violations: [] };
const count = (key, n = 1) => { seen.counters[key] = (seen.counters[key] ?? 0) + n; };
const sample = (v) => { if (seen.samples.length < 3) seen.samples.push(v); };
let currentCase = '';
function hash(text) {
  let a = 0x811c9dc5, b = 0x9e3779b9;
  for (let i = 0; i < text.length; i++) {
    const c = text.charCodeAt(i);
    a = Math.imul(a ^ c, 0x01000193);
    b = Math.imul(b ^ (c + i), 0x85ebca6b) ^ (b >>> 13);
  }
  return (a >>> 0).toString(16).padStart(8, '0') + (b >>> 0).toString(16).padStart(8, '0');
}
const evaluated = (what, nontrivial) => { seen.evaluations += 1; if (nontrivial) seen.distinct.add(hash(currentCase + ' ' + what)); };

// ------------------------------------------------------------ random choices

class Rng {
  constructor(seed) { this.s = parseInt(hash('rng' + seed).slice(0, 8), 16); }
  u32() {
    this.s = (this.s + 0x6d2b79f5) | 0;
    let t = Math.imul(this.s ^ (this.s >>> 15), 1 | this.s);
    t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t;
    return (t ^ (t >>> 14)) >>> 0;
  }
  below(n) { return n <= 0 ? 0 : this.u32() % n; }
  range(a, b) { return a + this.below(b - a + 1); }
  chance(a, b) { return this.below(b) < a; }
  pick(l) { return l[this.below(l.length)]; }
}

// ------------------------------------------------------------ driving the build

let compiled;
/** Every call into the build goes through here: a trap is an observation, anything else unexpected is ours. */
function call(instance, what, f) {
  try {
    return f();
  } catch (e) {
    if (e instanceof glue.Unsupported || e instanceof Violation) throw e;
    if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) {
      violate(`${what} crashes: ${e.message} ${instance.panics.slice(-1).join('').split('\n').slice(0, 2).join(' ')}`);
    }
    if (e instanceof glue.Thrown) violate(`${what} throws: ${e.message}`);
    throw e;
  }
}

class Shop {
  constructor() { this.i = new glue.Instance(compiled); this.api = this.i.api; }
  do(what, f) { return call(this.i, what, f); }
  load(bytes) { return this.do('initialize', () => this.api.initialize(bytes)); }
  categories() { return this.do('get_categories', () => this.api.get_categories()); }
  tags() { return this.do('get_tags', () => this.api.get_tags()); }
  orders() { return this.do('get_orders', () => this.api.get_orders()); }
  suggestion(q) { return this.do('tag_suggestion', () => this.api.tag_suggestion(q)); }
  search(q, c, t, order, filter) { return this.do(`search(${show(q)}, ${show(order)})`, () => this.api.search(q, c, t, order, filter)); }
  index(text) { return this.do('index', () => this.api.index(text)); }
  /** [[category, [[option, object]]]] */
  listCategories(handler) {
    return this.do('listing the categories', () => {
      const out = [];
      const it = handler.iter();
      for (let o; (o = it.next_item()); ) out.push(this.restOfOptions(o));
      for (let k = 0; k < 2; k++) if (it.next_item()) violate('the list of categories goes on after its end');
      it.free();
      return out;
    });
  }
  restOfOptions(o) {
    const list = [];
    const name = o.name();
    for (let x; (x = o.next_item()); ) list.push([x.get_name(), x]);
    if (o.next_item()) violate('the list of options goes on after its end');
    if (o.name() !== name) violate('a category changes its name');
    o.free();
    return [name, list];
  }
  listTags(handler) { return this.do('listing the tags', () => this.restOfTags(handler.tags())); }
  restOfTags(it) {
    const list = [];
    for (let t; (t = it.next_tag()); ) list.push([t.get_name(), t]);
    if (it.next_tag()) violate('the list of tags goes on after its end');
    it.free();
    return list;
  }
  drain(cursor) {
    return this.do('next_product', () => {
      const out = [];
      for (let p; (p = cursor.next_product()); ) { out.push(p); if (out.length > 100000) violate('the cursor does not end'); }
      return out;
    });
  }
}

// ------------------------------------------------------------ the catalogue as the model sees it

const bits = new DataView(new ArrayBuffer(4));
const f32 = (b) => { bits.setUint32(0, b); return bits.getFloat32(0); };
const unbase64 = (t) => new Uint8Array(Buffer.from(t, 'base64'));

class Catalogue {
  constructor(d) {
    Object.assign(this, d);
    this.file = unbase64(d.bytes);
    this.at = new Map(d.products.map((p, i) => [p.id, i]));
    this.columns = new Map(Object.entries(d.features).map(([k, f]) => [k, { kind: f.kind, has: f.has, values: f.kind === 'float' ? f.values.map(f32) : f.values }]));
    this.tagNames = new Set(d.products.flatMap((p) => p.tags));
    for (const q of d.queries) {
      q.conf = new Map(q.native);
      q.bounds = q.expect && new Map(q.expect.items.map(([p, lo, hi, must]) => [p, { lo, hi, must }]));
    }
  }
  /** undefined for a product that lacks the feature */
  value(p, name) {
    const c = this.columns.get(name);
    if (!c || p >= c.values.length) return undefined;
    return c.values[p];
  }
  hasOption(p, category, option) { return this.products[p].options.some(([n, v]) => n === category && v.includes(option)); }
  passes(p, filters) {
    for (const [name, f] of Object.entries(filters)) {
      const v = this.value(p, name);
      const number = (x) => typeof x === 'number';
      const given = (x) => x !== undefined && x !== null;
      const { from, to, exact } = f;
      if (number(from) || number(to)) {
        if (!number(v)) return false;
        if (number(from) && !(from <= v)) return false;
        if (number(to) && !(v <= to)) return false;
      } else if (given(exact)) {
        if (v === undefined || !(v === exact)) return false;
      }
    }
    return true;
  }
}

/** What a handed out product says about itself, against the catalogue; returns its number. */
function identify(shop, cat, p) {
  return shop.do('a product', () => {
    const id = p.get_id();
    const at = cat.at.get(id);
    if (at === undefined) violate(`a result has id ${show(id)}, which no product of the catalogue has`);
    const own = cat.products[at];
    if (p.get_title() !== own.title) violate(`product ${at} has title ${show(p.get_title())} instead of ${show(own.title)}`);
    const d = p.get_description();
    if (!own.description.startsWith(d) || (d === '') !== (own.description === '') || (own.stored !== null && d !== own.stored)) {
      violate(`product ${at} has description ${show(d)} instead of ${show(own.stored)}, of ${show(own.description)}`);
    }
    for (const [name, c] of cat.columns) {
      const n = p.numeric_feature(name), s = p.string_feature(name), v = cat.value(at, name);
      const same = (a, b) => Object.is(a, b) || (a === 0 && b === 0 && 1 / a === 1 / b);
      let ok;
      if (v === undefined) ok = n === undefined && s === undefined;
      else if (c.kind === 'image') ok = n === undefined && (s === v || (s === undefined && !c.has[at]));
      else if (c.kind === 'string') ok = n === undefined && s === v;
      else ok = s === undefined && same(n, v);
      if (!ok) violate(`product ${at} reports ${show(n)} and ${show(s)} for feature ${show(name)} instead of ${v}`);
      count('feature_values_compared');
    }
    if (p.numeric_feature('no such feature') !== undefined || p.string_feature('no such feature') !== undefined) violate('a feature that does not exist has a value');
    return at;
  });
}

/** The products of a cursor in order; the cursor has to end, for good. */
function results(shop, cat, cursor, keep) {
  const products = shop.drain(cursor);
  const out = products.map((p) => identify(shop, cat, p));
  shop.do('next_product', () => { for (let k = 0; k < 3; k++) if (cursor.next_product()) violate('the cursor hands out products after its end'); });
  if (new Set(out).size !== out.length) violate(`a product comes twice among the results ${show(out)}`);
  if (!keep) { for (const p of products) p.free(); cursor.free(); }
  return out;
}

/** Are these the results of that query among the products that pass, judged by what the native build and the model say? */
function judge(cat, q, got, passes, what) {
  const detail = { got, native: q.native.slice(0, 40), query: q.q };
  const gotSet = new Set(got);
  for (const p of got) if (!passes(p)) violate(`${what}: product ${p} comes back but does not pass`, detail);
  if (!q.expect || !q.expect.ambiguous) {
    for (const p of q.conf.keys()) if (passes(p) && !gotSet.has(p)) violate(`${what}: product ${p} matches and passes but is missing`, detail);
    for (const p of got) if (!q.conf.has(p)) violate(`${what}: product ${p} comes back but does not match natively`, detail);
  }
  if (q.bounds) {
    for (const [p, b] of q.bounds) if (b.must && passes(p) && !gotSet.has(p)) violate(`${what}: product ${p} should match and passes but is missing`, detail);
    for (const p of got) if (!q.bounds.has(p)) violate(`${what}: product ${p} comes back but should not match`, detail);
    count('results_judged_by_model', got.length);
  }
}
function ranked(cat, q, got, what) {
  const detail = { got, native: q.native.slice(0, 40), query: q.q };
  for (let i = 1; i < got.length; i++) {
    const [a, b] = [got[i - 1], got[i]];
    if (q.bounds && q.bounds.get(a).hi * 1.002 < q.bounds.get(b).lo) violate(`${what}: product ${a} comes before ${b}, which is more confident`, detail);
    if (!(q.expect && q.expect.ambiguous) && q.conf.get(a) < q.conf.get(b) * (1 - 1e-5)) violate(`${what}: product ${a} comes before ${b}, natively more confident`, detail);
  }
}
function ordered(cat, order, got, what) {
  const at = cat.orders[order];
  for (let i = 1; i < got.length; i++) {
    if (!(at[got[i - 1]] < at[got[i]])) violate(`${what}: product ${got[i - 1]} comes before ${got[i]} in ordering ${show(order)}`, { got });
  }
}

const sameSet = (a, b) => a.length === b.length && new Set(a).size === a.length && a.every((x) => b.includes(x));
function checkListings(shop, cat, c, t, what, exact) {
  const cats = shop.listCategories(c).map(([n, l]) => [n, l.map((x) => x[0])]);
  const expected = exact ? cat.native_categories : cat.categories;
  if (JSON.stringify(cats) !== JSON.stringify(expected)) violate(`${what}: the categories are ${show(cats)} instead of ${show(expected)}`);
  const tags = shop.listTags(t).map((x) => x[0]);
  const ok = exact ? JSON.stringify(tags) === JSON.stringify(cat.native_tags) : sameSet(tags, [...cat.tagNames]);
  if (!ok) violate(`${what}: the tags are ${show(tags)} instead of ${show(exact ? cat.native_tags : [...cat.tagNames])}`);
}
function checkOrders(shop, cat, what) {
  const orders = shop.orders();
  if (!orders || !sameSet(orders, Object.keys(cat.orders))) violate(`${what}: the orderings are ${show(orders)} instead of ${show(Object.keys(cat.orders))}`);
}

// ------------------------------------------------------------ C16 as the property states it

function overlap(a, b) {
  const x = Array.from(a), y = Array.from(b);
  const len = Math.min(x.length, y.length);
  if (len < 3) return [0, 1];
  let same = 0;
  for (let i = 0; i < len; i++) if (x[i] === y[i]) same += 1;
  return [same, len];
}
function bestOverlaps(cat, q) {
  let best = [0, 1], who = [];
  for (const w of q.split(' ')) {
    for (const t of cat.tagNames) {
      const o = overlap(t, w);
      if (o[0] * 10 <= o[1] * 8) continue;
      const d = o[0] * best[1] - best[0] * o[1];
      if (d > 0) { best = o; who = []; }
      if (d >= 0) who.push([w, t]);
    }
  }
  return who;
}
function checkSuggestion(shop, cat, q, what) {
  const who = bestOverlaps(cat, q);
  const s = shop.suggestion(q);
  if (!s) {
    if (who.length) violate(`${what}: no suggestion for ${show(q)}, though ${show(who[0])} overlap`);
    count('no_suggestion');
    return null;
  }
  return shop.do('a suggestion', () => {
    const tag = s.get_tag();
    const found = [s.get_input(), tag.get_name()];
    if (!who.some(([w, t]) => w === found[0] && t === found[1])) violate(`${what}: the suggestion for ${show(q)} is ${show(found)} instead of ${show(who)}`);
    count('suggestions');
    return { s, tag, found };
  });
}
function suggestionQuery(rng, cat) {
  const tags = [...cat.tagNames];
  const words = [];
  for (let k = rng.chance(1, 8) ? rng.range(5, 40) : rng.range(0, 4); k > 0; k--) {
    let w = tags.length && rng.chance(3, 4) ? Array.from(rng.pick(tags)) : Array.from(rng.pick(['kunst', 'abc', '漢字漢', 'xyzzy', '']));
    for (let e = w.length > 14 ? rng.below(Math.min(w.length >> 2, 80)) : rng.pick([0, 0, 1, 1, 2]); e > 0; e--) {
      const at = rng.below(w.length + 1);
      switch (rng.below(6)) {
        case 0: w[at] = rng.pick(['x', 'é', '👽', 'a']); break;
        case 4: w.push(rng.pick([',', '.', '\t', '\n', '?', '"', '\u00a0'])); break;
        case 5: w.unshift(rng.pick(['(', '"', '#', '\t', '\u3000', '-'])); break;
        case 1: w.splice(at, 1); break;
        case 2: w.push(...rng.pick(['s', 'xyz', '👽👽'])); break;
        default: if (w.length < 1000) w = w.concat(Array.from(tags.length ? rng.pick(tags) : 'q'));
      }
    }
    words.push(w.join(''));
    if (w.length > 20000) break;
  }
  return words.join(rng.chance(1, 8) ? '  ' : ' ');
}

// ------------------------------------------------------------ filters

function someFilter(rng, cat) {
  const filters = {};
  const names = [...cat.columns.keys()];
  for (let k = rng.pick([1, 1, 1, 2, 3]); k > 0; k--) {
    const name = rng.chance(1, 10) ? 'no such feature' : rng.pick(names);
    const c = cat.columns.get(name);
    const some = () => (c && c.values.length ? rng.pick(c.values) : rng.pick([0, 1, 'red', '']));
    const near = () => {
      const v = some();
      if (typeof v !== 'number') return rng.pick([0, 1, -1, Infinity]);
      return rng.pick([v, v, v + 0.5, v - 0.5, v * (1 + 1e-9), v * (1 - 1e-9), 0, Infinity, -Infinity, NaN]);
    };
    const none = () => rng.pick([undefined, null]);
    let f;
    // Not numbers, though they may look like some
    const odd = () => { const v = near(); return rng.pick([String(v), ` ${v}`, true, false, '', 'abc', '0', [v], { valueOf() { return v; } }, new Number(v), 3n]); };
    switch (rng.below(14)) {
      case 13: { const v = some(); f = { exact: typeof v === 'number' ? rng.pick([Math.round(v), Math.floor(v), Math.ceil(v), v + 0.001, v - 0.004, v * (1 + 1e-9), Number(v.toFixed(2)), Number(v.toPrecision(6))]) : rng.pick([v.trim(), ` ${v}`, v.toLowerCase(), v.normalize('NFD'), v.slice(0, -1), v.replace('http:', 'https:'), v.split('?')[0]]) }; break; }
      case 10: f = rng.pick([{ from: odd() }, { to: odd() }, { from: odd(), to: odd() }, { from: odd(), to: near() }, { from: near(), to: odd() }]); break;
      case 11: f = rng.pick([{ from: odd(), exact: some() }, { to: odd(), exact: some() }, { from: odd(), to: odd(), exact: some() }]); break;
      case 12: f = { exact: rng.pick([0, -0, '', false, NaN, String(some()), new String(some()), Object(some()), [some()], true, 1, '1', '0']) }; break;
      case 0: f = { from: near() }; break;
      case 1: f = { to: near() }; break;
      case 2: f = { from: near(), to: near() }; break;
      case 3: { const [a, b] = [near(), near()]; f = { from: Math.min(a, b), to: Math.max(a, b) }; break; }
      case 4: f = { exact: some() }; break;
      case 5: { const v = some(); f = { exact: typeof v === 'number' ? rng.pick([String(v), v + 1, -v, v]) : rng.pick([Number(v), v + ' ', v.toUpperCase(), true, 0, v]) }; break; }
      case 6: f = rng.pick([{}, { from: none(), to: none() }, { exact: none() }, { other: 1 }, { from: none(), to: none(), exact: none() }]); break;
      case 7: f = rng.chance(1, 2) ? { from: near(), to: none(), exact: none() } : { from: none(), to: near() }; break;
      case 8: f = rng.pick([{ exact: some(), from: near() }, { exact: some(), to: near() }, { to: near(), from: near(), exact: some() }]); break;
      default: f = rng.chance(1, 2) ? { exact: some(), from: none(), to: none() } : Object.create({ from: near() });
    }
    filters[name] = f;
  }
  return filters;
}
const describeFilter = (f) => Object.entries(f).map(([k, v]) => `${k}: ${v === null || typeof v !== 'object' ? String(v) : ['from', 'to', 'exact'].filter((x) => v[x] !== undefined).map((x) => `${x} ${typeof v[x]} ${String(v[x])}`).join(', ')}`).join('; ');
const kindOf = (f) => Object.values(f).map((v) => (typeof v.from === 'number' ? (typeof v.to === 'number' ? 'between' : 'from') : typeof v.to === 'number' ? 'to' : v.exact !== undefined && v.exact !== null ? `exact_${typeof v.exact}` : typeof (v.from ?? v.to ?? undefined) !== 'undefined' ? 'odd_bounds' : 'unconstrained'));

// ------------------------------------------------------------ the properties

function loaded(data) {
  const cat = new Catalogue(data);
  const shop = new Shop();
  if (shop.load(cat.file) !== true) violate('an index file the native build made does not load');
  return [shop, cat];
}

function c13(data, rng) {
  const [shop, cat] = loaded(data.catalogues[0]);
  const [c, t] = [shop.categories(), shop.tags()];
  for (const q of cat.queries) {
    const all = results(shop, cat, shop.search(q.q, c, t, undefined, {}) ?? violate('a search without filters gives no result object'));
    for (let k = 0; k < 6; k++) {
      const filters = someFilter(rng, cat);
      const what = `filtering ${show(q.q)} by ${describeFilter(filters)}`;
      const cursor = shop.search(q.q, c, t, undefined, filters);
      if (!cursor) violate(`${what}: there is no result object`);
      const got = results(shop, cat, cursor);
      const expected = all.filter((p) => cat.passes(p, filters));
      if (!sameSet(got, expected)) violate(`${what}: products ${show(got)} instead of ${show(expected)} of ${show(all)}`, { values: Object.keys(filters).map((n) => all.map((p) => String(cat.value(p, n)))) });
      for (const kind of kindOf(filters)) count('filter_' + kind);
      count('kept', got.length);
      count('dropped', all.length - got.length);
      if (all.some((p) => Object.keys(filters).some((n) => cat.value(p, n) === undefined))) count('filters_met_a_product_without_the_feature');
      evaluated(q.q + describeFilter(filters), got.length > 0 && got.length < all.length);
      sample({ query: q.q, filters: describeFilter(filters), matches: all.length, kept: got.length });
    }
    const bad = { ...(rng.chance(1, 2) ? someFilter(rng, cat) : {}) };
    const key = rng.pick([...cat.columns.keys(), 'x']);
    bad[key] = rng.pick([null, undefined, 5, 'from', true, 0, '', Symbol('x'), 7n, { get from() { throw new Error('no'); } }, { get to() { throw 1; } }, { get exact() { throw null; } },
      new Proxy({}, { get() { throw new TypeError('closed'); } })]);
    const cursor = shop.search(q.q, c, t, rng.pick([undefined, 'Alphabetical']), bad);
    if (cursor) violate(`a filter that cannot be read (${describeBad(bad)}) gives results`);
    count('unreadable_filters');
    evaluated('unreadable ' + describeBad(bad), all.length > 0);
  }
}
const describeBad = (b) => Object.entries(b).map(([k, v]) => `${k}: ${v === null ? 'null' : typeof v}`).join(', ');

function c14(data, rng) {
  const [shop, cat] = loaded(data.catalogues[0]);
  let c, t, activeOptions, activeTags;
  const fresh = () => { c?.free(); t?.free(); c = shop.categories(); t = shop.tags(); activeOptions = new Map(); activeTags = new Map(); };
  const orders = Object.keys(cat.orders);
  fresh();
  for (const q of cat.queries) {
    const matches = [...q.conf.keys()];
    for (let k = 0; k < 5; k++) {
      if (rng.chance(1, 3)) fresh();
      // Mostly options and tags that something found has, so that something passes
      for (let n = rng.pick([0, 0, 1, 1, 2]); n > 0; n--) {
        const p = matches.length && rng.chance(4, 5) ? cat.products[rng.pick(matches)] : rng.pick(cat.products);
        if (!p) break;
        if (rng.chance(1, 2)) {
          const [category, values] = p.options.length ? rng.pick(p.options) : [];
          if (!values || !values.length) continue;
          const value = rng.pick(values);
          const entry = shop.listCategories(c).find((x) => x[0] === category)?.[1].find((x) => x[0] === value);
          if (!entry) violate(`option ${show(value)} of ${show(category)} is not listed`);
          shop.do('toggle', () => c.toggle(entry[1]));
          const key = JSON.stringify([category, value]);
          if (!activeOptions.delete(key)) activeOptions.set(key, [category, value]);
        } else if (p.tags.length) {
          const name = rng.pick(p.tags);
          const entry = shop.listTags(t).find((x) => x[0] === name);
          if (!entry) violate(`tag ${show(name)} is not listed`);
          shop.do('toggle', () => t.toggle(entry[1]));
          if (!activeTags.delete(name)) activeTags.set(name, true);
        }
      }
      if (matches.length && rng.chance(1, 6)) {
        // Everything that something found has
        fresh();
        const p = cat.products[rng.pick(matches)];
        const all = shop.listCategories(c);
        const [seen, left] = [new Set(), rng.range(0, 1)];
        for (const [category, values] of p.options) for (const value of values) {
          const key = JSON.stringify([category, value]);
          if (seen.has(key) || (left && rng.chance(1, 4))) continue;
          seen.add(key);
          const entry = all.find((x) => x[0] === category)?.[1].find((x) => x[0] === value);
          if (!entry) violate(`option ${show(value)} of ${show(category)} is not listed`);
          shop.do('toggle', () => c.toggle(entry[1]));
          activeOptions.set(key, [category, value]);
        }
        const listed = shop.listTags(t);
        for (const name of new Set(p.tags)) {
          if (left && rng.chance(1, 4)) continue;
          const entry = listed.find((x) => x[0] === name);
          if (!entry) violate(`tag ${show(name)} is not listed`);
          shop.do('toggle', () => t.toggle(entry[1]));
          activeTags.set(name, true);
        }
        seen.size && count('all_options_of_a_product');
      }
      const filters = rng.chance(1, 3) ? someFilter(rng, cat) : {};
      const order = rng.chance(1, 2) ? rng.pick(orders) : undefined;
      const text = q.variant !== null && rng.chance(1, 2) ? q.variant : q.q;
      const what = `searching ${show(text)} with options ${show([...activeOptions.values()])}, tags ${show([...activeTags.keys()])}, filters {${describeFilter(filters)}}, ordering ${show(order)}`;
      const passes = (p) => [...activeOptions.values()].every(([n, v]) => cat.hasOption(p, n, v)) && [...activeTags.keys()].every((n) => cat.products[p].tags.includes(n)) && cat.passes(p, filters);
      const cursor = shop.search(text, c, t, order, filters);
      if (!cursor) violate(`${what}: there is no result object`);
      const got = results(shop, cat, cursor);
      judge(cat, q, got, passes, what);
      if (order === undefined) { ranked(cat, q, got, what); count('ranked'); } else { ordered(cat, order, got, what); count('ordered'); }
      if (text !== q.q) count('recased');
      if (activeOptions.size) count('with_options');
      if (activeTags.size) count('with_tags');
      if (activeOptions.size && activeTags.size && got.length) count('with_options_and_tags_and_results');
      count('results', got.length);
      count('held_back', matches.length - got.length);
      evaluated(what, got.length > 1);
      sample({ what, matches: matches.length, results: got.length });
    }
    const known = rng.pick(orders);
    const unknown = rng.pick(['nope', 'alphabetical', 'Price', 'Alphabetical ', 'price', 'Price low to High', '', ` ${known}`, `${known} `, `${known}\n`, known.toLowerCase(), known.toUpperCase(), known.slice(0, -1), known.slice(1), `${known}x`, `${known}\0`]);
    if (!orders.includes(unknown) && shop.search(q.q, c, t, unknown, {})) violate(`the unknown ordering ${show(unknown)} gives results`);
    count('unknown_orderings');
    // Two cursors at once
    const a = shop.search(q.q, c, t, undefined, {}), b = shop.search(q.q, c, t, orders[0], {});
    if (!a || !b) violate('there is no result object');
    const [x, y] = [[], []];
    shop.do('next_product', () => {
      for (let more = true, n = 0; more && n < 100000; n++) {
        const [p, r] = [a.next_product(), b.next_product()];
        if (p) x.push(identify(shop, cat, p));
        if (r) y.push(identify(shop, cat, r));
        more = p || r;
      }
    });
    if (!sameSet(x, y)) violate(`two cursors of the same search hand out ${show(x)} and ${show(y)}`);
    ordered(cat, orders[0], y, 'interleaved cursors');
    count('interleaved_cursors');
  }
}

function c15(data, rng) {
  const [shop, cat] = loaded(data.catalogues[0]);
  const kinds = [];
  for (const kind of ['category', 'tag']) {
    const make = () => (kind === 'category' ? shop.categories() : shop.tags());
    const items = (h) => (kind === 'category' ? shop.listCategories(h).flatMap(([n, l]) => l.map(([o, x]) => [JSON.stringify([n, o]), x])) : shop.listTags(h).map(([n, x]) => [n, x]));
    const first = make();
    if (items(first).length) kinds.push([kind, make, items]);
    first.free();
  }
  if (!kinds.length) { evaluated('no options', false); return; }
  const handlers = [];
  for (let k = 0; k < 3; k++) {
    const [kind, make, items] = rng.pick(kinds);
    const h = make();
    handlers.push({ kind, h, items: items(h), again: () => items(h), status: new Map(), general: [], own: new Map() });
  }
  let calls = [];
  let inside = null;
  const listeners = [];
  for (let k = 0; k < 7; k++) {
    const style = k % 7;
    const f = function (...a) {
      calls.push([k, a]);
      if (style === 3) throw new Error('listener');
      if (style === 4) throw undefined;
      if (style === 5 && inside) inside.h.get_status(inside.items[0][1]); // refused: the handler is at work
      if (style === 6) return k;
      return undefined;
    };
    listeners.push(f);
  }
  const history = [];
  // Now and then one listener is registered very often
  let crowds = rng.chance(1, 3) ? 2 : 0;
  const crowd = () => (crowds > 0 && rng.chance(1, 6) ? (crowds--, rng.pick([20, 40, 70, 130, 260])) : 1);
  const register = { category: 'add_option_lister', tag: 'add_tag_lister' };
  const remove = { category: 'remove_option_listener', tag: 'remove_tag_listener' };
  for (let step = rng.range(20, 90); step > 0; step--) {
    const s = rng.pick(handlers);
    const few = s.items.slice(0, 4);
    const [key, item] = rng.chance(5, 6) ? rng.pick(few) : rng.pick(s.items);
    const l = rng.below(listeners.length);
    const own = s.own.get(key) ?? [];
    switch (rng.below(8)) {
      case 0:
        for (let n = crowd(); n > 0; n--) {
          history.push([handlers.indexOf(s), 'general', l]);
          shop.do('add_general_observer', () => s.h.add_general_observer(listeners[l]));
          s.general.push(l);
        }
        break;
      case 1: case 2: {
        const added = [];
        for (let n = crowd(); n > 0; n--) {
          history.push([handlers.indexOf(s), 'add', key, l]);
          shop.do('adding a listener', () => s.h[register[s.kind]](item, listeners[l]));
          added.push(l);
        }
        s.own.set(key, [...own, ...added]);
        break;
      }
      case 3: {
        history.push([handlers.indexOf(s), 'remove', key, l]);
        shop.do('removing a listener', () => s.h[remove[s.kind]](item, listeners[l]));
        const at = own.indexOf(l);
        if (at >= 0) { own.splice(at, 1); s.own.set(key, own); count('removals'); } else count('removals_of_nothing');
        break;
      }
      case 4: {
        // The same option or tag through objects obtained anew
        s.items = s.again();
        for (const [k, x] of s.items) if (shop.do('get_status', () => s.h.get_status(x)) !== (s.status.get(k) ?? false)) violate(`the status of ${k} is not what its toggles make it`, { history });
        break;
      }
      default: {
        history.push([handlers.indexOf(s), 'toggle', key]);
        const state = !(s.status.get(key) ?? false);
        s.status.set(key, state);
        calls = [];
        inside = s;
        shop.do('toggle', () => s.h.toggle(item));
        inside = null;
        const expected = [...s.general, ...(s.own.get(key) ?? [])].sort();
        const got = calls.map((x) => x[0]).sort();
        if (JSON.stringify(got) !== JSON.stringify(expected)) violate(`toggling ${key} calls listeners ${show(got)} instead of ${show(expected)}`, { history });
        for (const [k, a] of calls) if (a.length !== 1 || a[0] !== state) violate(`listener ${k} of ${key} is called with ${show(a)} instead of [${state}]`, { history });
        if (shop.do('get_status', () => s.h.get_status(item)) !== state) violate(`toggling ${key} leaves its status ${!state}`, { history });
        count('toggles');
        count('calls', calls.length);
        if (calls.length > 64) count('toggles_with_more_than_64_calls');
        if (expected.some((l, i) => expected[i + 1] === l)) count('calls_of_repeated_registrations');
        if (expected.some((l) => l === 3 || l === 4)) count('toggles_with_throwing_listeners');
        if (expected.includes(5)) count('toggles_with_reentrant_listeners');
        evaluated(JSON.stringify([history.length, key, expected]), expected.length > 1);
      }
    }
  }
  for (const s of handlers) for (const [k, x] of s.again()) if (shop.do('get_status', () => s.h.get_status(x)) !== (s.status.get(k) ?? false)) violate(`the status of ${k} is not what its toggles make it`, { history });
  sample({ steps: history.length, last: history.slice(-3) });
}

function c16(data, rng) {
  const [shop, cat] = loaded(data.catalogues[0]);
  for (let k = 0; k < 40; k++) {
    const q = suggestionQuery(rng, cat);
    const found = checkSuggestion(shop, cat, q, 'in the browser build');
    count('browser_queries');
    evaluated(q, !!found);
  }
}

function c21(data, rng, files) {
  const [shop, cat] = loaded(data.catalogues[0]);
  const [c, t] = [shop.categories(), shop.tags()];
  if (!c || !t) violate('nothing is loaded after a successful load');
  checkListings(shop, cat, c, t, 'natively made file', true);
  checkOrders(shop, cat, 'natively made file');
  count('options_compared', cat.native_categories.reduce((a, x) => a + x[1].length, 0));
  count('tags_compared', cat.native_tags.length);
  const met = new Set();
  for (const q of cat.queries) {
    const got = results(shop, cat, shop.search(q.q, c, t, undefined, {}) ?? violate('there is no result object'));
    const what = `searching ${show(q.q)} in the natively made file`;
    judge(cat, q, got, () => true, what);
    ranked(cat, q, got, what);
    const order = rng.pick(Object.keys(cat.orders));
    ordered(cat, order, results(shop, cat, shop.search(q.q, c, t, order, {}) ?? violate('there is no result object')), what);
    got.forEach((p) => met.add(p));
    count('searches_compared');
    count('results_compared', got.length);
    evaluated(q.q, got.length > 1);
  }
  count('products_met', met.size);
  // Filtering by each option and tag shows their members
  const q = cat.queries.reduce((a, b) => (b.conf.size > a.conf.size ? b : a));
  for (const [category, options] of shop.listCategories(c)) {
    for (const [name, x] of options.slice(0, 6)) {
      shop.do('toggle', () => c.toggle(x));
      judge(cat, q, results(shop, cat, shop.search(q.q, c, t, undefined, {})), (p) => cat.hasOption(p, category, name), `option ${show(name)} of ${show(category)} in the natively made file`);
      shop.do('toggle', () => c.toggle(x));
    }
  }
  for (const [name, x] of shop.listTags(t).slice(0, 8)) {
    shop.do('toggle', () => t.toggle(x));
    judge(cat, q, results(shop, cat, shop.search(q.q, c, t, undefined, {})), (p) => cat.products[p].tags.includes(name), `tag ${show(name)} in the natively made file`);
    shop.do('toggle', () => t.toggle(x));
  }
  sample({ products: cat.products.length, queries: cat.queries.length, bytes: cat.file.length, met: met.size });
  c17(data, rng, files);
}

function c17(data, rng, files) {
  const shop = new Shop();
  const bytes = shop.index(data.json);
  if (!bytes) violate('the browser build does not index a well-formed catalogue', { json: data.json.slice(0, 2000) });
  fs.writeSync(files, JSON.stringify({ case: data.case, bytes: Buffer.from(bytes).toString('base64') }) + '\n');
  if (shop.load(bytes) !== true) violate('the browser build does not load the index it made', { json: data.json.slice(0, 2000) });
  count('spellings_indexed_in_the_browser_build');
  evaluated(data.json, data.json.length > 200);
  for (const text of data.broken ?? []) {
    if (shop.index(text)) violate('the browser build indexes text that is no catalogue', { text: text.slice(0, 2000) });
    count('other_texts_refused_in_the_browser_build');
    evaluated(text.slice(0, 100) + text.length, true);
  }
}

function c03(data, rng) {
  for (const h of data.hostile) {
    const bytes = unbase64(h.bytes);
    const shop = new Shop();
    const detail = { kind: h.kind, hex: Buffer.from(bytes.subarray(0, 4000)).toString('hex') };
    const before = shop.i.memory.buffer.byteLength;
    let where = 'loading';
    try {
      const ok = shop.load(bytes);
      const grown = shop.i.memory.buffer.byteLength - before;
      seen.counters.max_browser_kilobytes = Math.max(seen.counters.max_browser_kilobytes ?? 0, grown >> 10);
      if (grown > (64 << 20) + 1024 * bytes.length) violate(`loading ${bytes.length} bytes takes ${grown} bytes of memory`);
      if (ok && h.prefix) violate('a strict prefix of an index file loads in the browser build');
      count(ok ? 'loaded_in_the_browser_build' : 'rejected_by_the_browser_build');
      if (ok) {
        where = 'using';
        const [c, t] = [shop.categories(), shop.tags()];
        const options = shop.listCategories(c).flatMap((x) => x[1]), tags = shop.listTags(t);
        const orders = [undefined, 'nope', ...shop.orders()];
        const titles = [];
        const texts = [...h.probes, ...h.probes, 'kunst plakat', '', 'aaaaaaa', 'k', 'cabab', 'print', 'den store maleri'];
        for (let k = 0; k < 12; k++) {
          const q = titles.length && rng.chance(1, 2) ? rng.pick(titles) : rng.pick(texts);
          const filter = rng.pick([{}, {}, { price: { from: 0 } }, { image_url: { exact: '' } }, { price: { exact: 1 } }]);
          const cursor = shop.search(q, c, t, rng.pick(orders), filter);
          if (cursor) {
            for (const p of shop.drain(cursor).slice(0, 30)) {
              shop.do('a product', () => {
                titles.push(p.get_title().slice(0, 40)); p.get_description(); p.get_id(); p.numeric_feature('price'); p.string_feature('image_url'); p.free();
              });
              count('products_of_hostile_files');
            }
            cursor.free();
          }
          if (k > 5 && options.length) shop.do('toggle', () => c.toggle(rng.pick(options)[1]));
          if (k > 8 && tags.length) shop.do('toggle', () => t.toggle(rng.pick(tags)[1]));
        }
        for (const o of orders) for (const q of texts.concat(titles.slice(0, 3))) { const s = shop.search(q, c, t, o, {}); if (s) { shop.drain(s).length; s.free(); } }
        shop.suggestion('aaaa kunst ' + (tags[0]?.[0] ?? ''));
      }
    } catch (e) {
      if (e instanceof Violation) throw new Violation(`${where} ${bytes.length} ${h.kind} bytes in the browser build: ${e.message}`, detail);
      throw e;
    }
    count('hostile_files_in_the_browser_build');
    evaluated(h.bytes.slice(0, 200) + bytes.length, bytes.length > 8);
  }
}

function c04(data, rng) {
  const shop = new Shop();
  const cats = data.catalogues.map((d) => new Catalogue(d));
  const bad = data.hostile.filter((h) => !h.loads).map((h) => unbase64(h.bytes));
  let current = null;
  const history = [];
  const kept = [];
  const strangers = [];
  const nothing = (what) => {
    if (shop.categories() || shop.tags() || shop.orders() || shop.suggestion('abc kunst')) violate(`${what}: something is served although nothing was loaded`, { history });
    count('nothing_served');
  };
  const serving = (what) => {
    if (!current) return nothing(what);
    const [c, t] = [shop.categories(), shop.tags()];
    if (!c || !t) violate(`${what}: nothing is served`, { history });
    checkListings(shop, current, c, t, what, false);
    checkOrders(shop, current, what);
    const s = checkSuggestion(shop, current, suggestionQuery(rng, current), what);
    for (let k = 0; k < 3; k++) {
      const q = rng.pick(current.queries);
      const order = rng.chance(1, 2) ? rng.pick(Object.keys(current.orders)) : undefined;
      const cursor = shop.search(q.q, c, t, order, {});
      if (!cursor) violate(`${what}: searching ${show(q.q)} in ordering ${show(order)} gives no result object`, { history });
      const got = results(shop, current, cursor);
      judge(current, q, got, () => true, what);
      if (order === undefined) ranked(current, q, got, what); else ordered(current, order, got, what);
      count('answers_of_the_current_load', 1);
      evaluated(what + q.q + history.length, got.length > 0);
    }
    // What was obtained from other loads does no harm
    if (strangers.length && rng.chance(1, 2)) {
      const q = rng.pick(current.queries);
      const [c2, t2] = [shop.categories(), shop.tags()];
      const all = () => { const s = shop.search(q.q, c2, t2, undefined, {}); if (!s) violate(`${what}: a search gives no result object`, { history }); return results(shop, current, s); };
      const before = all();
      const some = [rng.pick(strangers), rng.pick(strangers)];
      const toggle = () => shop.do('toggling what another load listed', () => some.forEach((x) => { if (x.options.length) c2.toggle(x.option); if (x.tags.length) t2.toggle(x.tag); }));
      for (const x of some) { x.option = rng.pick(x.options); x.tag = rng.pick(x.tags); }
      toggle();
      all();
      const mixed = shop.search(q.q, some[0].c, some[1].t, rng.pick([undefined, 'Alphabetical']), {});
      if (mixed) shop.drain(mixed);
      toggle();
      const after = all();
      if (!sameSet(before, after)) violate(`${what}: toggling what another load listed twice changes a search from ${show(before)} to ${show(after)}`, { history });
      count('objects_of_other_loads_used', some.length);
    }
    if (rng.chance(1, 2)) {
      const mine = { c: shop.categories(), t: shop.tags() };
      mine.options = shop.listCategories(mine.c).flatMap(([, l]) => l.slice(-2).map((x) => x[1]));
      mine.tags = shop.listTags(mine.t).slice(-4).map((x) => x[1]);
      if (strangers.length > 5) strangers[rng.below(5)] = mine; else strangers.push(mine);
      if (mine.options.length && rng.chance(1, 2)) shop.do('toggle', () => mine.c.toggle(rng.pick(mine.options)));
      if (mine.tags.length && rng.chance(1, 2)) shop.do('toggle', () => mine.t.toggle(rng.pick(mine.tags)));
    }
    // Keep something for later
    const cat = current;
    const q = rng.pick(cat.queries.filter((q) => q.conf.size > 1 && !(q.expect && q.expect.ambiguous)).concat(cat.queries[0]));
    switch (rng.below(5)) {
      case 0: {
        const it = c.iter();
        const skipped = rng.below(cat.categories.length + 1);
        for (let k = 0; k < skipped; k++) it.next_item();
        const open = it.next_item();
        if (open) open.next_item();
        kept.push({ cat, what: 'categories', age: 0, check() {
          shop.do('an older handle', () => {
            const full = shop.listCategories(c).map(([n, l]) => [n, l.map((x) => x[0])]);
            if (JSON.stringify(full) !== JSON.stringify(cat.categories)) violate(`an older category handle lists ${show(full)} instead of ${show(cat.categories)}`, { history });
          });
        }, finish() {
          shop.do('an older iterator', () => {
            const expected = cat.categories.slice(skipped);
            if (open) {
              const [n, l] = shop.restOfOptions(open);
              const [en, el] = expected.shift();
              if (n !== en || JSON.stringify(l.map((x) => x[0])) !== JSON.stringify(el.slice(1))) violate('an older option iterator goes on with another catalogue', { history });
            }
            for (let o; (o = it.next_item()); ) {
              const e = expected.shift();
              const [n, l] = shop.restOfOptions(o);
              if (!e || n !== e[0] || JSON.stringify(l.map((x) => x[0])) !== JSON.stringify(e[1])) violate('an older category iterator goes on with another catalogue', { history });
            }
            if (expected.length) violate('an older category iterator ends early', { history });
          });
        } });
        break;
      }
      case 1: {
        const listed = shop.listTags(t);
        const it = t.tags();
        const skip = rng.below(listed.length + 1);
        for (let k = 0; k < skip; k++) it.next_tag();
        const active = listed.filter(() => rng.chance(1, 3)).map((x) => x[1]);
        shop.do('toggle', () => active.forEach((x) => t.toggle(x)));
        kept.push({ cat, what: 'tags', age: 0, check() {
          const names = shop.listTags(t).map((x) => x[0]);
          if (JSON.stringify(names) !== JSON.stringify(listed.map((x) => x[0]))) violate('an older tag handle lists another catalogue', { history });
          shop.do('an older tag', () => listed.forEach(([n, x]) => {
            if (x.get_name() !== n) violate('an older tag changes its name', { history });
            if (t.get_status(x) !== active.includes(x)) violate('an older tag handle changes its status', { history });
          }));
        }, finish() {
          const rest = shop.do('an older iterator', () => shop.restOfTags(it)).map((x) => x[0]);
          if (JSON.stringify(rest) !== JSON.stringify(listed.slice(skip).map((x) => x[0]))) violate('an older tag iterator goes on with another catalogue', { history });
        } });
        break;
      }
      case 2: case 3: {
        const order = rng.chance(1, 2) ? rng.pick(Object.keys(cat.orders)) : undefined;
        const [cc, tt] = [shop.categories(), shop.tags()];
        const reference = results(shop, cat, shop.search(q.q, cc, tt, order, {}));
        const cursor = shop.search(q.q, cc, tt, order, {});
        const head = [];
        const n = rng.below(reference.length + 1);
        shop.do('next_product', () => { for (let k = 0; k < n; k++) head.push(cursor.next_product()); });
        kept.push({ cat, what: 'cursor', age: 0, check() {
          head.forEach((p) => identify(shop, cat, p));
        }, finish() {
          const all = [...head, ...shop.drain(cursor)].map((p) => identify(shop, cat, p));
          if (!sameSet(all, reference)) violate(`an older cursor hands out ${show(all)} instead of ${show(reference)}`, { history });
          if (order !== undefined) ordered(cat, order, all, 'an older cursor');
        } });
        break;
      }
      default:
        if (s) kept.push({ cat, what: 'suggestion', age: 0, check() {
          shop.do('an older suggestion', () => {
            if (s.tag.get_name() !== s.found[1] || s.s.get_tag().get_name() !== s.found[1] || s.s.get_input() !== s.found[0]) violate('an older suggestion changes', { history });
          });
        }, finish() { this.check(); } });
    }
  };
  serving('at first');
  for (let step = rng.range(5, 14); step > 0; step--) {
    if (rng.chance(1, 2) && bad.length) {
      const b = rng.pick(bad);
      history.push(`bad ${b.length}`);
      if (shop.load(b)) { count('loaded_only_here'); return; }
      count('bad_loads');
      serving(`after loads ${history.join(', ')}`);
    } else {
      const k = rng.below(cats.length);
      history.push(`catalogue ${k}`);
      if (shop.load(cats[k].file) !== true) violate('an index file the native build made does not load', { history });
      current = cats[k];
      count('good_loads');
      serving(`after loads ${history.join(', ')}`);
    }
    for (const k of kept) { k.age += 1; k.check(); if (k.cat !== current) count('checks_of_older_handles'); }
    while (kept.length > 5) { const k = kept.splice(rng.below(kept.length), 1)[0]; k.finish(); count(`finished_${k.what}`); }
  }
  for (const k of kept) { k.finish(); count(`finished_${k.what}`); }
  sample({ history, catalogues: cats.map((c) => c.products.length) });
}

/** Asking leaves no trace: not in the answers, not in the memory, not in the JavaScript values the build holds on to. */
function c24(data, rng) {
  const [shop, cat] = loaded(data.catalogues[0]);
  const orders = Object.keys(cat.orders);
  const options = cat.native_categories.flatMap(([n, l], i) => l.map((_, j) => [i, j]));
  const some = (list, n) => { const out = []; for (let k = rng.below(n); k > 0 && list.length; k--) out.push(rng.pick(list)); return out; };
  let called = 0;
  const make = () => {
    const q = rng.pick(cat.queries);
    const text = rng.chance(1, 3) ? Array.from(q.q).slice(rng.below(4)).join('') : q.q;
    switch (rng.below(8)) {
      case 0: case 1: case 2: {
        const [o, t, order, filter] = [rng.chance(1, 2) ? [] : some(options, 3), rng.chance(1, 2) ? [] : some([...cat.native_tags.keys()], 3), rng.pick([undefined, undefined, ...orders, 'no such ordering']), rng.chance(1, 2) ? {} : someFilter(rng, cat)];
        const upto = rng.chance(1, 3) ? rng.below(3) : Infinity;
        return () => {
          const [c, h] = [shop.categories(), shop.tags()];
          pickOptions(c, o, (x) => c.toggle(x));
          pickTags(h, t, (x) => h.toggle(x));
          const cursor = shop.search(text, c, h, order, filter);
          c.free(); h.free();
          if (!cursor) return 'none';
          const ids = [];
          for (let p; ids.length < upto && (p = cursor.next_product()); p.free()) ids.push([p.get_id(), p.get_title(), p.get_description(), p.numeric_feature('price'), p.string_feature('image_url'), p.string_feature('x')]);
          cursor.free();
          // Only an ordering fixes who is first
          return JSON.stringify(order !== undefined ? ids : upto === Infinity ? ids.map((x) => JSON.stringify(x)).sort() : ids.length);
        };
      }
      case 3: {
        const words = suggestionQuery(rng, cat);
        return () => {
          const r = shop.suggestion(words);
          if (!r) return 'none';
          const tag = r.get_tag();
          const out = [r.get_input(), tag.get_name()];
          r.free(); tag.free();
          return JSON.stringify(out);
        };
      }
      case 4: return () => {
        const [c, h] = [shop.categories(), shop.tags()];
        const out = [];
        const it = c.iter();
        for (let l; (l = it.next_item()); l.free()) { out.push(l.name()); for (let x; (x = l.next_item()); x.free()) out.push(x.get_name()); }
        const ti = h.tags();
        for (let x; (x = ti.next_tag()); x.free()) out.push(x.get_name());
        it.free(); ti.free(); c.free(); h.free();
        return JSON.stringify(out);
      };
      case 5: return () => JSON.stringify((shop.orders() ?? []).sort());
      case 6: {
        const bad = rng.pick([{ x: null }, { price: 5 }, { price: { get from() { throw new Error('no'); } } }, { a: { from: 1 }, b: undefined }]);
        return () => {
          const [c, h] = [shop.categories(), shop.tags()];
          const r = shop.search(text, c, h, undefined, bad);
          c.free(); h.free();
          r?.free();
          return String(Boolean(r));
        };
      }
      default: {
        // Listeners come and go
        const [o, t] = [some(options, 4), some([...cat.native_tags.keys()], 4)];
        const style = rng.below(3);
        return () => {
          let heard = '';
          const listener = (v) => { heard += v; called += 1; if (style === 1) throw new Error('listener'); return style === 2 ? { v } : undefined; };
          const [c, h] = [shop.categories(), shop.tags()];
          c.add_general_observer(listener);
          h.add_general_observer(listener);
          pickOptions(c, o, (x) => { c.add_option_lister(x, listener); c.toggle(x); c.remove_option_listener(x, listener); c.toggle(x); c.add_option_lister(x, listener); heard += c.get_status(x); });
          pickTags(h, t, (x) => { h.add_tag_lister(x, listener); h.toggle(x); h.remove_tag_listener(x, listener); h.toggle(x); h.add_tag_lister(x, listener); heard += h.get_status(x); });
          c.free(); h.free();
          return heard;
        };
      }
    }
  };
  const pickOptions = (c, wanted, f) => {
    if (!wanted.length) return;
    const it = c.iter();
    for (let i = 0, l; (l = it.next_item()); i++, l.free()) for (let j = 0, x; (x = l.next_item()); j++, x.free()) for (const w of wanted) if (w[0] === i && w[1] === j) f(x);
    it.free();
  };
  const pickTags = (h, wanted, f) => {
    if (!wanted.length) return;
    const it = h.tags();
    for (let i = 0, x; (x = it.next_tag()); i++, x.free()) for (const w of wanted) if (w === i) f(x);
    it.free();
  };
  const questions = [];
  for (let k = 0; k < 20; k++) { const f = make(); questions.push({ f, first: shop.do('a question', f) }); }
  const around = () => {
    for (let n = questions.length; n > 0; n--) {
      const x = rng.pick(questions);
      const answer = shop.do('a question asked again', x.f);
      if (answer !== x.first) violate('the same question has another answer when asked again', { first: x.first.slice(0, 1000), again: answer.slice(0, 1000) });
    }
  };
  around();
  const live = shop.i.live;
  const grown = [];
  let rounds = 0;
  const pages = () => shop.i.memory.buffer.byteLength;
  for (const n of [30, 60, 120, 240, 480]) {
    const before = pages();
    for (let k = 0; k < n; k++) around();
    rounds += n;
    grown.push(pages() - before);
    if (shop.i.live > live + 100 + rounds / 10) violate(`after ${rounds * questions.length} questions the build holds on to ${shop.i.live - live} JavaScript values more`, null);
    if (n > 30 && grown[grown.length - 1] === 0) break;
  }
  if (grown.length === 5 && grown.slice(1).every((g) => g > 0)) violate(`asking the same ${questions.length} questions over and over takes ever more memory: ${show(grown)} bytes more after 30, 60, 120, 240 and 480 rounds`, null);
  // Questions never asked before
  const added = [];
  let fresh = 0;
  for (const n of [500, 1000, 2000, 4000]) {
    const before = pages();
    for (let k = 0; k < n; k++) {
      const text = `${rng.pick(cat.queries).q.slice(0, 20)} qx${fresh++}`;
      shop.do('a new question', () => {
        const [c, h] = [shop.categories(), shop.tags()];
        shop.search(text, c, h, rng.pick([undefined, undefined, ...orders, text]), rng.chance(1, 4) ? { [text]: { exact: text } } : {})?.free();
        shop.suggestion(text)?.free();
        c.free(); h.free();
      });
    }
    added.push(pages() - before);
  }
  if (added.slice(1).every((g) => g > 0)) violate(`asking new questions takes ever more memory: ${show(added)} bytes more after 500, 1000, 2000 and 4000`, null);
  count('browser_new_questions', fresh);
  count('browser_questions_asked_again', rounds * questions.length);
  count('browser_listeners_called', called);
  evaluated('trace', cat.products.length > 1);
  sample({ rounds, questions: questions.length, answers: questions.slice(0, 3).map((x) => x.first.slice(0, 200)) });
}

const CASES = { C03: c03, C04: c04, C13: c13, C14: c14, C15: c15, C16: c16, C17: c17, C21: c21, C24: c24 };

async function main() {
  const run = CASES[prop] ?? die('unknown property ' + prop);
  compiled = glue.compile(fs.readFileSync(option('wasm')));
  const only = option('case');
  const secs = Number(option('secs', '10'));
  const files = fs.openSync(option('files', '/dev/null'), 'a');
  const current = option('current') && fs.openSync(option('current'), 'w');
  const child = spawn(option('rt'), ['bundle', prop, '--seed', option('seed', '1'), '--worker', option('worker', '0'), '--secs', String(secs + 600), ...(only ? ['--case', only] : [])],
    { stdio: ['ignore', 'ignore', 'pipe', 'pipe'] });
  let errors = '';
  child.stderr.on('data', (d) => { errors = (errors + d).slice(-2000); });
  let closing = false;
  const done = new Promise((resolve) => child.on('close', (code, signal) => resolve([code, signal])));
  const deadline = Date.now() + secs * 1000;
  const lines = readline.createInterface({ input: child.stdio[3], crlfDelay: Infinity });
  let cases = 0;
  for await (const line of lines) {
    const data = JSON.parse(line);
    currentCase = data.case;
    if (current) fs.writeSync(current, data.case.padStart(20, '0') + '\n', 0);
    const note = (message, detail) => {
      seen.violations.push({ case_seed: data.case, message, detail });
    };
    if (data.error) note(`the native build failed on a valid catalogue: ${data.error}`, null);
    else {
      try {
        run(data, new Rng(data.case), files);
      } catch (e) {
        if (e instanceof Violation) note(e.message, e.detail); else die(e);
      }
    }
    cases += 1;
    if (seen.violations.length >= 3 || Date.now() > deadline) { closing = true; break; }
  }
  child.kill('SIGKILL');
  const [code, signal] = await done;
  if (!closing && code !== 0 && !only) die(`rt bundle ended with ${code ?? signal}: ${errors}`);
  if (only && code !== 0 && code !== null) die(`rt bundle ended with ${code}: ${errors}`);
  count('browser_cases', cases);
  const out = JSON.stringify({ ...seen, distinct: [...seen.distinct] });
  if (option('out')) fs.writeFileSync(option('out'), out);
  if (only) {
    for (const v of seen.violations) process.stderr.write(`${v.message}\n${JSON.stringify(v.detail)}\n`);
    process.exit(seen.violations.length ? 1 : 0);
  }
  process.exit(0);
}
main().catch(die);
