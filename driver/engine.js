// Evaluates the Quint specification (with Quint's own evaluator) one step at a time, so that each step can be
// performed on the implementation as well and the observation put into the specification's variables.
'use strict'
const path = require('path')
const fs = require('fs')
const QUINT = process.env.QUINT_LIB || '/opt/veriftools/quint/node_modules/@informalsystems/quint/dist/src'
const q = p => require(path.join(QUINT, p))
const { load, parse } = q('cliCommands.js')
const { toExpr } = q('cliHelpers.js')
const { Evaluator } = q('runtime/impl/evaluator.js')
const { buildExpr } = q('runtime/impl/builder.js')
const { newTraceRecorder } = q('runtime/trace.js')
const { newRng } = q('rng.js')
const RV = q('runtime/impl/runtimeValue.js')
const { right } = require(require.resolve('@sweet-monads/either', { paths: [QUINT] }))
const rv = RV.rv

// equal objects are equal: most of two successive states is shared
{
  const base = Object.getPrototypeOf(Object.getPrototypeOf(rv.mkInt(0)))
  const eq = base.equals
  base.equals = function (o) { return this === o || eq.call(this, o) }
}

const int = n => rv.mkInt(typeof n === 'string' ? BigInt(n) : n)

// plain JSON <-> runtime values
function fromRv(v) {
  const k = v.constructor.name
  if (k === 'RuntimeValueInt') return v.value >= -(2n ** 50n) && v.value < 2n ** 50n ? Number(v.value) : v.value.toString()
  if (k === 'RuntimeValueBool') return v.value
  if (k === 'RuntimeValueStr') return v.value
  if (k === 'RuntimeValueTupleOrList') return v.list.toArray().map(fromRv)
  if (k === 'RuntimeValueRecord') { const o = {}; v.map.forEach((x, n) => { o[n] = fromRv(x) }); return o }
  if (k === 'RuntimeValueVariant') return { t: v.label, v: v.value.constructor.name === 'RuntimeValueTupleOrList' && v.value.kind === 'Tup' ? null : fromRv(v.value) }
  if (k === 'RuntimeValueMap') { const o = {}; v.map.forEach((x, n) => { o[String(fromRv(n))] = fromRv(x) }); return o }
  return [...v].map(fromRv)
}
// a Quint expression for a JSON rendering of an action (see fromRv)
function toQuint(x) {
  if (x === null) return ''
  if (typeof x === 'number' || typeof x === 'string') return String(x)
  if (typeof x === 'boolean') return String(x)
  if (Array.isArray(x)) return '[' + x.map(toQuint).join(', ') + ']'
  if ('t' in x && 'v' in x && Object.keys(x).length === 2) return x.v === null ? x.t : `${x.t}(${toQuint(x.v)})`
  return '{ ' + Object.entries(x).map(([k, v]) => `${k}: ${toQuint(v)}`).join(', ') + ' }'
}

class Engine {
  static async open(file, main) {
    const e = new Engine()
    const args = { input: file, main }
    const l = await load(args)
    if (l.isLeft()) throw new Error('cannot load ' + file)
    const p = await parse(l.value)
    if (p.isLeft()) throw new Error('cannot parse: ' + JSON.stringify(p.value.stage.errors, null, 1))
    e.prev = { ...p.value, args }
    e.rng = newRng(1n)
    const rec = newTraceRecorder(0, e.rng, 1)
    // no trace is kept: the recorder would hold every intermediate state
    e.ev = new Evaluator(e.prev.resolver.table, rec, e.rng, false)
    e.cache = new Map()
    return e
  }
  expr(text) {
    if (!this.cache.has(text)) {
      const x = toExpr(this.prev, text)
      if (x.isLeft()) throw new Error('bad expression ' + text + ': ' + JSON.stringify(x.value))
      this.cache.set(text, buildExpr(this.ev.builder, x.value))
    }
    return this.cache.get(text)
  }
  run(text, keep = true) {
    const f = this.expr(text)
    if (!keep) this.cache.delete(text)
    const r = f(this.ev.ctx)
    if (r.isLeft()) throw new Error('evaluation of ' + text.slice(0, 200) + ' failed: ' + JSON.stringify(r.value, (k, v) => typeof v === 'bigint' ? v.toString() : v))
    return r.value
  }
  bool(text) { return this.run(text).toBool() }
  // the generator's state is a counter: neighbouring seeds must not share a stretch of it
  seed(s) { this.rng.setState((BigInt(s) * 0x9E3779B97F4A7C15n + 0x1234567n) & ((1n << 62n) - 1n)) }
  reset() { this.ev.builder.varStorage.reset(); this.ev.builder.varStorage.clearCaches() }
  reg(store, name) {
    if (!this.regs) this.regs = { vars: new Map(), nextVars: new Map() }
    if (!this.regs[store].has(name)) {
      const r = this.ev.builder.varStorage[store].valueSeq().toArray().find(x => x.name === name)
      if (!r) throw new Error('no variable ' + name)
      this.regs[store].set(name, r)
    }
    return this.regs[store].get(name)
  }
  get(name) { return this.reg('vars', name).value.unwrap() }
  next(name) { return this.reg('nextVars', name).value.unwrap() }
  setNext(name, v) { this.reg('nextVars', name).value = right(v) }
  shift() { this.ev.builder.varStorage.shiftVars() }
}

const field = (r, k) => r.map.get(k)
const withField = (r, k, v) => rv_record(r.map.set(k, v))
const REC = rv.mkRecord([['a', int(0)]]).constructor
const rv_record = m => new REC(m)
const mput = (m, k, v) => rv.fromMap(m.map.set(int(k), v))

// JSON from the harness -> runtime values of the shapes used in the state
const ints = l => rv.mkList(l.map(int))
const mkInfo = i => rv.mkRecord(['addr', 'a0', 'a1', 'd0', 'd1', 'lp', 'm0', 'm1'].map(k => [k, int(i[k])]).concat([['wl', ints(i.wl)]]))
const mkAllow = l => rv.mkMap(l.map(([k, a, e]) => [int(k), rv.mkRecord([['amt', int(a)], ['exp', int(e)]])]))
const mkLogs = l => rv.mkList(l.map(x => rv.mkRecord([['k', rv.mkStr(x.k)], ['c', int(x.c)], ['xs', ints(x.xs)]])))

// apply the reported differences to an observed state; everything unchanged is shared
function applyDiff(st, diff) {
  let s = st
  const upd = (k, f) => { s = withField(s, k, f(field(s, k))) }
  const zeroRow = () => { const any = field(s, 'bal').map.first(); return rv.fromMap(any.map.map(() => int(0))) }
  for (const [p, v] of diff) {
    switch (p[0]) {
      case 'h': upd('h', () => int(v)); break
      case 'next': upd('next', () => int(v)); break
      case 'bal':
        upd('bal', b => {
          const row = b.map.get(int(p[1])) || zeroRow()
          if (p[2] === null) return mput(b, p[1], row)
          return mput(b, p[1], mput(row, p[2], int(v === null ? 0 : v)))
        }); break
      case 'tok':
        upd('tok', t => {
          if (v === null) return rv.fromMap(t.map.delete(int(p[1])))
          const old = t.map.get(int(p[1]))
          return mput(t, p[1], rv.mkRecord([['name', ints(v.name)], ['sym', ints(v.sym)], ['dec', int(v.dec)], ['supply', int(v.supply)],
            ['minter', int(v.minter)], ['cap', int(v.cap)], ['code', int(v.code)], ['allow', old ? field(old, 'allow') : rv.mkMap([])]]))
        })
        if (!field(s, 'bal').map.has(int(p[1]))) upd('bal', b => mput(b, p[1], zeroRow()))
        break
      case 'allow': break // second pass: the token record must exist
      case 'pair': upd('pair', m => v === null ? rv.fromMap(m.map.delete(int(p[1]))) :
        mput(m, p[1], rv.mkRecord([['info', mkInfo(v.info)], ['code', int(v.code)], ['adm', int(v.adm)]]))); break
      case 'cfg': upd('fac', f => withField(withField(withField(f, 'owner', int(v[0])), 'tokenCode', int(v[1])), 'pairCode', int(v[2]))); break
      case 'dec': upd('fac', f => withField(f, 'dec', v === null ? rv.fromMap(field(f, 'dec').map.delete(int(p[1]))) : mput(field(f, 'dec'), p[1], int(v)))); break
      case 'reg': upd('fac', f => withField(f, 'reg', v === null ? rv.fromMap(field(f, 'reg').map.delete(int(p[1]))) : mput(field(f, 'reg'), p[1], mkInfo(v)))); break
      default: throw new Error('unknown path ' + JSON.stringify(p))
    }
  }
  for (const [p, v] of diff) {
    if (p[0] === 'allow' && v !== null) upd('tok', t => mput(t, p[1], withField(t.map.get(int(p[1])), 'allow', mkAllow(v))))
  }
  return s
}

function mkOut(ok, err, st, logs) {
  return rv.mkRecord([['ok', rv.mkBool(ok)], ['err', rv.mkStr(err)], ['st', st], ['logs', mkLogs(logs)]])
}

// the paths at which two JSON renderings differ
function differences(a, b, at = '', out = []) {
  if (out.length > 40) return out
  if (a && b && typeof a === 'object' && typeof b === 'object') {
    for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) differences(a[k], b[k], at + '/' + k, out)
  } else if (a !== b) out.push({ at, expected: a === undefined ? null : a, observed: b === undefined ? null : b })
  return out
}

module.exports = { Engine, right, rv, int, fromRv, toQuint, applyDiff, mkOut, field, differences }
