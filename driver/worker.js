// One worker: a list of behaviours, each generated by the specification and performed on the contracts in lock-step.
//   node worker.js JOB.json   (see check.py; results are JSON lines on stdout)
'use strict'
const fs = require('fs')
const path = require('path')
const crypto = require('crypto')
const { Engine, right, fromRv, toQuint, applyDiff, mkOut, field, differences } = require('./engine.js')
const { Impl } = require('./impl.js')

// native coin names: none of them, joined two by two, can be read in two ways (checked below)
const DENOMS = [
  ['uusd', 'uluna', 'ukrw', 'uatom'],
  ['uusd', 'uusdc', 'usd', 'axlusdc'],
  ['ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2', 'ibc/B3504E092456BA618CC28AC671A71FB08C6CA0FD0BE7C8A5B5A3E2DD933CC9E4', 'uhalo', 'aura'],
  ['factory/contract0/uhalo', 'zz', 'Ustake', 'u'],
  ['uhalo', 'uHalo', 'UHALO', 'uhal'],
  ['factory/cosmos1qqqsyqcyq5rqwzqfpg9scrgwpugpzysnrujsuw/ustake-2023-09-01-maturity', 'factory/cosmos1qqqsyqcyq5rqwzqfpg9scrgwpugpzysnrujsuw/ustake-2023-09-01-maturitz', 'uusd', 'ustake-2023-09-01-maturity'],
  ['factory/contract0/uhalo', 'factory/contract1/uhalo', 'uhalo', 'ibc/uhalo'],
]
// (for paging, some begin with others)
const PAGING = ['uusd', 'uusdc', 'ukrw', 'uatom', 'ibc/27394FB092D2', 'ibc/27394FB092D2F', 'axlusdc', 'zz', 'Qa', 'uusdcet']
// numbers of the coins; the one called like the first token's address has its own
const ids4 = ds => '[' + ds.map((d, i) => d === 'contract2' ? 1019 : 1000 + i).join(', ') + ']'
// amounts have 128 bits in the messages
const VARS = ['st', 'pre', 'act', 'exp', 'obs', 'la', 'lo', 'queue', 'prof']
const MAX = 2n ** 128n
const sayable = (x, k) => x === null || typeof x === 'boolean' ? true :
  typeof x === 'number' ? x >= (k === 'amt' ? 0 : -1) : typeof x === 'string' ? (k === 't' || (BigInt(x) >= 0n && BigInt(x) < MAX)) :
  Array.isArray(x) ? x.every(y => sayable(y)) : Object.entries(x).every(([n, y]) => sayable(y, n))
function unambiguous(ds) {
  const seen = new Set()
  for (let i = 0; i < ds.length; i++) for (let j = i + 1; j < ds.length; j++) {
    const k = [ds[i], ds[j]].sort().join('')
    if (seen.has(k)) return false
    seen.add(k)
  }
  return true
}
for (const d of [...DENOMS, PAGING]) if (!unambiguous(d)) throw new Error('ambiguous denoms ' + d)

async function main() {
  const job = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'))
  const say = o => process.stdout.write(JSON.stringify(o) + '\n')
  const eng = await Engine.open(path.join(__dirname, '..', 'spec', 'cosim.qnt'), 'cosim')
  let impl = job.bin ? new Impl(job.bin) : null
  let crashes = 0, errors = 0
  const ids = job.ids
  const deadline = Date.now() + job.budget_ms
  const stat = { traces: 0, steps: 0, okSteps: 0, diverged: 0, byAct: {}, relevant: {}, relevantOk: {}, states: 0, samples: [], errors: 0, unsayable: 0 }
  for (const i of ids) { stat.relevant[i] = 0; stat.relevantOk[i] = 0 }
  // distinct states, by a fingerprint of the observed state's content, kept up to date from the differences
  const seen = new Set()
  const finger = (path, v) => { const h = crypto.createHash('md5').update(JSON.stringify([path, v])).digest(); return h.readBigUInt64LE(0) }
  let content = new Map(), print = 0n
  const track = diff => {
    for (const [p, v] of diff) {
      const k = JSON.stringify(p)
      if (content.has(k)) { print ^= content.get(k); content.delete(k) }
      if (v !== null) { const h = finger(p, v); content.set(k, h); print ^= h }
    }
    seen.add(print)
  }

  const behave = async b => {
    const set = b.prof === 'funds' && b.seed % 2 ? DENOMS[[4, 6][(b.seed >> 1) % 2]] : DENOMS[b.seed % DENOMS.length]
    const denoms = b.denoms || (b.prof === 'paging' ? PAGING : b.seed % 6 === 2 ? set.slice(0, 3).concat('contract2') : set)
    const funds = b.funds || (b.seed % 5 === 0 ? '50000000000000000000000000000000000000' : '1000000000000000000000000000000')
    const limit = b.limit || (b.prof === 'paging' ? 210 : 170)
    eng.seed(b.seed)
    eng.reset()
    if (b.acts) eng.run(`scenario(${ids4(denoms)}, ${funds}, ${limit}, ${toQuint(b.acts)})`, false)
    else eng.run(`start("${b.prof}", ${ids4(denoms)}, ${funds}, ${limit}, ${b.seed})`, false)
    eng.shift()
    if (impl) {
      const r = await impl.ask({ cmd: 'reset', denoms, users: 6, funds, limit })
      content = new Map(); print = 0n
      track(r.diff)
      const got = applyDiff(eng.get('st'), r.diff)
      if (!got.equals(eng.get('st'))) {
        // the instantiator owns the factory, with the codes it named; nothing is registered
        const d = differences(fromRv(eng.get('st')), fromRv(got))
        const hit = ids.filter(i => (i === 'C16' && d.some(x => /^.fac.(owner|tokenCode|pairCode)/.test(x.at))) ||
          (i === 'C18' && d.some(x => /^.fac.dec/.test(x.at))) || (i === 'C14' && d.some(x => /^.fac.reg/.test(x.at))))
        if (hit.length) { say({ kind: 'violation', ids: hit, prof: b.prof, seed: b.seed, step: -1, denoms, funds, limit, acts: [],
          act: { t: 'Instantiate', v: null }, expected: null, observed: null, differences: d }); return }
        eng.setNext('st', got); for (const v of ['pre', 'act', 'exp', 'obs', 'la', 'lo', 'queue', 'prof']) eng.reg('nextVars', v).value = eng.reg('vars', v).value
        eng.shift()
      }
    }
    const hist = []
    const steps = b.acts ? b.acts.length : b.steps
    stat.traces++
    for (let n = 0; n < steps; n++) {
      if (await once(b, { denoms, funds, limit }, hist, true) && !b.acts && !job.go_on) break
      if (impl && impl.gone) break
    }
  }

  // one action: the specification's step, the contracts' step, the verdict; true if it was a violation
  const once = async (b, world, hist, judged) => {
    eng.run('tick')
    const act = fromRv(eng.next('act'))
    if (!sayable(act)) {            // no message says this: nothing is done
      for (const v of VARS) if (v !== 'queue') eng.setNext(v, eng.get(v))
      eng.shift(); stat.unsayable++; return false
    }
    hist.push(act)
    const exp = eng.next('exp')
    let same = true
    if (impl) {
      const r = await impl.act({ cmd: 'act', t: act.t, v: act.v })
      track(r.diff)
      let st = eng.get('st')
      // where the specification reached the same state, share its value
      if (r.diff.length) { st = applyDiff(st, r.diff); const e = field(exp, 'st'); if (st.equals(e)) st = e }
      else if (st.equals(field(exp, 'st'))) st = field(exp, 'st')
      const obs = mkOut(r.ok, r.err, st, r.logs)
      eng.setNext('obs', obs)
      eng.setNext('st', st)
      same = r.ok === field(exp, 'ok').toBool() && st.equals(field(exp, 'st')) && (act.t[0] === 'Q' || field(obs, 'logs').equals(field(exp, 'logs')))
    }
    eng.shift()
    if (!judged) return false
    stat.steps++
    const obs = eng.get('obs')
    const k = act.t + (field(exp, 'ok').toBool() ? '' : '!' + field(exp, 'err').toStr())
    stat.byAct[k] = (stat.byAct[k] || 0) + 1
    if (field(obs, 'ok').toBool()) stat.okSteps++
    if (!same) stat.diverged++
    const bad = []
    for (const id of ids) {
      const rel = eng.bool(`counts("${id}")`)
      if (rel) { stat.relevant[id]++; if (field(obs, 'ok').toBool()) stat.relevantOk[id]++ }
      if (!eng.bool(`ok("${id}")`)) bad.push(id)
      else if (rel && stat.samples.length < 3 && field(obs, 'ok').toBool() && !stat.samples.some(s => s.act.t === act.t))
        stat.samples.push({ profile: b.prof, seed: b.seed, step: hist.length - 1, act, outcome: fromRv(field(obs, 'logs')) })
    }
    if (bad.length || (job.report_divergence && !same)) {
      const e = fromRv(exp), o = fromRv(obs)
      say({ kind: bad.length ? 'violation' : 'divergence', ids: bad, prof: b.prof, name: b.name, seed: b.seed, step: hist.length - 1, ...world, acts: hist.slice(),
        act, expected: { ok: e.ok, err: e.err, logs: e.logs }, observed: { ok: o.ok, err: o.err, logs: o.logs },
        differences: differences(e.st, o.st) })
      return true
    }
    return false
  }

  // every script of a little world's menu, in every state reachable by fewer than b.depth of them (see spec/scope.qnt).
  // Scripts of the first level are performed by every worker, those of deeper levels by the one they fall to.
  const explore = async b => {
    const world = { denoms: DENOMS[4], funds: b.funds || '1000000000000000000000000000000', limit: b.limit || 124 }
    if (b.prof === 'paging') { world.denoms = PAGING; world.limit = 290 }
    eng.reset()
    eng.run(`world("${b.prof}", ${b.part || 0}, ${ids4(world.denoms)}, ${world.funds}, ${world.limit})`, false)
    eng.shift()
    if (impl) {
      const r = await impl.ask({ cmd: 'reset', denoms: world.denoms, users: 6, funds: world.funds, limit: world.limit })
      content = new Map(); print = 0n
      eng.setNext('st', applyDiff(eng.get('st'), r.diff))
      for (const v of VARS) if (v !== 'st') eng.setNext(v, eng.get(v))
      eng.shift()
    }
    const load = n => { for (const v of VARS) eng.reg('vars', v).value = n.vars[v] }
    const save = () => { const vars = {}; for (const v of VARS) vars[v] = eng.reg('vars', v).value; return vars }
    const state = async () => impl ? (await impl.ask({ cmd: 'print' })).print : null
    const done = { world: b.prof, part: b.part || 0, depth: b.depth, size: b.size, scripts: 0, states: 0, complete: false }
    ;(stat.worlds = stat.worlds || []).push(done)
    const setup = []
    let failed = 0
    while (eng.get('queue').list.size > 0) { if (await once(b, world, setup, b.worker === 0)) failed++; if (impl && impl.gone) return }
    let fresh = 0
    let level = [{ vars: save(), hist: setup, id: fresh++ }]
    if (impl) await impl.ask({ cmd: 'save', id: 0 })
    const seenHere = new Set([await state()])
    stat.traces++
    for (let d = 0; d < b.depth; d++) {
      const nextLevel = []
      const last = d === b.depth - 1
      let edge = 0
      for (const node of level) {
        load(node)
        const menu = eng.run(`menu("${b.prof}", ${b.part || 0}, st, ${b.size})`).list
        for (const script of menu) {
          const own = edge++ % b.workers === b.worker
          if (d === 0 && last && !own) continue
          if (Date.now() > deadline) { stat.cut = true; return }
          load(node)
          eng.reg('vars', 'queue').value = right(script)
          if (impl) await impl.ask({ cmd: 'load', id: node.id })
          const hist = node.hist.slice()
          let bad = false
          for (let k = 0; k < script.list.size && !bad; k++) {
            bad = await once(b, world, hist, d > 0 || own)
            if (impl && impl.gone) return
          }
          if (bad && ++failed >= 3) return
          if (d > 0 || own) done.scripts++
          if (bad || last || !impl) continue
          const p = await state()
          if (seenHere.has(p)) continue
          seenHere.add(p)
          if (d > 0 || own) done.states++
          const id = fresh++
          await impl.ask({ cmd: 'save', id })
          nextLevel.push({ vars: save(), hist, id })
        }
        if (impl) await impl.ask({ cmd: 'drop', id: node.id })
      }
      // from the second level on, each worker has its own states
      level = d === 0 ? nextLevel.filter((n, i) => i % b.workers === b.worker) : nextLevel
    }
    done.complete = true
  }

  for (const b of job.behaviours) {
    if (Date.now() > deadline) { stat.cut = true; break }
    if (impl && impl.gone) {
      if (++crashes >= 3) { stat.cut = true; break }
      impl = new Impl(job.bin)
    }
    // an observed state that the specification cannot go on from ends the behaviour; others may still be judged
    try { await (b.depth ? explore(b) : behave(b)) } catch (e) {
      stat.errors++
      if (!stat.error) stat.error = `profile ${b.prof}, seed ${b.seed}: ` + String(e.stack || e).slice(0, 2000)
      if (impl && impl.dead) impl.gone = true
      if (++errors >= 5) break
    }
  }
  stat.states = seen.size
  say({ kind: 'stat', ...stat })
  if (impl) impl.end()
}
main().catch(e => { console.error(e.stack || e); process.exit(3) })
