// As worker.js, for the wide-number library: the specification chooses operations and operands, the library
// evaluates them, and the specification judges the results.
'use strict'
const fs = require('fs')
const path = require('path')
const { Engine, rv, int, fromRv, toQuint } = require('./engine.js')
const { Impl } = require('./impl.js')

async function main() {
  const job = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'))
  const say = o => process.stdout.write(JSON.stringify(o) + '\n')
  const eng = await Engine.open(path.join(__dirname, '..', 'spec', 'big.qnt'), 'bigsim')
  let impl = job.bin ? new Impl(job.bin) : null
  const deadline = Date.now() + job.budget_ms
  const stat = { traces: 0, steps: 0, okSteps: 0, diverged: 0, byAct: {}, relevant: { C26: 0 }, relevantOk: { C26: 0 }, states: [], samples: [], lenient: 0 }
  const seen = new Set()
  let crashes = 0
  outer: for (const b of job.behaviours) {
    if (Date.now() > deadline) { stat.cut = true; break }
    eng.seed(b.seed)
    eng.reset()
    eng.run('init')
    eng.shift()
    stat.traces++
    const steps = b.acts ? b.acts.length : b.steps
    for (let n = 0; n < steps; n++) {
      if (b.acts) eng.run('given(' + toQuint({ ...b.acts[n], op: JSON.stringify(b.acts[n].op) }) + ')', false)
      else eng.run('tick')
      const c = fromRv(eng.next('case'))
      let r = null
      if (impl) {
        r = await impl.act({ cmd: 'big', op: c.op, xs: c.xs.map(String), s: c.s })
        if (r.gone) { r.n = '0'; r.s = [] }
        eng.setNext('obs', rv.mkRecord([['ok', rv.mkBool(r.ok)], ['n', int(r.n)], ['s', rv.mkList(r.s.map(int))]]))
      }
      eng.shift()
      const e = fromRv(eng.get('exp')), o = fromRv(eng.get('obs'))
      stat.steps++
      stat.relevant.C26++
      if (o.ok) { stat.okSteps++; stat.relevantOk.C26++ }
      const k = c.op + (o.ok ? '' : '!')
      stat.byAct[k] = (stat.byAct[k] || 0) + 1
      const key = JSON.stringify(c)
      if (!seen.has(key)) seen.add(key)
      if (o.ok !== e.ok) { stat.diverged++; if (eng.bool('free')) stat.lenient++ }
      if (!eng.bool('ok')) say({ kind: 'violation', ids: ['C26'], prof: 'numbers', seed: b.seed, step: n, denoms: [], acts: [c], act: c, expected: e, observed: o, differences: [] })
      else if (o.ok && stat.samples.length < 3 && !stat.samples.some(s => s.act.op === c.op)) stat.samples.push({ seed: b.seed, step: n, act: c, outcome: o })
      if (impl && impl.gone) { if (++crashes >= 3) { stat.cut = true; break outer } impl = new Impl(job.bin); break }
    }
  }
  stat.states = seen.size
  say({ kind: 'stat', ...stat })
  if (impl) impl.end()
}
main().catch(e => { console.error(e.stack || e); process.exit(3) })
