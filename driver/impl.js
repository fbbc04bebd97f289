// The contracts, behind the harness process: one JSON line in, one out.
'use strict'
const { spawn } = require('child_process')
const readline = require('readline')
const fs = require('fs')

const CPU_LIMIT = 20          // seconds of processor time for one action (they take milliseconds)

class Impl {
  constructor(bin) {
    // bounded memory: code under test that allocates without end must not take the machine with it
    this.p = spawn('/bin/sh', ['-c', 'ulimit -v 6000000; exec "$0"', bin], { stdio: ['pipe', 'pipe', 'ignore'] })
    this.p.stdin.on('error', () => {})
    this.rl = readline.createInterface({ input: this.p.stdout, crlfDelay: Infinity })
    this.waiting = []
    this.rl.on('line', l => { const w = this.waiting.shift(); if (w) w.res(l) })
    this.p.on('exit', c => { this.dead = true; for (const w of this.waiting) w.rej(new Error('harness ended with ' + c)) })
    this.p.on('error', e => { for (const w of this.waiting) w.rej(e) })
  }
  // processor time used so far, in seconds
  cpu() {
    try { const f = fs.readFileSync(`/proc/${this.p.pid}/stat`, 'utf8'); const l = f.slice(f.lastIndexOf(')') + 2).split(' '); return (Number(l[11]) + Number(l[12])) / 100 } catch (e) { return 0 }
  }
  // as ask, but an action that ends the process or never returns is an observation too: it was not performed
  async act(o) {
    const before = this.cpu()
    let timer
    const watch = new Promise(res => { timer = setInterval(() => { if (!this.dead && this.cpu() - before > CPU_LIMIT) res(null) }, 1000) })
    const crash = err => { this.gone = true; this.p.kill('SIGKILL'); return { ok: false, err, diff: [], logs: [], gone: true } }
    try {
      const r = await Promise.race([this.ask(o), watch])
      return r === null ? crash('never returns') : r
    } catch (e) { return crash('process ended: ' + e.message) } finally { clearInterval(timer) }
  }
  ask(o) {
    if (this.dead) return Promise.reject(new Error('harness is gone'))
    return new Promise((res, rej) => {
      this.waiting.push({ res: l => { try { res(JSON.parse(l)) } catch (e) { rej(new Error('bad reply: ' + l.slice(0, 300))) } }, rej })
      this.p.stdin.write(JSON.stringify(o) + '\n')
    })
  }
  end() { this.p.stdin.end() }
}

module.exports = { Impl }
