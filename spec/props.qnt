// The properties C01..C25, C27, C28 as predicates over one observed step:
//   pre  the state before, act the transaction or query, exp what the specification prescribes,
//   obs  what the implementation did, la/lo the previous action and what the implementation did then.
// `relevant` says whether the step says anything about the property, `holds` whether the property survived it.
module props {
  import arith.* from "./arith"
  import amm.* from "./amm"
  import halo.* from "./halo"

  type Step = { pre: State, act: Act, exp: Out, obs: Out, la: Act, lo: Out }

  // ---------------------------------------------------------------- what an action asks for
  type SwapReq = { on: bool, p: int, tok: int, ask: int, payer: int, who: int, amt: int, belief: int, maxs: int, dst: int }
  pure val NOSWAP = { on: false, p: 0, tok: 0, ask: 0, payer: 0, who: 0, amt: 0, belief: 0, maxs: 0, dst: 0 }
  pure def mkSwap(st: State, payer: int, who: int, tok: int, p: int, amt: int, hook: Hook): SwapReq =
    match hook {
      | HSwap(h) =>
          if (not(isPair(st, p)) or not(isTok(st, tok))) NOSWAP
          else {
            val x = st.pair.get(p).info
            if (tok != x.a0 and tok != x.a1) NOSWAP
            else { on: true, p: p, tok: tok, ask: if (tok == x.a0) x.a1 else x.a0, payer: payer, who: who, amt: amt,
                   belief: h.belief, maxs: h.maxs, dst: if (h.to == NONE) who else h.to }
          }
      | HWithdraw => NOSWAP
      | HRoute(h) => NOSWAP
      | HBad => NOSWAP
    }
  pure def swapReq(st: State, act: Act): SwapReq =
    match act {
      | Send(x) => mkSwap(st, x.who, x.who, x.tok, x.to, x.amt, x.hook)
      | SendFrom(x) => mkSwap(st, x.owner, x.who, x.tok, x.to, x.amt, x.hook)
      | _ => NOSWAP
    }

  type OutReq = { on: bool, p: int, lp: int, payer: int, who: int, amt: int }
  pure val NOOUT = { on: false, p: 0, lp: 0, payer: 0, who: 0, amt: 0 }
  pure def mkOut(st: State, payer: int, who: int, tok: int, p: int, amt: int, hook: Hook): OutReq =
    if (hook == HWithdraw and isPair(st, p) and st.pair.get(p).info.lp == tok)
      { on: true, p: p, lp: tok, payer: payer, who: who, amt: amt }
    else NOOUT
  pure def outReq(st: State, act: Act): OutReq =
    match act {
      | Send(x) => mkOut(st, x.who, x.who, x.tok, x.to, x.amt, x.hook)
      | SendFrom(x) => mkOut(st, x.owner, x.who, x.tok, x.to, x.amt, x.hook)
      | _ => NOOUT
    }

  type RouteReq = { on: bool, payer: int, who: int, tok: int, amt: int, ops: List[Op], min: int, dst: int }
  pure val NOROUTE = { on: false, payer: 0, who: 0, tok: NONE, amt: 0, ops: [], min: NONE, dst: 0 }
  pure def mkRoute(payer: int, who: int, tok: int, amt: int, dst: int, hook: Hook): RouteReq =
    match hook {
      | HRoute(h) => if (dst != ROUTER) NOROUTE else
          { on: true, payer: payer, who: who, tok: tok, amt: amt, ops: h.ops, min: h.min, dst: if (h.to == NONE) who else h.to }
      | HSwap(h) => NOROUTE
      | HWithdraw => NOROUTE
      | HBad => NOROUTE
    }
  pure def routeReq(act: Act): RouteReq =
    match act {
      | Send(x) => mkRoute(x.who, x.who, x.tok, x.amt, x.to, x.hook)
      | SendFrom(x) => mkRoute(x.owner, x.who, x.tok, x.amt, x.to, x.hook)
      | RouterExec(x) => { on: true, payer: x.who, who: x.who, tok: NONE, amt: 0, ops: x.ops, min: x.min, dst: if (x.to == NONE) x.who else x.to }
      | Notify(x) => match x.hook {
          | HRoute(h) => { on: x.to == ROUTER, payer: x.who, who: x.sender, tok: NONE, amt: 0, ops: h.ops, min: h.min, dst: if (h.to == NONE) x.sender else h.to }
          | _ => NOROUTE }
      | _ => NOROUTE
    }
  pure def lastAsset(ops: List[Op]): int = if (ops.length() == 0) NONE else ops[ops.length() - 1].a
  pure def routeAssets(r: RouteReq): Set[int] = r.ops.foldl(Set(r.tok), (s, x) => s.union(Set(x.o, x.a)))
  pure def routePairs(st: State, ops: List[Op]): List[int] = ops.foldl([], (l, x) => l.append(lookup(st, x.o, x.a)))

  type ProvReq = { on: bool, p: int, who: int, d0: int, d1: int, supply: int, p0: int, p1: int, tol: int, dst: int, xs: List[Coin], funds: List[Coin] }
  pure val NOPROV = { on: false, p: 0, who: 0, d0: 0, d1: 0, supply: 0, p0: 0, p1: 0, tol: 0, dst: 0, xs: [], funds: [] }
  pure def provReq(st: State, act: Act): ProvReq =
    match act {
      | Provide(x) =>
          if (not(isPair(st, x.pair))) NOPROV
          else {
            val i = st.pair.get(x.pair).info
            { on: true, p: x.pair, who: x.who, d0: depositOf(x.xs, i.a0), d1: depositOf(x.xs, i.a1), supply: supplyOf(st, i.lp),
              p0: reserve(st, x.pair, 0), p1: reserve(st, x.pair, 1), tol: x.tol, dst: if (x.recv == NONE) x.who else x.recv,
              xs: x.xs, funds: x.funds }
          }
      | _ => NOPROV
    }

  pure def prod(st: State, p: int): int = reserve(st, p, 0) * reserve(st, p, 1)
  pure def allPairs(st: State): List[int] = range(102, st.next).select(a => isPair(st, a))
  pure def allToks(st: State): List[int] = range(102, st.next).select(a => isTok(st, a))
  pure def xsOf(o: Out): List[int] = if (o.logs.length() == 0) [] else o.logs[0].xs
  pure def refused(o: Out, why: Set[str]): bool = not(o.ok) and why.contains(o.err)
  pure def every(l: List[a], f: (a) => bool): bool = l.foldl(true, (b, x) => b and f(x))

  // the implementation reaches the prescribed balances and token records
  pure def sameLedger(x: Step): bool = x.obs.st.bal == x.exp.st.bal and x.obs.st.tok == x.exp.st.tok
  pure def unchanged(x: Step): bool = x.obs.st == x.pre
  pure def followed(x: Step): bool = x.obs.ok and sameLedger(x) and x.obs.logs == x.exp.logs

  // ---------------------------------------------------------------- C01
  pure def c01rel(x: Step): bool = x.obs.ok and (swapReq(x.pre, x.act).on or routeReq(x.act).on)
  // a swap leaves its commission behind, on top of the product
  pure def kept(x: Step): int = {
    val w = swapReq(x.pre, x.act)
    if (not(w.on)) 0 else {
      val o = bal(x.pre, w.tok, w.p)
      val g = (bal(x.pre, w.ask, w.p) * w.amt) / maxI(1, o + w.amt)
      ((g * FEE) / ONE) * (o + w.amt)
    }
  }
  pure def c01(x: Step): bool = every(allPairs(x.pre), p =>
    prod(x.obs.st, p) >= prod(x.pre, p) + (if (swapReq(x.pre, x.act).p == p) kept(x) else 0))

  // ---------------------------------------------------------------- C02
  pure def c02rel(x: Step): bool =
    (x.exp.ok and (swapReq(x.pre, x.act).on or (x.obs.ok and routeReq(x.act).on)))
      or (refused(x.exp, Set("bad_addr")) and swapReq(x.pre, x.act).on)
  pure def c02(x: Step): bool = {
    val w = swapReq(x.pre, x.act)
    if (not(x.exp.ok)) not(x.obs.ok) and unchanged(x)
    else if (w.on) x.obs.ok and x.obs.logs == x.exp.logs
      and x.obs.st.bal.get(w.tok) == x.exp.st.bal.get(w.tok) and x.obs.st.bal.get(w.ask) == x.exp.st.bal.get(w.ask)
    else x.obs.logs == x.exp.logs and every(routePairs(x.pre, routeReq(x.act).ops), p =>
      reserve(x.obs.st, p, 0) == reserve(x.exp.st, p, 0) and reserve(x.obs.st, p, 1) == reserve(x.exp.st, p, 1))
  }

  // ---------------------------------------------------------------- C03
  pure def c03rel(x: Step): bool = x.obs.ok
  pure def backed(x: Step, p: int): bool = {
    val lp = x.pre.pair.get(p).info.lp
    val s = supplyOf(x.pre, lp)
    val s2 = supplyOf(x.obs.st, lp)
    val provided = provReq(x.pre, x.act)
    val left = outReq(x.pre, x.act)
    s == 0 or s2 == 0 or {
      and {
        prod(x.obs.st, p) * s * s >= prod(x.pre, p) * s2 * s2,
        not((provided.on and provided.p == p) or (left.on and left.p == p)) or
          (reserve(x.obs.st, p, 0) * s >= reserve(x.pre, p, 0) * s2 and reserve(x.obs.st, p, 1) * s >= reserve(x.pre, p, 1) * s2)
      }
    }
  }
  pure def c03(x: Step): bool = every(allPairs(x.pre), p => backed(x, p))

  // ---------------------------------------------------------------- C04
  pure val FUNDING = Set("allowance", "no_allowance", "expired", "balance", "zero_share", "bad_addr")
  pure def c04rel(x: Step): bool = {
    val r = provReq(x.pre, x.act)
    r.on and r.supply > 0 and (x.exp.ok or refused(x.exp, FUNDING))
  }
  pure def c04(x: Step): bool = if (x.exp.ok) followed(x) else not(x.obs.ok)

  // ---------------------------------------------------------------- C05
  pure def c05rel(x: Step): bool = {
    val r = provReq(x.pre, x.act)
    r.on and r.supply == 0 and (x.exp.ok or refused(x.exp, Set("whitelist", "minimum", "zero_share", "bad_addr")))
  }
  pure def c05(x: Step): bool = if (x.exp.ok) followed(x) else not(x.obs.ok) and unchanged(x)

  // ---------------------------------------------------------------- C06
  pure def idealOut(st: State, r: OutReq): State = {
    val i = st.pair.get(r.p).info
    val s = supplyOf(st, r.lp)
    val r0 = refundOf(reserve(st, r.p, 0), r.amt, s)
    val r1 = refundOf(reserve(st, r.p, 1), r.amt, s)
    st.addBal(r.lp, r.payer, -r.amt)
      .addBal(i.a0, r.p, -r0).addBal(i.a0, r.who, r0)
      .addBal(i.a1, r.p, -r1).addBal(i.a1, r.who, r1)
  }
  pure def c06rel(x: Step): bool = {
    val r = outReq(x.pre, x.act)
    r.on and (x.exp.ok or (x.obs.ok and supplyOf(x.pre, r.lp) > 0))
  }
  pure def c06(x: Step): bool = {
    val r = outReq(x.pre, x.act)
    if (x.exp.ok) followed(x)
    else x.obs.st.bal == idealOut(x.pre, r).bal and supplyOf(x.obs.st, r.lp) == supplyOf(x.pre, r.lp) - r.amt
  }

  // ---------------------------------------------------------------- C07
  pure def c07rel(x: Step): bool = {
    val r = provReq(x.pre, x.act)
    r.on and r.p0 > 0 and r.p1 > 0 and ((r.tol >= 0 and refused(x.exp, Set("tolerance", "slippage"))) or x.exp.ok)
  }
  pure def c07(x: Step): bool = x.obs.ok == x.exp.ok

  // ---------------------------------------------------------------- C08
  pure def c08rel(x: Step): bool = swapReq(x.pre, x.act).on and (x.exp.ok or refused(x.exp, Set("max_spread")))
  pure def c08(x: Step): bool = x.obs.ok == x.exp.ok

  // ---------------------------------------------------------------- C09
  // the last action was a quote for exactly the swap that is now made, without limits
  pure def quoted(x: Step): bool =
    match x.la {
      | QSim(q) => {
          val w = swapReq(x.pre, x.act)
          w.on and w.p == q.pair and w.tok == q.asset and w.amt == q.amt
        }
      | _ => false
    }
  pure def foreign(st: State, p: int, a: int): bool = a != st.pair.get(p).info.a0 and a != st.pair.get(p).info.a1
  pure def c09rel(x: Step): bool =
    match x.act {
      | QSim(q) => foreign(x.pre, q.pair, q.asset) or (isNative(q.asset) and x.exp.ok)
      | _ => quoted(x) and x.exp.ok
    }
  pure def c09(x: Step): bool =
    match x.act {
      | QSim(q) => if (foreign(x.pre, q.pair, q.asset)) not(x.obs.ok) else x.obs.ok and xsOf(x.obs) == xsOf(x.exp)
      | _ => {
          val w = swapReq(x.pre, x.act)
          val sw = x.obs.logs.select(l => l.k == "swap")
          val q = xsOf(x.lo)
          not(x.obs.ok) or {
            and {
              x.lo.ok, q.length() == 3, sw.length() == 1,
              [sw[0].xs[5], sw[0].xs[6], sw[0].xs[7]] == q,
              // and what really moved out of the pair, unless it pays itself
              w.dst == w.p or bal(x.pre, w.ask, w.p) - bal(x.obs.st, w.ask, w.p) == q[0]
            }
          }
        }
    }

  // ---------------------------------------------------------------- C10
  pure def c10(x: Step): bool =
    match x.act {
      | QRev(q) => {
          val e = xsOf(x.exp)
          val o = xsOf(x.obs)
          if (x.exp.ok) {
            and {
              x.obs.ok, o.length() == 3,
              absI(o[0] - e[0]) <= 1 + e[0] / 10^15,
              absI(o[2] - e[2]) <= 1,
              o[0] != e[0] or absI(o[1] - e[1]) <= 1
            }
          }
          else not(x.obs.ok)
        }
      | _ => true
    }
  // refusals count only where the pool cannot pay or the asset is foreign, not where figures exceed 128 bits
  pure def c10rel(x: Step): bool =
    match x.act {
      | QRev(q) => x.exp.ok or foreign(x.pre, q.pair, q.asset) or mulDiv(q.amt, INV, ONE) >= bal(x.pre, q.asset, q.pair)
      | _ => false
    }

  // ---------------------------------------------------------------- C11
  pure val INTRUDER = Set("unauthorized", "bad_hook", "no_entry")
  pure def toPair(st: State, act: Act): bool =
    match act {
      | Send(x) => isPair(st, x.to)
      | SendFrom(x) => isPair(st, x.to)
      | Notify(x) => isPair(st, x.to)
      | NativeSwap(x) => isPair(st, x.pair)
      | _ => false
    }
  pure def c11rel(x: Step): bool = toPair(x.pre, x.act) and (refused(x.exp, INTRUDER) or (x.obs.ok and x.exp.ok))
  pure def c11(x: Step): bool =
    if (not(x.exp.ok)) not(x.obs.ok) and unchanged(x)
    else {
      val w = swapReq(x.pre, x.act)
      val r = outReq(x.pre, x.act)
      val amt = if (w.on) w.amt else r.amt
      every(x.obs.logs, l => if (l.k == "swap") w.on and l.xs[4] == amt and l.xs[2] == w.tok
                             else if (l.k == "withdraw") r.on and l.xs[1] == amt else true)
    }

  // ---------------------------------------------------------------- C12
  pure def total(st: State, a: int): int = if (not(st.bal.has(a))) 0 else st.bal.get(a).keys().fold(0, (n, u) => n + st.bal.get(a).get(u))
  pure def conserved(x: Step): bool = x.obs.st.bal.keys().forall(a =>
    val same = x.pre.bal.has(a) and x.pre.bal.get(a) == x.obs.st.bal.get(a)
    same or (if (isNative(a)) total(x.obs.st, a) == total(x.pre, a)
             else total(x.obs.st, a) - total(x.pre, a) == supplyOf(x.obs.st, a) - supplyOf(x.pre, a)))

  type Frame = { who: Set[int], what: Set[int], minted: Set[int], spent: Set[(int, int)] }
  pure def spenderOf(act: Act): Set[(int, int)] =
    match act { | SendFrom(x) => Set((x.tok, allowKey(x.owner, x.who))) | _ => Set() }
  pure def frameOf(st: State, act: Act): Frame = {
    val w = swapReq(st, act)
    val r = outReq(st, act)
    val v = provReq(st, act)
    val t = routeReq(act)
    if (w.on) { who: Set(w.payer, w.p, w.dst), what: Set(w.tok, w.ask), minted: Set(), spent: spenderOf(act) }
    else if (r.on) { val i = st.pair.get(r.p).info
      { who: Set(r.payer, r.p, r.who), what: Set(i.a0, i.a1, i.lp), minted: Set(i.lp), spent: spenderOf(act) } }
    else if (v.on) { val i = st.pair.get(v.p).info
      { who: Set(v.who, v.p, v.dst), what: Set(i.a0, i.a1, i.lp).union(v.funds.foldl(Set(), (s, c) => s.union(Set(c.den)))),
        minted: Set(i.lp), spent: Set((i.a0, allowKey(v.who, v.p)), (i.a1, allowKey(v.who, v.p))) } }
    else { who: Set(t.payer, ROUTER, t.dst).union(routePairs(st, t.ops).foldl(Set(), (s, p) => s.union(Set(p)))),
           what: routeAssets(t).union(match act { | RouterExec(x) => x.funds.foldl(Set(), (s, c) => s.union(Set(c.den))) | _ => Set() }),
           minted: Set(), spent: spenderOf(act) }
  }
  pure def trading(st: State, act: Act): bool = swapReq(st, act).on or outReq(st, act).on or provReq(st, act).on or routeReq(act).on
  pure def framed(x: Step): bool = {
    val f = frameOf(x.pre, x.act)
    and {
      x.obs.st.fac == x.pre.fac, x.obs.st.pair == x.pre.pair, x.obs.st.next == x.pre.next, x.obs.st.h == x.pre.h,
      x.obs.st.tok.keys() == x.pre.tok.keys(),
      x.pre.bal.keys().forall(a =>
        val b = x.pre.bal.get(a)
        val c = x.obs.st.bal.get(a)
        b == c or (f.what.contains(a) and b.keys().forall(u => b.get(u) == c.get(u) or f.who.contains(u)))),
      every(allToks(x.pre), t =>
        val y = x.pre.tok.get(t)
        val z = x.obs.st.tok.get(t)
        y == z or {
          and {
            { ...z, supply: y.supply, allow: y.allow } == y,
            z.supply == y.supply or f.minted.contains(t),
            z.allow == y.allow or { and {
              z.allow.keys() == y.allow.keys(),
              y.allow.keys().forall(k => y.allow.get(k) == z.allow.get(k) or f.spent.contains((t, k)))
            } }
          }
        })
    }
  }
  pure def isQuery(act: Act): bool =
    match act {
      | QSim(x) => true | QRev(x) => true | QPool(x) => true | QRoute(x) => true | QRouteRev(x) => true
      | QLookup(x) => true | QPage(x) => true | QWalk(x) => true | QDecimals(x) => true | QCore => true | QToken(x) => true | Nop => true | Advance(x) => true
      | _ => false
    }
  pure def c12rel(x: Step): bool = not(isQuery(x.act))
  pure def c12(x: Step): bool =
    if (not(x.obs.ok)) unchanged(x)
    else conserved(x) and (not(trading(x.pre, x.act)) or framed(x))

  // ---------------------------------------------------------------- C13
  pure def c13rel(x: Step): bool = {
    val r = provReq(x.pre, x.act)
    val i = x.pre.pair.get(r.p).info
    r.on and (refused(x.exp, Set("funds", "wrong_assets")) or x.obs.ok or (x.exp.ok and (isNative(i.a0) or isNative(i.a1))))
  }
  pure def c13(x: Step): bool = {
    val r = provReq(x.pre, x.act)
    val i = x.pre.pair.get(r.p).info
    if (not(x.obs.ok)) unchanged(x) and not(x.exp.ok)
    else {
      and {
        fundsMatch(r.xs, r.funds), r.d0 >= 0, r.d1 >= 0,
        // every native coin credited was sent with the message
        not(isNative(i.a0)) or reserve(x.obs.st, r.p, 0) - reserve(x.pre, r.p, 0) == r.d0,
        not(isNative(i.a1)) or reserve(x.obs.st, r.p, 1) - reserve(x.pre, r.p, 1) == r.d1
      }
    }
  }

  // ---------------------------------------------------------------- C14
  pure def isCreate(act: Act): bool = match act { | CreatePair(c) => true | _ => false }
  pure def c14rel(x: Step): bool =
    match x.act {
      | CreatePair(c) => true
      | QLookup(l) => true
      | _ => false
    }
  pure def c14(x: Step): bool = {
    and {
      // what was registered stays registered
      x.obs.st.fac.reg == x.pre.fac.reg or x.pre.fac.reg.keys().forall(k =>
        x.obs.st.fac.reg.has(k) and x.obs.st.fac.reg.get(k).addr == x.pre.fac.reg.get(k).addr),
      // under its own assets
      x.obs.st.fac.reg == x.pre.fac.reg or x.obs.st.fac.reg.keys().forall(k => {
        val i = x.obs.st.fac.reg.get(k)
        i.a0 != i.a1 and regKey(i.a0, i.a1) == k }),
      // no pair under two combinations
      x.obs.st.fac.reg == x.pre.fac.reg or x.obs.st.fac.reg.keys().map(k => x.obs.st.fac.reg.get(k).addr).size() == x.obs.st.fac.reg.keys().size(),
      match x.act {
        | CreatePair(c) =>
            if (x.exp.ok) x.obs.ok and x.obs.st.fac.reg.has(regKey(c.a0, c.a1)) and x.obs.st.fac.reg.keys() == x.exp.st.fac.reg.keys()
            else if (refused(x.exp, Set("same", "exists"))) not(x.obs.ok) and unchanged(x) else true
        | QLookup(l) => x.obs.ok and xsOf(x.obs) == xsOf(x.exp)
        | _ => true
      }
    }
  }

  // ---------------------------------------------------------------- C15
  pure def c15rel(x: Step): bool = isCreate(x.act) and x.obs.ok and x.exp.ok
  pure def c15(x: Step): bool =
    match x.act {
      | CreatePair(c) => {
          val p = x.pre.next
          val k = regKey(c.a0, c.a1)
          val s = x.obs.st
          if (not(s.pair.has(p)) or not(s.tok.has(p + 1)) or not(s.fac.reg.has(k))) false
          else { and {
            s.fac.reg.get(k) == x.exp.st.fac.reg.get(k),
            s.pair.get(p) == x.exp.st.pair.get(p),
            s.pair.get(p).info == s.fac.reg.get(k),
            s.next == p + 2,
            { ...s.tok.get(p + 1), name: [], sym: [], dec: 0 } == { ...x.exp.st.tok.get(p + 1), name: [], sym: [], dec: 0 },
            x.pre.pair.keys().forall(q => s.pair.get(q) == x.pre.pair.get(q)),
            x.pre.fac.reg.keys().forall(q => s.fac.reg.get(q) == x.pre.fac.reg.get(q)),
            { ...s.fac, reg: Map() } == { ...x.pre.fac, reg: Map() }
          } }
        }
      | _ => true
    }

  // ---------------------------------------------------------------- C16
  pure def isAdmin(act: Act): bool =
    match act { | UpdateConfig(c) => true | AddDecimals(c) => true | Migrate(c) => true | _ => false }
  pure def c16rel(x: Step): bool = isAdmin(x.act) and (x.exp.ok or refused(x.exp, Set("unauthorized", "bad_addr")))
  pure def c16(x: Step): bool = {
    and {
      match x.act {
        | UpdateConfig(c) => if (x.exp.ok) x.obs.ok and x.obs.st == x.exp.st
                             else if (refused(x.exp, Set("unauthorized", "bad_addr"))) not(x.obs.ok) and unchanged(x) else true
        | _ => { and {
            x.obs.st.fac.owner == x.pre.fac.owner, x.obs.st.fac.tokenCode == x.pre.fac.tokenCode, x.obs.st.fac.pairCode == x.pre.fac.pairCode,
            if (isAdmin(x.act)) (if (x.exp.ok) x.obs.ok
                                 else if (x.exp.err == "unauthorized") not(x.obs.ok) and unchanged(x) else true)
            else { and {
              x.obs.st.fac.dec == x.pre.fac.dec,
              x.obs.st.pair == x.pre.pair or x.pre.pair.keys().forall(q => x.obs.st.pair.get(q).code == x.pre.pair.get(q).code)
            } }
          } }
      }
    }
  }

  // ---------------------------------------------------------------- C17
  pure def third(l: List[int]): List[int] = range(0, l.length() / 3).foldl([], (r, i) => r.append(l[3 * i]))
  // entries are registered pairs with their own assets
  pure def genuine(st: State, l: List[int]): bool =
    l.length() % 3 == 0 and every(range(0, l.length() / 3), i => {
      val k = regKey(l[3 * i + 1], l[3 * i + 2])
      st.fac.reg.has(k) and st.fac.reg.get(k).addr == l[3 * i]
        and st.fac.reg.get(k).a0 == l[3 * i + 1] and st.fac.reg.get(k).a1 == l[3 * i + 2] })
  pure def distinct(l: List[int]): bool = l.foldl(Set(), (s, v) => s.union(Set(v))).size() == l.length()
  pure def pageMax(limit: int): int = if (limit == NONE) 10 else minI(limit, 30)
  pure def c17rel(x: Step): bool = match x.act { | QPage(q) => true | QWalk(q) => true | _ => false }
  pure def c17(x: Step): bool =
    match x.act {
      | QPage(q) => { and {
          x.obs.ok, genuine(x.pre, xsOf(x.obs)), distinct(third(xsOf(x.obs))), xsOf(x.obs).length() <= 3 * pageMax(q.limit) } }
      | QWalk(q) => {
          val entries = x.obs.logs.foldl([], (l, p) => l.concat(p.xs))
          { and {
            x.obs.ok, every(x.obs.logs, p => p.xs.length() <= 3 * pageMax(q.limit)),
            // only the last page may have fewer
            every(range(0, x.obs.logs.length() - 1), i => x.obs.logs[i].xs.length() == 3 * pageMax(q.limit) or every(range(i + 1, x.obs.logs.length()), j => x.obs.logs[j].xs.length() == 0)),
            genuine(x.pre, entries), distinct(third(entries)),
            entries.length() == 3 * x.pre.fac.reg.keys().size()
          } }
        }
      | _ => true
    }

  // ---------------------------------------------------------------- C18
  pure def c18rel(x: Step): bool =
    match x.act {
      | AddDecimals(c) => x.exp.ok or refused(x.exp, Set("no_balance"))
      | QDecimals(d) => true
      | CreatePair(c) => isNative(c.a0) or isNative(c.a1)
      | _ => false
    }
  pure def c18(x: Step): bool =
    match x.act {
      | AddDecimals(c) => if (x.exp.ok) x.obs.ok and x.obs.st.fac.dec == x.exp.st.fac.dec and x.obs.st.pair == x.pre.pair and x.obs.st.fac.reg == x.pre.fac.reg
                          else not(x.obs.ok) and unchanged(x)
      | QDecimals(d) => x.obs.ok == x.exp.ok and xsOf(x.obs) == xsOf(x.exp)
      | CreatePair(c) => {
          val unknown = Set(c.a0, c.a1).exists(a => isNative(a) and not(x.pre.fac.dec.has(a)))
          if (unknown) not(x.obs.ok)
          else x.obs.st.fac.dec == x.pre.fac.dec and (not(x.obs.ok) or not(x.exp.ok) or {
            val p = x.pre.next
            x.obs.st.pair.has(p) and { and {
              not(isNative(c.a0)) or x.obs.st.pair.get(p).info.d0 == x.pre.fac.dec.get(c.a0),
              not(isNative(c.a1)) or x.obs.st.pair.get(p).info.d1 == x.pre.fac.dec.get(c.a1)
            } }
          })
        }
      | _ => x.obs.st.fac.dec == x.pre.fac.dec
    }

  // ---------------------------------------------------------------- C19
  pure def served(st: State, act: Act): int = {
    val w = swapReq(st, act)
    val r = outReq(st, act)
    val v = provReq(st, act)
    if (w.on) w.p else if (r.on) r.p else if (v.on) v.p else NONE
  }
  pure def onNewCode(st: State, p: int): bool = p != NONE and st.pair.get(p).code == 6
  pure def c19rel(x: Step): bool =
    match x.act {
      | Migrate(c) => x.exp.ok
      | _ => x.exp.ok and onNewCode(x.pre, served(x.pre, x.act))
    }
  pure def c19(x: Step): bool =
    match x.act {
      | Migrate(c) => x.obs.ok and x.obs.st == x.exp.st
      | _ => x.obs.ok
    }

  // ---------------------------------------------------------------- C20
  pure def c20rel(x: Step): bool = {
    val r = routeReq(x.act)
    r.on and r.min != NONE and (x.obs.ok or x.exp.ok or refused(x.exp, Set("min_receive")))
  }
  pure def c20(x: Step): bool = {
    val r = routeReq(x.act)
    val last = lastAsset(r.ops)
    // the payment into the router precedes the execution
    val before = bal(x.pre, last, r.dst) - (if (r.tok == last and r.payer == r.dst) r.amt else 0)
    if (x.obs.ok) r.ops.length() > 0 and bal(x.obs.st, last, r.dst) - before >= r.min
    else unchanged(x) and not(x.exp.ok)
  }

  // ---------------------------------------------------------------- C21
  // also: a route that goes through although one of its swaps, made by itself, is refused
  pure def c21rel(x: Step): bool =
    routeReq(x.act).on and (x.exp.ok or (x.obs.ok and refused(x.exp, Set("zero", "zero_payout", "balance", "native_offer"))))
  pure def c21(x: Step): bool = followed(x)

  // ---------------------------------------------------------------- C22
  pure def c22rel(x: Step): bool =
    match x.act {
      | RouterOp(r) => true
      | RouterAssert(r) => true
      | _ => routeReq(x.act).on and refused(x.exp, Set("empty_route", "multi_output", "no_pair", "bad_addr"))
    }
  pure def c22(x: Step): bool =
    match x.act {
      | RouterOp(r) => not(x.obs.ok) and unchanged(x)
      | RouterAssert(r) => x.obs.ok == x.exp.ok and unchanged(x)
      | _ => not(x.obs.ok) and unchanged(x)
    }

  // ---------------------------------------------------------------- C23
  // a route query is observed together with the chain of the pairs' own quotes: [route, chain]
  pure def followedQuote(x: Step): bool =
    match x.la {
      | QRoute(q) => {
          val r = routeReq(x.act)
          val ps = routePairs(x.pre, q.ops)
          { and {
            r.on, r.ops == q.ops, r.amt == q.amt, r.ops.length() > 0, x.obs.ok, x.exp.ok, distinct(ps),
            r.tok == q.ops[0].o,
            routeAssets(r).forall(a => bal(x.pre, a, ROUTER) == 0),
            not(ps.foldl(Set(), (s, p) => s.union(Set(p))).contains(r.dst))
          } }
        }
      | _ => false
    }
  pure def badRoute(st: State, ops: List[Op]): bool = ops.length() == 0 or not(every(ops, o => lookup(st, o.o, o.a) != NONE))
  pure def routeQuery(x: Step, ops: List[Op]): bool =
    if (badRoute(x.pre, ops)) not(x.obs.ok)
    else if (x.obs.ok) xsOf(x.obs)[0] == xsOf(x.obs)[1] else not(x.exp.ok)
  pure def c23rel(x: Step): bool =
    match x.act {
      | QRoute(q) => true
      | QRouteRev(q) => true
      | _ => followedQuote(x)
    }
  pure def c23(x: Step): bool =
    match x.act {
      | QRoute(q) => routeQuery(x, q.ops)
      | QRouteRev(q) => routeQuery(x, q.ops)
      | _ => {
          val r = routeReq(x.act)
          val last = lastAsset(r.ops)
          val before = bal(x.pre, last, r.dst) - (if (r.tok == last and r.payer == r.dst) r.amt else 0)
          x.lo.ok and bal(x.obs.st, last, r.dst) - before == xsOf(x.lo)[0]
        }
    }

  // ---------------------------------------------------------------- C24
  pure val LEDGER = Set("zero", "balance", "allowance", "no_allowance", "expired", "unauthorized", "cap", "overflow",
                        "own_account", "expiration", "no_token", "bad_addr")
  pure def isLedger(act: Act): bool =
    match act {
      | Transfer(x) => true | TransferFrom(x) => true | Burn(x) => true | BurnFrom(x) => true | Mint(x) => true
      | IncAllow(x) => true | DecAllow(x) => true | SetMinter(x) => true
      | _ => false
    }
  // the stage of a send that is the token's own
  pure def sendRefused(st: State, act: Act): bool =
    match act {
      | Send(x) => not(tokTransfer(st, x.tok, x.who, x.to, x.amt).ok)
      | SendFrom(x) => not(tokTransferFrom(st, x.tok, x.who, x.owner, x.to, x.amt).ok)
      | _ => false
    }
  // the token part of a successful SendFrom: the allowance shrinks by the amount, and only it
  pure def allowancesKept(x: Step): bool =
    match x.act {
      | SendFrom(y) => { val k = allowKey(y.owner, y.who)
          x.obs.st.tok.get(y.tok).allow == x.pre.tok.get(y.tok).allow.setBy(k, v => { ...v, amt: v.amt - y.amt }) }
      | Send(y) => x.obs.st.tok.get(y.tok).allow == x.pre.tok.get(y.tok).allow
      | _ => true
    }
  pure def isLedgerSend(act: Act): bool = match act { | Send(y) => true | SendFrom(y) => true | _ => false }
  pure def minter(st: State, t: int): int = st.tok.get(t).minter
  pure def supplyMoves(x: Step, t: int): bool = {
    val a = supplyOf(x.pre, t)
    val b = supplyOf(x.obs.st, t)
    val v = provReq(x.pre, x.act)
    val r = outReq(x.pre, x.act)
    if (b > a) (x.pre.tok.get(t).cap == NONE or b <= x.pre.tok.get(t).cap) and (match x.act {
        | Mint(m) => m.tok == t and minter(x.pre, t) == m.who
        | _ => v.on and minter(x.pre, t) == v.p
      })
    else if (b < a) match x.act {
        | Burn(y) => y.tok == t
        | BurnFrom(y) => y.tok == t
        | _ => r.on and r.lp == t
      }
    else true
  }
  pure def c24rel(x: Step): bool = not(isQuery(x.act))
  pure def c24(x: Step): bool = {
    and {
      every(allToks(x.obs.st), t => (x.pre.tok.has(t) and x.pre.tok.get(t) == x.obs.st.tok.get(t) and x.pre.bal.get(t) == x.obs.st.bal.get(t))
        or total(x.obs.st, t) == supplyOf(x.obs.st, t)),
      every(allToks(x.pre), t => supplyMoves(x, t)),
      match x.act {
        // a new token has the minter and the cap it was asked to have
        | NewToken(n) => not(x.obs.ok) or not(x.exp.ok) or (x.obs.st.tok.has(x.pre.next)
            and x.obs.st.tok.get(x.pre.next).minter == n.minter
            and x.obs.st.tok.get(x.pre.next).cap == (if (n.minter == NONE) NONE else n.cap))
        | _ => true
      },
      if (isLedger(x.act)) (if (x.exp.ok) x.obs.ok and x.obs.st == x.exp.st else not(x.obs.ok) and unchanged(x))
      else if (sendRefused(x.pre, x.act)) not(x.obs.ok) and unchanged(x)
      else if (isLedgerSend(x.act) and x.obs.ok) allowancesKept(x)
      else true
    }
  }

  // ---------------------------------------------------------------- C25
  pure def c25rel(x: Step): bool = match x.act { | NewToken(t) => true | _ => false }
  pure def c25(x: Step): bool = if (x.exp.ok) x.obs.ok and x.obs.st == x.exp.st else not(x.obs.ok) and unchanged(x)

  // ---------------------------------------------------------------- C27
  pure def c27rel(x: Step): bool = match x.act { | QPool(q) => true | QCore => true | QToken(q) => true | QLookup(l) => true | _ => false }
  pure def c27(x: Step): bool = x.obs.ok and x.obs.logs == x.exp.logs

  // ---------------------------------------------------------------- C28
  pure def upgraded(act: Act): bool = match act { | MigrateCore(m) => true | _ => false }
  // the upgrade itself, and the first thing done afterwards
  pure def c28rel(x: Step): bool = x.exp.ok and (upgraded(x.act) or (upgraded(x.la) and x.lo.ok))
  pure def c28(x: Step): bool =
    if (upgraded(x.act)) x.obs.ok and unchanged(x)
    else x.obs.ok and x.obs.st == x.exp.st and (match x.act { | QCore => xsOf(x.obs) == xsOf(x.exp) | QLookup(l) => xsOf(x.obs) == xsOf(x.exp) | _ => true })

  // ---------------------------------------------------------------- by name
  pure def relevant(id: str, x: Step): bool =
    if (id == "C01") c01rel(x) else if (id == "C02") c02rel(x) else if (id == "C03") c03rel(x) else if (id == "C04") c04rel(x)
    else if (id == "C05") c05rel(x) else if (id == "C06") c06rel(x) else if (id == "C07") c07rel(x) else if (id == "C08") c08rel(x)
    else if (id == "C09") c09rel(x) else if (id == "C10") c10rel(x) else if (id == "C11") c11rel(x) else if (id == "C12") c12rel(x)
    else if (id == "C13") c13rel(x) else if (id == "C14") c14rel(x) else if (id == "C15") c15rel(x) else if (id == "C16") c16rel(x)
    else if (id == "C17") c17rel(x) else if (id == "C18") c18rel(x) else if (id == "C19") c19rel(x) else if (id == "C20") c20rel(x)
    else if (id == "C21") c21rel(x) else if (id == "C22") c22rel(x) else if (id == "C23") c23rel(x) else if (id == "C24") c24rel(x)
    else if (id == "C25") c25rel(x) else if (id == "C27") c27rel(x) else if (id == "C28") c28rel(x) else false
  pure def judge(id: str, x: Step): bool =
    if (id == "C01") c01(x) else if (id == "C02") c02(x) else if (id == "C03") c03(x) else if (id == "C04") c04(x)
    else if (id == "C05") c05(x) else if (id == "C06") c06(x) else if (id == "C07") c07(x) else if (id == "C08") c08(x)
    else if (id == "C09") c09(x) else if (id == "C10") c10(x) else if (id == "C11") c11(x) else if (id == "C12") c12(x)
    else if (id == "C13") c13(x) else if (id == "C14") c14(x) else if (id == "C15") c15(x) else if (id == "C16") c16(x)
    else if (id == "C17") c17(x) else if (id == "C18") c18(x) else if (id == "C19") c19(x) else if (id == "C20") c20(x)
    else if (id == "C21") c21(x) else if (id == "C22") c22(x) else if (id == "C23") c23(x) else if (id == "C24") c24(x)
    else if (id == "C25") c25(x) else if (id == "C27") c27(x) else if (id == "C28") c28(x) else true
  // properties with duties beyond the relevant steps are judged on every step
  pure def everyStep(id: str): bool = Set("C14", "C16", "C18").contains(id)
  pure def holds(id: str, x: Step): bool = if (relevant(id, x) or everyStep(id)) judge(id, x) else true
}
