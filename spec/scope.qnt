// Small scopes: for a fixed little world, every action of a finite menu in every state reachable in a few steps.
// The conformance driver enumerates them breadth first, on the specification and on the contracts together.
// A menu is a list of scripts (mostly of one action); z is 1 for the quick checks and 2 for the thorough ones.
module scope {
  import arith.* from "./arith"
  import amm.* from "./amm"
  import halo.* from "./halo"
  import gen.* from "./gen"

  pure val PLENTY = 10^24

  // ---------------------------------------------------------------- openings
  pure def newTok(i: int, dec: int, amt: int, n: int): Act =
    NewToken({ who: 0, name: [72, 97, 108, 111, 32, 65 + i], sym: [72, 65, 76, 65 + i], dec: dec,
               init: range(0, n).foldl([], (q, u) => q.append({ den: u, amt: amt })), minter: 0, cap: NONE })
  pure def mkPair(x: int, y: int, wl: List[int], m0: int, m1: int): Act =
    CreatePair({ who: 2, a0: x, a1: y, wl: wl, m0: m0, m1: m1, funds: [] })
  // users a .. b-1 let the contract take what it wants
  pure def trust(t: int, p: int, a: int, b: int): List[Act] =
    if (isNative(t)) [] else range(a, b).foldl([], (l, u) => l.append(IncAllow({ who: u, tok: t, spender: p, amt: PLENTY, exp: NONE })))
  pure def deposit(w: int, p: int, x: int, d0: int, y: int, d1: int): Act =
    Provide({ who: w, pair: p, xs: [{ den: x, amt: d0 }, { den: y, amt: d1 }], tol: NONE, recv: NONE,
              funds: fundsFor(x, d0).concat(fundsFor(y, d1)) })
  pure def known(den: int, dec: int): List[Act] =
    [BankSend({ who: 0, to: FACTORY, den: den, amt: 1 }), AddDecimals({ who: 0, den: den, dec: dec, funds: [] })]

  pure def origin(m: str, part: int): List[Act] =
    // 102, 103 tokens, 104 their pair, 105 its LP tokens
    if (Set("pool", "grid", "fee", "slip", "rev").contains(m))
      [newTok(0, 6, PLENTY, 2), newTok(1, 6, PLENTY, 2), mkPair(102, 103, [0], 0, 0)].concat(trust(102, 104, 0, 2)).concat(trust(103, 104, 0, 2))
    else if (m == "limits")
      [newTok(0, [6, 6, 8, 0, 18][part], PLENTY, 2), newTok(1, [6, 8, 6, 18, 17][part], PLENTY, 2), mkPair(102, 103, [0], 0, 0)]
        .concat(trust(102, 104, 0, 2)).concat(trust(103, 104, 0, 2))
    else if (m == "first")
      [newTok(0, 6, PLENTY, 3), newTok(1, 6, PLENTY, 3)].concat(trust(102, 104, 0, 3)).concat(trust(103, 104, 0, 3))
    // 102 token, 103 pair with the coin 1000, 105 pair of the coins 1000 and 1001
    else if (m == "funds")
      [newTok(0, 6, PLENTY, 2)].concat(known(1000, 6)).concat(known(1001, 8)).concat([mkPair(102, 1000, [0], 0, 0), mkPair(1001, 1000, [0], 0, 0)])
        .concat(trust(102, 103, 0, 2))
    // two tokens; 104 and 108 pairs of them (the second not the factory's), 106 the first and a coin
    else if (m == "hooks")
      [newTok(0, 6, 1000, 3), newTok(1, 6, 1000, 3)].concat(known(1000, 6))
        .concat([mkPair(102, 103, [1], 0, 0), mkPair(102, 1000, [1], 0, 0),
                 NewPair({ who: 3, a0: 102, a1: 103, d0: 6, d1: 6, wl: [1], m0: 0, m1: 0 })])
        .concat(trust(102, 104, 1, 2)).concat(trust(103, 104, 1, 2)).concat(trust(102, 106, 1, 2)).concat(trust(102, 108, 1, 2)).concat(trust(103, 108, 1, 2))
        .concat([deposit(1, 104, 102, 20, 103, 30), deposit(1, 106, 102, 25, 1000, 10), deposit(1, 108, 102, 5, 103, 7)])
        .concat(trust(102, 2, 1, 2)).concat(trust(105, 2, 1, 2)).concat(trust(107, 2, 1, 2))
    else if (m == "registry")
      [newTok(0, 6, 1000, 3), newTok(1, 8, 1000, 3), BankSend({ who: 0, to: FACTORY, den: 1000, amt: 1 })]
    // 102, 103 tokens, 1000 coin; 104 and 106 pairs, the first with deposits
    else if (m == "admin" or m == "migrate" or m == "upgrade")
      [newTok(0, 6, 1000, 3), newTok(1, 8, 1000, 3)].concat(known(1000, 6)).concat([mkPair(102, 103, [0], 0, 0), mkPair(1000, 102, [0], 0, 0)])
        .concat(trust(102, 104, 0, 2)).concat(trust(103, 104, 0, 2)).concat(trust(102, 106, 0, 2)).concat([deposit(0, 104, 102, 20, 103, 30)])
    // 102 A, 103 B, 104 C, 1000 D; 105 AB, 107 BC, 109 CD, 111 AC
    else if (m == "route" or m == "routeq")
      [newTok(0, 6, PLENTY, 3), newTok(1, 6, PLENTY, 3), newTok(2, 8, PLENTY, 3)].concat(known(1000, 6))
        .concat([mkPair(102, 103, [0], 0, 0), mkPair(104, 103, [0], 0, 0), mkPair(104, 1000, [0], 0, 0), mkPair(102, 104, [0], 0, 0)])
        .concat(trust(102, 105, 0, 1)).concat(trust(103, 105, 0, 1)).concat(trust(104, 107, 0, 1)).concat(trust(103, 107, 0, 1))
        .concat(trust(104, 109, 0, 1)).concat(trust(102, 111, 0, 1)).concat(trust(104, 111, 0, 1))
        .concat([deposit(0, 105, 102, 30, 103, 50), deposit(0, 107, 104, 40, 103, 20), deposit(0, 109, 104, 700, 1000, 900), deposit(0, 111, 102, 15, 104, 35)])
        .concat([Transfer({ who: 0, tok: 104, to: ROUTER, amt: 6 }).at(part % 2 == 1), BankSend({ who: 0, to: ROUTER, den: 1000, amt: 4 }).at(part / 2 == 1)])
    else if (m == "token")
      [NewToken({ who: 0, name: [72, 97, 108, 111], sym: [72, 65, 76], dec: 6, init: [{ den: 0, amt: 2 }, { den: 1, amt: 3 }], minter: 0, cap: 7 })]
    else if (m == "paging")
      range(0, 3).foldl([], (l, i) => l.append(newTok(i, 6, 1000, 1)))
        .concat(range(0, 10).foldl([], (l, j) => l.concat(known(NATIVE + j, 6))))
        .concat(combos.slice(0, 5 * part).foldl([], (l, c) => l.append(mkPair(c.o, c.a, [0], 0, 0))))
    else []
  pure def at(a: Act, c: bool): Act = if (c) a else Nop
  // every combination of the paging world's assets, in an order of its own
  pure val combos: List[Op] = {
    val as = [1003, 102, 1000, 104, 1007, 1001, 103, 1009, 1002, 1004, 1008, 1005, 1006]
    range(0, 13).foldl([], (l, i) => range(i + 1, 13).foldl(l, (l2, j) => l2.append({ o: as[i], a: as[j] })))
  }

  // ---------------------------------------------------------------- menus
  pure def simple(t: int, u: int, p: int, amt: int): Act =
    Send({ who: u, tok: t, to: p, amt: amt, hook: HSwap({ belief: NONE, maxs: NONE, to: NONE }) })
  pure def leave(u: int, p: int, lp: int, amt: int): Act = Send({ who: u, tok: lp, to: p, amt: amt, hook: HWithdraw })

  // two providers, traders, gifts and burnt shares, with a handful of units
  pure def mnPool(st: State, z: int): List[List[Act]] = {
    val ds = (if (z == 1) [{ o: 1, a: 1 }, { o: 3, a: 2 }, { o: 2, a: 5 }] else [{ o: 1, a: 1 }, { o: 2, a: 1 }, { o: 1, a: 2 }, { o: 3, a: 3 }, { o: 2, a: 5 }, { o: 7, a: 4 }])
    val us = [0, 1]
    val provs = us.foldl([], (l, u) => ds.foldl(l, (l2, d) => l2.append([deposit(u, 104, 102, d.o, 103, d.a)])))
    val sw = if (z == 1) [1, 4, 15] else [1, 2, 3, 5, 9, 20]
    val swaps = [102, 103].foldl([], (l, t) => sw.foldl(l, (l2, x) => l2.append([QSim({ pair: 104, asset: t, amt: x }), simple(t, 1, 104, x)])))
    val outs = us.foldl([], (l, u) => {
      val b = bal(st, 105, u)
      l.concat([1, 2, b].select(x => x <= b and x > 0 and (x != b or b > 2)).foldl([], (q, x) => q.append([leave(u, 104, 105, x)])))
    })
    val gifts = [[Transfer({ who: 1, tok: 102, to: 104, amt: 1 })], [Transfer({ who: 1, tok: 103, to: 104, amt: 3 })]]
    val lost = us.foldl([], (l, u) => if (bal(st, 105, u) == 0) l else
      l.concat([[Burn({ who: u, tok: 105, amt: 1 })], [Transfer({ who: u, tok: 105, to: 104, amt: 1 })]]))
    provs.concat(swaps).concat(outs).concat(gifts).concat(lost).append([QPool(104)])
  }

  pure def firstDeposits(xs: List[int], ys: List[int]): List[List[Act]] =
    xs.foldl([], (l, x) => ys.foldl(l, (l2, y) => l2.append([deposit(0, 104, 102, x, 103, y)])))

  // one operation of every kind on every small pool (part: or the same with larger units)
  pure def mnGrid(st: State, part: int, z: int): List[List[Act]] = {
    val unit = [1, 10^6, 10^20][part]
    val r = (if (z == 1) [1, 2, 3, 7, 10] else if (part == 0) range(1, 13).concat([17, 40]) else [1, 2, 3, 7, 9, 40]).foldl([], (l, x) => l.append(x * unit))
    if (supplyOf(st, 105) == 0) firstDeposits(r, r)
    else {
      val n = if (z == 1) 8 else 25
      val swaps = [102, 103].foldl([], (l, t) => range(1, n).concat([40, 333, 334]).foldl(l, (l2, x) =>
        l2.append([QSim({ pair: 104, asset: t, amt: x * unit }), simple(t, 1, 104, x * unit)]).concat(if (part == 0) [] else [[simple(t, 1, 104, x)]])))
      val k = if (z == 1) 4 else 9
      val provs = range(0, k).foldl([], (l, x) => range(0, k).foldl(l, (l2, y) => l2.append([deposit(1, 104, 102, x * unit, 103, y * unit + (if (x == 2) 1 else 0))])))
      val outs = range(1, minI(bal(st, 105, 0), if (z == 1) 6 else 20) + 2).foldl([], (l, x) => l.append([leave(0, 104, 105, x)]).concat(if (part == 0) [] else [[leave(0, 104, 105, minI(bal(st, 105, 0), x * unit + x))]]))
      swaps.concat(provs).concat(outs)
    }
  }

  // pools large enough for the commission to matter, and offers around every step of it
  pure def mnFee(st: State, part: int, z: int): List[List[Act]] = {
    val unit = [1, 10^12, 10^20][part]
    val r = (if (z == 1) [100, 1000, 3333] else [333, 334, 1000, 3333, 10000, 999983]).foldl([], (l, x) => l.append(if (x == 3333) x else x * unit))
    if (supplyOf(st, 105) == 0) firstDeposits(r, r)
    else [102, 103].foldl([], (l, t) => {
      val o = bal(st, t, 104)
      val a = bal(st, 205 - t, 104)
      // the offers that first pay k/0.003, and their neighbours
      val steps = range(1, if (z == 1) 4 else 9).foldl([], (q, k) => {
        val g = (k * 1000 + 2) / 3
        if (g >= a) q else { val d = (g * o + a - g - 1) / (a - g)
          q.concat(range(maxI(1, d - 1), d + 3)) } })
      val offers = steps.concat(range(1, if (z == 1) 3 else 12)).concat([o, o + 1, 10 * o, 1000 * o])
      offers.foldl(l, (l2, x) => l2.append([QSim({ pair: 104, asset: t, amt: x }), simple(t, 1, 104, x)]))
    })
  }

  // every quote for a wanted amount
  pure def mnRev(st: State, z: int): List[List[Act]] = {
    val r = if (z == 1) [1, 2, 5, 11, 400] else [1, 2, 3, 5, 7, 11, 30, 333, 400, 1000]
    if (supplyOf(st, 105) == 0) firstDeposits(r, r)
    else [102, 103].foldl([], (l, t) => {
      val b = bal(st, t, 104)
      val n = if (z == 1) 12 else 60
      range(0, minI(b + 2, n)).concat(range(maxI(n, b - 4), b + 2)).foldl(l, (l2, x) => l2.append([QRev({ pair: 104, asset: t, amt: x })]))
    }).append([QRev({ pair: 104, asset: 105, amt: 1 })])
  }

  // limits around the critical ones
  pure def mnLimits(st: State, z: int): List[List[Act]] =
    if (supplyOf(st, 105) == 0) firstDeposits(if (z == 1) [100, 1000000] else [7, 100, 1000000, 10^20], if (z == 1) [120, 10^6] else [9, 120, 10^6, 3 * 10^19])
    else {
      val i = st.pair.get(104).info
      [102, 103].foldl([], (l, t) => (if (z == 1) [1, 30, 5000] else [1, 2, 9, 30, 500, 5000, 10^18]).foldl(l, (l1, d) => {
        val side = if (t == i.a0) 0 else 1
        val od = if (side == 0) i.d0 else i.d1
        val ad = if (side == 0) i.d1 else i.d0
        val q = quote(reserve(st, 104, side), reserve(st, 104, 1 - side), d)
        val f = 10^minI(19, absI(od - ad))
        val d2 = if (od < ad) d * f else d
        val r2 = if (od > ad) q.ret * f else q.ret
        val s2 = if (od > ad) q.spread * f else q.spread
        val crit = if (r2 + s2 == 0) 0 else ratio(s2, r2 + s2)
        val plain = [0, 1, crit - 1, crit, crit + 1, 10^16, 5 * 10^17, ONE].select(x => x >= 0).foldl(l1, (l2, x) =>
          l2.append([Send({ who: 1, tok: t, to: 104, amt: d, hook: HSwap({ belief: NONE, maxs: x, to: NONE }) })]))
        // expected returns a little or much above what is paid
        [r2 - 1, r2, r2 + 1, r2 + r2 / 100, r2 * 2].select(e => e > 0).foldl(plain, (l2, e) => {
          val b = minI(BIGDEC, (d2 * ONE) / e)
          val ex = if (b == 0) 0 else (d2 * ONE) / b
          val c = if (ex <= r2) 0 else ratio(ex - r2, ex)
          [NONE, 0, c - 1, c, c + 1, ONE].select(x => x >= NONE).foldl(l2, (l3, x) =>
            l3.append([Send({ who: 1, tok: t, to: 104, amt: d, hook: HSwap({ belief: b, maxs: x, to: NONE }) })]))
        })
      }))
    }

  // tolerances around the critical one
  pure def mnSlip(st: State, z: int): List[List[Act]] = {
    val r = if (z == 1) [1, 2, 5] else [1, 2, 3, 5, 8, 1000]
    if (supplyOf(st, 105) == 0) firstDeposits(r, r)
    else {
      val p0 = reserve(st, 104, 0)
      val p1 = reserve(st, 104, 1)
      val ds = if (z == 1) [1, 2, 3, 10] else [1, 2, 3, 4, 6, 10, 999, 1001]
      ds.foldl([], (l, d0) => ds.foldl(l, (l1, d1) => {
        val x = ratio(d0, d1)
        val y = ratio(d1, d0)
        val px = ratio(p0, p1)
        val py = ratio(p1, p0)
        val c = if (x > px and x > 0) ONE - (px * ONE) / x else if (y > py and y > 0) ONE - (py * ONE) / y else 0
        [NONE, 0, c - 1, c, c + 1, 10^16, 5 * 10^17, ONE, ONE + 1].select(t => t >= NONE).foldl(l1, (l2, t) =>
          l2.append([Provide({ who: 1, pair: 104, xs: [{ den: 103, amt: d1 }, { den: 102, amt: d0 }], tol: t, recv: NONE, funds: [] })]))
      }))
    }
  }

  // who may be first, with how much; and after everyone left, again
  pure def mnFirst(st: State, z: int): List[List[Act]] =
    if (not(isPair(st, 104)))
      [[], [0], [1, 0], [1, 1]].foldl([], (l, wl) => [{ o: 0, a: 0 }, { o: 2, a: 3 }, { o: 3, a: 0 }].foldl(l, (l2, m) =>
        l2.concat([[mkPair(102, 103, wl, m.o, m.a)], [mkPair(103, 102, wl, m.o, m.a)]])))
    else if (supplyOf(st, 105) == 0) {
      val xs = if (z == 1) [1, 2, 3] else [1, 2, 3, 4]
      val us = [0, 1, 2]
      us.foldl([], (l, u) => xs.foldl(l, (l1, x) => xs.foldl(l1, (l2, y) => {
        val d = [{ den: 102, amt: x }, { den: 103, amt: y }]
        l2.concat((if (z == 1) [NONE] else [NONE, 1]).foldl([], (q, w) => q.append([Provide({ who: u, pair: 104, xs: d, tol: NONE, recv: w, funds: [] })])))
      }))).append([Transfer({ who: 1, tok: 102, to: 104, amt: 1 })])
    }
    else [0, 1, 2].foldl([], (l, u) => {
      val b = bal(st, 105, u)
      val out = if (b == 0) [] else [[leave(u, 104, 105, b)], [Burn({ who: u, tok: 105, amt: b })]]
      l.concat(out).append([deposit(u, 104, 102, 2, 103, 3)])
    })

  // every combination of named amounts and coins attached
  pure def mnFunds(st: State, z: int): List[List[Act]] = {
    val fs = [0, 1, 2, 3]
    val third = if (z == 1) [0, 2] else fs
    [{ o: 103, a: 102 }, { o: 105, a: 1001 }].foldl([], (l, p) => (if (z == 1) [{ o: 2, a: 2 }, { o: 2, a: 1 }] else [{ o: 2, a: 2 }, { o: 2, a: 1 }, { o: 1, a: 3 }, { o: 0, a: 2 }, { o: 2, a: 0 }]).foldl(l, (l1, d) =>
      fs.foldl(l1, (l2, f0) => fs.foldl(l2, (l3, f1) => third.foldl(l3, (l4, f2) => {
        val xs = [{ den: p.a, amt: d.o }, { den: 1000, amt: d.a }]
        val coins = [{ den: 1000, amt: f0 }, { den: 1001, amt: f1 }, { den: 1002, amt: f2 }].select(c => c.amt > 0)
        val one = [Provide({ who: 0, pair: p.o, xs: xs, tol: NONE, recv: NONE, funds: coins })]
        if (z == 1) l4.append(one) else l4.append(one).append([Provide({ who: 0, pair: p.o, xs: [xs[1], xs[0]], tol: NONE, recv: NONE, funds: coins })])
      })))))
  }

  // every request to every contract by every means
  pure def mnHooks(st: State, z: int): List[List[Act]] = {
    val hooks = [HSwap({ belief: NONE, maxs: NONE, to: NONE }), HWithdraw, HBad,
                 HRoute({ ops: [{ o: 102, a: 103 }], min: NONE, to: NONE }), HRoute({ ops: [{ o: 102, a: 1000 }], min: NONE, to: NONE })]
    val dst = [104, 106, 108, ROUTER, FACTORY, 105]
    val amts = if (z == 1) [2] else [1, 4]
    val sends = [102, 103, 105, 107, 109].foldl([], (l, t) => dst.foldl(l, (l1, p) => hooks.foldl(l1, (l2, h) => amts.foldl(l2, (l3, x) => {
      val direct = [Send({ who: 1, tok: t, to: p, amt: x, hook: h })]
      if (t == 103 or t == 109) l3.append(direct) else l3.append(direct).append([SendFrom({ who: 2, tok: t, owner: 1, to: p, amt: x, hook: h })])
    }))))
    val notes = [1, 104].foldl([], (l, s) => [104, 106, 108, ROUTER].foldl(l, (l1, p) => hooks.foldl(l1, (l2, h) =>
      l2.append([Notify({ who: 1, to: p, sender: s, amt: 2, hook: h, funds: [] })]).append([Notify({ who: 1, to: p, sender: s, amt: 2, hook: h, funds: [{ den: 1000, amt: 2 }] })]))))
    val gifts = [105, 107, 102].foldl([], (l, t) => [104, 106, ROUTER].foldl(l, (l1, p) => l1.append([Transfer({ who: 1, tok: t, to: p, amt: 3 })])))
    val natives = [104, 106].foldl([], (l, p) => [0, 2].foldl(l, (l1, x) => l1.append([NativeSwap({ who: 1, pair: p, den: 1000, amt: 2, paid: x, to: NONE })])))
    gifts.concat(sends).concat(notes).concat(natives)
  }

  // the registry from its first entry
  pure def mnRegistry(st: State, z: int): List[List[Act]] = {
    val as = [102, 103, 1000, 1001]
    val creates = as.foldl([], (l, x) => as.foldl(l, (l1, y) => l1.append([CreatePair({ who: 1, a0: x, a1: y, wl: [0], m0: 1, m1: 2, funds: [] }), QLookup(as)])))
    val dens = [1000, 1001].foldl([], (l, d) => [6, 0].foldl(l, (l1, x) => [0, 1].foldl(l1, (l2, w) =>
      l2.append([AddDecimals({ who: w, den: d, dec: x, funds: if (z == 2 and w == 0 and x == 0) [{ den: d, amt: 1 }] else [] }), QDecimals(d)]))))
    val codes = [[UpdateConfig({ who: 0, owner: NONE, tokenCode: NONE, pairCode: 6, funds: [] })], [UpdateConfig({ who: 0, owner: NONE, tokenCode: 5, pairCode: NONE, funds: [] })],
                 [UpdateConfig({ who: 0, owner: NONE, tokenCode: NONE, pairCode: 9, funds: [] })], [BankSend({ who: 1, to: FACTORY, den: 1001, amt: 1 })]]
    val rogue = [[NewPair({ who: 1, a0: 102, a1: 103, d0: 0, d1: 0, wl: [], m0: 0, m1: 0 }), QLookup(as)]]
    val odd = [[CreatePair({ who: 1, a0: 102, a1: 3, wl: [], m0: 0, m1: 0, funds: [] })], [CreatePair({ who: 1, a0: FACTORY, a1: 1000, wl: [], m0: 0, m1: 0, funds: [] })],
               [CreatePair({ who: 1, a0: 103, a1: 102, wl: [1, 2, 1], m0: 0, m1: 0, funds: [{ den: 1000, amt: 1 }, { den: 1001, amt: 2 }] })],
               [CreatePair({ who: 1, a0: 1001, a1: 103, wl: [], m0: 0, m1: 0, funds: [{ den: 1001, amt: 2 }] })]]
    val moves = pairs(st).foldl([], (l, p) => l.append([Migrate({ who: 0, pair: p, code: 6, funds: [] }), QLookup(as)]))
    creates.concat(dens).concat(codes).concat(rogue).concat(odd).concat(moves)
      .concat([[QWalk({ limit: 1, flip: false })], [QWalk({ limit: 2, flip: true })], [QCore], [QDecimals(1000)], [QDecimals(1001)]])
  }

  // everybody tries everything that is the owner's
  pure def mnAdmin(st: State, z: int): List[List[Act]] = {
    val ws = [0, 1, 2]
    val owners = if (z == 1) [NONE, 1, 104] else [NONE, 0, 1, BAD, 104, FACTORY]
    val cfg = ws.foldl([], (l, w) => owners.foldl(l, (l1, o) => [NONE, 5].foldl(l1, (l2, t) => [NONE, 6].foldl(l2, (l3, c) =>
      l3.append([UpdateConfig({ who: w, owner: o, tokenCode: t, pairCode: c, funds: [] })])))))
    val decs = ws.foldl([], (l, w) => [1000, 1001].foldl(l, (l1, d) => l1.append([AddDecimals({ who: w, den: d, dec: 9, funds: [] })])))
    val moves = ws.foldl([], (l, w) => [104, 106, ROUTER, 102].foldl(l, (l1, p) => [NONE, 6].foldl(l1, (l2, c) => l2.append([Migrate({ who: w, pair: p, code: c, funds: [] })]))))
    val paid = ws.foldl([], (l, w) => l.concat([[UpdateConfig({ who: w, owner: w, tokenCode: NONE, pairCode: NONE, funds: [{ den: 1001, amt: 1 }] })],
      [AddDecimals({ who: w, den: 1001, dec: 4, funds: [{ den: 1001, amt: 1 }] })], [Migrate({ who: w, pair: 104, code: 6, funds: [{ den: 1000, amt: 1 }] })]]))
    val rest = [[CreatePair({ who: 1, a0: 103, a1: 1000, wl: [0], m0: 0, m1: 0, funds: [] })], [simple(102, 1, 104, 5)], [MigrateCore({ who: 0, c: FACTORY })], [MigrateCore({ who: 0, c: ROUTER })],
                [BankSend({ who: 2, to: FACTORY, den: 1001, amt: 1 })]]
    cfg.concat(decs).concat(moves).concat(paid).concat(rest)
  }

  // migrations, and everything a pair does, before and after
  pure def mnMigrate(st: State, z: int): List[List[Act]] = {
    val b = bal(st, 105, 0)
    val moves = [104, 106].foldl([], (l, p) => [NONE, 2, 6, 9].foldl(l, (l1, c) => l1.append([Migrate({ who: 0, pair: p, code: c, funds: [] })])))
      .append([UpdateConfig({ who: 0, owner: NONE, tokenCode: NONE, pairCode: if (st.fac.pairCode == 2) 6 else 2, funds: [] })])
    val use = [[simple(102, 1, 104, 7)], [simple(103, 1, 104, 3)], [deposit(1, 104, 102, 4, 103, 6)],
               [Provide({ who: 1, pair: 104, xs: [{ den: 102, amt: 4 }, { den: 103, amt: 6 }], tol: 10^16, recv: NONE, funds: [] })],
               [Provide({ who: 0, pair: 106, xs: [{ den: 102, amt: 4 }, { den: 1000, amt: 6 }], tol: NONE, recv: NONE, funds: [{ den: 1000, amt: 6 }] })],
               [Provide({ who: 1, pair: 106, xs: [{ den: 102, amt: 4 }, { den: 1000, amt: 6 }], tol: NONE, recv: NONE, funds: [{ den: 1000, amt: 6 }] })],
               [leave(0, 104, 105, if (b > 3) 3 else 1)], [leave(0, 104, 105, maxI(b, 1))], [simple(102, 1, 106, 2)],
               [Send({ who: 1, tok: 102, to: ROUTER, amt: 5, hook: HRoute({ ops: [{ o: 102, a: 103 }], min: NONE, to: NONE }) })],
               [Send({ who: 1, tok: 102, to: 104, amt: 2, hook: HWithdraw })], [QPool(104)], [QLookup([102, 103, 1000])]]
    moves.concat(use)
  }

  // new code for factory and router, then whatever comes next
  pure def mnUpgrade(st: State, z: int): List[List[Act]] = {
    val nexts = [QCore, QLookup([102, 103, 1000]), QWalk({ limit: NONE, flip: false }), CreatePair({ who: 1, a0: 103, a1: 1000, wl: [0], m0: 0, m1: 0, funds: [] }),
      UpdateConfig({ who: 0, owner: 1, tokenCode: 5, pairCode: 6, funds: [] }), UpdateConfig({ who: 1, owner: 0, tokenCode: NONE, pairCode: NONE, funds: [] }),
      AddDecimals({ who: 0, den: 1000, dec: 3, funds: [] }), Migrate({ who: 0, pair: 104, code: 6, funds: [] }), QDecimals(1000),
      Send({ who: 1, tok: 102, to: ROUTER, amt: 5, hook: HRoute({ ops: [{ o: 102, a: 103 }], min: 1, to: NONE }) }),
      Send({ who: 1, tok: 103, to: ROUTER, amt: 5, hook: HRoute({ ops: [{ o: 103, a: 102 }], min: NONE, to: 2 }) }),
      simple(102, 1, 104, 7), QRoute({ ops: [{ o: 102, a: 103 }], amt: 5 }), RouterOp({ who: 1, o: 102, a: 103, to: NONE })]
    [0, 1].foldl([], (l, w) => [FACTORY, ROUTER].foldl(l, (l1, c) => nexts.foldl(l1, (l2, x) => l2.append([MigrateCore({ who: w, c: c }), x]))))
      .concat(nexts.foldl([], (l, x) => l.append([x])))
  }

  pure def legs(n: int): List[List[Op]] = {
    val as = [102, 103, 104, 1000]
    val one = as.foldl([], (l, x) => as.foldl(l, (l1, y) => l1.append([{ o: x, a: y }])))
    val two = if (n < 2) [] else one.foldl([], (l, x) => one.foldl(l, (l1, y) => l1.append(x.concat(y))))
    val three = if (n < 3) [] else two.foldl([], (l, x) => one.foldl(l, (l1, y) => l1.append(x.concat(y))))
    one.concat(two).concat(three)
  }
  pure def joined(st: State, ops: List[Op]): bool =
    ops.indices().forall(i => not(isNative(ops[i].o)) and lookup(st, ops[i].o, ops[i].a) != NONE and (i == 0 or ops[i].o == ops[i - 1].a))

  // routes that exist: quoted, then made, with every interesting minimum
  pure def mnRoute(st: State, z: int): List[List[Act]] =
    legs(3).select(l => joined(st, l) and (z == 2 or l.length() < 3 or l[0].o == 102)).foldl([], (l, ops) => (if (z == 1) [3] else [1, 3, 11]).foldl(l, (l1, x) => [NONE, 2, 104].foldl(l1, (l2, w) => {
      val last = ops[ops.length() - 1].a
      val y = tokTransfer(st, ops[0].o, 1, ROUTER, x)
      val dst = if (w == NONE) 1 else w
      val done = route(y.st, 1, ops, NONE, w)
      val got = if (done.ok) bal(done.st, last, dst) - bal(y.st, last, dst) else 0
      [NONE, got, got + 1].select(v => v >= NONE).foldl(l2, (l3, v) =>
        l3.append([QRoute({ ops: ops, amt: x }), Send({ who: 1, tok: ops[0].o, to: ROUTER, amt: x, hook: HRoute({ ops: ops, min: v, to: w }) })]))
    })))

  // every sequence of legs, sensible or not
  pure def mnRouteQ(st: State, z: int): List[List[Act]] =
    legs(if (z == 1) 2 else 3).foldl([], (l, ops) => {
      val t = if (isNative(ops[0].o)) 102 else ops[0].o
      val asked = if (z == 2 and ops.length() == 3) [[QRoute({ ops: ops, amt: 5 })]]
        else [[QRoute({ ops: ops, amt: 5 })], [QRouteRev({ ops: ops, amt: 4 })], [RouterExec({ who: 1, ops: ops, min: NONE, to: NONE, funds: [] })]]
      l.concat(asked).append([Send({ who: 1, tok: t, to: ROUTER, amt: 5, hook: HRoute({ ops: ops, min: NONE, to: NONE }) })])
    }).concat([102, 104, 1000].foldl([], (l, o) => [102, 103, 104, 1000].foldl(l, (l1, a) => [NONE, 1].foldl(l1, (l2, w) => l2.append([RouterOp({ who: 1, o: o, a: a, to: w })])))))
     .concat([102, 104, 1000].foldl([], (l, a) => [0, 1, ROUTER, 109].foldl(l, (l1, w) => [0, 1].foldl(l1, (l2, k) => [-1, 0, 1].foldl(l2, (l3, j) => {
        val b = bal(st, a, w)
        l3.append([RouterAssert({ who: 1, asset: a, prev: maxI(0, b - k), min: maxI(0, k + j), recv: w })])
      })))))
     .concat([[RouterExec({ who: 1, ops: [], min: NONE, to: NONE, funds: [] })], [QRoute({ ops: [], amt: 5 })], [QRouteRev({ ops: [], amt: 5 })]])

  // a token with a handful of units
  pure def mnToken(st: State, z: int): List[List[Act]] = {
    val us = [0, 1]
    val xs = if (z == 1) [1, 3] else [1, 2, 3]
    val t = 102
    val moves = us.foldl([], (l, u) => us.append(2).foldl(l, (l1, w) => xs.foldl(l1, (l2, x) => l2.append([Transfer({ who: u, tok: t, to: w, amt: x })]))))
    val grants = us.foldl([], (l, u) => us.foldl(l, (l1, w) => [1, 2].foldl(l1, (l2, x) => [NONE, st.h + 1].foldl(l2, (l3, e) =>
      l3.append([IncAllow({ who: u, tok: t, spender: w, amt: x, exp: e })]).append([DecAllow({ who: u, tok: t, spender: w, amt: x, exp: e })])))))
    val spends = us.foldl([], (l, u) => us.foldl(l, (l1, o) => [1, 2].foldl(l1, (l2, x) =>
      l2.append([TransferFrom({ who: u, tok: t, owner: o, to: 2, amt: x })]).append([BurnFrom({ who: u, tok: t, owner: o, amt: x })]))))
    val supply = us.foldl([], (l, u) => [1, 2].foldl(l, (l1, x) => l1.append([Burn({ who: u, tok: t, amt: x })]).append([Mint({ who: u, tok: t, to: 1, amt: x })])))
    val hands = us.foldl([], (l, u) => [NONE, 0, 1].foldl(l, (l1, w) => l1.append([SetMinter({ who: u, tok: t, to: w })])))
    val seen = us.foldl([], (l, u) => us.foldl(l, (l1, w) => l1.append([QToken({ tok: t, owner: u, spender: w })])))
    moves.concat(grants).concat(spends).concat(supply).concat(hands).concat(seen).append([Advance(1)])
  }

  // names, symbols, decimals, first holders, minter and cap
  pure def mnNewToken(st: State, z: int): List[List[Act]] = {
    val good = [72, 65, 76]
    pure def tokenOf(name: List[int], sym: List[int], dec: int, init: List[Coin], minter: int, cap: int): List[Act] =
      [NewToken({ who: 1, name: name, sym: sym, dec: dec, init: init, minter: minter, cap: cap })]
    val lens = range(1, 15).foldl([], (l, n) => l.append(tokenOf(good, range(0, n).foldl([], (q, i) => q.append(65 + i)), 6, [], NONE, NONE)))
    val names = [0, 1, 2, 3, 4, 49, 50, 51, 52].foldl([], (l, n) => [97, 233, 128640].foldl(l, (l1, c) => l1.append(tokenOf(range(0, n).foldl([], (q, i) => q.append(c)), good, 6, [], NONE, NONE))))
    val chars = range(32, 127).concat([233, 8364, 0, 10]).foldl([], (l, c) => [[c, 65, 66], [65, c, 66], [65, 66, c], [c, c, c], [65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, c]].foldl(l, (l1, s) =>
      l1.append(tokenOf(good, s, 6, [], NONE, NONE))))
    val decs = range(0, 22).concat([100, 255]).foldl([], (l, d) => l.append(tokenOf(good, good, d, [], NONE, NONE)))
    val inits = [[], [{ den: 0, amt: 1 }], [{ den: 0, amt: 0 }], [{ den: 0, amt: 1 }, { den: 1, amt: 2 }], [{ den: 0, amt: 1 }, { den: 0, amt: 2 }], [{ den: 0, amt: 1 }, { den: 1, amt: 2 }, { den: 0, amt: 0 }],
                 [{ den: 1, amt: U128 - 1 }], [{ den: 1, amt: U128 - 1 }, { den: 0, amt: 1 }], [{ den: BAD, amt: 1 }]]
    val caps = inits.foldl([], (l, i) => [NONE, 0, 1, BAD].foldl(l, (l1, m) => [NONE, 0, 1, 2, 3, 4].foldl(l1, (l2, c) => if (m == NONE and c != NONE) l2 else l2.append(tokenOf(good, good, 6, i, m, c)))))
    lens.concat(names).concat(chars).concat(decs).concat(caps)
  }

  // pages of every size, from everywhere
  pure def mnPaging(st: State, z: int): List[List[Act]] = {
    val n = st.fac.reg.keys().size()
    val grow = if (n >= combos.length()) [] else [[mkPair(combos[n].o, combos[n].a, [0], 0, 0)]]
    val lims = if (z == 1) [NONE, 1, 2, 3, 7, 10, 11, 29, 30, 31] else [NONE].concat(range(1, 36))
    val walks = lims.foldl([], (l, k) => l.append([QWalk({ limit: k, flip: false })]).append([QWalk({ limit: k, flip: true })]))
    val as = [102, 1000, 1003, 103]
    val pages = as.foldl([], (l, x) => as.foldl(l, (l1, y) => [NONE, 0, 2].foldl(l1, (l2, k) => l2.append([QPage({ a: x, b: y, limit: k })]))))
    grow.concat(walks).concat(pages)
  }

  pure def menu(m: str, part: int, st: State, z: int): List[List[Act]] =
    if (m == "pool") mnPool(st, z)
    else if (m == "grid") mnGrid(st, part, z)
    else if (m == "fee") mnFee(st, part, z)
    else if (m == "rev") mnRev(st, z)
    else if (m == "limits") mnLimits(st, z)
    else if (m == "slip") mnSlip(st, z)
    else if (m == "first") mnFirst(st, z)
    else if (m == "funds") mnFunds(st, z)
    else if (m == "hooks") mnHooks(st, z)
    else if (m == "registry") mnRegistry(st, z)
    else if (m == "admin") mnAdmin(st, z)
    else if (m == "migrate") mnMigrate(st, z)
    else if (m == "upgrade") mnUpgrade(st, z)
    else if (m == "route") mnRoute(st, z)
    else if (m == "routeq") mnRouteQ(st, z)
    else if (m == "token") mnToken(st, z)
    else if (m == "newtoken") mnNewToken(st, z)
    else mnPaging(st, z)
}
