// Behaviour generator: which action happens next. Pure functions of the state and a seed, so that
// a behaviour is determined by the sequence of seeds drawn by the simulator. Actions come in short
// scripts (an allowance, then the deposit that uses it; a quote, then the swap it quotes), and amounts
// are aimed at the boundaries of the rules: the limits computed from the specification, plus or minus one.
module gen {
  import arith.* from "./arith"
  import amm.* from "./amm"
  import halo.* from "./halo"

  // ---------------------------------------------------------------- random choices
  pure val M192 = 2^192
  pure val M64 = 2^64
  pure def rnd(s: int, i: int, n: int): int = {
    val x = (s * 6364136223846793005 + i * 1442695040888963407 + 3037000493 * (s + i * i + 1)) % M192
    val y = (x * x + x * 2862933555777941757 + i * 7046029254386353131) % M192
    val z = (y * (y / M64) + 11400714819323198485 * y + x) % M192
    (z / M64) % n
  }
  pure def sub(s: int, i: int): int = rnd(s, 7000 + i, 4611686018427387904)
  pure def pick(l: List[int], s: int, i: int): int = l[rnd(s, i, l.length())]
  pure def chance(s: int, i: int, k: int, n: int): bool = rnd(s, i, n) < k
  pure def user(s: int, i: int): int = rnd(s, i, USERS)

  pure def tokens(st: State): List[int] = range(102, st.next).select(a => isTok(st, a))
  pure def pairs(st: State): List[int] = range(102, st.next).select(a => isPair(st, a))
  pure def natives(st: State): List[int] = range(NATIVE, NATIVE + 20).select(d => st.bal.has(d))
  pure def assets(st: State): List[int] = tokens(st).concat(natives(st))
  pure def roomEnd(st: State): int = 100 + accounts(st).size() - USERS - 1
  pure def isLp(st: State, t: int): bool = isTok(st, t) and isPair(st, st.tok.get(t).minter) and
    st.pair.get(st.tok.get(t).minter).info.lp == t
  pure def assetIn(st: State, p: int, i: int): int = if (i == 0) st.pair.get(p).info.a0 else st.pair.get(p).info.a1
  // a user holding some of the asset
  pure def holder(st: State, a: int, s: int, i: int): int = {
    val l = range(0, USERS).select(u => bal(st, a, u) > 0)
    if (l.length() == 0) user(s, i) else pick(l, s, i)
  }

  // (1..9999) * 10^e, down to 1
  pure def sized(s: int, i: int, e: int): int = maxI(1, ((1 + rnd(s, i, 9999)) * 10^e) / 1000)

  // an amount in relation to a reserve
  pure def amount(ref: int, s: int, i: int): int = {
    val k = rnd(s, i, 16)
    if (ref < 30000 and chance(s, i + 500, 4, 5)) 1 + rnd(s, i + 1, pick([5, ref + 2, 3 * ref + 3], s, i + 2))
    else if (k < 5) (ref * (1 + rnd(s, i + 1, 3000))) / 1000
    else if (k < 7) (ref * (1 + rnd(s, i + 1, 1000))) / 1000000
    else if (k < 9) 1 + rnd(s, i + 1, 1500)
    else if (k == 9) maxI(0, ref + rnd(s, i + 1, 3) - 1)
    else if (k == 10) 1
    else if (k < 13) sized(s, i + 1, rnd(s, i + 2, 24))
    else if (k == 13) ref * (1 + rnd(s, i + 1, 1000))
    else rnd(s, i + 1, ref + 2)
  }
  pure def capped(v: int, b: int, s: int, i: int): int =
    maxI(0, if (chance(s, i, 1, 20)) minI(v, U128 - 1) else minI(v, b))

  // ---------------------------------------------------------------- swaps
  pure val BIGDEC = 10^37
  pure def decOk(x: int): int = maxI(0, minI(x, BIGDEC))
  pure def jitter(s: int, i: int, b: int): int = {
    val k = rnd(s, i, 10)
    if (k < 2) b - 1 else if (k < 4) b else if (k < 6) b + 1
    else if (k == 6) b + b / 10 else if (k == 7) b - b / 10
    else if (k == 8) rnd(s, i + 1, ONE + 2) else 0
  }
  pure def limits(q: Quote, d: int, od: int, ad: int, s: int): { belief: int, maxs: int } = {
    val f = 10^minI(19, absI(od - ad))
    val d2 = if (od < ad) d * f else d
    val r2 = if (od > ad) q.ret * f else q.ret
    val s2 = if (od > ad) q.spread * f else q.spread
    val k = rnd(s, 1, 12)
    if (not(q.ok) or k < 3) { belief: NONE, maxs: NONE }
    else if (k < 7) { belief: NONE, maxs: decOk(jitter(s, 2, if (r2 + s2 == 0) 0 else ratio(s2, r2 + s2))) }
    else if (k < 11) {
      val short = rnd(s, 3, 400) - 100                       // expected exceeds the return by this many permille
      val e = maxI(1, (r2 * (1000 + short)) / 1000)
      val b = decOk(if (chance(s, 4, 1, 8)) rnd(s, 5, 4 * ONE) else (d2 * ONE) / e)
      val ex = if (b == 0) 0 else (d2 * ONE) / b
      { belief: b, maxs: decOk(jitter(s, 6, if (ex <= r2 or ex == 0) 0 else ratio(ex - r2, ex))) }
    }
    else { belief: decOk(maxI(1, rnd(s, 7, 3 * ONE))), maxs: NONE }
  }

  pure def target(st: State, s: int, i: int): int = {
    val k = rnd(s, i, 12)
    if (chance(s, i + 2, 1, 25)) BAD
    else if (k < 6) NONE else if (k < 10) user(s, i + 1)
    else if (k == 10 and pairs(st).length() > 0) pick(pairs(st), s, i + 1)
    else if (chance(s, i + 3, 1, 2)) ROUTER else pick([ROUTER, FACTORY].concat(tokens(st)), s, i + 1)
  }

  // the same by a contract, which was given the asset before (a wallet, a vault)
  pure def wallet(st: State, u: int, s: int): int =
    if (chance(s, 911, 1, 14) and tokens(st).length() > 0) pick(tokens(st), s, 912) else u
  pure def given(t: int, u: int, w: int, amt: int): List[Act] =
    if (u == w) [] else if (isNative(t)) [BankSend({ who: u, to: w, den: t, amt: amt })] else [Transfer({ who: u, tok: t, to: w, amt: amt })]

  // a send of an asset with a message, by its owner or by a spender
  pure def sendBy(st: State, t: int, u: int, dst: int, amt: int, hook: Hook, s: int): List[Act] =
    if (chance(s, 901, 1, 4)) {
      val w = user(s, 902)
      val given = if (chance(s, 903, 1, 8)) maxI(0, amt - 1) else amt
      if (w == u) [Send({ who: u, tok: t, to: dst, amt: amt, hook: hook })]
      else [IncAllow({ who: u, tok: t, spender: w, amt: given, exp: NONE }),
            SendFrom({ who: w, tok: t, owner: u, to: dst, amt: amt, hook: hook })]
    }
    else [Send({ who: u, tok: t, to: dst, amt: amt, hook: hook })]

  // swaps that hit the rounding edge: return as close below an integer as possible
  pure def edgeOffer(o: int, a: int, s: int): int = {
    val cands = range(0, 12).foldl([], (l, i) => l.append(1 + rnd(s, 40 + i, if (chance(s, 70 + i, 1, 2)) 400 else 100000)))
    cands.foldl(cands[0], (b, d) =>
      if ((o + d) - (d * a) % (o + d) < (o + b) - (b * a) % (o + b)) d else b)
  }

  pure def mSwap(st: State, s: int): List[Act] = {
    val ps = pairs(st).select(p => not(isNative(assetIn(st, p, 0))) or not(isNative(assetIn(st, p, 1))))
    if (ps.length() == 0) [Nop] else {
      val p = pick(ps, s, 1)
      val side = if (isNative(assetIn(st, p, 0))) 1 else if (isNative(assetIn(st, p, 1))) 0 else rnd(s, 2, 2)
      val t = assetIn(st, p, side)
      val x = st.pair.get(p).info
      val o = reserve(st, p, side)
      val a = reserve(st, p, 1 - side)
      val u = holder(st, t, s, 3)
      val near = maxI(1, isqrt((rnd(s, 15, 6) * o * o) / maxI(1, a)) + rnd(s, 16, 3) - 1)      // a spread of a few units
      val raw = if (chance(s, 4, 1, 5) and o > 0) edgeOffer(o, a, s) else if (chance(s, 17, 1, 6)) near else amount(o, s, 5)
      val amt = capped(raw, bal(st, t, u), s, 9)
      val q = quote(o, a, amt)
      val lim = limits(q, amt, if (side == 0) x.d0 else x.d1, if (side == 0) x.d1 else x.d0, sub(s, 10))
      val who = wallet(st, u, sub(s, 18))
      val hook = HSwap({ belief: lim.belief, maxs: lim.maxs, to: target(st, s, 11) })
      val sw = if (who != u) given(t, u, who, amt).append(Send({ who: who, tok: t, to: p, amt: amt, hook: hook })) else sendBy(st, t, u, p, amt, hook, sub(s, 13))
      if (sw.length() == 1 and chance(s, 14, 3, 4)) [QSim({ pair: p, asset: t, amt: amt })].concat(sw)
      else sw
    }
  }

  // quotes in both directions, for any asset
  pure def mQuote(st: State, s: int): List[Act] =
    if (pairs(st).length() == 0) [Nop] else {
      val p = pick(pairs(st), s, 1)
      val side = rnd(s, 2, 2)
      val a = if (chance(s, 3, 1, 8)) (if (st.bal.has(TWIN) and chance(s, 11, 1, 2)) TWIN else pick(assets(st), s, 4)) else assetIn(st, p, side)
      val r = reserve(st, p, side)
      val k = rnd(s, 5, 8)
      val edge = (r * (ONE - FEE)) / ONE
      if (k < 2) [QSim({ pair: p, asset: a, amt: minI(U128 - 1, amount(r, s, 6)) })]
      else if (k < 3) [QPool(p)]
      else if (k < 5) [QRev({ pair: p, asset: a, amt: maxI(0, edge + rnd(s, 7, 5) - 2) })]
      else [QRev({ pair: p, asset: a, amt: minI(U128 - 1, if (chance(s, 8, 3, 4)) (r * rnd(s, 9, 996)) / 1000 else amount(r, s, 10)) })]
    }

  // ---------------------------------------------------------------- liquidity
  // a tolerance around the critical one
  pure def tolerance(d0: int, d1: int, p0: int, p1: int, s: int): int = {
    val k = rnd(s, 1, 12)
    if (k < 4) NONE
    else if (k == 4) ONE + rnd(s, 2, 2)
    else if (k == 5) rnd(s, 2, ONE)
    else if (k == 6) 0
    else if (d0 == 0 or d1 == 0 or p0 == 0 or p1 == 0) rnd(s, 2, ONE)
    else {
      val x = ratio(d0, d1)
      val y = ratio(d1, d0)
      val px = ratio(p0, p1)
      val py = ratio(p1, p0)
      val c = if (x > px and x > 0) ONE - (px * ONE) / x else if (y > py and y > 0) ONE - (py * ONE) / y else 0
      maxI(0, c + rnd(s, 3, 9) - 4)
    }
  }

  pure def approve(st: State, u: int, p: int, a: int, amt: int, s: int): List[Act] =
    if (isNative(a)) []
    else {
      val k = rnd(s, 1, 24)
      if (k == 0) []
      else if (k == 1) [IncAllow({ who: u, tok: a, spender: p, amt: maxI(0, amt - 1), exp: NONE })]
      else if (k == 2) [IncAllow({ who: u, tok: a, spender: p, amt: amt, exp: st.h + 1 }), Advance(1 + rnd(s, 2, 2))]
      else if (k == 3) [IncAllow({ who: u, tok: a, spender: p, amt: amt + rnd(s, 3, 1000), exp: st.h + 1 + rnd(s, 2, 2) })]
      else if (k < 8) [IncAllow({ who: u, tok: a, spender: p, amt: amt + rnd(s, 3, amt + 2), exp: NONE })]
      else [IncAllow({ who: u, tok: a, spender: p, amt: amt, exp: NONE })]
    }

  pure def fundsFor(a: int, amt: int): List[Coin] = if (isNative(a) and amt > 0) [{ den: a, amt: amt }] else []

  // mess with the coins attached
  pure def otherFunds(st: State, fs: List[Coin], s: int): List[Coin] = {
    val k = rnd(s, 1, 8)
    val d = pick(natives(st), s, 2)
    if (fs.length() == 0 or k == 0) (if (fs.indices().exists(i => fs[i].den == d)) fs else fs.append({ den: d, amt: 1 + rnd(s, 3, 1000) }))
    else if (k == 1) fs.slice(1, fs.length())
    else if (k == 2 and chance(s, 6, 1, 2)) [{ den: fs[0].den, amt: minI(U128 - 1, fs[0].amt + pick([2^64, 2^32, 2^96, fs[0].amt, 9 * fs[0].amt, 999 * fs[0].amt], s, 7)) }].concat(fs.slice(1, fs.length()))
    else if (k == 2) [{ den: fs[0].den, amt: fs[0].amt + 1 }].concat(fs.slice(1, fs.length()))
    else if (k == 3) (if (fs[0].amt > 1) [{ den: fs[0].den, amt: fs[0].amt - 1 }].concat(fs.slice(1, fs.length())) else [])
    else if (k == 4 and fs.indices().forall(i => fs[i].den != d)) [{ den: d, amt: fs[0].amt }].concat(fs.slice(1, fs.length()))
    else if (k == 7 and fs.length() > 1) (if (chance(s, 4, 1, 2)) fs.slice(0, 1) else [fs[0], { den: fs[1].den, amt: fs[1].amt + (if (chance(s, 5, 1, 2) or fs[1].amt < 2) 1 else -1) }])
    else if (k == 5) (if (fs[0].amt > 1) [{ den: fs[0].den, amt: maxI(1, fs[0].amt / (2 + rnd(s, 3, 1000))) }].concat(fs.slice(1, fs.length())) else [])
    else []
  }

  pure def provideActs(st: State, p: int, u: int, d0: int, d1: int, tol: int, mess: int, s: int): List[Act] = {
    val x = st.pair.get(p).info
    val base = [{ den: x.a0, amt: d0 }, { den: x.a1, amt: d1 }]
    val k = rnd(s, 1, 40)
    val xs0 =
      if (k == 0) [base[0], base[0]]
      else if (k == 1) [base[0], { den: pick(assets(st), s, 2), amt: d1 }]
      else if (k == 2) [base[1], base[1]]
      else if (st.bal.has(TWIN) and k < 12 and (x.a0 == 102 or x.a1 == 102))                  // the coin called like the token
        [{ den: if (x.a0 == 102) TWIN else x.a0, amt: d0 }, { den: if (x.a1 == 102) TWIN else x.a1, amt: d1 }]
      else base
    val xs = if (chance(s, 3, 1, 2)) xs0 else [xs0[1], xs0[0]]
    val fs0 = fundsFor(x.a0, d0).concat(fundsFor(x.a1, d1))
      .concat(xs0.select(c => c.den == TWIN and x.a0 != TWIN and x.a1 != TWIN and c.amt > 0))
    val fs = if (chance(s, 4, 1, mess)) otherFunds(st, fs0, sub(s, 5)) else fs0
    approve(st, u, p, x.a0, d0, sub(s, 6)).concat(approve(st, u, p, x.a1, d1, sub(s, 7)))
      .append(Provide({ who: u, pair: p, xs: xs, tol: tol, recv: target(st, s, 8), funds: fs }))
  }

  pure def around(m: int, s: int, i: int): int = {
    val k = rnd(s, i, 8)
    if (k == 0) maxI(0, m - 1) else if (k < 3) m else if (k == 3) m + 1 else if (k == 4) 0
    else maxI(m, sized(s, i + 1, rnd(s, i + 2, 22)))
  }

  pure def mProvide(st: State, mess: int, s: int): List[Act] =
    if (pairs(st).length() == 0) [Nop] else {
      val p = pick(pairs(st), s, 1)
      val x = st.pair.get(p).info
      val p0 = reserve(st, p, 0)
      val p1 = reserve(st, p, 1)
      val S = supplyOf(st, x.lp)
      val u = if (S == 0 and x.wl.length() > 0 and chance(s, 2, 3, 4)) pick(x.wl, s, 3) else holder(st, x.a0, s, 3)
      val uu = if (u >= USERS) user(s, 4) else u
      if (S == 0 or p0 == 0 or p1 == 0)
        provideActs(st, p, uu, around(x.m0, s, 5), around(x.m1, s, 8), if (chance(s, 11, 7, 8)) NONE else rnd(s, 12, ONE), mess, sub(s, 13))
      else {
        val d0 = capped(amount(p0, s, 5), bal(st, x.a0, uu), s, 9)
        val skew = pick([1000, 1000, 1000, 1001, 999, 1010, 990, 1100, 900, 500, 2000, 1 + rnd(s, 10, 10000)], s, 11)
        val d1 = capped(maxI(0, (((d0 * p1) / p0) * skew) / 1000 + rnd(s, 12, 3) - (if (skew == 1000) 0 else 1)), bal(st, x.a1, uu), s, 14)
        provideActs(st, p, uu, d0, d1, tolerance(d0, d1, p0, p1, sub(s, 15)), mess, sub(s, 16))
      }
    }

  pure def mWithdraw(st: State, s: int): List[Act] =
    if (pairs(st).length() == 0) [Nop] else {
      val live = pairs(st).select(p => supplyOf(st, st.pair.get(p).info.lp) > 0)
      val p = if (live.length() > 0) pick(live, s, 1) else pick(pairs(st), s, 1)
      val lp = st.pair.get(p).info.lp
      val u = holder(st, lp, s, 2)
      val b = bal(st, lp, u)
      val k = rnd(s, 3, 12)
      val amt = if (k == 0) b else if (k == 1) b + 1 else if (k == 2) 1 else if (k < 7) (b * (1 + rnd(s, 4, 999))) / 1000
        else if (k == 7) rnd(s, 4, minI(b, 5000) + 1) else rnd(s, 4, b + 1)
      // before that, some LP tokens may be burnt or given to the pair
      val some = 1 + rnd(s, 6, maxI(1, pick([b / 2, b / 10, 3], s, 7)))
      val w = user(s, 8)
      val k2 = rnd(s, 9, 16)
      val before = if (b < 2 or amt > b - minI(b, some)) []
        else if (k2 < 2) [Burn({ who: u, tok: lp, amt: some })]
        else if (k2 == 2 and w != u) [IncAllow({ who: u, tok: lp, spender: w, amt: some, exp: NONE }), BurnFrom({ who: w, tok: lp, owner: u, amt: some })]
        else if (k2 == 3) [Transfer({ who: u, tok: lp, to: p, amt: some })]
        else []
      val who = wallet(st, u, sub(s, 10))
      before.concat(if (who != u) given(lp, u, who, amt).append(Send({ who: who, tok: lp, to: p, amt: amt, hook: HWithdraw }))
                    else sendBy(st, lp, u, p, amt, HWithdraw, sub(s, 5)))
    }

  // everyone leaves, then somebody tries to be first again
  pure def mDrain(st: State, s: int): List[Act] =
    if (pairs(st).length() == 0) [Nop] else {
      val p = pick(pairs(st), s, 1)
      val x = st.pair.get(p).info
      val us = range(0, USERS).select(u => bal(st, x.lp, u) > 0)
      val out = us.foldl([], (l, u) => l.append(Send({ who: u, tok: x.lp, to: p, amt: bal(st, x.lp, u), hook: HWithdraw })))
      val burnt = if (chance(s, 2, 1, 4)) us.foldl([], (l, u) => l.append(Burn({ who: u, tok: x.lp, amt: bal(st, x.lp, u) }))) else out
      val w = if (x.wl.length() > 0 and chance(s, 3, 1, 2)) minI(5, pick(x.wl, s, 4)) else user(s, 4)
      burnt.concat(provideActs(st, p, w, around(x.m0, s, 5), around(x.m1, s, 8), NONE, 10, sub(s, 11)))
    }

  // gifts to pairs and to the router
  pure def mDonate(st: State, s: int): List[Act] = {
    val a = pick(assets(st), s, 1)
    val u = holder(st, a, s, 2)
    val dst = if (chance(s, 3, 1, 4) or pairs(st).length() == 0) ROUTER else pick(pairs(st), s, 4)
    val amt = maxI(1, capped(sized(s, 5, rnd(s, 6, 18)), bal(st, a, u) / 2, s, 7))
    if (isNative(a)) [BankSend({ who: u, to: dst, den: a, amt: amt })]
    else [Transfer({ who: u, tok: a, to: dst, amt: amt })]
  }

  // ---------------------------------------------------------------- unauthorised and malformed notifications
  pure def swapHook(s: int): Hook = HSwap({ belief: NONE, maxs: NONE, to: if (chance(s, 1, 1, 2)) NONE else user(s, 2) })

  pure def mAbuse(st: State, s: int): List[Act] =
    if (pairs(st).length() == 0) [Nop] else {
      val p = pick(pairs(st), s, 1)
      val x = st.pair.get(p).info
      val u = user(s, 2)
      val k = rnd(s, 3, 12)
      val amt = 1 + rnd(s, 4, if (chance(s, 5, 1, 2)) 1000 else maxI(2, reserve(st, p, 0)))
      val ts = tokens(st)
      if (k < 2) [Notify({ who: u, to: p, sender: user(s, 6), amt: amt, hook: if (k == 0) swapHook(sub(s, 7)) else HWithdraw,
                          funds: if (chance(s, 8, 1, 3)) [{ den: pick(natives(st), s, 9), amt: 1 + rnd(s, 10, 1000) }] else [] })]
      else if (k == 2) [NativeSwap({ who: u, pair: p, den: pick(natives(st), s, 6), amt: amt, paid: if (chance(s, 7, 1, 3)) 0 else amt, to: NONE })]
      else if (ts.length() == 0) [Nop]
      else if (k < 5) {                                        // a token sent with a swap request to some pair
        val t = pick(ts, s, 6)
        val h = holder(st, t, s, 7)
        [Send({ who: h, tok: t, to: p, amt: maxI(1, minI(amt, bal(st, t, h))), hook: swapHook(sub(s, 8)) })]
      }
      else if (k < 7) {                                        // a token sent with a withdrawal request, LP tokens lying in the pair
        val t = if (chance(s, 6, 1, 3) and not(isNative(x.a0))) x.a0 else pick(ts, s, 6)
        val h = holder(st, t, s, 7)
        val lh = holder(st, x.lp, s, 8)
        val gift = minI(bal(st, x.lp, lh) / 2, amt)
        val hit = Send({ who: h, tok: t, to: p, amt: maxI(1, minI(amt, minI(bal(st, t, h), maxI(1, gift)))), hook: HWithdraw })
        if (gift > 0 and chance(s, 9, 2, 3)) [Transfer({ who: lh, tok: x.lp, to: p, amt: gift }), hit] else [hit]
      }
      else if (k == 7) {                                       // LP tokens sent with a swap request
        val h = holder(st, x.lp, s, 7)
        [Send({ who: h, tok: x.lp, to: p, amt: maxI(1, minI(amt, bal(st, x.lp, h))), hook: swapHook(sub(s, 8)) })]
      }
      else if (k == 8) {                                       // LP tokens of another pair
        val q = pick(pairs(st), s, 6)
        val l2 = st.pair.get(q).info.lp
        val h = holder(st, l2, s, 7)
        val lh = holder(st, x.lp, s, 8)
        val gift = minI(bal(st, x.lp, lh) / 2, amt)
        val hit = Send({ who: h, tok: l2, to: p, amt: maxI(1, minI(amt, bal(st, l2, h))), hook: HWithdraw })
        if (gift > 0) [Transfer({ who: lh, tok: x.lp, to: p, amt: gift }), hit] else [hit]
      }
      else if (k == 9) {                                       // requests sent to the wrong contract
        val t = pick(ts, s, 6)
        val h = holder(st, t, s, 7)
        val hk = if (chance(s, 8, 1, 3)) HBad else if (chance(s, 9, 1, 2)) swapHook(sub(s, 10)) else HRoute({ ops: [{ o: x.a0, a: x.a1 }], min: NONE, to: NONE })
        [Send({ who: h, tok: t, to: pick([p, ROUTER, FACTORY, x.lp, user(s, 11)], s, 12), amt: maxI(1, minI(amt, bal(st, t, h))), hook: hk })]
      }
      else if (k == 10) {                                      // more than was sent
        val t = if (isNative(x.a0)) x.a1 else x.a0
        [Notify({ who: u, to: p, sender: u, amt: amt, hook: HSwap({ belief: NONE, maxs: NONE, to: u }), funds: [] }),
         Notify({ who: u, to: p, sender: u, amt: minI(amt, bal(st, t, p)), hook: HBad, funds: [] })]
      }
      else [Notify({ who: u, to: ROUTER, sender: user(s, 6), amt: amt, hook: HRoute({ ops: [{ o: x.a0, a: x.a1 }], min: NONE, to: u }), funds: [] })]
    }

  // ---------------------------------------------------------------- router
  pure def nexts(st: State, a: int): List[int] = assets(st).select(b => lookup(st, a, b) != NONE)

  pure def path(st: State, a: int, n: int, s: int): List[Op] =
    range(0, n).foldl({ at: a, ops: [], live: true }, (r, i) =>
      val c = nexts(st, r.at)
      if (not(r.live) or isNative(r.at) or c.length() == 0) { ...r, live: false }
      else {
        val b = pick(c, s, i)
        { at: b, ops: r.ops.append({ o: r.at, a: b }), live: true }
      }).ops

  pure def spoil(st: State, ops: List[Op], s: int): List[Op] = {
    val k = rnd(s, 1, 6)
    val b = pick(assets(st), s, 2)
    if (k == 0) []
    else if (k == 1) ops.append({ o: b, a: pick(assets(st), s, 3) })
    else if (ops.length() == 0) [{ o: b, a: pick(assets(st), s, 3) }]
    else if (k == 2) [{ o: b, a: ops[0].a }].concat(ops.slice(1, ops.length()))
    else if (k == 3) ops.slice(0, ops.length() - 1).append({ o: ops[ops.length() - 1].o, a: b })
    else if (k == 4) ops.slice(1, ops.length()).append(ops[0])
    else ops.concat(ops)
  }

  pure def minOfRoute(st: State, t: int, u: int, amt: int, ops: List[Op], dst: int, s: int): int = {
    val k = rnd(s, 1, 8)
    if (k == 0 or ops.length() == 0) NONE
    else {
      val x = tokTransfer(st, t, u, ROUTER, amt)
      val last = ops[ops.length() - 1].a
      val w = if (dst == NONE) u else dst
      val y = if (x.ok) route(x.st, u, ops, NONE, dst) else x
      val got = if (y.ok) bal(y.st, last, w) - bal(x.st, last, w) else 0
      if (k == 1) 0
      else if (k == 2) maxI(0, got) + bal(st, last, w)
      else maxI(0, got + pick([-1, 0, 1, 0, 1], s, 2))
    }
  }

  pure def mRoute(st: State, s: int): List[Act] = {
    val ts = tokens(st).select(t => nexts(st, t).length() > 0)
    if (ts.length() == 0) [Nop] else {
      val t = pick(ts, s, 1)
      val u = holder(st, t, s, 2)
      val ops0 = path(st, t, 1 + rnd(s, 3, if (chance(s, 20, 1, 8)) 9 else 4), sub(s, 4))
      val ops = if (chance(s, 5, 1, 6)) spoil(st, ops0, sub(s, 6)) else ops0
      val r = if (ops0.length() == 0) 1000 else bal(st, t, lookup(st, ops0[0].o, ops0[0].a))
      val amt = capped(amount(r, s, 7), bal(st, t, u), s, 11)
      val dst = target(st, s, 12)
      val mn = minI(U128 - 1, minOfRoute(st, t, u, amt, ops, dst, sub(s, 14)))
      val hook = HRoute({ ops: ops, min: mn, to: dst })
      val k = rnd(s, 15, 10)
      if (k == 0) [Transfer({ who: u, tok: t, to: ROUTER, amt: amt }), RouterExec({ who: user(s, 16), ops: ops, min: if (chance(s, 17, 1, 2)) NONE else mn, to: dst, funds: [] })]
      else if (k == 1) [Send({ who: u, tok: t, to: ROUTER, amt: amt, hook: hook })]
      else if (k == 2) {
        val who = wallet(st, u, sub(s, 19))
        if (who != u) given(t, u, who, amt).append(Send({ who: who, tok: t, to: ROUTER, amt: amt, hook: hook })) else sendBy(st, t, u, ROUTER, amt, hook, sub(s, 18))
      }
      else [QRoute({ ops: ops, amt: amt }), Send({ who: u, tok: t, to: ROUTER, amt: amt, hook: hook })]
    }
  }

  pure def mRouteQ(st: State, s: int): List[Act] = {
    val ts = tokens(st).select(t => nexts(st, t).length() > 0)
    if (ts.length() == 0) [Nop] else {
      val t = pick(ts, s, 1)
      val ops0 = path(st, t, 1 + rnd(s, 3, 4), sub(s, 4))
      val ops = if (chance(s, 5, 1, 4)) spoil(st, ops0, sub(s, 6)) else ops0
      val last = if (ops.length() == 0) t else ops[ops.length() - 1].a
      val lp = if (ops.length() == 0) NONE else lookup(st, ops[ops.length() - 1].o, last)
      val r = if (lp == NONE) 1000 else bal(st, last, lp)
      if (chance(s, 7, 1, 3)) [QRoute({ ops: ops, amt: minI(U128 - 1, amount(maxI(1, r), s, 8)) })]
      else [QRouteRev({ ops: ops, amt: (r * rnd(s, 9, 700)) / 1000 })]
    }
  }

  pure def mRouterMisc(st: State, s: int): List[Act] = {
    val k = rnd(s, 1, 8)
    val u = user(s, 2)
    val ts = tokens(st).select(t => nexts(st, t).length() > 0)
    if (k < 2) {
      val a = pick(assets(st), s, 3)
      val w = if (chance(s, 8, 1, 12)) BAD else user(s, 4)
      val b = bal(st, a, w)
      val prev = maxI(0, b - rnd(s, 5, 1000) + (if (chance(s, 6, 1, 6)) 1000 else 0))
      [RouterAssert({ who: u, asset: a, prev: prev, min: maxI(0, b - prev + rnd(s, 7, 3) - 1), recv: w })]
    }
    else if (ts.length() == 0) [Nop]
    else if (k < 5) {                                          // the router holds something; an outsider asks it to swap
      val t = pick(ts, s, 3)
      val h = holder(st, t, s, 4)
      val amt = maxI(1, minI(bal(st, t, h) / 2, sized(s, 5, rnd(s, 6, 15))))
      val op = RouterOp({ who: u, o: t, a: pick(nexts(st, t), s, 7), to: pick([NONE, u, ROUTER, user(s, 10), if (pairs(st).length() > 0) pick(pairs(st), s, 11) else u], s, 8) })
      if (chance(s, 9, 1, 2)) [Transfer({ who: h, tok: t, to: ROUTER, amt: amt }), op] else [op]
    }
    else if (k < 7) {                                          // legs that do not join up, each of them feasible by itself
      val t = pick(ts, s, 3)
      val t2 = pick(ts, s, 4)
      val h = holder(st, t, s, 5)
      val h2 = holder(st, t2, s, 6)
      val amt = maxI(1, minI(bal(st, t, h) / 2, sized(s, 7, rnd(s, 8, 15))))
      val amt2 = maxI(1, minI(bal(st, t2, h2) / 2, sized(s, 9, rnd(s, 10, 15))))
      val legs = path(st, t, 1 + rnd(s, 11, 2), sub(s, 12)).concat(path(st, t2, 1 + rnd(s, 13, 2), sub(s, 14)))
      val go = if (chance(s, 15, 3, 4)) Send({ who: h, tok: t, to: ROUTER, amt: amt, hook: HRoute({ ops: legs, min: if (chance(s, 16, 1, 2)) NONE else 0, to: NONE }) })
               else RouterExec({ who: h, ops: legs, min: NONE, to: NONE, funds: [] })
      [Transfer({ who: h2, tok: t2, to: ROUTER, amt: amt2 }), go]
    }
    else {
      val d = pick(natives(st), s, 3)
      val ops = if (nexts(st, d).length() > 0) [{ o: d, a: pick(nexts(st, d), s, 4) }] else [{ o: d, a: pick(ts, s, 4) }]
      [RouterExec({ who: u, ops: ops, min: NONE, to: NONE, funds: [{ den: d, amt: 1 + rnd(s, 5, 100000) }] })]
    }
  }

  // ---------------------------------------------------------------- factory
  pure def someWl(s: int): List[int] = range(0, if (chance(s, 20, 1, 8)) pick([5, 7, 13], s, 21) else rnd(s, 1, 4)).foldl([], (l, i) => l.append(if (chance(s, 30 + i, 1, 25)) pick([ROUTER, FACTORY], s, 40 + i) else user(s, 2 + i)))
  pure def someMin(s: int, i: int): int = pick([0, 1, 1000, 5000, 1000000, 10^18], s, i)

  // coins that nobody asked for, sometimes
  pure def tip(st: State, den: int, s: int): List[Coin] =
    if (chance(s, 1, 1, 7)) [{ den: if (chance(s, 2, 2, 3)) den else pick(natives(st), s, 3), amt: 1 + rnd(s, 4, 5000) }] else []

  pure def mCreate(st: State, s: int): List[Act] = {
    val l = assets(st)
    val old = pairs(st)
    val again = chance(s, 1, 1, 3) and old.length() > 0
    val p = if (again) pick(old, s, 2) else NONE
    val flip = chance(s, 3, 1, 2)
    val x = if (again) assetIn(st, p, if (flip) 1 else 0) else pick(l, s, 4)
    val y = if (again) assetIn(st, p, if (flip) 0 else 1) else if (chance(s, 5, 1, 16)) x
      else if (chance(s, 6, 1, 20)) pick([FACTORY, ROUTER, 3], s, 7) else pick(l, s, 8)
    val c = CreatePair({ who: user(s, 9), a0: x, a1: y, wl: someWl(sub(s, 10)), m0: someMin(s, 11), m1: someMin(s, 12), funds: tip(st, pick(natives(st), s, 15), sub(s, 16)) })
    if (st.next + 3 >= roomEnd(st)) [Nop]
    else if (y >= 0 and chance(s, 13, 1, 2)) [c, QLookup([x, y, pick(l, s, 14)])] else [c]
  }

  pure def mRogue(st: State, s: int): List[Act] =
    if (st.next + 3 >= roomEnd(st)) [Nop]
    else [NewPair({ who: user(s, 1), a0: pick(assets(st), s, 2), a1: pick(assets(st), s, 3), d0: rnd(s, 4, 19), d1: rnd(s, 5, 19),
                    wl: someWl(sub(s, 6)), m0: someMin(s, 7), m1: someMin(s, 8) })]

  pure def mConfig(st: State, s: int): List[Act] = {
    val k = rnd(s, 1, 10)
    val w = if (chance(s, 2, 1, 2)) st.fac.owner else user(s, 3)
    val d = pick(natives(st), s, 4)
    val ps = pairs(st)
    if (k < 3) [UpdateConfig({ who: w, owner: if (chance(s, 5, 1, 2)) NONE else if (chance(s, 20, 1, 6)) BAD
                                                else if (chance(s, 21, 1, 40)) pick([FACTORY, ROUTER].concat(ps), s, 22) else user(s, 6),
                               tokenCode: if (chance(s, 7, 1, 2)) NONE else pick([1, 5, 1, 5, 1, 5, 9, 2], s, 8),
                               pairCode: if (chance(s, 9, 1, 2)) NONE else pick([2, 6, 2, 6, 2, 6, 9, 1], s, 10), funds: tip(st, d, sub(s, 23)) })]
    else if (k < 6) {
      val add = AddDecimals({ who: w, den: d, dec: pick([0, 6, 6, 8, 18, 3, 12, if (chance(s, 26, 1, 2)) 6 else 18 + rnd(s, 27, 22), 255], s, 11), funds: tip(st, d, sub(s, 24)) })
      if (chance(s, 12, 1, 3)) [BankSend({ who: user(s, 13), to: FACTORY, den: d, amt: 1 }), add, QDecimals(d)] else [add]
    }
    else if (k < 9 and ps.length() > 0)
      [Migrate({ who: w, pair: if (chance(s, 14, 1, 12)) pick([ROUTER, 102, 3], s, 15) else pick(ps, s, 15), code: pick([NONE, 2, 6, 6, 6, 9], s, 16), funds: tip(st, d, sub(s, 25)) })]
    else [QDecimals(d)]
  }

  pure def mLookup(st: State, s: int): List[Act] =
    [QLookup([pick(assets(st), s, 1), pick(assets(st), s, 2), pick(assets(st), s, 3)])]

  pure def mPage(st: State, s: int): List[Act] = {
    val lim = pick([NONE, 1, 2, 3, 5, 7, 9, 10, 11, 13, 29, 30, 31, 40, 100, 1 + rnd(s, 9, 35)], s, 1)
    if (chance(s, 2, 1, 4)) [QPage({ a: if (chance(s, 3, 1, 3)) NONE else pick(assets(st), s, 4), b: pick(assets(st), s, 5), limit: if (chance(s, 7, 1, 10)) 0 else lim })]
    else [QWalk({ limit: lim, flip: chance(s, 6, 1, 2) })]
  }

  // ---------------------------------------------------------------- tokens
  pure def mToken(st: State, s: int): List[Act] = {
    val ts = tokens(st)
    if (ts.length() == 0) [Nop] else {
      val t = pick(ts, s, 1)
      val x = st.tok.get(t)
      val u = holder(st, t, s, 2)
      val w = user(s, 3)
      val b = bal(st, t, u)
      val k = rnd(s, 4, 16)
      val dst = if (chance(s, 18, 1, 25)) BAD else if (chance(s, 5, 1, 6) and pairs(st).length() > 0) pick(pairs(st).append(t), s, 6) else user(s, 6)
      val amt = minI(U128 - 1, pick([0, 1, b, b + 1, rnd(s, 7, b + 1), rnd(s, 7, b + 1), rnd(s, 8, 1000)], s, 9))
      val ex = pick([NONE, NONE, NONE, 0, st.h, st.h + 1, st.h + 2, maxI(1, st.h - 1), TIME + now(st), TIME + now(st) + 5 * rnd(s, 19, 3), TIME + now(st) + 1 + rnd(s, 19, 12)], s, 10)
      val al = allowKey(u, w)
      val cur = if (x.allow.has(al)) x.allow.get(al).amt else 0
      val spendAmt = minI(U128 - 1, pick([cur, cur + 1, maxI(0, cur - 1), rnd(s, 11, cur + 1), minI(cur, b), minI(cur, b), amt], s, 12))
      if (k < 2) [Transfer({ who: u, tok: t, to: dst, amt: amt })]
      else if (k == 2) [Burn({ who: u, tok: t, amt: if (chance(s, 13, 1, 2)) rnd(s, 7, b / 100 + 1) else amt })]
      else if (k == 3) {
        val m = if (x.minter >= 0 and x.minter < USERS and chance(s, 13, 2, 3)) x.minter else w
        val room = if (x.cap == NONE) U128 - 1 - x.supply else maxI(0, x.cap - x.supply)
        [Mint({ who: m, tok: t, to: dst, amt: minI(U128 - 1, pick([0, 1, room, room + 1, rnd(s, 14, room / 10 + 2), rnd(s, 14, 100000)], s, 15)) })]
      }
      else if (k < 6) [IncAllow({ who: u, tok: t, spender: if (chance(s, 13, 1, 12)) u else if (chance(s, 20, 1, 25)) BAD else w,
                                  amt: if (chance(s, 21, 1, 8)) U128 - 1 - cur else amt, exp: ex })]
      else if (k < 8) [DecAllow({ who: u, tok: t, spender: w, amt: spendAmt, exp: ex })]
      else if (k < 10) [TransferFrom({ who: w, tok: t, owner: u, to: dst, amt: spendAmt })]
      else if (k == 10) [BurnFrom({ who: w, tok: t, owner: u, amt: spendAmt })]
      else if (k == 11) [IncAllow({ who: u, tok: t, spender: w, amt: if (chance(s, 21, 1, 8)) U128 - 1 - cur else amt, exp: ex }), TransferFrom({ who: w, tok: t, owner: u, to: dst, amt: pick([amt, amt + 1, amt / 2], s, 13) })]
      else if (k == 12) [IncAllow({ who: u, tok: t, spender: w, amt: amt, exp: ex }), Advance(rnd(s, 13, 3)), BurnFrom({ who: w, tok: t, owner: u, amt: amt / 3 })]
      else if (k == 13 and x.minter >= 0 and x.minter < USERS and x.cap != NONE and chance(s, 16, 1, 2)) {
        // the supply reaches the cap, the minter hands over, the new one tries
        val room = minI(U128 - 1, maxI(0, x.cap - x.supply))
        [Mint({ who: x.minter, tok: t, to: dst, amt: room }), SetMinter({ who: x.minter, tok: t, to: w }),
         Mint({ who: w, tok: t, to: dst, amt: 1 + rnd(s, 17, 3) })]
      }
      else if (k == 13) [SetMinter({ who: if (x.minter >= 0 and x.minter < USERS and chance(s, 13, 2, 3)) x.minter else w, tok: t, to: if (chance(s, 14, 1, 8)) NONE else if (chance(s, 16, 1, 12)) BAD else user(s, 15) })]
      else if (k == 14) [IncAllow({ who: u, tok: t, spender: w, amt: amt, exp: ex }), DecAllow({ who: u, tok: t, spender: w, amt: minI(U128 - 1, pick([amt, amt / 2, 1, amt + cur], s, 13)), exp: pick([NONE, st.h, st.h + 2], s, 14) })]
      else [Advance(1 + rnd(s, 13, 3))]
    }
  }

  pure def word(n: int, alphabet: List[int], s: int): List[int] = range(0, n).foldl([], (l, i) => l.append(pick(alphabet, s, i)))
  pure val NAMECHARS = [65, 90, 97, 122, 48, 57, 32, 45, 46, 233, 8364, 128640]
  pure val SYMCHARS = [65, 90, 97, 122, 45, 77, 109]
  pure val ODDCHARS = [64, 91, 96, 123, 48, 57, 32, 46, 44, 95, 233]

  pure def mNewToken(st: State, s: int): List[Act] =
    if (st.next + 2 >= roomEnd(st)) [Nop] else {
      val nl = pick([2, 3, 50, 51, 4, 10, 20, 1, 17, 25, 12, 13], s, 1)
      val name = if (chance(s, 2, 3, 4)) word(nl, [72, 97, 108, 111, 32], sub(s, 3)) else word(nl, NAMECHARS, sub(s, 3))
      val sl = pick([3, 12, 4, 6, 3, 12, 2, 13, 5, 1], s, 4)
      val sym0 = word(sl, SYMCHARS, sub(s, 5))
      val bad = rnd(s, 6, sl)
      val sym = if (chance(s, 7, 1, 4)) sym0.replaceAt(bad, pick(ODDCHARS, s, 8)) else sym0
      val n = rnd(s, 9, 5)
      val first = user(s, 10)
      val init = range(0, n).foldl([], (l, i) =>
        l.append({ den: if (chance(s, 20 + i, 1, 12)) first else if (chance(s, 50 + i, 1, 40)) BAD else (first + i) % USERS, amt: pick([0, 1, 1000, rnd(s, 30 + i, 10^20), 10^30], s, 40 + i) }))
      val total = init.foldl(0, (a, c) => a + c.amt)
      val minter = if (chance(s, 11, 1, 3)) NONE else if (chance(s, 18, 1, 15)) BAD else user(s, 12)
      val cap = if (minter == NONE or chance(s, 13, 1, 2)) NONE else maxI(0, pick([total, total - 1, total + 1, 10^31], s, 14))
      [NewToken({ who: user(s, 15), name: name, sym: sym, dec: pick([0, 6, 18, 19, 17, 8, 20, 255], s, 16), init: init, minter: minter, cap: cap })]
    }

  // ---------------------------------------------------------------- information, upgrades
  pure def mInfo(st: State, s: int): List[Act] = {
    val ts = tokens(st)
    if (ts.length() == 0 or chance(s, 1, 1, 5)) [QCore]
    else if (pairs(st).length() > 0 and chance(s, 7, 1, 4)) {
      val p = pick(pairs(st), s, 8)
      [QLookup([assetIn(st, p, 0), assetIn(st, p, 1)])]
    }
    else {
      val t = pick(ts, s, 2)
      val ks = st.tok.get(t).allow.keys().fold([], (l, k) => l.append(k))
      val k = if (ks.length() > 0 and chance(s, 3, 2, 3)) minOf(st.tok.get(t).allow.keys().filter(x => x >= pick(ks, s, 4))) else allowKey(user(s, 5), user(s, 6))
      [QToken({ tok: t, owner: k / 1000, spender: k % 1000 })]
    }
  }
  // the factory or the router gets new code; then it is used
  pure def mUpgrade(st: State, s: int): List[Act] = {
    val c = if (chance(s, 1, 1, 2)) FACTORY else ROUTER
    val upgrade = [MigrateCore({ who: if (chance(s, 2, 1, 10)) user(s, 3) else 0, c: c })]
    val later =
      if (chance(s, 5, 1, 4)) [QCore]
      else if (c == ROUTER) (if (chance(s, 6, 2, 3)) mRoute(st, sub(s, 4)) else mRouteQ(st, sub(s, 4)))
      else if (chance(s, 6, 1, 3)) mCreate(st, sub(s, 4))
      else if (chance(s, 7, 1, 2)) mConfig(st, sub(s, 4)) else mLookup(st, sub(s, 4))
    upgrade.concat(later)
  }

  // ---------------------------------------------------------------- profiles
  // macro numbers by weight
  pure def weights(prof: str): List[int] =
    if (prof == "swap") [0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 9, 12, 4, 10]
    else if (prof == "edge") [0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 12]
    else if (prof == "liquidity") [1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 0, 0, 15, 9, 6]
    else if (prof == "first") [15, 15, 15, 1, 1, 1, 5, 5, 2, 9]
    else if (prof == "quote") [12, 12, 12, 12, 0, 0, 9, 1]
    else if (prof == "hooks") [3, 3, 3, 3, 3, 3, 0, 1, 2, 9, 14]
    else if (prof == "route") [4, 4, 4, 4, 4, 4, 13, 0, 9, 18, 5, 1, 2]
    else if (prof == "routeq") [18, 18, 18, 4, 4, 0, 9, 1, 5]
    else if (prof == "routermisc") [13, 13, 13, 4, 4, 18, 9]
    else if (prof == "factory") [5, 5, 5, 5, 6, 6, 6, 17, 7, 8, 14, 1, 9]
    else if (prof == "admin") [6, 6, 6, 6, 6, 6, 5, 5, 1, 0, 2, 17]
    else if (prof == "migrate") [6, 6, 6, 0, 0, 1, 1, 2, 2, 5, 4]
    else if (prof == "paging") [9, 11, 11, 11, 11, 11, 5]
    else if (prof == "token") [7, 7, 7, 7, 7, 7, 7, 7, 7, 1, 2, 0]
    else if (prof == "funds") [19, 19, 19, 19, 19, 1, 2, 9, 15]
    else if (prof == "tiny") [0, 0, 0, 0, 1, 1, 2, 2, 12, 12, 4, 18, 9, 15]
    else if (prof == "info") [10, 10, 20, 20, 20, 0, 1, 2, 7, 9, 6, 5, 21]
    else if (prof == "upgrade") [21, 21, 21, 5, 6, 4, 0, 1]
    else if (prof == "mint") [8, 8, 8, 8, 8, 7]
    else [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 17, 18, 0, 1, 2, 4, 0, 1]

  pure def runMacro(m: int, st: State, s: int): List[Act] =
    if (m == 0) mSwap(st, s)
    else if (m == 1) mProvide(st, 10, s)
    else if (m == 19) mProvide(st, 2, s)
    else if (m == 2) mWithdraw(st, s)
    else if (m == 3) mAbuse(st, s)
    else if (m == 4) mRoute(st, s)
    else if (m == 5) mCreate(st, s)
    else if (m == 6) mConfig(st, s)
    else if (m == 7) mToken(st, s)
    else if (m == 8) mNewToken(st, s)
    else if (m == 9) mDonate(st, s)
    else if (m == 10) (if (pairs(st).length() == 0) [Nop] else [QPool(pick(pairs(st), s, 1))])
    else if (m == 11) mPage(st, s)
    else if (m == 12) mQuote(st, s)
    else if (m == 13) mRouterMisc(st, s)
    else if (m == 14) mRogue(st, s)
    else if (m == 15) mDrain(st, s)
    else if (m == 17) mLookup(st, s)
    else if (m == 20) mInfo(st, s)
    else if (m == 21) mUpgrade(st, s)
    else mRouteQ(st, s)

  pure def script(prof: str, st: State, s: int): List[Act] =
    // now and then some time passes first
    (if (chance(s, 2, 1, 22)) [Advance(pick([1, 1, 2, 20, 17280, 600000], s, 3))] else []).concat(runMacro(pick(weights(prof), s, 0), st, sub(s, 1)))

  // ---------------------------------------------------------------- the opening: tokens, decimals, pairs, first deposits
  pure def opening(prof: str, ds: List[int], funds: int, s: int): List[Act] = {
    val paging = prof == "paging"
    val nt = if (paging) 3 else 2 + rnd(s, 1, 3)
    val decs = [6, 6, 8, 18, 0, 18, 10, 3, 12, 6]
    val mk = range(0, nt).foldl([], (l, i) => l.append(NewToken({ who: user(s, 100 + i),
        name: [72, 97, 108, 111, 32, 65 + i], sym: [72, 65, 76, 65 + i], dec: pick(decs, s, 110 + i),
        init: range(0, USERS).foldl([], (q, u) => q.append({ den: u, amt: funds })),
        minter: if (chance(s, 120 + i, 1, 4)) NONE else user(s, 130 + i),
        cap: if (chance(s, 140 + i, 1, 3)) minI(U128 - 1, funds * (USERS + rnd(s, 145 + i, 2))) else NONE })))
    val reg = ds.foldl([], (l, d) =>
      if (not(paging) and chance(s, 150 + d - NATIVE, 1, 8)) l
      else l.append(BankSend({ who: 0, to: FACTORY, den: d, amt: 1 + rnd(s, 160 + d - NATIVE, 5) }))
            .append(AddDecimals({ who: 0, den: d, dec: pick(decs, s, 170 + d - NATIVE), funds: [] })))
    pure def known(a: int): bool = not(isNative(a)) or paging or not(chance(s, 150 + a - NATIVE, 1, 8))
    val as = range(102, 102 + nt).concat(ds)
    val n = as.length()
    // all combinations with at least one token, in a random rotation
    val combos = range(0, n).foldl([], (l, i) => range(i + 1, n).foldl(l, (l2, j) =>
      if (isNative(as[i]) and not(paging) and not(chance(s, 200 + i, 1, if (prof == "funds") 1 else 6))) l2
      else if (not(known(as[i])) or not(known(as[j]))) l2
      else l2.append({ o: as[i], a: as[j] })))
    val stride = pick([1, 3, 5, 7], s, 2)
    val rot = rnd(s, 3, combos.length())
    val np = minI(combos.length(), if (paging) 12 + rnd(s, 4, 34) else 2 + rnd(s, 4, 3))
    val sel = range(0, np).foldl([], (l, i) =>
      val c = combos[(rot + i * stride) % combos.length()]
      if (l.indices().exists(j => l[j] == c)) l else l.append(c))
    val deposits = not(paging)
    val ps = range(0, sel.length()).foldl([], (l, i) => {
      val p = 102 + nt + 2 * i
      val flip = chance(s, 300 + i, 1, 2)
      val x = if (flip) sel[i].a else sel[i].o
      val y = if (flip) sel[i].o else sel[i].a
      val w = user(s, 310 + i)
      val e = 6 + rnd(s, 320 + i, if (funds > 10^33 and chance(s, 321 + i, 1, 2)) 31 else 22)
      val edge = prof == "edge" or (prof != "tiny" and chance(s, 325 + i, 1, 8))
      val small = prof == "tiny" or chance(s, 326 + i, 1, 4)
      val d0 = if (edge) sized(s, 330 + i, 19 + rnd(s, 340 + i, 6)) else sized(s, 330 + i, if (small) rnd(s, 350 + i, if (prof == "tiny") 3 else 6) else e)
      // edge: choose the other reserve so that some tiny offer d pays within d/(reserve) below an integer
      val g = 1 + rnd(s, 360 + i, 333)
      val d = 1 + rnd(s, 370 + i, 30)
      val d1 = if (edge) maxI(1, (g * (d0 + d)) / d)
               else if (prof == "tiny") sized(s, 390 + i, rnd(s, 400 + i, 4))
               else if (chance(s, 380 + i, 1, 3)) sized(s, 390 + i, rnd(s, 400 + i, 27)) else maxI(1, (d0 * sized(s, 390 + i, 6)) / 10^6)
      val b0 = minI(d0, funds / 4)
      val b1 = minI(d1, funds / 4)
      val m0 = if (chance(s, 410 + i, 1, 2)) 0 else minI(b0, someMin(s, 420 + i))
      val m1 = if (chance(s, 430 + i, 1, 2)) 0 else minI(b1, someMin(s, 440 + i))
      val wl = [w].concat(someWl(sub(s, 450 + i)))
      val allow = (if (isNative(x)) [] else [IncAllow({ who: w, tok: x, spender: p, amt: b0, exp: NONE })])
        .concat(if (isNative(y)) [] else [IncAllow({ who: w, tok: y, spender: p, amt: b1, exp: NONE })])
      val dep = Provide({ who: w, pair: p, xs: [{ den: x, amt: b0 }, { den: y, amt: b1 }], tol: NONE, recv: NONE,
                          funds: fundsFor(x, b0).concat(fundsFor(y, b1)) })
      val c = CreatePair({ who: user(s, 460 + i), a0: x, a1: y, wl: wl, m0: m0, m1: m1, funds: [] })
      val tiny = if (edge and chance(s, 470 + i, 3, 4) and not(isNative(x)))
          [QSim({ pair: p, asset: x, amt: d }), Send({ who: w, tok: x, to: p, amt: d, hook: HSwap({ belief: NONE, maxs: NONE, to: NONE }) })] else []
      l.append(c).concat(if (deposits and not(chance(s, 480 + i, 1, 10))) allow.append(dep).concat(tiny) else [])
    })
    mk.concat(reg).concat(ps)
  }
}
