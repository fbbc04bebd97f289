// State and transitions of the exchange: bank, cw20 tokens, pairs, factory, router.
// One pure function per contract entry point; a transaction is atomic.
module halo {
  import arith.* from "./arith"
  import amm.* from "./amm"

  // ---------------------------------------------------------------- addresses
  // users 0..USERS-1, contracts 100+k in order of instantiation, native coins 1000+j.
  // 100 is the factory, 101 the router. 90 is a text that is no valid address.
  pure val FACTORY = 100
  pure val ROUTER = 101
  pure val NATIVE = 1000
  pure val NONE = -1
  pure val BAD = 90
  // code ids: 1, 5 token; 2, 6 pair; 3 factory; 4 router
  pure val TOKEN_CODES = Set(1, 5)
  pure val PAIR_CODES = Set(2, 6)

  pure def isNative(a: int): bool = a >= NATIVE
  // the native coin whose name is the address of the first token: in printed form they look alike
  pure val TWIN = 1019
  pure def printed(a: int): int = if (a == TWIN) 102 else a

  // exp: 0 never, otherwise the height from which it is expired, or TIME + seconds since the beginning
  pure val TIME = 1000000000
  type Allow = { amt: int, exp: int }
  type Tok = { name: List[int], sym: List[int], dec: int, supply: int, minter: int, cap: int,
               code: int, allow: int -> Allow }   // allow keyed by owner*1000+spender
  type Info = { addr: int, a0: int, a1: int, d0: int, d1: int, lp: int, wl: List[int], m0: int, m1: int }
  type Pair = { info: Info, code: int, adm: int }
  type Fac = { owner: int, tokenCode: int, pairCode: int, dec: int -> int, reg: int -> Info }
  type State = { h: int, next: int, bal: int -> int -> int, tok: int -> Tok, pair: int -> Pair, fac: Fac }

  // ---------------------------------------------------------------- inputs
  type Op = { o: int, a: int }
  type Hook =
    | HSwap({ belief: int, maxs: int, to: int })
    | HWithdraw
    | HRoute({ ops: List[Op], min: int, to: int })
    | HBad
  type Coin = { den: int, amt: int }

  type Act =
    | Nop
    | NewToken({ who: int, name: List[int], sym: List[int], dec: int, init: List[Coin], minter: int, cap: int })
    | NewPair({ who: int, a0: int, a1: int, d0: int, d1: int, wl: List[int], m0: int, m1: int })
    | CreatePair({ who: int, a0: int, a1: int, wl: List[int], m0: int, m1: int, funds: List[Coin] })
    | UpdateConfig({ who: int, owner: int, tokenCode: int, pairCode: int, funds: List[Coin] })
    | AddDecimals({ who: int, den: int, dec: int, funds: List[Coin] })
    | Migrate({ who: int, pair: int, code: int, funds: List[Coin] })
    | BankSend({ who: int, to: int, den: int, amt: int })
    | Transfer({ who: int, tok: int, to: int, amt: int })
    | TransferFrom({ who: int, tok: int, owner: int, to: int, amt: int })
    | Burn({ who: int, tok: int, amt: int })
    | BurnFrom({ who: int, tok: int, owner: int, amt: int })
    | Mint({ who: int, tok: int, to: int, amt: int })
    | IncAllow({ who: int, tok: int, spender: int, amt: int, exp: int })   // exp -1: not given
    | DecAllow({ who: int, tok: int, spender: int, amt: int, exp: int })
    | SetMinter({ who: int, tok: int, to: int })
    | Send({ who: int, tok: int, to: int, amt: int, hook: Hook })
    | SendFrom({ who: int, tok: int, owner: int, to: int, amt: int, hook: Hook })
    | Notify({ who: int, to: int, sender: int, amt: int, hook: Hook, funds: List[Coin] })
    | Provide({ who: int, pair: int, xs: List[Coin], tol: int, recv: int, funds: List[Coin] })
    | NativeSwap({ who: int, pair: int, den: int, amt: int, paid: int, to: int })
    | RouterExec({ who: int, ops: List[Op], min: int, to: int, funds: List[Coin] })
    | RouterOp({ who: int, o: int, a: int, to: int })
    | RouterAssert({ who: int, asset: int, prev: int, min: int, recv: int })
    | MigrateCore({ who: int, c: int })                    // new code for the factory or the router
    | Advance(int)
    | QSim({ pair: int, asset: int, amt: int })
    | QRev({ pair: int, asset: int, amt: int })
    | QPool(int)
    | QRoute({ ops: List[Op], amt: int })
    | QRouteRev({ ops: List[Op], amt: int })
    | QLookup(List[int])                                   // every ordered combination of these assets
    | QPage({ a: int, b: int, limit: int })                // one page after (a, b); NONE: from the start
    | QWalk({ limit: int, flip: bool })                    // all pages
    | QDecimals(int)
    | QCore                                                // the configurations of router and factory
    | QToken({ tok: int, owner: int, spender: int })

  // what an operation reports: kind, contract, figures
  type Log = { k: str, c: int, xs: List[int] }
  type Out = { ok: bool, err: str, st: State, logs: List[Log] }

  // ---------------------------------------------------------------- plumbing
  pure def nope(st: State, why: str): Out = { ok: false, err: why, st: st, logs: [] }
  pure def okay(st: State): Out = { ok: true, err: "", st: st, logs: [] }
  pure def okLog(st: State, l: Log): Out = { ok: true, err: "", st: st, logs: [l] }
  pure def after(l: List[Log], y: Out): Out = { ...y, logs: l.concat(y.logs) }
  // (the evaluator's operators are not re-entrant: x.logs must be read before f runs, as an argument is)
  pure def andThen(x: Out, f: (State) => Out): Out = if (x.ok) after(x.logs, f(x.st)) else x
  pure def andLog(x: Out, l: Log): Out = if (x.ok) { ...x, logs: x.logs.append(l) } else x
  pure def need(c: bool, why: str, st: State): Out = if (c) okay(st) else nope(st, why)

  pure def has(m: int -> a, k: int): bool = m.keys().contains(k)
  pure def isTok(st: State, a: int): bool = st.tok.has(a)
  pure def isPair(st: State, a: int): bool = st.pair.has(a)
  // every asset's map has the same, fixed domain of accounts
  pure def bal(st: State, asset: int, who: int): int = if (st.bal.has(asset)) st.bal.get(asset).get(who) else 0
  pure def accounts(st: State): Set[int] = st.bal.get(NATIVE).keys()
  pure def setBal(st: State, asset: int, who: int, v: int): State =
    { ...st, bal: st.bal.setBy(asset, m => m.set(who, v)) }
  pure def addBal(st: State, asset: int, who: int, d: int): State =
    { ...st, bal: st.bal.setBy(asset, m => m.setBy(who, v => v + d)) }

  // move an amount of an asset between accounts (no rules but sufficiency)
  pure def move(st: State, asset: int, from: int, dst: int, amt: int): Out =
    if (bal(st, asset, from) < amt) nope(st, "balance")
    else okay(st.addBal(asset, from, -amt).addBal(asset, dst, amt))

  pure def moveFunds(st: State, from: int, dst: int, funds: List[Coin]): Out =
    funds.foldl(okay(st), (x, c) => x.andThen(s => move(s, c.den, from, dst, c.amt)))

  // a contract paying out: zero amounts are refused by the token and by the bank
  pure def pay(st: State, asset: int, from: int, dst: int, amt: int): Out =
    if (amt == 0) nope(st, "zero_payout") else move(st, asset, from, dst, amt)

  // ---------------------------------------------------------------- cw20 tokens
  pure def allowKey(owner: int, spender: int): int = owner * 1000 + spender
  pure def setTok(st: State, t: int, f: (Tok) => Tok): State = { ...st, tok: st.tok.setBy(t, f) }

  pure val START = 12345
  pure val BLOCKTIME = 5
  pure def now(st: State): int = BLOCKTIME * (st.h - START)
  pure def expired(st: State, e: int): bool =
    if (e >= TIME) now(st) >= e - TIME else e != 0 and st.h >= e

  pure def spend(st: State, t: int, owner: int, spender: int, amt: int): Out = {
    val al = st.tok.get(t).allow
    val k = allowKey(owner, spender)
    if (not(al.has(k))) nope(st, "no_allowance")
    else if (expired(st, al.get(k).exp)) nope(st, "expired")
    else if (al.get(k).amt < amt) nope(st, "allowance")
    else okay(st.setTok(t, x => { ...x, allow: x.allow.setBy(k, v => { ...v, amt: v.amt - amt }) }))
  }

  pure def tokTransfer(st: State, t: int, from: int, dst: int, amt: int): Out =
    if (not(isTok(st, t))) nope(st, "no_token")
    else if (dst == BAD) nope(st, "bad_addr")
    else if (amt == 0) nope(st, "zero")
    else move(st, t, from, dst, amt)

  pure def tokTransferFrom(st: State, t: int, spender: int, owner: int, dst: int, amt: int): Out =
    if (not(isTok(st, t))) nope(st, "no_token")
    else if (dst == BAD) nope(st, "bad_addr")
    else spend(st, t, owner, spender, amt).andThen(s => move(s, t, owner, dst, amt))

  pure def burnRaw(st: State, t: int, owner: int, amt: int): Out =
    if (bal(st, t, owner) < amt) nope(st, "balance")
    else okay(st.addBal(t, owner, -amt).setTok(t, x => { ...x, supply: x.supply - amt }))

  pure def tokBurn(st: State, t: int, who: int, amt: int): Out =
    if (not(isTok(st, t))) nope(st, "no_token")
    else if (amt == 0) nope(st, "zero") else burnRaw(st, t, who, amt)

  pure def tokMint(st: State, t: int, who: int, dst: int, amt: int): Out =
    if (not(isTok(st, t))) nope(st, "no_token")
    else if (amt == 0) nope(st, "zero")
    else {
      val x = st.tok.get(t)
      if (x.minter == NONE or x.minter != who) nope(st, "unauthorized")
      else if (dst == BAD) nope(st, "bad_addr")
      else if (x.supply + amt >= U128) nope(st, "overflow")
      else if (x.cap != NONE and x.supply + amt > x.cap) nope(st, "cap")
      else okay(st.setTok(t, y => { ...y, supply: y.supply + amt }).addBal(t, dst, amt))
    }

  pure def incAllow(st: State, t: int, who: int, sp: int, amt: int, exp: int): Out =
    if (not(isTok(st, t))) nope(st, "no_token")
    else if (sp == BAD) nope(st, "bad_addr")
    else if (sp == who) nope(st, "own_account")
    else if (exp != NONE and expired(st, exp)) nope(st, "expiration")
    else {
      val k = allowKey(who, sp)
      val al = st.tok.get(t).allow
      val cur = if (al.has(k)) al.get(k) else { amt: 0, exp: 0 }
      if (cur.amt + amt >= U128) nope(st, "overflow")
      else okay(st.setTok(t, x => { ...x, allow: x.allow.put(k,
             { amt: cur.amt + amt, exp: if (exp == NONE) cur.exp else exp }) }))
    }

  pure def mapDrop(m: int -> Allow, k: int): int -> Allow = m.keys().exclude(Set(k)).mapBy(x => m.get(x))

  pure def decAllow(st: State, t: int, who: int, sp: int, amt: int, exp: int): Out =
    if (not(isTok(st, t))) nope(st, "no_token")
    else if (sp == BAD) nope(st, "bad_addr")
    else if (sp == who) nope(st, "own_account")
    else {
      val k = allowKey(who, sp)
      val al = st.tok.get(t).allow
      if (not(al.has(k))) nope(st, "no_allowance")
      else if (amt < al.get(k).amt) {
        if (exp != NONE and expired(st, exp)) nope(st, "expiration")
        else okay(st.setTok(t, x => { ...x, allow: x.allow.set(k,
               { amt: al.get(k).amt - amt, exp: if (exp == NONE) al.get(k).exp else exp }) }))
      }
      else okay(st.setTok(t, x => { ...x, allow: mapDrop(x.allow, k) }))
    }

  pure def setMinter(st: State, t: int, who: int, dst: int): Out =
    if (not(isTok(st, t))) nope(st, "no_token")
    else {
      val x = st.tok.get(t)
      if (x.minter == NONE or x.minter != who) nope(st, "unauthorized")
      else if (dst == BAD) nope(st, "bad_addr")
      else okay(st.setTok(t, y => { ...y, minter: dst, cap: if (dst == NONE) NONE else y.cap }))
    }

  pure def utf8(c: int): int = if (c < 128) 1 else if (c < 2048) 2 else if (c < 65536) 3 else 4
  pure def utf8Len(s: List[int]): int = s.foldl(0, (n, c) => n + utf8(c))
  pure def symChar(c: int): bool = c == 45 or (c >= 65 and c <= 90) or (c >= 97 and c <= 122)

  pure def tokenValid(name: List[int], sym: List[int], dec: int, init: List[Coin], minter: int, cap: int): str = {
    val total = init.foldl(0, (n, c) => n + c.amt)
    if (utf8Len(name) < 3 or utf8Len(name) > 50) "name"
    else if (utf8Len(sym) < 3 or utf8Len(sym) > 12) "symbol"
    else if (not(sym.indices().forall(i => symChar(sym[i])))) "symbol"
    else if (dec > 18) "decimals"
    else if (init.foldl(Set(), (s, c) => s.union(Set(c.den))).size() != init.length()) "duplicate"
    else if (minter == BAD or init.indices().exists(i => init[i].den == BAD)) "bad_addr"
    else if (total >= U128) "overflow"
    else if (minter != NONE and cap != NONE and total > cap) "cap"
    else "ok"
  }

  // register the next contract address
  pure def bump(st: State): State = { ...st, next: st.next + 1 }

  // init: list of (account, amount), kept in Coin{den, amt}
  pure def newToken(st: State, code: int, name: List[int], sym: List[int], dec: int, init: List[Coin], minter: int, cap: int): Out = {
    val v = tokenValid(name, sym, dec, init, minter, cap)
    if (v != "ok") nope(st, v)
    else {
      val t = st.next
      val rec = { name: name, sym: sym, dec: dec, supply: init.foldl(0, (n, c) => n + c.amt), minter: minter,
                  cap: if (minter == NONE) NONE else cap, code: code, allow: Map() }
      val s1 = { ...bump(st), tok: st.tok.put(t, rec), bal: st.bal.put(t, accounts(st).mapBy(u => 0)) }
      okay(init.foldl(s1, (s, c) => if (c.amt == 0) s else s.setBal(t, c.den, c.amt)))
    }
  }

  // ---------------------------------------------------------------- pairs
  pure val LP_NAME = [104, 97, 108, 111, 32, 108, 105, 113, 117, 105, 100, 105, 116, 121, 32, 116, 111, 107, 101, 110]
  pure val LP_SYM = [117, 76, 80]

  // a pair and its LP token
  pure def newPair(st: State, code: int, tokenCode: int, adm: int, a0: int, a1: int, d0: int, d1: int,
                   wl: List[int], m0: int, m1: int): Out = {
    val p = st.next
    val lp = st.next + 1
    if (not(PAIR_CODES.contains(code)) or not(TOKEN_CODES.contains(tokenCode))) nope(st, "bad_code")
    else {
      val info = { addr: p, a0: a0, a1: a1, d0: d0, d1: d1, lp: lp, wl: wl, m0: m0, m1: m1 }
      val s1 = { ...bump(st), pair: st.pair.put(p, { info: info, code: code, adm: adm }) }
      newToken(s1, tokenCode, LP_NAME, LP_SYM, 6, [], p, NONE)
    }
  }

  pure def supplyOf(st: State, t: int): int = if (isTok(st, t)) st.tok.get(t).supply else 0
  pure def reserve(st: State, p: int, i: int): int =
    bal(st, if (i == 0) st.pair.get(p).info.a0 else st.pair.get(p).info.a1, p)

  // a swap notification: token `caller` says `sender` sent `amt` (already in the pair's balance)
  pure def pairSwap(st: State, p: int, caller: int, sender: int, amt: int, belief: int, maxs: int, dst: int): Out = {
    val x = st.pair.get(p).info
    if (not(isTok(st, caller)) or not(caller == x.a0 or caller == x.a1)) nope(st, "unauthorized")
    else if (dst == BAD) nope(st, "bad_addr")
    else {
      val first = caller == x.a0
      val ask = if (first) x.a1 else x.a0
      val o = bal(st, caller, p) - amt
      val q = quote(o, bal(st, ask, p), amt)
      if (o < 0) nope(st, "abort")
      else if (not(q.ok)) nope(st, "abort")
      else {
        val lim = swapLimit(belief, maxs, amt, q.ret, q.spread, if (first) x.d0 else x.d1, if (first) x.d1 else x.d0)
        val target = if (dst == NONE) sender else dst
        val l = { k: "swap", c: p, xs: [sender, target, caller, printed(ask), amt, q.ret, q.spread, q.comm] }
        if (lim != "ok") nope(st, lim)
        else if (q.ret == 0) okLog(st, l)
        else okLog(st, l).andThen(s => pay(s, ask, p, target, q.ret))
      }
    }
  }

  // two amounts as reported: by asset, whatever order they are written in
  pure def both(a: int, x: int, b: int, y: int): List[int] = {
    val p = printed(a)
    val q = printed(b)
    if (p < q or (p == q and x <= y)) [p, x, q, y] else [q, y, p, x]
  }

  // a withdrawal notification
  pure def pairWithdraw(st: State, p: int, caller: int, sender: int, amt: int): Out = {
    val x = st.pair.get(p).info
    if (caller != x.lp) nope(st, "unauthorized")
    else {
      val s = supplyOf(st, x.lp)
      val l = { k: "withdraw", c: p, xs: [sender, amt].concat(both(x.a0, refundOf(bal(st, x.a0, p), amt, s), x.a1, refundOf(bal(st, x.a1, p), amt, s))) }
      if (s == 0) nope(st, "abort")
      else okLog(st, l)
        .andThen(s1 => pay(s1, x.a0, p, sender, refundOf(bal(st, x.a0, p), amt, s)))
        .andThen(s2 => pay(s2, x.a1, p, sender, refundOf(bal(st, x.a1, p), amt, s)))
        .andThen(s3 => tokBurn(s3, x.lp, p, amt))
    }
  }

  pure def pairReceive(st: State, p: int, caller: int, sender: int, amt: int, hook: Hook): Out =
    match hook {
      | HSwap(x) => pairSwap(st, p, caller, sender, amt, x.belief, x.maxs, x.to)
      | HWithdraw => pairWithdraw(st, p, caller, sender, amt)
      | HRoute(x) => nope(st, "bad_hook")
      | HBad => nope(st, "bad_hook")
    }

  pure def coinOf(cs: List[Coin], den: int): int =
    cs.foldl(-1, (v, c) => if (v < 0 and c.den == den) c.amt else v)

  pure def fundsMatch(xs: List[Coin], funds: List[Coin]): bool =
    xs.indices().forall(i => not(isNative(xs[i].den)) or xs[i].amt == maxI(0, coinOf(funds, xs[i].den)))

  // deposits in pool order, -1 if an asset is not listed
  pure def depositOf(xs: List[Coin], a: int): int = coinOf(xs, a)

  // the reserve before the deposit: attached native coins have already arrived
  pure def reserveBefore(st: State, p: int, a: int, dep: int): int =
    if (isNative(a)) bal(st, a, p) - dep else bal(st, a, p)

  // how many LP tokens, or why not
  pure def provideShare(st: State, p: int, who: int, d0: int, d1: int, p0: int, p1: int, tol: int): { why: str, share: int } = {
    val x = st.pair.get(p).info
    val s = supplyOf(st, x.lp)
    val sl = slippage(tol, d0, d1, p0, p1)
    if (sl != "ok") { why: sl, share: 0 }
    else if (s == 0) {
      if (x.wl.foldl(0, (n, w) => if (w == who) n + 1 else n) == 0) { why: "whitelist", share: 0 }
      else if (d0 < x.m0 or d1 < x.m1) { why: "minimum", share: 0 }
      else {
        val sh = isqrt(d0 * d1)
        if (sh == 0) { why: "zero_share", share: 0 } else { why: "ok", share: sh }
      }
    }
    else {
      val sh = shareOf(s, d0, d1, p0, p1)
      if (sh < 0) { why: "abort", share: 0 }
      else if (sh == 0) { why: "zero_share", share: 0 }
      else { why: "ok", share: sh }
    }
  }

  pure def pullAsset(st: State, a: int, p: int, who: int, amt: int): Out =
    if (isNative(a)) okay(st) else tokTransferFrom(st, a, p, who, p, amt)

  pure def provide(st: State, who: int, p: int, xs: List[Coin], tol: int, recv: int, funds: List[Coin]): Out =
    if (not(isPair(st, p))) nope(st, "no_pair")
    else moveFunds(st, who, p, funds).andThen(s1 => {
      val x = s1.pair.get(p).info
      val d0 = depositOf(xs, x.a0)
      val d1 = depositOf(xs, x.a1)
      if (not(fundsMatch(xs, funds))) nope(s1, "funds")
      else if (d0 < 0 or d1 < 0) nope(s1, "wrong_assets")
      else {
        val r = provideShare(s1, p, who, d0, d1, reserveBefore(s1, p, x.a0, d0), reserveBefore(s1, p, x.a1, d1), tol)
        val target = if (recv == NONE) who else recv
        if (r.why != "ok") nope(s1, r.why)
        else pullAsset(s1, x.a0, p, who, d0)
          .andThen(s2 => pullAsset(s2, x.a1, p, who, d1))
          .andThen(s3 => tokMint(s3, x.lp, p, target, r.share))
          .andLog({ k: "provide", c: p, xs: [who, target, r.share].concat(both(xs[0].den, xs[0].amt, xs[1].den, xs[1].amt)) })
      }
    })

  // ---------------------------------------------------------------- factory
  pure def regKey(a: int, b: int): int = minI(a, b) * 100000 + maxI(a, b)
  pure def lookup(st: State, a: int, b: int): int = {
    val k = regKey(a, b)
    if (a != b and st.fac.reg.has(k)) st.fac.reg.get(k).addr else NONE
  }
  // decimals of an asset as the factory sees them, or -1
  pure def assetDec(st: State, a: int): int =
    if (isNative(a)) { if (st.fac.dec.has(a)) st.fac.dec.get(a) else -1 }
    else { if (isTok(st, a)) st.tok.get(a).dec else -1 }

  pure def createPair(st: State, a0: int, a1: int, wl: List[int], m0: int, m1: int): Out = {
    val d0 = assetDec(st, a0)
    val d1 = assetDec(st, a1)
    if (a0 == a1) nope(st, "same")
    else if (d0 < 0 or d1 < 0) nope(st, "invalid_asset")
    else if (lookup(st, a0, a1) != NONE) nope(st, "exists")
    else newPair(st, st.fac.pairCode, st.fac.tokenCode, FACTORY, a0, a1, d0, d1, wl, m0, m1)
      .andThen(s => okay({ ...s, fac: { ...s.fac, reg: s.fac.reg.put(regKey(a0, a1), s.pair.get(st.next).info) } }))
  }

  pure def updateConfig(st: State, who: int, owner: int, tokenCode: int, pairCode: int): Out =
    if (who != st.fac.owner) nope(st, "unauthorized")
    else if (owner == BAD) nope(st, "bad_addr")
    else okay({ ...st, fac: { ...st.fac,
      owner: if (owner == NONE) st.fac.owner else owner,
      tokenCode: if (tokenCode == NONE) st.fac.tokenCode else tokenCode,
      pairCode: if (pairCode == NONE) st.fac.pairCode else pairCode } })

  pure def addDecimals(st: State, who: int, den: int, dec: int): Out =
    if (who != st.fac.owner) nope(st, "unauthorized")
    else if (bal(st, den, FACTORY) == 0) nope(st, "no_balance")
    else okay({ ...st, fac: { ...st.fac, dec: st.fac.dec.put(den, dec) } })

  pure def migrate(st: State, who: int, p: int, code: int): Out = {
    val c = if (code == NONE) st.fac.pairCode else code
    if (who != st.fac.owner) nope(st, "unauthorized")
    else if (not(isPair(st, p))) nope(st, "no_pair")
    else if (st.pair.get(p).adm != FACTORY) nope(st, "not_admin")
    else if (not(PAIR_CODES.contains(c))) nope(st, "bad_code")
    else okay({ ...st, pair: st.pair.setBy(p, x => { ...x, code: c }) })
  }

  // ---------------------------------------------------------------- router
  pure def hop(st: State, o: int, a: int, dst: int): Out = {
    val p = lookup(st, o, a)
    val amt = bal(st, o, ROUTER)
    if (p == NONE) nope(st, "no_pair")
    else if (isNative(o)) nope(st, "native_offer")
    else if (amt == 0) nope(st, "zero")
    else move(st, o, ROUTER, p, amt).andThen(s => pairSwap(s, p, o, ROUTER, amt, NONE, NONE, dst))
  }

  pure def outputs(ops: List[Op]): Set[int] =
    ops.foldl(Set(), (s, x) => s.exclude(Set(x.o)).union(Set(x.a)))

  pure def route(st: State, initiator: int, ops: List[Op], min: int, dst: int): Out = {
    if (dst == BAD) nope(st, "bad_addr")
    else if (ops.length() == 0) nope(st, "empty_route")
    else if (outputs(ops).size() != 1) nope(st, "multi_output")
    else {
      val n = ops.length()
      val target = if (dst == NONE) initiator else dst
      val last = ops[n - 1].a
      val prev = bal(st, last, target)
      val res = range(0, n).foldl(okay(st), (x, i) =>
        x.andThen(s => hop(s, ops[i].o, ops[i].a, if (i == n - 1) target else NONE)))
      if (min == NONE) res
      else res.andThen(s =>
        if (bal(s, last, target) - prev < min) nope(s, "min_receive") else okay(s))
    }
  }

  // chained simulations; -1 aborts
  pure def simAt(st: State, p: int, asset: int, amt: int): Quote = {
    val x = st.pair.get(p).info
    if (asset == x.a0) quote(bal(st, x.a0, p), bal(st, x.a1, p), amt)
    else if (asset == x.a1) quote(bal(st, x.a1, p), bal(st, x.a0, p), amt)
    else { ok: false, gross: 0, ret: 0, spread: 0, comm: 0 }
  }
  pure def revAt(st: State, p: int, asset: int, amt: int): RevQuote = {
    val x = st.pair.get(p).info
    if (asset == x.a0) reverseQuote(bal(st, x.a1, p), bal(st, x.a0, p), amt)
    else if (asset == x.a1) reverseQuote(bal(st, x.a0, p), bal(st, x.a1, p), amt)
    else { ok: false, before: 0, offer: 0, spread: 0, comm: 0 }
  }
  pure def simRoute(st: State, ops: List[Op], amt: int): int =
    if (ops.length() == 0) -1
    else ops.foldl(amt, (v, x) =>
      if (v < 0) -1 else {
        val p = lookup(st, x.o, x.a)
        if (p == NONE) -1 else { val q = simAt(st, p, x.o, v) if (q.ok) q.ret else -1 }
      })
  pure def revRoute(st: State, ops: List[Op], amt: int): int =
    if (ops.length() == 0) -1
    else range(0, ops.length()).foldl(amt, (v, i) =>
      if (v < 0) -1 else {
        val x = ops[ops.length() - 1 - i]
        val p = lookup(st, x.o, x.a)
        if (p == NONE) -1 else { val q = revAt(st, p, x.a, v) if (q.ok) q.offer else -1 }
      })

  // ---------------------------------------------------------------- token sends
  // the receiving contract's reaction to a token notification
  pure def receive(st: State, dst: int, caller: int, sender: int, amt: int, hook: Hook): Out =
    if (isPair(st, dst)) pairReceive(st, dst, caller, sender, amt, hook)
    else if (dst == ROUTER) match hook {
      | HRoute(x) => route(st, sender, x.ops, x.min, x.to)
      | HSwap(x) => nope(st, "bad_hook")
      | HWithdraw => nope(st, "bad_hook")
      | HBad => nope(st, "bad_hook")
    }
    else nope(st, "no_receiver")

  pure def isContract(st: State, a: int): bool = a >= 100 and a < st.next

  // ---------------------------------------------------------------- queries
  pure def recordOf(i: Info): List[int] = [i.addr, i.a0, i.a1, i.d0, i.d1, i.lp, i.m0, i.m1, i.wl.length()].concat(i.wl)
  pure def q1(st: State, xs: List[int]): Out = okLog(st, { k: "q", c: 0, xs: xs })
  pure def quoteLog(q: Quote): List[int] = if (q.ok) [q.ret, q.spread, q.comm] else []

  pure def minOf(s: Set[int]): int = s.fold(-1, (m, x) => if (m < 0 or x < m) x else m)

  // ---------------------------------------------------------------- transactions
  pure def exec(st: State, act: Act): Out =
    match act {
      | Nop => okay(st)
      | NewToken(x) => newToken(st, 1, x.name, x.sym, x.dec, x.init, x.minter, x.cap)
      | NewPair(x) => newPair(st, 2, 1, NONE, x.a0, x.a1, x.d0, x.d1, x.wl, x.m0, x.m1)
      | CreatePair(x) => moveFunds(st, x.who, FACTORY, x.funds).andThen(s => createPair(s, x.a0, x.a1, x.wl, x.m0, x.m1))
      | UpdateConfig(x) => moveFunds(st, x.who, FACTORY, x.funds).andThen(s => updateConfig(s, x.who, x.owner, x.tokenCode, x.pairCode))
      | AddDecimals(x) => moveFunds(st, x.who, FACTORY, x.funds).andThen(s => addDecimals(s, x.who, x.den, x.dec))
      | Migrate(x) => moveFunds(st, x.who, FACTORY, x.funds).andThen(s => migrate(s, x.who, x.pair, x.code))
      | BankSend(x) => if (x.amt == 0) nope(st, "zero") else move(st, x.den, x.who, x.to, x.amt)
      | Transfer(x) => tokTransfer(st, x.tok, x.who, x.to, x.amt)
      | TransferFrom(x) => tokTransferFrom(st, x.tok, x.who, x.owner, x.to, x.amt)
      | Burn(x) => tokBurn(st, x.tok, x.who, x.amt)
      | BurnFrom(x) =>
          if (not(isTok(st, x.tok))) nope(st, "no_token")
          else spend(st, x.tok, x.owner, x.who, x.amt).andThen(s => burnRaw(s, x.tok, x.owner, x.amt))
      | Mint(x) => tokMint(st, x.tok, x.who, x.to, x.amt)
      | IncAllow(x) => incAllow(st, x.tok, x.who, x.spender, x.amt, x.exp)
      | DecAllow(x) => decAllow(st, x.tok, x.who, x.spender, x.amt, x.exp)
      | SetMinter(x) => setMinter(st, x.tok, x.who, x.to)
      | Send(x) => tokTransfer(st, x.tok, x.who, x.to, x.amt)
          .andThen(s => receive(s, x.to, x.tok, x.who, x.amt, x.hook))
      | SendFrom(x) => tokTransferFrom(st, x.tok, x.who, x.owner, x.to, x.amt)
          .andThen(s => receive(s, x.to, x.tok, x.who, x.amt, x.hook))
      | Notify(x) => moveFunds(st, x.who, x.to, x.funds)
          .andThen(s => receive(s, x.to, x.who, x.sender, x.amt, x.hook))
      | Provide(x) => provide(st, x.who, x.pair, x.xs, x.tol, x.recv, x.funds)
      | NativeSwap(x) => nope(st, "no_entry")
      | RouterExec(x) => moveFunds(st, x.who, ROUTER, x.funds).andThen(s => route(s, x.who, x.ops, x.min, x.to))
      | RouterOp(x) => nope(st, "unauthorized")
      | RouterAssert(x) =>
          if (x.recv == BAD) nope(st, "bad_addr")
          else if (bal(st, x.asset, x.recv) - x.prev < x.min or bal(st, x.asset, x.recv) < x.prev) nope(st, "min_receive") else okay(st)
      // the admin of both is user 0
      | MigrateCore(x) => if (x.who == 0) okay(st) else nope(st, "not_admin")
      | Advance(n) => okay({ ...st, h: st.h + n })
      | QSim(x) =>
          val q = simAt(st, x.pair, x.asset, x.amt)
          if (q.ok) q1(st, [q.ret, q.spread, q.comm]) else nope(st, "refused")
      | QRev(x) =>
          val q = revAt(st, x.pair, x.asset, x.amt)
          if (q.ok) q1(st, [q.offer, q.spread, q.comm]) else nope(st, "refused")
      | QPool(p) => { val x = st.pair.get(p).info q1(st, [x.a0, reserve(st, p, 0), x.a1, reserve(st, p, 1), supplyOf(st, x.lp)]) }
      | QRoute(x) => { val v = simRoute(st, x.ops, x.amt) if (v < 0) nope(st, "refused") else q1(st, [v, v]) }
      | QRouteRev(x) => { val v = revRoute(st, x.ops, x.amt) if (v < 0) nope(st, "refused") else q1(st, [v, v]) }
      | QLookup(l) => q1(st, l.foldl([], (acc, a) => l.foldl(acc, (acc2, b) => acc2.append(lookup(st, a, b)))))
          .andLog({ k: "records", c: 0, xs: l.foldl([], (acc, a) => l.foldl(acc, (acc2, b) =>
            if (lookup(st, a, b) == NONE) acc2 else acc2.concat(recordOf(st.fac.reg.get(regKey(a, b)))))) })
      | QPage(x) => okay(st)
      | QWalk(x) => okay(st)
      | QDecimals(d) => if (st.fac.dec.has(d)) q1(st, [st.fac.dec.get(d)]) else nope(st, "refused")
      | QCore => q1(st, [FACTORY, st.fac.owner, st.fac.tokenCode, st.fac.pairCode])
      | QToken(x) => {
          val t = st.tok.get(x.tok)
          val k = allowKey(x.owner, x.spender)
          val al = if (t.allow.has(k)) t.allow.get(k) else { amt: 0, exp: 0 }
          q1(st, [t.supply, t.dec, t.minter, t.cap, bal(st, x.tok, x.owner), al.amt, al.exp])
        }
    }

  // a failed transaction has no effect
  pure def step(st: State, act: Act): Out = {
    val x = exec(st, act)
    if (x.ok) x else { ...x, st: st, logs: [] }
  }

  pure val USERS = 6
  pure val USERSET = 0.to(USERS - 1)

  // native coins: every user starts with `funds` of each; room for contracts 100..limit-1
  pure def genesis(natives: Set[int], funds: int, limit: int): State = {
    h: START, next: 102,
    bal: natives.mapBy(n => USERSET.union(Set(BAD)).union(100.to(limit - 1)).mapBy(u => if (u < USERS) funds else 0)),
    tok: Map(), pair: Map(),
    fac: { owner: 0, tokenCode: 1, pairCode: 2, dec: Map(), reg: Map() }
  }
}
