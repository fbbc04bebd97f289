// Pricing rules of a pair: pure functions of reserves and amounts.
module amm {
  import arith.* from "./arith"

  type Quote = { ok: bool, gross: int, ret: int, spread: int, comm: int }

  // offer d against reserves (O, A)
  pure def quote(o: int, a: int, d: int): Quote = {
    val g = mulDiv(d, a, o + d)
    // the mid price has 18 decimals, rounded down; the spread is never negative
    val ideal = mulDiv(d, ratio(a, o), ONE)
    val s = if (ideal < 0) -1 else fit128(maxI(0, ideal - g))
    val c = mulDiv(g, FEE, ONE)
    { ok: g >= 0 and s >= 0 and c >= 0, gross: g, ret: subC(g, c), spread: s, comm: c }
  }

  type RevQuote = { ok: bool, before: int, offer: int, spread: int, comm: int }

  pure val INV = (ONE * ONE) / (ONE - FEE)

  // the offer needed so that r of the ask asset is paid out
  pure def reverseQuote(o: int, a: int, r: int): RevQuote = {
    val b = mulDiv(r, INV, ONE)
    val q = subC(mulDiv(o, a, subC(a, b)), o)
    val ideal = mulDiv(q, ratio(a, o), ONE)
    val s = if (ideal < 0) -1 else fit128(maxI(0, ideal - b))
    val c = fit128(mulDiv(b, FEE, ONE))
    { ok: fit128(q) >= 0 and s >= 0 and c >= 0, before: b, offer: q, spread: s, comm: c }
  }

  // limits on a swap; belief, maxs are 18-decimal numbers or -1 if absent
  pure def swapLimit(belief: int, maxs: int, d: int, ret: int, spread: int, od: int, ad: int): str = {
    val diff = absI(od - ad)
    val f = if (diff > 19) 0 else 10^diff
    val d2 = if (od < ad) d * f else d
    val r2 = if (od > ad) ret * f else ret
    val s2 = if (od > ad) spread * f else spread
    if (f == 0 or d2 >= U128 or r2 >= U128 or s2 >= U128) "overflow"
    else if (maxs >= 0 and belief >= 0) {
      val expected = mulDiv(d2, ONE, belief)
      if (belief == 0) "abort"
      else if (r2 < expected and ratio(expected - r2, expected) > maxs) "max_spread"
      else "ok"
    }
    else if (maxs >= 0) {
      if (r2 + s2 == 0) "abort"
      else if (ratio(s2, r2 + s2) > maxs) "max_spread"
      else "ok"
    }
    else "ok"
  }

  // deposits (d0, d1) against reserves (p0, p1), tolerance t or -1
  pure def slippage(t: int, d0: int, d1: int, p0: int, p1: int): str =
    if (t < 0) "ok"
    else if (t > ONE) "tolerance"
    else {
      val x = mulDiv(ratio(d0, d1), ONE - t, ONE)
      val y = mulDiv(ratio(d1, d0), ONE - t, ONE)
      val px = ratio(p0, p1)
      val py = ratio(p1, p0)
      if (x < 0 or y < 0 or px < 0 or py < 0) "abort"
      else if (x > px or y > py) "slippage"
      else "ok"
    }

  // LP tokens minted for deposits into a pool with supply s > 0 and reserves p0, p1
  pure def shareOf(s: int, d0: int, d1: int, p0: int, p1: int): int =
    if (p0 == 0 or p1 == 0) -1
    else {
      val x = fit128((d0 * s) / p0)
      val y = fit128((d1 * s) / p1)
      if (x < 0 or y < 0) -1 else minI(x, y)
    }

  // what returning a of s LP tokens pays from reserve p
  pure def refundOf(p: int, a: int, s: int): int = (p * ((a * ONE) / s)) / ONE
}
