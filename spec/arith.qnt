// -*- mode: Bluespec; -*-
// Integer and 18-decimal fixed-point arithmetic of the exchange.
// All quantities are natural numbers; -1 stands for "the computation aborts" and propagates.
module arith {
  pure val ONE = 1000000000000000000          // 1.0 in 18-decimal fixed point
  pure val FEE = 3000000000000000             // 0.003
  pure val U128 = 340282366920938463463374607431768211456
  pure val U256 = 115792089237316195423570985008687907853269984665640564039457584007913129639936

  pure def minI(a: int, b: int): int = if (a < b) a else b
  pure def maxI(a: int, b: int): int = if (a < b) b else a
  pure def absI(a: int): int = if (a < 0) -a else a

  // exact difference, aborts below zero
  pure def subC(a: int, b: int): int = if (a < 0 or b < 0 or a < b) -1 else a - b
  // floor(a*b/c) with the product held in 256 bits
  pure def mulDiv(a: int, b: int, c: int): int =
    if (a < 0 or b < 0 or c <= 0) -1 else if (a * b >= U256) -1 else (a * b) / c
  // n/d as an 18-decimal fixed-point number, rounded down
  pure def ratio(n: int, d: int): int = mulDiv(n, ONE, d)
  // a narrow (128-bit) result
  pure def fit128(x: int): int = if (x < 0 or x >= U128) -1 else x

  // floor(sqrt(n)), bit by bit
  pure def isqrt(n: int): int =
    range(0, 128).foldl(0, (r, i) =>
      val b = 2^(127 - i)
      if ((r + b) * (r + b) <= n) r + b else r)
}
