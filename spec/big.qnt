// The wide-number library: 256-bit naturals (u) and 18-decimal fixed-point numbers (d, given in atomics).
// `exact` is the mathematical result of every operation, `mayAbort` the inputs for which the library's own
// contract allows an abort although the result would fit (an exact intermediate product above 256 bits).
module big {
  import arith.* from "./arith"

  type Case = { op: str, xs: List[int], s: List[int] }
  type Res = { ok: bool, n: int, s: List[int] }

  pure val NO: Res = { ok: false, n: 0, s: [] }
  pure def num(n: int): Res = if (n < 0 or n >= U256) NO else { ok: true, n: n, s: [] }
  pure def text(s: List[int]): Res = { ok: true, n: 0, s: s }
  pure def quot(a: int, b: int): Res = if (b == 0) NO else num(a / b)

  // ---------------------------------------------------------------- text
  pure def digit(c: int): bool = c >= 48 and c <= 57
  // no digits at all count as zero: the library's own tests read "" so, its comments forbid it (see mayAbort)
  pure def digits(s: List[int]): bool = s.indices().forall(i => digit(s[i]))
  pure def value(s: List[int]): int = s.foldl(0, (n, c) => n * 10 + (c - 48))
  pure def isDot(c: int): bool = c == 46
  pure def dots(s: List[int]): int = s.foldl(0, (n, c) => if (isDot(c)) n + 1 else n)
  pure def firstDot(s: List[int]): int = s.foldl((0, false), (r, c) => if (r._2 or isDot(c)) (r._1, true) else (r._1 + 1, false))._1

  pure def parseU(s: List[int]): Res = if (digits(s)) num(value(s)) else NO
  pure def parseD(s: List[int]): Res =
    if (dots(s) == 0) { if (digits(s)) num(value(s) * ONE) else NO }
    else if (dots(s) > 1) NO
    else {
      val p = firstDot(s)
      val w = s.slice(0, p)
      val f = s.slice(p + 1, s.length())
      if (not(digits(w)) or not(digits(f)) or f.length() > 18) NO
      else num(value(w) * ONE + value(f) * 10^(18 - f.length()))
    }

  pure def showU(n: int): List[int] =
    if (n == 0) [48]
    else range(0, 80).foldl((n, []), (r, i) => if (r._1 == 0) r else (r._1 / 10, [48 + r._1 % 10].concat(r._2)))._2
  pure def padded(n: int): List[int] = range(0, 18).foldl((n, []), (r, i) => (r._1 / 10, [48 + r._1 % 10].concat(r._2)))._2
  pure def trimmed(s: List[int]): List[int] = {
    val keep = range(0, s.length()).foldl(0, (k, i) => if (s[i] != 48) i + 1 else k)
    s.slice(0, keep)
  }
  pure def showD(x: int): List[int] =
    if (x % ONE == 0) showU(x / ONE) else showU(x / ONE).concat([46]).concat(trimmed(padded(x % ONE)))
  pure def quoted(s: List[int]): List[int] = [34].concat(s).concat([34])

  // ---------------------------------------------------------------- operations
  pure def cmp(a: int, b: int): int = if (a < b) 0 else if (a == b) 1 else 2
  pure def exact(c: Case): Res = {
    val a = c.xs[0]
    val b = c.xs[1]
    val d = c.xs[2]
    if (c.op == "d_add" or c.op == "d_add_assign" or c.op == "u_add" or c.op == "u_add_assign") num(a + b)
    else if (c.op == "d_sub" or c.op == "u_sub") num(a - b)
    else if (c.op == "d_mul" or c.op == "u_mul_d" or c.op == "d_mul_u") num((a * b) / ONE)
    else if (c.op == "u_mul") num(a * b)
    else if (c.op == "d_div" or c.op == "d_ratio" or c.op == "u_div_d") quot(a * ONE, b)
    else if (c.op == "u_mul_ratio") quot(a * b, d)
    else if (c.op == "d_from_u") num(a * ONE)
    else if (c.op == "d_percent") num(a * 10^16)
    else if (c.op == "d_permille") num(a * 10^15)
    else if (c.op == "d_one") num(ONE)
    else if (c.op == "u_one") num(1)
    else if (c.op == "d_zero" or c.op == "u_zero") num(0)
    else if (c.op == "d_max") num(U256 - 1)
    else if (c.op == "d_cmp" or c.op == "u_cmp") num(cmp(a, b))
    else if (c.op == "d_is_zero" or c.op == "u_is_zero") num(if (a == 0) 1 else 0)
    else if (c.op == "d_to_dec" or c.op == "u_to_128" or c.op == "u_to_uint128") (if (a < U128) num(a) else NO)
    else if (c.op == "dec_to_d" or c.op == "u_from_128" or c.op == "u_from_uint128" or c.op == "u_from_64" or c.op == "u_raw") num(a)
    else if (c.op == "d_parse" or c.op == "d_unjson") parseD(c.s)
    else if (c.op == "u_parse" or c.op == "u_try" or c.op == "u_unjson") parseU(c.s)
    else if (c.op == "d_show") text(showD(a))
    else if (c.op == "u_show" or c.op == "u_string") text(showU(a))
    else if (c.op == "d_json") text(quoted(showD(a)))
    else if (c.op == "u_json") text(quoted(showU(a)))
    else if (c.op == "d_round" or c.op == "u_round") num(a)        // printed and read again
    else NO
  }
  pure def mayAbort(c: Case): bool = {
    val a = c.xs[0]
    val b = c.xs[1]
    if (Set("d_mul", "u_mul_d", "d_mul_u", "u_mul_ratio").contains(c.op)) a * b >= U256
    else if (Set("d_div", "d_ratio", "u_div_d").contains(c.op)) a * ONE >= U256
    else if (Set("d_parse", "d_unjson", "u_parse", "u_try", "u_unjson").contains(c.op))
      c.s.length() == 0 or isDot(c.s[0]) or isDot(c.s[c.s.length() - 1])
    else false
  }
  pure def right(c: Case, o: Res): bool = if (o.ok) o == exact(c) else not(exact(c).ok) or mayAbort(c)

  // ---------------------------------------------------------------- generation
  pure val W = 2^512
  pure def rnd(s: int, i: int, n: int): int = {
    val x = (s * 6364136223846793005 + i * 1442695040888963407 + 3037000493 * (s + i * i + 1)) % W
    val y = (x * x + x * 2862933555777941757 + i * 7046029254386353131) % W
    val z = (y * (y / 2^64) + 11400714819323198485 * y + x) % W
    (z / 2^64) % n
  }
  pure def pick(l: List[int], s: int, i: int): int = l[rnd(s, i, l.length())]
  // up to `bits` bits, evenly over the lengths
  pure def sized(s: int, i: int, bits: int): int = {
    val k = rnd(s, i, bits + 1)
    rnd(s, i + 1, 2^k)
  }
  pure def edges(s: int, i: int): int = {
    val k = rnd(s, i, 9)
    val j = rnd(s, i + 1, 5) - 2
    val b = if (k == 0) 2^64 else if (k == 1) 2^128 else if (k == 2) 2^192 else if (k == 3) U256 - 3 else if (k == 4) ONE
            else if (k == 5) U256 / ONE else if (k == 6) U128 * ONE else if (k == 7) 2^rnd(s, i + 2, 256) else 10^rnd(s, i + 2, 78)
    maxI(0, minI(U256 - 1, b + j))
  }
  pure def operand(s: int, i: int): int = {
    val k = rnd(s, i, 12)
    if (k < 3) edges(s, i + 1)
    else if (k == 3) rnd(s, i + 1, 3)
    else if (k < 6) rnd(s, i + 1, 2000) * 10^rnd(s, i + 2, 40)
    else if (k == 6) rnd(s, i + 1, 10^6) * ONE + rnd(s, i + 2, 1000)
    else sized(s, i + 1, 256)
  }
  // a partner: independent, or next to a boundary of the operation
  pure def partner(a: int, s: int, i: int): int = {
    val k = rnd(s, i, 10)
    val j = rnd(s, i + 1, 3) - 1
    val v = if (k < 2) a + j
            else if (k < 4 and a > 0) U256 / a + j
            else if (k == 4) U256 - a + j
            else if (k == 5 and a > 0) (U256 * ONE) / a + j
            else if (k == 6) sized(s, i + 2, 70)
            else operand(s, i + 2)
    maxI(0, minI(U256 - 1, v))
  }
  pure def digitsOf(n: int, s: int, i: int): List[int] = range(0, n).foldl([], (l, k) => l.append(48 + rnd(s, i + k, 10)))
  // a number as text, well formed or nearly
  pure def textual(s: int, wide: bool): List[int] = {
    val k = rnd(s, 1, 20)
    val a = if (wide) operand(s, 2) else sized(s, 2, 200)
    val w = if (k < 4) showU(a) else digitsOf(rnd(s, 20, if (wide) 80 else 30), s, 30)
    val f = digitsOf(pick([0, 1, 2, 17, 18, 19, 18, 5], s, 21), s, 130)
    val t = if (k < 8) w.concat([46]).concat(f) else if (k < 12) w else if (k == 12) showD(a) else if (k == 13) [48, 48].concat(w)
            else if (k == 14) [46].concat(f) else if (k == 15) w.concat([46]).concat(f).concat([46]).concat(f)
            else if (k == 16) [] else w.concat([46]).concat(f)
    // now and then a character that does not belong
    if (rnd(s, 22, 6) > 0) t
    else {
      val p = rnd(s, 23, t.length() + 1)
      t.slice(0, p).append(pick([32, 43, 45, 95, 101, 44, 46, 120, 1637, 10, 58, 47], s, 24)).concat(t.slice(p, t.length()))
    }
  }
  pure val OPS = ["d_add", "d_add_assign", "d_sub", "d_mul", "d_div", "d_ratio", "d_from_u", "d_percent", "d_permille", "d_cmp", "d_is_zero",
    "d_to_dec", "dec_to_d", "d_parse", "d_parse", "d_parse", "d_unjson", "d_show", "d_show", "d_json", "d_round", "d_one", "d_zero", "d_max",
    "u_add", "u_add_assign", "u_sub", "u_mul", "u_mul_d", "d_mul_u", "u_div_d", "u_mul_ratio", "u_cmp", "u_is_zero", "u_to_128", "u_to_uint128",
    "u_from_128", "u_from_uint128", "u_from_64", "u_raw", "u_parse", "u_parse", "u_try", "u_unjson", "u_show", "u_string", "u_json", "u_round", "u_one", "u_zero",
    "d_mul", "d_mul", "d_div", "d_ratio", "u_mul", "u_mul_d", "u_div_d", "u_mul_ratio", "u_mul_ratio"]
  pure def clip(op: str, a: int): int =
    if (Set("d_percent", "d_permille", "u_from_64").contains(op)) a % 2^64
    else if (Set("dec_to_d", "u_from_128", "u_from_uint128").contains(op)) a % U128
    else a
  pure def generate(s: int): Case = {
    val op = OPS[rnd(s, 0, OPS.length())]
    val a = operand(s, 200)
    val b = partner(a, s, 210)
    val c = partner(b, s, 220)
    // decimals that fit the narrow type are rare otherwise
    val a2 = if (Set("d_to_dec", "u_to_128", "u_to_uint128").contains(op) and rnd(s, 230, 3) > 0) a % (U128 + 2) else a
    val t = textual(s, op == "u_parse" or op == "u_try" or op == "u_unjson")
    // integers mostly without a point
    val whole = Set("u_parse", "u_try", "u_unjson").contains(op) and rnd(s, 240, 4) > 0
    { op: op, xs: [clip(op, a2), b, c], s: if (whole) t.slice(0, firstDot(t)) else t }
  }
}

// stepped by the driver: each case is evaluated by the library and the result put into `obs`
module bigsim {
  import arith.* from "./arith"
  import big.* from "./big"

  var case: Case
  var exp: Res
  var obs: Res

  action init: bool = all { case' = { op: "u_zero", xs: [0, 0, 0], s: [] }, exp' = num(0), obs' = num(0) }
  action tick: bool = {
    nondet s = 0.to(4611686018427387903).oneOf()
    val c = generate(s)
    val e = exact(c)
    all { case' = c, exp' = e, obs' = e }
  }
  action given(c: Case): bool = { val e = exact(c) all { case' = c, exp' = e, obs' = e } }
  val ok: bool = right(case, obs)
  val free: bool = mayAbort(case)
}
