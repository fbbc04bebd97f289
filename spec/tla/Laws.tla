-------------------------------- MODULE Laws --------------------------------
(* The laws of the pair's arithmetic, for amounts of every size, proved with TLAPS.       *)
(* The formulas are those of ../amm.qnt (grossOf, shareOf, refundOf, offerFor); the        *)
(* machine below is the pair as ../halo.qnt has it, reduced to its reserves and LP supply. *)
EXTENDS Integers, TLAPS

CONSTANT ONE
ASSUME OneLaw == ONE \in Nat /\ ONE > 0

Gross(O, A, d) == (d * A) \div (O + d)
Share(d, S, p) == (d * S) \div p
Ratio(a, S)    == (a * ONE) \div S
Refund(p, a, S) == (p * Ratio(a, S)) \div ONE

LEMMA DivLaw == ASSUME NEW n \in Nat, NEW m \in Nat, m > 0
  PROVE  /\ (n \div m) \in Nat
         /\ (n \div m) * m <= n
         /\ n < ((n \div m) + 1) * m
  BY Z3T(60)

LEMMA ProdNat == \A x, y \in Nat : x * y \in Nat  BY Z3T(30)
LEMMA MulMono == \A x, y, z \in Nat : x <= y => x * z <= y * z  BY Z3T(60)
LEMMA Dist == \A x, y, z \in Int : (x + y) * z = x * z + y * z /\ (x - y) * z = x * z - y * z  BY Z3T(60)
LEMMA Comm == \A x, y \in Int : x * y = y * x  BY Z3T(60)
LEMMA Assoc == \A x, y, z \in Int : (x * y) * z = x * (y * z)  BY Z3T(60)
LEMMA MulCancel ==
  ASSUME NEW x \in Nat, NEW y \in Nat, NEW z \in Nat, z > 0, x * z <= y * z
  PROVE  x <= y
<1>1. SUFFICES ASSUME x >= y + 1 PROVE FALSE  BY Z3T(30)
<1>2. (y + 1) * z <= x * z  BY <1>1, MulMono, Z3T(30)
<1>3. (y + 1) * z = y * z + z  BY Dist, Z3T(30)
<1> QED BY <1>2, <1>3, ProdNat, Z3T(30)

(* C02: the gross return is less than the reserve: a swap can always be paid *)
THEOREM GrossFits ==
  ASSUME NEW O \in Nat, NEW A \in Nat, NEW d \in Nat, O > 0
  PROVE  Gross(O, A, d) \in Nat /\ Gross(O, A, d) <= A
<1> DEFINE g == Gross(O, A, d)
<1>1. d * A \in Nat /\ O + d \in Nat /\ O + d > 0  BY ProdNat, Z3T(30)
<1>2. g \in Nat /\ g * (O + d) <= d * A  BY <1>1, DivLaw DEF Gross
<1>3. d * A <= A * (O + d)  BY Z3T(30)
<1>4. g * (O + d) <= A * (O + d)  BY <1>1, <1>2, <1>3, ProdNat, Z3T(30)
<1> QED BY <1>1, <1>2, <1>4, MulCancel DEF Gross

(* C01: whatever part of the gross return stays in the pool *)
THEOREM Product ==
  ASSUME NEW O \in Nat, NEW A \in Nat, NEW d \in Nat, O + d > 0,
         NEW paid \in Nat, paid <= Gross(O, A, d)
  PROVE  (O + d) * (A - paid) >= O * A
<1> DEFINE g == Gross(O, A, d)
<1>1. d * A \in Nat /\ O + d \in Nat /\ O + d > 0  BY ProdNat, Z3T(30)
<1>2. g \in Nat /\ g * (O + d) <= d * A  BY <1>1, DivLaw DEF Gross
<1>3. paid * (O + d) <= g * (O + d)  BY <1>1, <1>2, MulMono
<1>4. (O + d) * (A - paid) = O * A + d * A - paid * (O + d)  BY Z3T(30)
<1> QED BY <1>1, <1>2, <1>3, <1>4, ProdNat, Z3T(30)

(* C01: swapping forth and back never pays *)
THEOREM ThereAndBack ==
  ASSUME NEW O \in Nat, NEW A \in Nat, NEW d \in Nat, O > 0, A > 0,
         NEW x \in Nat, x <= Gross(O, A, d), NEW y \in Nat, y <= Gross(A - x, O + d, x)
  PROVE  y <= d
<1>1. d * A \in Nat /\ O + d \in Nat /\ O + d > 0 /\ x * (O + d) \in Nat  BY ProdNat, Z3T(30)
<1>2. Gross(O, A, d) \in Nat /\ Gross(O, A, d) <= A /\ Gross(O, A, d) * (O + d) <= d * A
      BY <1>1, GrossFits, DivLaw DEF Gross
<1>3. x * (O + d) <= d * A  BY <1>1, <1>2, MulMono, ProdNat, Z3T(30)
<1>4. A - x \in Nat /\ (A - x) + x = A  BY <1>2, Z3T(30)
<1>5. Gross(A - x, O + d, x) = (x * (O + d)) \div A  BY <1>4 DEF Gross
<1>6. Gross(A - x, O + d, x) \in Nat /\ Gross(A - x, O + d, x) * A <= x * (O + d)  BY <1>1, <1>5, DivLaw
<1>7. y * A <= d * A  BY <1>1, <1>3, <1>6, MulMono, ProdNat, Z3T(30)
<1> QED BY <1>7, MulCancel

(* C03, C04: minting no more than the share leaves every LP token its part of each reserve *)
THEOREM ProvideKeepsBacking ==
  ASSUME NEW p \in Nat, NEW S \in Nat, NEW d \in Nat, p > 0,
         NEW s \in Nat, s <= Share(d, S, p)
  PROVE  (p + d) * S >= p * (S + s)
<1>1. d * S \in Nat  BY ProdNat
<1>2. Share(d, S, p) \in Nat /\ Share(d, S, p) * p <= d * S  BY <1>1, DivLaw DEF Share
<1>3. s * p <= d * S  BY <1>1, <1>2, MulMono, ProdNat, Z3T(30)
<1>4. (p + d) * S = p * S + d * S /\ p * (S + s) = p * S + s * p  BY Z3T(30)
<1> QED BY <1>1, <1>3, <1>4, ProdNat, Z3T(30)

LEMMA RefundLaw ==
  ASSUME NEW p \in Nat, NEW S \in Nat, NEW a \in Nat, S > 0, a <= S
  PROVE  /\ Refund(p, a, S) \in Nat
         /\ Refund(p, a, S) * S <= p * a
         /\ Refund(p, a, S) <= p
<1> DEFINE r == Ratio(a, S)
           out == Refund(p, a, S)
<1>0. ONE \in Nat /\ ONE > 0  BY OneLaw
<1>1. a * ONE \in Nat /\ r \in Nat /\ r * S <= a * ONE  BY <1>0, ProdNat, DivLaw DEF Ratio
<1>2. p * r \in Nat /\ out \in Nat /\ out * ONE <= p * r  BY <1>0, <1>1, ProdNat, DivLaw DEF Refund
<1>3. (out * ONE) * S <= (p * r) * S  BY <1>0, <1>1, <1>2, ProdNat, MulMono
<1>4. p * (r * S) <= p * (a * ONE)  BY <1>1, ProdNat, MulMono, Z3T(30)
<1>5. (p * r) * S = p * (r * S)  BY <1>1, Assoc
<1>5a. p * (a * ONE) = (p * a) * ONE  BY <1>0, Assoc
<1>5b. (out * ONE) * S = out * (ONE * S) /\ (out * S) * ONE = out * (S * ONE) /\ ONE * S = S * ONE
      BY <1>0, <1>2, Assoc, Comm
<1>6. (out * S) * ONE <= (p * a) * ONE
      BY <1>0, <1>1, <1>2, <1>3, <1>4, <1>5, <1>5a, <1>5b, ProdNat, Z3T(30)
<1>7. out * S <= p * a  BY <1>0, <1>2, <1>6, ProdNat, MulCancel
<1>8. p * a <= p * S  BY MulMono, Z3T(30)
<1>9. out * S <= p * S  BY <1>2, <1>7, <1>8, ProdNat, Z3T(30)
<1> QED BY <1>2, <1>7, <1>9, MulCancel

(* C03, C06 *)
THEOREM WithdrawKeepsBacking ==
  ASSUME NEW p \in Nat, NEW S \in Nat, NEW a \in Nat, S > 0, a <= S
  PROVE  (p - Refund(p, a, S)) * S >= p * (S - a)
<1> DEFINE out == Refund(p, a, S)
<1>1. out \in Nat /\ out * S <= p * a  BY RefundLaw
<1>2. (p - out) * S = p * S - out * S  BY <1>1, Dist
<1>3. p * (S - a) = (S - a) * p /\ (S - a) * p = S * p - a * p /\ S * p = p * S /\ a * p = p * a  BY Dist, Comm
<1> QED BY <1>1, <1>2, <1>3, ProdNat, Z3T(30)

(* C03: what is provided cannot be withdrawn with a gain *)
THEOREM NoGain ==
  ASSUME NEW p \in Nat, NEW S \in Nat, NEW d \in Nat, p > 0, S > 0,
         NEW s \in Nat, s <= Share(d, S, p)
  PROVE  Refund(p + d, s, S + s) <= d
<1> DEFINE out == Refund(p + d, s, S + s)
<1>1. d * S \in Nat /\ S + s \in Nat /\ S + s > 0 /\ s <= S + s /\ p + d \in Nat  BY ProdNat, Z3T(30)
<1>2. Share(d, S, p) \in Nat /\ Share(d, S, p) * p <= d * S  BY <1>1, DivLaw DEF Share
<1>3a. s * p <= Share(d, S, p) * p  BY <1>2, MulMono
<1>3. s * p <= d * S  BY <1>1, <1>2, <1>3a, ProdNat, Z3T(30)
<1>4. out \in Nat /\ out * (S + s) <= (p + d) * s  BY <1>1, RefundLaw
<1>5. (p + d) * s = s * p + d * s /\ d * (S + s) = d * S + d * s  BY Z3T(30)
<1>6. out * (S + s) <= d * (S + s)  BY <1>1, <1>3, <1>4, <1>5, ProdNat, Z3T(30)
<1> QED BY <1>1, <1>4, <1>6, MulCancel

(* C10: the quoted offer and one unit more buys the asked amount before commission *)
THEOREM ReverseQuote ==
  ASSUME NEW O \in Nat, NEW A \in Nat, NEW b \in Nat, O > 0, b < A,
         NEW o \in Nat, o + 1 + O > (O * A) \div (A - b)
  PROVE  Gross(O, A, o + 1) >= b
<1> DEFINE q == (O * A) \div (A - b)
           n == O + (o + 1)
<1>1. O * A \in Nat /\ A - b \in Nat /\ A - b > 0 /\ n \in Nat /\ n > 0 /\ o + 1 \in Nat  BY ProdNat, Z3T(30)
<1>2. q \in Nat /\ O * A < (q + 1) * (A - b)  BY <1>1, DivLaw
<1>3. (q + 1) * (A - b) <= n * (A - b)  BY <1>1, <1>2, MulMono, Z3T(30)
<1>4. O * A < n * (A - b)  BY <1>1, <1>2, <1>3, ProdNat, Z3T(30)
<1>5. n * (A - b) = O * A + (o + 1) * A - b * n  BY <1>1, Z3T(30)
<1>6. b * n <= (o + 1) * A  BY <1>1, <1>4, <1>5, ProdNat, Z3T(30)
<1> DEFINE g == Gross(O, A, o + 1)
<1>7. (o + 1) * A \in Nat /\ g \in Nat /\ (o + 1) * A < (g + 1) * n  BY <1>1, ProdNat, DivLaw DEF Gross
<1>8. b * n < (g + 1) * n  BY <1>1, <1>6, <1>7, ProdNat, Z3T(30)
<1>9. SUFFICES ASSUME g + 1 <= b PROVE FALSE  BY <1>7, Z3T(30)
<1>10. (g + 1) * n <= b * n  BY <1>1, <1>7, <1>9, MulMono, Z3T(30)
<1>11. g + 1 \in Nat  BY <1>7, Z3T(30)
<1> QED BY <1>1, <1>8, <1>10, <1>11, ProdNat, Z3T(30)

(* C10: and that is enough for the asked amount after the commission of three per mille *)
THEOREM ReverseNet ==
  ASSUME NEW r \in Nat, NEW g \in Nat, g >= (r * 1000) \div 997
  PROVE  g - ((g * 3) \div 1000) >= r
<1> DEFINE b == (r * 1000) \div 997
           f == (g * 3) \div 1000
<1>1. b \in Nat /\ r * 1000 < (b + 1) * 997  BY DivLaw, Z3T(30)
<1>2. f \in Nat /\ f * 1000 <= g * 3  BY DivLaw, Z3T(30)
<1> QED BY <1>1, <1>2, Z3T(30)

-----------------------------------------------------------------------------
(* The pair: reserves x, y and LP supply S, under everything that can happen to them *)
VARIABLES x, y, S
vars == <<x, y, S>>

TypeOK == x \in Nat /\ y \in Nat /\ S \in Nat
Init == x = 0 /\ y = 0 /\ S = 0

SwapX == /\ S' = S
         /\ \E d \in Nat : \E paid \in Nat :
              x + d > 0 /\ paid <= Gross(x, y, d) /\ x' = x + d /\ y' = y - paid /\ paid <= y
SwapY == /\ S' = S
         /\ \E d \in Nat : \E paid \in Nat :
              y + d > 0 /\ paid <= Gross(y, x, d) /\ y' = y + d /\ x' = x - paid /\ paid <= x
Donate == S' = S /\ \E d \in Nat, e \in Nat : x' = x + d /\ y' = y + e
First  == S = 0 /\ \E d \in Nat, e \in Nat, s \in Nat : s * s <= d * e /\ x' = x + d /\ y' = y + e /\ S' = s
Provide == /\ S > 0 /\ x > 0 /\ y > 0
           /\ \E d \in Nat, e \in Nat, s \in Nat :
                s <= Share(d, S, x) /\ s <= Share(e, S, y) /\ x' = x + d /\ y' = y + e /\ S' = S + s
Withdraw == /\ S > 0
            /\ \E a \in Nat : a <= S /\ x' = x - Refund(x, a, S) /\ y' = y - Refund(y, a, S) /\ S' = S - a
Burn == \E a \in Nat : a <= S /\ S' = S - a /\ x' = x /\ y' = y
Next == SwapX \/ SwapY \/ Donate \/ First \/ Provide \/ Withdraw \/ Burn
Spec == Init /\ [][Next]_vars

(* x*y / S^2 never decreases while LP tokens are outstanding *)
Backing == S > 0 => x' * y' * (S * S) >= x * y * (S' * S')

LEMMA NextTyped == ASSUME TypeOK, [Next]_vars PROVE TypeOK'
<1>1. CASE SwapX  BY <1>1, Z3T(30) DEF SwapX, TypeOK
<1>2. CASE SwapY  BY <1>2, Z3T(30) DEF SwapY, TypeOK
<1>3. CASE Donate  BY <1>3, Z3T(30) DEF Donate, TypeOK
<1>4. CASE First  BY <1>4, Z3T(30) DEF First, TypeOK
<1>5. CASE Provide  BY <1>5, Z3T(30) DEF Provide, TypeOK
<1>6. CASE Withdraw
  <2> PICK a \in Nat : a <= S /\ x' = x - Refund(x, a, S) /\ y' = y - Refund(y, a, S) /\ S' = S - a
      BY <1>6 DEF Withdraw
  <2>1. S > 0 /\ x \in Nat /\ y \in Nat /\ S \in Nat  BY <1>6 DEF Withdraw, TypeOK
  <2>2. Refund(x, a, S) \in Nat /\ Refund(x, a, S) <= x  BY <2>1, RefundLaw
  <2>3. Refund(y, a, S) \in Nat /\ Refund(y, a, S) <= y  BY <2>1, RefundLaw
  <2> QED BY <2>1, <2>2, <2>3, Z3T(30) DEF TypeOK
<1>7. CASE Burn  BY <1>7, Z3T(30) DEF Burn, TypeOK
<1>8. CASE UNCHANGED vars  BY <1>8 DEF vars, TypeOK
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8 DEF Next

THEOREM Typed == Spec => []TypeOK
<1>1. Init => TypeOK  BY DEF Init, TypeOK
<1> QED BY <1>1, NextTyped, PTL DEF Spec

LEMMA Scale ==
  ASSUME NEW a \in Nat, NEW b \in Nat, NEW c \in Nat, NEW d \in Nat, NEW s \in Nat, NEW t \in Nat,
         c * s >= a * t, d * s >= b * t
  PROVE  (c * d) * (s * s) >= (a * b) * (t * t)
<1>1. a * t \in Nat /\ b * t \in Nat /\ c * s \in Nat /\ d * s \in Nat  BY ProdNat
<1>2. (a * t) * (b * t) <= (c * s) * (b * t)  BY <1>1, MulMono
<1>3. (b * t) * (c * s) <= (d * s) * (c * s)  BY <1>1, MulMono
<1>4. (a * t) * (b * t) = (a * b) * (t * t) /\ (c * s) * (d * s) = (c * d) * (s * s)  BY Z3T(30)
<1>5. (c * s) * (b * t) = (b * t) * (c * s) /\ (d * s) * (c * s) = (c * s) * (d * s)  BY <1>1, Z3T(30)
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, ProdNat, Z3T(30)

LEMMA Keeps == ASSUME TypeOK, Next PROVE Backing
<1> USE DEF TypeOK
<1>a. x \in Nat /\ y \in Nat /\ S \in Nat  OBVIOUS
<1>1. CASE SwapX
  <2> PICK d \in Nat, paid \in Nat : x + d > 0 /\ paid <= Gross(x, y, d) /\ x' = x + d /\ y' = y - paid /\ paid <= y
      BY <1>1 DEF SwapX
  <2>1. x' * y' >= x * y  BY <1>a, Product
  <2>2. x' * y' \in Nat /\ x * y \in Nat /\ S * S \in Nat /\ S' = S
    <3>1. x' \in Nat /\ y' \in Nat  BY <1>a, Z3T(30)
    <3> QED BY <3>1, <1>a, <1>1, ProdNat DEF SwapX
  <2>3. (x * y) * (S * S) <= (x' * y') * (S * S)  BY <2>1, <2>2, MulMono, Z3T(30)
  <2> QED BY <2>2, <2>3, ProdNat, Z3T(30) DEF Backing
<1>2. CASE SwapY
  <2> PICK d \in Nat, paid \in Nat : y + d > 0 /\ paid <= Gross(y, x, d) /\ y' = y + d /\ x' = x - paid /\ paid <= x
      BY <1>2 DEF SwapY
  <2>1. y' * x' >= y * x  BY <1>a, Product
  <2>2. x' * y' \in Nat /\ x * y \in Nat /\ S * S \in Nat /\ S' = S /\ x' * y' = y' * x' /\ x * y = y * x
    <3>1. x' \in Nat /\ y' \in Nat  BY <1>a, Z3T(30)
    <3> QED BY <3>1, <1>a, <1>2, ProdNat, Z3T(30) DEF SwapY
  <2>3. (x * y) * (S * S) <= (x' * y') * (S * S)  BY <2>1, <2>2, MulMono, Z3T(30)
  <2> QED BY <2>2, <2>3, ProdNat, Z3T(30) DEF Backing
<1>3. CASE Donate
  <2> PICK d \in Nat, e \in Nat : x' = x + d /\ y' = y + e  BY <1>3 DEF Donate
  <2>1. x' \in Nat /\ y' \in Nat /\ x <= x' /\ y <= y' /\ S' = S  BY <1>a, <1>3, Z3T(30) DEF Donate
  <2>2. x' * S >= x * S /\ y' * S >= y * S  BY <1>a, <2>1, MulMono, ProdNat, Z3T(30)
  <2> QED BY <1>a, <2>1, <2>2, Scale DEF Backing
<1>4. CASE First  BY <1>4, <1>a, Z3T(30) DEF First, Backing
<1>5. CASE Provide
  <2> PICK d \in Nat, e \in Nat, s \in Nat :
        s <= Share(d, S, x) /\ s <= Share(e, S, y) /\ x' = x + d /\ y' = y + e /\ S' = S + s  BY <1>5 DEF Provide
  <2>1. x > 0 /\ y > 0 /\ S > 0  BY <1>5 DEF Provide
  <2>2. x' * S >= x * S'  BY <1>a, <2>1, ProvideKeepsBacking
  <2>3. y' * S >= y * S'  BY <1>a, <2>1, ProvideKeepsBacking
  <2>4. x' \in Nat /\ y' \in Nat /\ S' \in Nat  BY <1>a, Z3T(30)
  <2> QED BY <1>a, <2>2, <2>3, <2>4, Scale DEF Backing
<1>6. CASE Withdraw
  <2> PICK a \in Nat : a <= S /\ x' = x - Refund(x, a, S) /\ y' = y - Refund(y, a, S) /\ S' = S - a
      BY <1>6 DEF Withdraw
  <2>1. S > 0  BY <1>6 DEF Withdraw
  <2>2. x' * S >= x * S'  BY <1>a, <2>1, WithdrawKeepsBacking
  <2>3. y' * S >= y * S'  BY <1>a, <2>1, WithdrawKeepsBacking
  <2>4. Refund(x, a, S) \in Nat /\ Refund(x, a, S) <= x /\ Refund(y, a, S) \in Nat /\ Refund(y, a, S) <= y
        BY <1>a, <2>1, RefundLaw
  <2>5. x' \in Nat /\ y' \in Nat /\ S' \in Nat  BY <1>a, <2>4, Z3T(30)
  <2> QED BY <1>a, <2>2, <2>3, <2>5, Scale DEF Backing
<1>7. CASE Burn
  <2> PICK a \in Nat : a <= S /\ S' = S - a /\ x' = x /\ y' = y  BY <1>7 DEF Burn
  <2>1. S' \in Nat /\ S' <= S  BY <1>a, Z3T(30)
  <2>2. x' * S >= x * S' /\ y' * S >= y * S'  BY <1>a, <2>1, MulMono, ProdNat, Z3T(30)
  <2> QED BY <1>a, <2>1, <2>2, Scale DEF Backing
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7 DEF Next

(* C03, for every history of every length *)
THEOREM NeverDiluted == Spec => [][Backing]_vars
<1>1. TypeOK /\ [Next]_vars => [Backing]_vars  BY Keeps DEF vars
<1> QED BY <1>1, Typed, PTL DEF Spec
-----------------------------------------------------------------------------
(* One account against the rest, who hold `held` LP tokens and do nothing. Assets are only *)
(* moved, so the account has gained exactly what the reserves have lost.                   *)
CONSTANTS x0, y0, held
ASSUME Start == x0 \in Nat /\ y0 \in Nat /\ held \in Nat /\ x0 > 0 /\ y0 > 0 /\ held > 0

Alone == Next /\ S' >= held
AInit == x = x0 /\ y = y0 /\ S = held
ASpec == AInit /\ [][Alone]_vars
AInv == TypeOK /\ S >= held /\ x * y * (held * held) >= x0 * y0 * (S * S)
Gain == S = held /\ x <= x0 /\ y <= y0 /\ (x < x0 \/ y < y0)

LEMMA Chain ==
  ASSUME NEW p \in Nat, NEW q \in Nat, NEW r \in Nat, NEW s \in Nat, NEW t \in Nat, NEW h \in Nat, s > 0,
         q * s >= p * t, p * h >= r * s
  PROVE  q * h >= r * t
<1>1. (p * t) * h <= (q * s) * h  BY ProdNat, MulMono
<1>2. (r * s) * t <= (p * h) * t  BY ProdNat, MulMono
<1>3. (p * t) * h = p * (t * h) /\ t * h = h * t /\ p * (h * t) = (p * h) * t  BY Assoc, Comm
<1>4. (q * s) * h = q * (s * h) /\ s * h = h * s /\ q * (h * s) = (q * h) * s  BY Assoc, Comm
<1>5. (r * s) * t = r * (s * t) /\ s * t = t * s /\ r * (t * s) = (r * t) * s  BY Assoc, Comm
<1>6. (r * t) * s <= (q * h) * s  BY <1>1, <1>2, <1>3, <1>4, <1>5, ProdNat, Z3T(30)
<1> QED BY <1>6, ProdNat, MulCancel

(* whatever the account does, as often as it likes: once it holds no LP tokens it has gained nothing *)
THEOREM NoAttack == ASpec => []~Gain
<1>1. AInit => AInv
  <2> SUFFICES ASSUME AInit PROVE AInv  OBVIOUS
  <2> QED BY Start, ProdNat, Z3T(30) DEF AInit, AInv, TypeOK
<1>2. AInv /\ [Alone]_vars => AInv'
  <2> SUFFICES ASSUME AInv, [Alone]_vars PROVE AInv'  OBVIOUS
  <2>1. CASE UNCHANGED vars  BY <2>1 DEF vars, AInv, TypeOK
  <2>2. CASE Alone
    <3>1. TypeOK /\ S > 0 /\ S >= held /\ S' >= held  BY <2>2, Start, Z3T(30) DEF AInv, TypeOK, Alone
    <3>2. TypeOK'  BY <2>2, <3>1, NextTyped DEF Alone
    <3>3. x' * y' * (S * S) >= x * y * (S' * S')  BY <2>2, <3>1, Keeps DEF Alone, Backing
    <3>4. /\ x * y \in Nat /\ x' * y' \in Nat /\ S * S \in Nat /\ S' * S' \in Nat
          /\ x0 * y0 \in Nat /\ held * held \in Nat  BY <3>1, <3>2, Start, ProdNat DEF TypeOK
    <3>5. S * S > 0  BY <3>1, Z3T(30) DEF TypeOK
    <3>6. x * y * (held * held) >= x0 * y0 * (S * S)  BY DEF AInv
    <3>7. x' * y' * (held * held) >= x0 * y0 * (S' * S')  BY <3>3, <3>4, <3>5, <3>6, Chain
    <3> QED BY <3>1, <3>2, <3>7 DEF AInv
  <2> QED BY <2>1, <2>2
<1>3. AInv => ~Gain
  <2> SUFFICES ASSUME AInv, Gain PROVE FALSE  OBVIOUS
  <2>1. x \in Nat /\ y \in Nat /\ S = held /\ x <= x0 /\ y <= y0 /\ (x < x0 \/ y < y0)  BY DEF AInv, Gain, TypeOK
  <2>2. held * held \in Nat /\ held * held > 0 /\ x * y \in Nat /\ x0 * y0 \in Nat  BY <2>1, Start, ProdNat, Z3T(30)
  <2>3. x0 * y0 * (held * held) <= x * y * (held * held)  BY <2>1 DEF AInv
  <2>4. x0 * y0 <= x * y  BY <2>2, <2>3, MulCancel
  <2>5. x * y <= x * y0 /\ x * y <= x0 * y /\ x * y0 <= x0 * y0 /\ x0 * y <= x0 * y0
        BY <2>1, Start, MulMono, Comm
  <2>6. CASE x < x0
    <3>1. (x + 1) * y0 <= x0 * y0  BY <2>1, <2>6, Start, MulMono, Z3T(30)
    <3>2. (x + 1) * y0 = x * y0 + y0  BY <2>1, Start, Dist, Z3T(30)
    <3> QED BY <3>1, <3>2, <2>1, <2>4, <2>5, Start, ProdNat, Z3T(30)
  <2>7. CASE y < y0
    <3>1. (y + 1) * x0 <= y0 * x0  BY <2>1, <2>7, Start, MulMono, Z3T(30)
    <3>2. (y + 1) * x0 = y * x0 + x0 /\ y0 * x0 = x0 * y0 /\ y * x0 = x0 * y  BY <2>1, Start, Dist, Comm, Z3T(30)
    <3> QED BY <3>1, <3>2, <2>1, <2>4, <2>5, Start, ProdNat, Z3T(30)
  <2> QED BY <2>1, <2>6, <2>7
<1> QED BY <1>1, <1>2, <1>3, PTL DEF ASpec
=============================================================================
