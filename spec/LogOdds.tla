------------------------------ MODULE LogOdds -------------------------------
(***************************************************************************)
(* Probabilities and log-odds, as a state machine over odds 2^i * 3^j:     *)
(* multiplying the odds by 2 or 3 adds ln 2 or ln 3 to the log-odds.  The  *)
(* odds are kept exactly, as a pair of integers, so the invariants compare *)
(* the table of log-odds with true probabilities.  Values are in           *)
(* millionths.                                                             *)
(***************************************************************************)
EXTENDS Lattice

CONSTANT ASPECTS
A(p) == p \in ASPECTS

Ln2 == 693147
Ln3 == 1098612
Ell(i, j) == i * Ln2 + j * Ln3
FineEll(i, j) == RoundDiv(i * 6931472 + j * 10986123, 10)   \* for large exponents

VARIABLES i2, i3,     \* exponents
          num, den,   \* the odds num/den
          acc         \* log-odds accumulated so far
lovars == <<i2, i3, num, den, acc>>
Even == i2 = 0 /\ i3 = 0 /\ num = 1 /\ den = 1 /\ acc = 0
Mult(k) == IF den % k = 0 THEN den' = den \div k /\ num' = num ELSE num' = num * k /\ den' = den
Divd(k) == IF num % k = 0 THEN num' = num \div k /\ den' = den ELSE den' = den * k /\ num' = num
Double == Mult(2) /\ i2' = i2 + 1 /\ acc' = acc + Ln2 /\ i3' = i3
Halve  == Divd(2) /\ i2' = i2 - 1 /\ acc' = acc - Ln2 /\ i3' = i3
Triple == Mult(3) /\ i3' = i3 + 1 /\ acc' = acc + Ln3 /\ i2' = i2
Third  == Divd(3) /\ i3' = i3 - 1 /\ acc' = acc - Ln3 /\ i2' = i2
LoNext == Double \/ Halve \/ Triple \/ Third

\* The probability num / (num + den) in millionths (rounded down).
RECURSIVE Digits(_, _, _)
Digits(a, b, n) == IF n = 0 THEN 0
                   ELSE ((10 * a) \div b) * (10 ^ (n - 1)) + Digits((10 * a) % b, b, n - 1)
ProbOf(a, b) == Digits(a, a + b, 6)

\* The value does not depend on the path.
PathInv == acc = Ell(i2, i3) /\ Near(acc, FineEll(i2, i3), 1 + (Abs(i2) + Abs(i3)) \div 3)
SignInv == /\ (num > den) <=> acc > 0
           /\ (num = den) <=> acc = 0
           /\ (2 * ProbOf(num, den) > 1000000) => acc > 0
\* ln x lies between 1 - 1/x and x - 1; with x the odds (scaled down so that
\* the comparison fits).
Per1000(a, b) == (a * 1000) \div b
LnInv == /\ num >= den => acc \div 1000 <= Per1000(num - den, den) + 1
         /\ num <= den => (-acc) \div 1000 <= Per1000(den - num, num) + 1
         /\ num >= den => acc \div 1000 + 1 >= Per1000(num - den, num)
         /\ num <= den => (-acc) \div 1000 + 1 >= Per1000(den - num, den)

-----------------------------------------------------------------------------
(* Recorded calls.  f32 near p = 1 resolves 1 - p to 0.06 millionths.      *)
Tol(p) == 3 + 120000 \div Max2(1000000 - p, 1)

LogOddsRel(e) ==
  A("C22") =>
    /\ ~("failed" \in DOMAIN e)
    /\ Near(e.l, FineEll(e.i, e.j), Tol(e.p) + Abs(e.l) \div 8000000)
    /\ Near(e.back, e.p, 2) /\ Near(e.q, e.p, 2)

Infinite == 2000000000
ChainRel(e) ==
  A("C22") =>
    /\ ~("failed" \in DOMAIN e)
    /\ Len(e.l) = Len(e.ps) /\ Len(e.p) = Len(e.ls)
    /\ \A k \in 1..(Len(e.l) - 1) : e.l[k] < e.l[k + 1]
    \* certainties, and nothing that is not a number
    /\ \A k \in 1..Len(e.l) :
          /\ IF e.ps[k] = 0 THEN e.l[k] = -Infinite
             ELSE IF e.ps[k] = 1000000 THEN e.l[k] = Infinite
             ELSE Abs(e.l[k]) < Infinite
          /\ Near(e.back[k], e.ps[k], 2)
    /\ \A k \in 1..Len(e.p) :
          /\ e.p[k] >= 0 /\ e.p[k] <= 1000000
          /\ e.ls[k] >= 20000 => e.p[k] = 1000000
          /\ e.ls[k] <= -20000 => e.p[k] = 0
    /\ \A k \in 1..(Len(e.p) - 1) :
          /\ e.p[k] <= e.p[k + 1]
          /\ (Abs(e.ls[k]) <= 5000 /\ Abs(e.ls[k + 1]) <= 5000) => e.p[k] < e.p[k + 1]
    /\ \A k \in 1..Len(e.l) : \A q \in 1..Len(e.l) :
          e.ps[k] + e.ps[q] = 1000000 => Near(e.l[k], -e.l[q], Tol(Max2(e.ps[k], e.ps[q])))
    /\ \A k \in 1..Len(e.p) : e.ls[k] = 0 => e.p[k] = 500000
    /\ \A k \in 1..Len(e.l) :
          LET p == e.ps[k]
          IN /\ (p > 500000) <=> e.l[k] > 0
             \* sandwiched by the powers of two
             /\ \A i \in 0..20 :
                  LET up == ProbOf(2^i, 1)  dn == ProbOf(1, 2^i)
                  IN /\ p > up + 1 => e.l[k] >= i * Ln2 - Tol(p)
                     /\ p < up => e.l[k] <= i * Ln2 + Tol(p)
                     /\ p > dn + 1 => e.l[k] >= -i * Ln2 - Tol(p)
                     /\ p < dn => e.l[k] <= -i * Ln2 + Tol(p)

ValidP(p) == p >= 0 /\ p <= 1000000
NoiseRel(e) ==
  A("C22") =>
    IF \A k \in 1..5 : ValidP(e.ps[k])
    THEN /\ ~("failed" \in DOMAIN e)
         /\ \A k \in 1..5 : Near(e.l[k], e.want[k], 1)
         /\ Near(e.r, e.range, 1)
         /\ e.mode = 0 => /\ Near(e.l[1], 847298, 2) /\ Near(e.l[2], -405465, 2)
                          /\ Near(e.l[3], -2000028, 2) /\ Near(e.l[4], 3511031, 2)
                          /\ e.l[5] = 0
    ELSE "failed" \in DOMAIN e

SignOf(x) == Sgn(x) * 1000000
SignRel(e) ==
  A("C24") =>
    /\ ~("failed" \in DOMAIN e)
    /\ \A k \in 1..3 : e.s[k] = SignOf(e.v[k]) /\ e.t[k] = SignOf(e.v[k])
    /\ \A k \in 1..2 : e.t2[k] = SignOf(e.v[k])

LoRel(e) == CASE e.op = "logodds" -> LogOddsRel(e)
              [] e.op = "lochain" -> ChainRel(e)
              [] e.op = "nm"      -> NoiseRel(e)
              [] e.op = "sgn"     -> SignRel(e)
              [] OTHER -> FALSE
=============================================================================
