------------------------------ MODULE Problems ------------------------------
(***************************************************************************)
(* The published formulas of the test problems (C23) at lattice points:     *)
(* coordinates are u[j] times the spacing of the problem's lattice.         *)
(*   Exact problems: Num(name, u, p) is value * Den(name, n), modulo p.     *)
(*   Others: Fix(name, u) is value * Scale(name), up to Tol(name).          *)
(***************************************************************************)
EXTENDS ProblemTable, FiniteSets, TLC
Exact == {"Sphere", "SumOfSquares", "Rosenbrock", "Zakharov", "GoldsteinPrice", "Himmelblau", "SixHumpCamel", "Perm", "Rastrigin"}
Tabled == {"Ackley", "Branin", "Exponential", "Griewank", "Hartmann3", "Hartmann6", "Levy", "Michalewicz", "Schwefel", "Weierstrass"}
Names == Exact \cup Tabled

RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
RECURSIVE SumMod(_, _, _)
SumMod(f, n, p) == IF n = 0 THEN 0 ELSE (f[n] + SumMod(f, n - 1, p)) % p
RECURSIVE Power(_, _, _)
Power(x, k, p) == IF k = 0 THEN 1 ELSE ((x % p) * Power(x, k - 1, p)) % p
Sq(x, p) == Power(x, 2, p)
Times(a, b, p) == ((a % p) * (b % p)) % p
Even(k) == k % 2 = 0

\* -- exact ones; x = u/2 except Rastrigin (u/4) and Perm (u) ----------------
Lcm == <<1, 2, 6, 12>>
Den(name, n) ==
  CASE name \in {"Sphere", "SumOfSquares", "Rosenbrock"} -> 4
    [] name \in {"Zakharov", "GoldsteinPrice"} -> 256
    [] name = "Himmelblau" -> 32 * n
    [] name = "SixHumpCamel" -> 960
    [] name = "Rastrigin" -> 16
    [] name = "Perm" -> Power(Lcm[n], 2 * n, 2000000000)
Cos4(u) == LET r == u % 4 IN IF r = 0 THEN 1 ELSE IF r = 2 THEN -1 ELSE 0  \* cos(2 pi u/4)
Num(name, u, p) ==
  LET n == Len(u)  D == 1..n
      s2 == SumMod([j \in D |-> Sq(u[j], p)], n, p)
  IN CASE name = "Sphere" -> s2
       [] name = "SumOfSquares" -> SumMod([j \in D |-> Times(j, Sq(u[j], p), p)], n, p)
       [] name = "Rosenbrock" -> SumMod([j \in 1..(n - 1) |-> (Times(25, Sq(u[j] * u[j] - 2 * u[j + 1], p), p) + Sq(2 - u[j], p)) % p], n - 1, p)
       [] name = "Zakharov" -> LET t == SumMod([j \in D |-> (j * u[j]) % p], n, p)
                               IN (Times(64, s2, p) + Times(16, Sq(t, p), p) + Power(t, 4, p)) % p
       [] name = "GoldsteinPrice" ->
            LET a == u[1]  b == u[2]
                f1 == (16 + Times(Sq(a + b + 2, p), 76 - 28 * a + 3 * a * a - 28 * b + 6 * a * b + 3 * b * b, p)) % p
                f2 == (480 + Times(Sq(2 * a - 3 * b, p), 72 - 64 * a + 12 * a * a + 96 * b - 36 * a * b + 27 * b * b, p)) % p
            IN Times(f1, f2, p)
       [] name = "Himmelblau" -> SumMod([j \in D |-> (Power(u[j], 4, p) - Times(64, Sq(u[j], p), p) + 40 * u[j]) % p], n, p)
       [] name = "SixHumpCamel" ->
            LET a == u[1]  b == u[2]
            IN (Times(960, a * a, p) - Times(126, Power(a, 4, p), p) + Times(5, Power(a, 6, p), p) + Times(240, a * b, p) - Times(960, b * b, p) + Times(240, Power(b, 4, p), p)) % p
       [] name = "Rastrigin" -> (160 * n + SumMod([j \in D |-> (u[j] * u[j] - 160 * Cos4(u[j])) % p], n, p)) % p
       [] name = "Perm" ->
            LET L == Lcm[n]
                inner(i) == SumMod([j \in D |-> Times(j + 10, Power(L * u[j], i, p) - Power(L \div j, i, p), p)], n, p)
            IN SumMod([i \in D |-> Times(Sq(inner(i), p), Power(L, 2 * (n - i), p), p)], n, p)

\* -- tabled ones ------------------------------------------------------------
RECURSIVE ProdFix(_, _, _)
\* product of numbers in units of 1/s
ProdFix(f, n, s) == IF n = 0 THEN s ELSE (f[n] * ProdFix(f, n - 1, s)) \div s
Scale(name) == IF name \in {"Ackley", "Levy", "Michalewicz"} THEN 1000000 ELSE IF name \in {"Branin", "Exponential"} THEN 1000 ELSE 10000
Tol(name) == CASE name = "Branin" -> 30 [] name = "Griewank" -> 20 [] name \in {"Hartmann3", "Hartmann6"} -> 60 [] name = "Levy" -> 120 [] OTHER -> 20
Fix(name, u) ==
  LET n == Len(u)  D == 1..n IN
  CASE name = "Ackley" -> 20000000 + 2718282 - AckR(n, Sum([j \in D |-> u[j] * u[j]], n)) - AckE(n, Sum([j \in D |-> IF Even(u[j]) THEN 1 ELSE -1], n))
    [] name = "Branin" -> ((BraA(u[1]) + 1000 * u[2]) * (BraA(u[1]) + 1000 * u[2])) \div 1000 + BraC(u[1])
    [] name = "Exponential" -> Sum([j \in D |-> ExpX(j, u[j])], n)
    [] name = "Griewank" -> (45 * Sum([j \in D |-> u[j] * u[j]], n)) \div 2 - ProdFix([j \in D |-> GriC(j, u[j])], n, 10000) + 10000
    [] name = "Hartmann3" -> -((10 * ProdFix([j \in D |-> Har3(1, j, u[j])], 3, 10000) + 12 * ProdFix([j \in D |-> Har3(2, j, u[j])], 3, 10000)
                               + 30 * ProdFix([j \in D |-> Har3(3, j, u[j])], 3, 10000) + 32 * ProdFix([j \in D |-> Har3(4, j, u[j])], 3, 10000)) \div 10)
    [] name = "Hartmann6" -> -((10 * ProdFix([j \in D |-> Har6(1, j, u[j])], 6, 10000) + 12 * ProdFix([j \in D |-> Har6(2, j, u[j])], 6, 10000)
                               + 30 * ProdFix([j \in D |-> Har6(3, j, u[j])], 6, 10000) + 32 * ProdFix([j \in D |-> Har6(4, j, u[j])], 6, 10000)) \div 10)
    [] name = "Levy" ->  \* with k = u - 1, w - 1 = k/4
         LET k == [j \in D |-> u[j] - 1]
             first == IF k[1] % 4 = 0 THEN 0 ELSE IF k[1] % 4 = 2 THEN 1000000 ELSE 500000
         IN first + Sum([j \in 1..(n - 1) |-> (k[j] * k[j] * (1000000 + 10 * LevS(k[j] % 4))) \div 16], n - 1)
            + (k[n] * k[n] * 1000000 * (IF Even(k[n]) THEN 1 ELSE 2)) \div 16
    [] name = "Michalewicz" -> -Sum([j \in D |-> MicM(j, u[j])], n)
    [] name = "Schwefel" -> 4189829 * n - Sum([j \in D |-> SchW(u[j])], n)
    [] name = "Weierstrass" -> LET k == n + Sum([j \in D |-> Cos4(u[j] + 2)], n) IN (799414 * k * k * k) \div (n * n * n)

\* -- verdicts ---------------------------------------------------------------
Dist(a, b) == IF a < b THEN b - a ELSE a - b
Primes == <<46337, 46327, 46309>>
FormulaBad(c) ==
  IF c.exc # "" THEN {"a point of the domain cannot be evaluated"}
  ELSE IF c.name \in Exact
       THEN IF c.whole /\ \A k \in 1..3 : c.res[k] = Num(c.name, c.u, Primes[k]) THEN {} ELSE {"the value differs from the published formula"}
       ELSE IF Dist(c.fix, Fix(c.name, c.u)) <= Tol(c.name) THEN {} ELSE {"the value differs from the published formula"}
\* an object: bounds, minimiser and values as ranks
ObjectBad(c) ==
  LET D == 1..c.d  K == DOMAIN c.calls
      S == {c.ints[k] : k \in DOMAIN c.ints}  T == {c.cont[k] : k \in DOMAIN c.cont}
  IN IF c.exc # "" THEN {"a problem cannot be constructed"} ELSE
     (IF Len(c.lb) = c.d /\ Len(c.ub) = c.d /\ \A j \in D : c.lb[j] < c.ub[j] THEN {} ELSE {"the box is not well-formed"})
     \cup (IF S \cap T = {} /\ S \cup T = {j - 1 : j \in D} /\ Len(c.ints) + Len(c.cont) = c.d THEN {} ELSE {"the variables are not partitioned"})
     \cup (IF c.accepted THEN {} ELSE {"the problem is refused by the library"})
     \cup (IF c.hasmin => Len(c.min) = c.d /\ \A j \in D : c.lb[j] <= c.min[j] /\ c.min[j] <= c.ub[j] THEN {} ELSE {"the minimiser is not in the box"})
     \cup (IF c.hasmin => c.low <= c.fmin /\ c.fmin <= c.high THEN {} ELSE {"the minimiser does not attain the minimum"})
     \cup (IF c.hasmin => \A k \in K : c.calls[k].v >= c.low THEN {} ELSE {"a smaller value than the minimum"})
     \cup (IF \A k \in K : c.calls[k].v # 0 THEN {} ELSE {"not one finite value"})
     \cup (IF \A k \in K : c.calls[k].kept THEN {} ELSE {"the argument was changed"})
     \cup (LET first == [x \in {c.calls[k].x : k \in K} |-> c.calls[CHOOSE k \in K : c.calls[k].x = x].v]
           IN IF \A k \in K : c.calls[k].v = first[c.calls[k].x] THEN {} ELSE {"the same point has two values"})
     \cup (IF c.intact THEN {} ELSE {"an evaluation changed the declarations"})
     \cup (IF \A k \in DOMAIN c.wrong : c.wrong[k].len # c.d => c.wrong[k].raised THEN {} ELSE {"a point of the wrong dimension was accepted"})
ProblemBad(c) == IF c.kind = "formula" THEN FormulaBad(c) ELSE ObjectBad(c)
=============================================================================
