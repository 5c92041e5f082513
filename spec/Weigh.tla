------------------------------- MODULE Weigh --------------------------------
(* How an update weighs measurements against the prior, for one wrong and   *)
(* uncertain direction: variance p and error e (truth minus estimate), both *)
(* exact fractions <<numerator, denominator>>.  A measurement brings the    *)
(* residual of one feature, whose information is g / noise^2.               *)
EXTENDS Integers
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Frac(a, b) == LET s == IF a < 0 THEN -a ELSE a
                  d == Gcd(s, b) IN <<a \div d, b \div d>>
Times(x, y) == Frac(x[1] * y[1], x[2] * y[2])
Plus(x, y) == Frac(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
Minus(x, y) == Plus(x, <<0 - y[1], y[2]>>)
Inv(x) == <<x[2], x[1]>>
\* The filter's step: gain on the (projected, whitened) residual h * e with h^2 = g / noise^2:
\* S = h p h + 1, K = p h / S, e' = e - K h e, p' = (1 - K h) p
Kh(p, g) == Times(Times(p, g), Inv(Plus(Times(p, g), <<1, 1>>)))
PriorStep(p, g) == Times(Minus(<<1, 1>>, Kh(p, g)), p)
ErrStep(e, p, g) == Times(Minus(<<1, 1>>, Kh(p, g)), e)
=============================================================================
