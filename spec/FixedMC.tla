------------------------------ MODULE FixedMC ------------------------------
EXTENDS Fixed, TLC
CONSTANTS N
VARIABLE x
Init == x \in { i * 37 : i \in 0..N }
Next == FALSE /\ x' = x
\* laws that characterise the functions
Trig == /\ Near(FMul(FCos(x), FCos(x)) + FMul(FSin(x), FSin(x)), S, 6)
        /\ Near(FCos(2 * x), 2 * FMul(FCos(x), FCos(x)) - S, 12)
        /\ FCos(-x) = FCos(x)
        /\ Near(FSin(-x), -FSin(x), 2)
        /\ Near(FCos(x + 100), FMul(FCos(x), FCos(100)) - FMul(FSin(x), FSin(100)), 6)
Values == /\ FCos(0) = S /\ Near(FCos(Pi), -S, 1) /\ Near(FCos(HalfPi), 0, 1) /\ Near(FCos(RDiv(Pi, 3)), S \div 2, 2) /\ Near(FSin(RDiv(Pi, 6)), S \div 2, 2) /\ Near(FSin(HalfPi), S, 1)
          /\ Near(FSin(8), 8, 1)   \* the derivative at zero fixes the unit
          /\ Near(FExp(S), 22268, 3) /\ Near(FExp(0), S, 0) /\ Near(FExp(-S), 3014, 3)
Exp == LET y == x % S IN Near(FMul(FExp(y), FExp(-y)), S, 12) /\ Near(FMul(FExp(y), FExp(500)), FExp(y + 500), 12) /\ Near(FMul(FExp(y), FExp(y)), FExp(2 * y), 30)
\* a number, its parts and the same rational
Wides == LET h == RDiv(x * W, 37) r == x * W - 37 * h l == RDiv(r * W, 37) IN x > 50000 \/ (WRatio(<<h, l>>, x, 37, 1) /\ ~WRatio(<<h, l + 3>>, x, 37, 1) /\ ~WRatio(<<h + 1, l>>, x, 37, 1) /\ ~WRatio(<<h - 1, l>>, x, 37, 1))
Root == LET r == ISqrt(x) IN r * r <= x /\ (r + 1) * (r + 1) > x
=============================================================================
