-------------------------------- MODULE Trig --------------------------------
(* Sines of whole degrees, scaled by 100000, with linear interpolation at    *)
(* hundredths of a degree (error below 4e-5).                                *)
EXTENDS Integers, Sequences
SinTab == <<
  0, 1745, 3490, 5234, 6976, 8716, 10453, 12187, 13917, 15643, 17365, 19081, 20791,
  22495, 24192, 25882, 27564, 29237, 30902, 32557, 34202, 35837, 37461, 39073, 40674, 42262,
  43837, 45399, 46947, 48481, 50000, 51504, 52992, 54464, 55919, 57358, 58779, 60182, 61566,
  62932, 64279, 65606, 66913, 68200, 69466, 70711, 71934, 73135, 74314, 75471, 76604, 77715,
  78801, 79864, 80902, 81915, 82904, 83867, 84805, 85717, 86603, 87462, 88295, 89101, 89879,
  90631, 91355, 92050, 92718, 93358, 93969, 94552, 95106, 95630, 96126, 96593, 97030, 97437,
  97815, 98163, 98481, 98769, 99027, 99255, 99452, 99619, 99756, 99863, 99939, 99985, 100000 >>
\* sine of a/100 degrees, 0 <= a <= 9000
SinQ(a) == LET d == a \div 100  r == a % 100
           IN IF r = 0 THEN SinTab[d + 1]
              ELSE SinTab[d + 1] + ((SinTab[d + 2] - SinTab[d + 1]) * r) \div 100
\* any angle 0..36000
Sin100(a) == LET b == a % 36000
             IN IF b <= 9000 THEN SinQ(b)
                ELSE IF b <= 18000 THEN SinQ(18000 - b)
                ELSE IF b <= 27000 THEN -SinQ(b - 18000)
                ELSE -SinQ(36000 - b)
Cos100(a) == Sin100(a + 9000)
Mag(x) == IF x < 0 THEN -x ELSE x
(* angle a (hundredths of a degree) has the direction (dx, dy), whose length *)
(* is l100 hundredths                                                        *)
AngleOK(a, dx, dy, l100) ==
  /\ Mag(Cos100(a) * l100 - dx * 10000000) <= 20 * l100 + 100000
  /\ Mag(Sin100(a) * l100 - dy * 10000000) <= 20 * l100 + 100000
\* u is a component of the unit vector, scaled by 10000
UnitOK(u, dx, l100) == Mag(u * l100 - dx * 1000000) <= 2 * l100 + 20000
=============================================================================
