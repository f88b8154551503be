------------------------------- MODULE Rand -------------------------------
(* Stateless pseudo random choices: every generated behaviour is a function of its seed, so TLC's
   enumeration of seeds enumerates behaviours, and any of them can be regenerated from its number.
   All arithmetic stays inside TLC's 32-bit integers. *)
EXTENDS Integers, Sequences, TLC
LOCAL Lcg(x) == LET y == 16807 * (x % 127773) - 2836 * (x \div 127773) IN IF y <= 0 THEN y + 2147483647 ELSE y
LOCAL Mix(x) == LET a == x % 46337 IN Lcg((x \div 2) + (a * a) \div 2 + 1)
Hash(s, k) == Mix(Mix(Mix(s + 1) \div 3 + (k % 60000) * 15485) \div 3 + 77 * (k % 4093))
Rnd(s, k, lo, hi) == lo + (Hash(s, k) % (hi - lo + 1))
Chance(s, k, pct) == Hash(s, k) % 100 < pct
Pick(s, k, seq) == seq[1 + (Hash(s, k) % Len(seq))]
=============================================================================
