--------------------------------- MODULE Rand ---------------------------------
(***************************************************************************)
(* A pseudo-random generator for models that sample their behaviours.  TLC *)
(* computes with 32 bits, so the state is a pair of two small congruential *)
(* generators, packed into one number; the period is about 2 * 10^9.       *)
(***************************************************************************)
EXTENDS Naturals

RandP == 65537
RandQ == 32749
Rnd(x) == ((((x % RandP) * 75) + 74) % RandP) + (RandP * ((((x \div RandP) * 219) + 1) % RandQ))
\* a generator state that depends on two numbers
Seed(p, q) ==
  LET u == ((p * 7919) + (q * 104) + 17) % RandP
      v == ((p * 31) + (q * 173) + 5) % RandQ
      x == Rnd(Rnd(Rnd(u + (RandP * v))))
  IN Rnd(Rnd((((x % RandP) + (q % 9973)) % RandP) + (RandP * (x \div RandP))))
\* a number in 0..(n-1) from a generator state
Draw(x, n) == ((x % RandP) \div 7 + (x \div RandP)) % n
\* another state, derived from x and i
Fork(x, i) == Rnd((((x % RandP) + (i * 11)) % RandP) + (RandP * (((x \div RandP) + i) % RandQ)))
=============================================================================
