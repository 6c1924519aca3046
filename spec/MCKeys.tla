--------------------------------- MODULE MCKeys --------------------------------
(* The decoder for half floats, against the definition by value; all 65536.     *)
(* The packing of rotation keys, word by word, for words with few bits set.     *)
EXTENDS Keys, TLC, Json, IOUtils, FiniteSets
VARIABLES h, prev, mode, key
vars == <<h, prev, mode, key>>
Bits16 == {Pow2(k) : k \in 0..15}
Words == {0, 65535, 21845, 43690} \cup Bits16 \cup {65535 - b : b \in Bits16}
WordsQ == {0, 65535, 1, 2, 3, 4, 7, 8, 32768, 21845, 43690}
KeySet == (Words \X WordsQ \X WordsQ) \cup (WordsQ \X Words \X WordsQ) \cup (WordsQ \X WordsQ \X Words)
Init == \/ mode = "half" /\ h = 0 /\ prev = 0 /\ key = <<0, 0, 0>>
        \/ mode = "quat" /\ h = 0 /\ prev = 0 /\ key \in KeySet
Next == mode = "half" /\ h < 65535 /\ h' = h + 1 /\ prev' = h /\ UNCHANGED <<mode, key>>
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* value of a finite single whose fraction has at most ten leading bits, in 2^-24, as mantissa and shift
SExp(b) == (b[1] \div 128) % 256
SFrac10(b) == ((b[1] % 128) * 8) + (b[2] \div 8192)
\* (1024 + frac) * 2^(exp - 127 - 10) against the half's (1024 + mant) * 2^(exp - 25), or mant * 2^-24
SameValue == (mode = "half" /\ FiniteHalf(h) /\ ~ZeroHalf(h)) =>
   LET b == Single(h)
       m == 1024 + SFrac10(b)
       e == SExp(b) - 137 + 24          \* exponent of m in units of 2^-24
   IN /\ b[2] % 8192 = 0
      /\ IF Expo(h) = 0
         THEN e < 0 /\ m = Mant(h) * Pow2(0 - e)          \* subnormal half: m * 2^e = mant
         ELSE m = 1024 + Mant(h) /\ e = Expo(h) - 1
      /\ b[1] \div 32768 = Sign(h)
\* the order of positive halves is the order of their bits, and decoding keeps it
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Monotone == (mode = "half" /\ h > 0 /\ h <= 31744) => Less(Single(prev), Single(h))
Mirrored == (mode = "half" /\ h >= 32768 /\ ~IsNaNHalf(h)) =>
              LET p == Single(h - 32768) b == Single(h) IN b[1] = p[1] + 32768 /\ b[2] = p[2]
\* the shift-and-multiply decoder: the half's bits, shifted by 13, times 2^112 (exponent plus 112)
Shifted(x) == <<(x % 32768) \div 8, (x % 8) * 8192>>
ShiftDecoder == (mode = "half" /\ Expo(h) \notin {0, 31}) =>
   LET s == Shifted(h) IN Single(h) = <<s[1] + 112 * 128 + 32768 * Sign(h), s[2]>>
-----------------------------------------------------------------------------
Pack(lg, sg, v) == <<lg + 4 * sg + (v[1] % 8192) * 8,
                     (v[1] \div 8192) + (v[2] % 16384) * 4,
                     (v[2] \div 16384) + v[3] * 2>>
RoundTrip == mode = "quat" => Pack(Largest(key), QSign(key), <<Val(key, 1), Val(key, 2), Val(key, 3)>>) = key
InRange == mode = "quat" => \A i \in 1..3 : Val(key, i) \in 0..32767
Slots == mode = "quat" => {Slot(key, c) : c \in (0..3) \ {Largest(key)}} = 1..3
-----------------------------------------------------------------------------
ASSUME IOEnv.PLAN = "" \/ JsonSerialize(IOEnv.PLAN, [keys |-> KeySet])
PlanSpec == (mode = "plan" /\ h = 0 /\ prev = 0 /\ key = <<0, 0, 0>>) /\ [][FALSE]_vars
================================================================================
