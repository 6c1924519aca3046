--------------------------------- MODULE Reader --------------------------------
(* The typed cursor of an archive.  A stream is a sequence of bytes, the first  *)
(* one tells the byte order.  Values are given as sequences of most significant *)
(* first byte groups, whatever order they were written in.                      *)
EXTENDS Integers, Sequences

PrimSize == [bool |-> 1, u8 |-> 1, i8 |-> 1, u16 |-> 2, i16 |-> 2, u32 |-> 4, i32 |-> 4,
             u64 |-> 8, i64 |-> 8, f32 |-> 4, f64 |-> 8]
Floats == [vec2 |-> 2, vec3 |-> 3, vec4 |-> 4, quat |-> 4]
Prims == DOMAIN PrimSize
Groups == DOMAIN Floats
\* a tag is a string, a version an u32
Base(t) == CASE t = "tag" -> "string" [] t = "version" -> "u32" [] OTHER -> t

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Group(raw, big) == IF big THEN raw ELSE Rev(raw)
Truth(b) == IF b = 0 THEN 0 ELSE 1

\* Length of the longest well-formed UTF-8 prefix of b from position i on (byte i is at i)
Cont(b, i) == i <= Len(b) /\ b[i] \in 128..191
RECURSIVE ValidUpTo(_, _)
ValidUpTo(b, i) ==
  IF i > Len(b) THEN Len(b)
  ELSE LET c == b[i]
           second(lo, hi) == i + 1 <= Len(b) /\ b[i + 1] \in lo..hi
       IN CASE c < 128 -> ValidUpTo(b, i + 1)
          [] c \in 194..223 /\ second(128, 191) -> ValidUpTo(b, i + 2)
          [] c = 224 /\ second(160, 191) /\ Cont(b, i + 2) -> ValidUpTo(b, i + 3)
          [] c \in (225..236) \cup {238, 239} /\ second(128, 191) /\ Cont(b, i + 2) -> ValidUpTo(b, i + 3)
          [] c = 237 /\ second(128, 159) /\ Cont(b, i + 2) -> ValidUpTo(b, i + 3)
          [] c = 240 /\ second(144, 191) /\ Cont(b, i + 2) /\ Cont(b, i + 3) -> ValidUpTo(b, i + 4)
          [] c \in 241..243 /\ second(128, 191) /\ Cont(b, i + 2) /\ Cont(b, i + 3) -> ValidUpTo(b, i + 4)
          [] c = 244 /\ second(128, 143) /\ Cont(b, i + 2) /\ Cont(b, i + 3) -> ValidUpTo(b, i + 4)
          [] OTHER -> i - 1

\* position of the first zero at or after p, 0 if there is none
RECURSIVE ZeroAt(_, _)
ZeroAt(B, p) == IF p > Len(B) THEN 0 ELSE IF B[p] = 0 THEN p ELSE ZeroAt(B, p + 1)

Got(v, p) == [res |-> "ok", val |-> v, pos |-> p, at |-> 0]
End == [res |-> "end", val |-> <<>>, pos |-> 0, at |-> 0]
Bad(k, p) == [res |-> "utf8", val |-> <<>>, pos |-> p, at |-> k]

Prim(t, B, p, big) ==
  LET z == PrimSize[t] IN
  IF p + z - 1 > Len(B) THEN End
  ELSE LET raw == SubSeq(B, p, p + z - 1)
       IN Got(<< IF t = "bool" THEN <<Truth(raw[1])>> ELSE Group(raw, big) >>, p + z)
Str(B, p) ==
  LET z == ZeroAt(B, p) IN
  IF z = 0 THEN End
  ELSE LET s == SubSeq(B, p, z - 1)
           k == ValidUpTo(s, 1)
       IN IF k < Len(s) THEN Bad(k, z + 1) ELSE Got(<<s>>, z + 1)

\* n values of primitive type t
RECURSIVE Many(_, _, _, _, _, _)
Many(t, n, B, p, big, acc) ==
  IF n = 0 THEN Got(acc, p)
  ELSE LET r == IF t = "string" THEN Str(B, p) ELSE Prim(t, B, p, big)
       IN IF r.res # "ok" THEN r ELSE Many(t, n - 1, B, r.pos, big, acc \o r.val)

\* one read: n values of type t ("tagver" is a string and an u32)
Read(t0, n, B, p, big) ==
  LET t == Base(t0) IN
  IF t = "tagver"
  THEN LET a == Str(B, p) IN
       IF a.res # "ok" THEN a
       ELSE LET b == Prim("u32", B, a.pos, big) IN IF b.res # "ok" THEN b ELSE Got(a.val \o b.val, b.pos)
  ELSE IF t \in Groups THEN Many("f32", n * Floats[t], B, p, big, <<>>)
  ELSE Many(t, n, B, p, big, <<>>)
================================================================================
