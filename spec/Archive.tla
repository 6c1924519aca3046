--------------------------------- MODULE Archive -------------------------------
(* The ozz archive format, byte by byte.  An archive is a byte telling the byte *)
(* order followed by objects; an object is a zero terminated tag, a version and *)
(* the content.  32 bit words are pairs <<high half, low half>>.                *)
EXTENDS Integers, Sequences

Tag(as) ==
  CASE as = "animation" -> <<111, 122, 122, 45, 97, 110, 105, 109, 97, 116, 105, 111, 110>>
    [] as = "skeleton" -> <<111, 122, 122, 45, 115, 107, 101, 108, 101, 116, 111, 110>>
    [] as = "float" -> <<111, 122, 122, 45, 102, 108, 111, 97, 116, 95, 116, 114, 97, 99, 107>>
    [] as = "float2" -> <<111, 122, 122, 45, 102, 108, 111, 97, 116, 50, 95, 116, 114, 97, 99, 107>>
    [] as = "float3" -> <<111, 122, 122, 45, 102, 108, 111, 97, 116, 51, 95, 116, 114, 97, 99, 107>>
    [] as = "float4" -> <<111, 122, 122, 45, 102, 108, 111, 97, 116, 52, 95, 116, 114, 97, 99, 107>>
    [] as = "quat" -> <<111, 122, 122, 45, 113, 117, 97, 116, 95, 116, 114, 97, 99, 107>>
Version(as) == IF as = "animation" THEN 7 ELSE IF as = "skeleton" THEN 2 ELSE 1
Dim(as) == CASE as = "float" -> 1 [] as = "float2" -> 2 [] as = "float3" -> 3 [] OTHER -> 4

-----------------------------------------------------------------------------
\* Reading.  b: the archive, p: position (1-based).
BE(b) == b[1] = 0
U16(b, p) == IF BE(b) THEN b[p] * 256 + b[p + 1] ELSE b[p] + b[p + 1] * 256
I16(b, p) == LET u == U16(b, p) IN IF u >= 32768 THEN u - 65536 ELSE u
W32(b, p) == IF BE(b) THEN <<U16(b, p), U16(b, p + 2)>> ELSE <<U16(b, p + 2), U16(b, p)>>
U32(b, p) == LET w == W32(b, p) IN IF w[1] > 1000 THEN 65536000 ELSE w[1] * 65536 + w[2]
Bytes(b, p, n) == SubSeq(b, p, p + n - 1)
Arr16(b, p, n) == [i \in 1..n |-> U16(b, p + 2 * (i - 1))]
Arr32(b, p, n) == [i \in 1..n |-> W32(b, p + 4 * (i - 1))]
Keys(b, p, n) == [i \in 1..n |-> Arr16(b, p + 6 * (i - 1), 3)]
\* time indices are bytes when there are at most 255 time points
Ratios(b, p, n, w) == [i \in 1..n |-> IF w = 1 THEN b[p + i - 1] ELSE U16(b, p + 2 * (i - 1))]

Error == [ok |-> FALSE]
\* head: tag and version at p are those of the type, all of it present
HeadOk(as, b, p) ==
  LET t == Tag(as) \o <<0>> IN
  /\ Len(b) >= p + Len(t) + 3
  /\ Bytes(b, p, Len(t)) = t
  /\ W32(b, p + Len(t)) = <<0, Version(as)>>
Body(as, p) == p + Len(Tag(as)) + 5

Chan(b, p, n, w, ne, nd) ==
  LET p1 == p + n * w
      p2 == p1 + 2 * n
      p3 == p2 + ne
      p4 == p3 + 4 * nd
  IN [ratios |-> Ratios(b, p, n, w), prev |-> Arr16(b, p1, n), entries |-> Bytes(b, p2, ne),
      desc |-> Arr32(b, p3, nd), interval |-> W32(b, p4), keys |-> Keys(b, p4 + 4, n)]
ChanSize(n, w, ne, nd) == n * w + 2 * n + ne + 4 * nd + 4 + 6 * n

DecodeAnimation(b, p0) ==
  LET p == Body("animation", p0) IN
  IF Len(b) < p + 51 THEN Error
  ELSE LET name == U32(b, p + 8)
           tp == U32(b, p + 12)
           n == [c \in 1..3 |-> U32(b, p + 12 + 4 * c)]
           ne == [c \in 1..3 |-> U32(b, p + 20 + 8 * c)]
           nd == [c \in 1..3 |-> U32(b, p + 24 + 8 * c)]
           w == IF tp <= 255 THEN 1 ELSE 2
           q0 == p + 52
           q1 == q0 + name + 4 * tp
           q2 == q1 + ChanSize(n[1], w, ne[1], nd[1])
           q3 == q2 + ChanSize(n[2], w, ne[2], nd[2])
           end == q3 + ChanSize(n[3], w, ne[3], nd[3])
       IN IF Len(b) < end - 1 THEN Error
          ELSE [ok |-> TRUE, end |-> end,
                obj |-> [duration |-> W32(b, p), tracks |-> U32(b, p + 4), name |-> Bytes(b, q0, name),
                         timepoints |-> Arr32(b, q0 + name, tp),
                         t |-> Chan(b, q1, n[1], w, ne[1], nd[1]),
                         r |-> Chan(b, q2, n[2], w, ne[2], nd[2]),
                         s |-> Chan(b, q3, n[3], w, ne[3], nd[3])]]

\* position after the zero that ends the string at p (0: none)
RECURSIVE StrEnd(_, _)
StrEnd(b, p) == IF p > Len(b) THEN 0 ELSE IF b[p] = 0 THEN p + 1 ELSE StrEnd(b, p + 1)
RECURSIVE Strs(_, _, _, _)
Strs(b, p, n, acc) ==
  IF n = 0 THEN [ok |-> TRUE, end |-> p, v |-> acc]
  ELSE LET e == StrEnd(b, p) IN
       IF e = 0 THEN Error ELSE Strs(b, e, n - 1, Append(acc, Bytes(b, p, e - p - 1)))

DecodeSkeleton(b, p0) ==
  LET p == Body("skeleton", p0) IN
  IF Len(b) < p + 3 THEN Error
  ELSE LET n == U32(b, p) IN
       IF n = 0 THEN [ok |-> TRUE, end |-> p + 4, obj |-> [names |-> <<>>, parents |-> <<>>, poses |-> <<>>]]
       ELSE IF Len(b) < p + 7 THEN Error
       ELSE LET s == Strs(b, p + 8, n, <<>>)
                soa == (n + 3) \div 4
            IN IF ~s.ok THEN Error
               ELSE IF Len(b) < s.end + 2 * n + 160 * soa - 1 THEN Error
               ELSE [ok |-> TRUE, end |-> s.end + 2 * n + 160 * soa,
                     obj |-> [names |-> s.v, parents |-> [i \in 1..n |-> I16(b, s.end + 2 * (i - 1))],
                              poses |-> Arr32(b, s.end + 2 * n, 40 * soa)]]

DecodeTrack(as, b, p0) ==
  LET p == Body(as, p0) IN
  IF Len(b) < p + 7 THEN Error
  ELSE LET k == U32(b, p)
           name == U32(b, p + 4)
           q1 == p + 8 + 4 * k
           q2 == q1 + 4 * Dim(as) * k
           q3 == q2 + (k + 7) \div 8
       IN IF Len(b) < q3 + name - 1 THEN Error
          ELSE [ok |-> TRUE, end |-> q3 + name,
                obj |-> [keys |-> k, ratios |-> Arr32(b, p + 8, k), values |-> Arr32(b, q1, Dim(as) * k),
                         steps |-> Bytes(b, q2, (k + 7) \div 8), name |-> Bytes(b, q3, name)]]

\* the object of type as at position p
Decode(as, b, p) ==
  IF Len(b) < 1 \/ ~HeadOk(as, b, p) THEN Error
  ELSE CASE as = "animation" -> DecodeAnimation(b, p)
         [] as = "skeleton" -> DecodeSkeleton(b, p)
         [] OTHER -> DecodeTrack(as, b, p)

-----------------------------------------------------------------------------
\* Writing.
E16(be, v) == LET u == IF v < 0 THEN v + 65536 ELSE v IN
              IF be THEN <<u \div 256, u % 256>> ELSE <<u % 256, u \div 256>>
E32(be, w) == IF be THEN E16(be, w[1]) \o E16(be, w[2]) ELSE E16(be, w[2]) \o E16(be, w[1])
EN(be, n) == E32(be, <<n \div 65536, n % 65536>>)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
EA16(be, s) == Cat([i \in 1..Len(s) |-> E16(be, s[i])])
EA32(be, s) == Cat([i \in 1..Len(s) |-> E32(be, s[i])])
EKeys(be, s) == Cat([i \in 1..Len(s) |-> EA16(be, s[i])])
EHead(be, as) == Tag(as) \o <<0>> \o EN(be, Version(as))
EChan(be, c, w) == (IF w = 1 THEN c.ratios ELSE EA16(be, c.ratios)) \o EA16(be, c.prev) \o c.entries \o EA32(be, c.desc)
                   \o E32(be, c.interval) \o EKeys(be, c.keys)
EncodeAnimation(be, o) ==
  LET w == IF Len(o.timepoints) <= 255 THEN 1 ELSE 2 IN
  EHead(be, "animation") \o E32(be, o.duration) \o EN(be, o.tracks) \o EN(be, Len(o.name)) \o EN(be, Len(o.timepoints))
  \o EN(be, Len(o.t.keys)) \o EN(be, Len(o.r.keys)) \o EN(be, Len(o.s.keys))
  \o EN(be, Len(o.t.entries)) \o EN(be, Len(o.t.desc)) \o EN(be, Len(o.r.entries)) \o EN(be, Len(o.r.desc))
  \o EN(be, Len(o.s.entries)) \o EN(be, Len(o.s.desc))
  \o o.name \o EA32(be, o.timepoints) \o EChan(be, o.t, w) \o EChan(be, o.r, w) \o EChan(be, o.s, w)
EncodeSkeleton(be, o) ==
  LET n == Len(o.parents)
      names == Cat([i \in 1..n |-> o.names[i] \o <<0>>])
  IN EHead(be, "skeleton") \o EN(be, n)
     \o (IF n = 0 THEN <<>> ELSE EN(be, Len(names)) \o names \o EA16(be, o.parents) \o EA32(be, o.poses))
EncodeTrack(be, as, o) ==
  EHead(be, as) \o EN(be, o.keys) \o EN(be, Len(o.name)) \o EA32(be, o.ratios) \o EA32(be, o.values) \o o.steps \o o.name
EncodeObj(be, as, o) == CASE as = "animation" -> EncodeAnimation(be, o)
                       [] as = "skeleton" -> EncodeSkeleton(be, o)
                       [] OTHER -> EncodeTrack(be, as, o)
EByte(be) == <<IF be THEN 0 ELSE 1>>
================================================================================
