---------------------------------- MODULE SMap ---------------------------------
(***************************************************************************)
(* Maps that are serialized as sequences of pairs.  A map is built by a    *)
(* sequence of operations and encoded; a decoder reads any sequence of     *)
(* entries.  Keys and values are numbers here (in the order of the keys);  *)
(* the harness substitutes various types for them.                         *)
(*                                                                         *)
(* Slices:  build   maps built in all the ways                             *)
(*          decode  all sequences of entries, including malformed ones     *)
(*          big     long sequences with at most one repeated key           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Slice, K

VARIABLES ops,   \* how the map was built: sequence of [o, k, v]
          m,     \* the map
          enc    \* a sequence of entries to decode: [k, v], k = -1: malformed
vars == <<ops, m, enc>>

Keys == 1..(2 + K)
Vals == 1..2
Bad == [k |-> 0 - 1, v |-> 0]

\* encoding: the entries in the order of the keys
Encode(f) == LET ks == SetToSortSeq(DOMAIN f, <) IN [i \in 1..Len(ks) |-> [k |-> ks[i], v |-> f[ks[i]]]]
\* decoding: rejected, or a map
Wellformed(s) == \A i \in DOMAIN s : s[i] # Bad
Distinct(s) == Cardinality({s[i].k : i \in DOMAIN s}) = Len(s)
Decode(s) == IF Wellformed(s) /\ Distinct(s)
             THEN [ok |-> TRUE, m |-> [k \in {s[i].k : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i].k = k].v]]
             ELSE [ok |-> FALSE, m |-> << >>]

Empty == [k \in {} |-> 0]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* long sequences: n entries, ascending, descending or shuffled; the entry at position j repeats the key of i
Sizes == {0, 1, 2, 16, 17, 50, 64, 127, 128, 200} \cup (IF K > 1 THEN {255, 256, 257, 1000, 4000} ELSE {256, 600})
Order(n, how) == CASE how = "up" -> [i \in 1..n |-> i]
                   [] how = "down" -> [i \in 1..n |-> n + 1 - i]
                   [] OTHER -> [i \in 1..n |-> IF (i % 2) = 1 THEN (i + 1) \div 2 ELSE n + 1 - (i \div 2)]
Places(n) == {x \in {1, 2, n \div 2, n - 1, n} : x \in 1..n}
Long == UNION {LET s == [i \in 1..n |-> [k |-> Order(n, how)[i], v |-> 1 + (i % 2)]] IN
               {s} \cup {[s EXCEPT ![x[2]].k = s[x[1]].k] : x \in {y \in Places(n) \X Places(n) : y[1] < y[2]}}
               : n \in Sizes, how \in {"up", "down", "zigzag"}}
Init == /\ ops = << >>
        /\ m = Empty
        /\ enc \in IF Slice = "big" THEN Long ELSE {<< >>}

Insert == \E k \in Keys, v \in Vals : ops' = Append(ops, [o |-> "I", k |-> k, v |-> v]) /\ m' = With(m, k, v) /\ UNCHANGED enc
Drop == \E k \in DOMAIN m : ops' = Append(ops, [o |-> "R", k |-> k, v |-> 0]) /\ m' = Without(m, k) /\ UNCHANGED enc
Entry == \E e \in [k : Keys, v : Vals] \cup {Bad} : enc' = Append(enc, e) /\ UNCHANGED <<ops, m>>
Next == \/ Slice = "build" /\ Len(ops) < 3 + K /\ (Insert \/ Drop)
        \/ Slice = "decode" /\ Len(enc) < 3 + K /\ Entry
Spec == Init /\ [][Next]_vars

Pairs(s) == [i \in 1..Len(s) |-> <<s[i].k, s[i].v>>]
Line == IF Slice = "build" THEN [kind |-> "build", ops |-> [i \in 1..Len(ops) |-> <<ops[i].o, ops[i].k, ops[i].v>>], pairs |-> Pairs(Encode(m))]
        ELSE LET d == Decode(enc) IN
             [kind |-> "decode", entries |-> Pairs(enc), ok |-> d.ok, pairs |-> IF d.ok THEN Pairs(Encode(d.m)) ELSE << >>]
Emit == PrintT(ToJson(Line))

\* properties
RoundTrip == Decode(Encode(m)) = [ok |-> TRUE, m |-> m]
NoMerge == LET d == Decode(enc) IN d.ok => Cardinality(DOMAIN d.m) = Len(enc)
\* the order of the entries is immaterial
OrderFree == LET d == Decode(enc) e == Decode(Reverse(enc)) IN d.ok = e.ok /\ (d.ok => d.m = e.m)
=============================================================================
