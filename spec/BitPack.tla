------------------------------ MODULE BitPack ------------------------------
(* Flags packed into bytes, eight to a byte, the first in the lowest bit;   *)
(* what lies beyond the last flag in its byte is zero.                      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxLen, PerByte, Variant
VARIABLES flags, after       \* after: a byte that happens to follow in the stream
vars == <<flags, after>>
Groups(n) == IF Variant = "floor" THEN (n \div PerByte) + 1 ELSE (n + PerByte - 1) \div PerByte
RECURSIVE Byte(_, _, _)
Byte(f, k, i) == IF i = PerByte THEN 0
                 ELSE (IF k * PerByte + i + 1 <= Len(f) THEN f[k * PerByte + i + 1] * 2 ^ i ELSE 0) + Byte(f, k, i + 1)
Pack(f) == [ k \in 1..Groups(Len(f)) |-> Byte(f, k - 1, 0) ]
Unpack(b, n) == [ i \in 1..n |-> (b[((i - 1) \div PerByte) + 1] \div 2 ^ ((i - 1) % PerByte)) % 2 ]
Init == flags \in {<<0>>, <<1>>} /\ after \in {0, 2 ^ PerByte - 1}
Next == Len(flags) < MaxLen /\ \E x \in {0, 1} : flags' = Append(flags, x) /\ UNCHANGED after
Spec == Init /\ [][Next]_vars
RoundTrip == Unpack(Pack(flags) \o <<after>>, Len(flags)) = flags
Size == PerByte * (Len(Pack(flags)) - 1) < Len(flags) /\ Len(flags) <= PerByte * Len(Pack(flags))
Bytes == \A k \in DOMAIN Pack(flags) : Pack(flags)[k] \in 0..(2 ^ PerByte - 1)
=============================================================================
