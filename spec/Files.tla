------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* Arrays in files.  A file is a sequence of bytes; an element is Width    *)
(* consecutive bytes.  Write replaces a file by an array, some other       *)
(* program may append a few bytes, Read returns all whole elements.        *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Width, MaxLen, Values,
          RoundUp,     \* mistake: a started element counts
          Append_      \* mistake: writing extends a file that is there already
VARIABLES file,        \* <<present, bytes>>
          written,     \* the array written last, and whether bytes were appended since
          result       \* of the last read
vars == <<file, written, result>>

None == <<"none">>
Bytes(a) == [i \in 1..(Width * Len(a)) |-> <<a[((i - 1) \div Width) + 1], (i - 1) % Width>>]
Whole(n) == IF RoundUp THEN (n + Width - 1) \div Width ELSE n \div Width
ByteAt(b, i) == IF i <= Len(b) THEN b[i] ELSE <<"past the end", 0>>
Elem(b, k) == IF \A z \in 0..(Width - 1) : ByteAt(b, (k - 1) * Width + z + 1)[1] = ByteAt(b, (k - 1) * Width + 1)[1]
                 /\ ByteAt(b, (k - 1) * Width + z + 1)[2] = z
              THEN ByteAt(b, (k - 1) * Width + 1)[1] ELSE "torn"
Arrays == UNION {[1..n -> Values] : n \in 0..MaxLen}

Init == file = <<FALSE, << >> >> /\ written = None /\ result = None
Write(a) == /\ file' = <<TRUE, IF Append_ /\ file[1] THEN file[2] \o Bytes(a) ELSE Bytes(a)>>
            /\ written' = a /\ result' = None
Extend == /\ file[1] /\ Len(file[2]) < Width * (MaxLen + 1) - 1
          /\ Len(file[2]) % Width < Width - 1        \* never a whole element
          /\ file' = <<TRUE, Append(file[2], <<"other", 0>>)>>
          /\ UNCHANGED <<written, result>>
Read == /\ result' = IF file[1] THEN <<"array", [k \in 1..Whole(Len(file[2])) |-> Elem(file[2], k)]>> ELSE <<"missing">>
        /\ UNCHANGED <<file, written>>
Next == (\E a \in Arrays : Write(a)) \/ Extend \/ Read
Spec == Init /\ [][Next]_vars

RoundTrip == result # None => IF written = None THEN result = <<"missing">> ELSE result = <<"array", written>>
=============================================================================
