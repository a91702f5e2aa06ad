------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The layout of the streams.  A method is two programs, a writer's and a  *)
(* reader's, over the same stream of tokens; the reader knows only the     *)
(* dimensions.  A section is a fixed variable, a counted array (the count  *)
(* goes first), an array whose length both know from the dimensions, one   *)
(* whose length stands in an earlier variable, or an entropy-coded array   *)
(* (self-delimiting).  The reader must read every section as what it was   *)
(* written as and end where the writer ended, whatever follows.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, Variant
V(n) == [op |-> "var", name |-> n, of |-> ""]          \* one variable
A(n) == [op |-> "counted", name |-> n, of |-> ""]      \* count, then that many
F(n) == [op |-> "fixed", name |-> n, of |-> ""]        \* as many as the dimensions say
L(n, v) == [op |-> "len", name |-> n, of |-> v]        \* as many as variable v says
H(n) == [op |-> "coded", name |-> n, of |-> ""]        \* self-delimiting

Raster == << V("base"), V("threshold"), V("radius"), A("exact"), H("bounds"), H("indices") >>
RasterLog == << V("base"), V("radius"), F("signs u"), F("signs v"), A("exact"), H("bounds"), H("indices") >>
Raster3Log == << V("base"), V("radius"), F("signs u"), F("signs v"), F("signs w"), A("exact"), H("bounds"), H("indices") >>
Block == << V("radius"), V("block"), V("mean"), A("exact"), H("predictors"), A("coefficients"), H("indices") >>
Offline == << V("base"), V("threshold"), V("len bounds"), V("len u"), V("len v"), H("bounds"), L("u", "len u"), L("v", "len v") >>
OfflineLog == << V("base"), V("threshold"), V("len bounds"), V("len u"), V("len v"), H("bounds"), F("signs u"), F("signs v"), L("u", "len u"), L("v", "len v") >>
Sz3 == << V("base"), V("threshold"), V("capacity"), A("exact"), H("bounds"), H("indices") >>
Pwr == << V("threshold"), V("len data"), F("signs"), L("data", "len data") >>
Methods == [ raster |-> Raster, rasterlog |-> RasterLog, raster3log |-> Raster3Log, offline |-> Offline, offlinelog |-> OfflineLog,
             sz3 |-> Sz3, block |-> Block, pwr |-> Pwr ]
Names == DOMAIN Methods
(* the reader's program: the same, or with a mistake *)
Reader(m) == LET p == Methods[m] IN
  IF Variant = "swapped" THEN [ i \in DOMAIN p |-> IF i = Len(p) THEN p[i - 1] ELSE IF i = Len(p) - 1 THEN p[i + 1] ELSE p[i] ]
  ELSE IF Variant = "bytes" THEN [ i \in DOMAIN p |-> IF p[i].op = "counted" THEN [p[i] EXCEPT !.op = "unscaled"] ELSE p[i] ]
  ELSE p

VARIABLES m, w, r, stream, lens, size, dims, failed
vars == <<m, w, r, stream, lens, size, dims, failed>>
Width == 2      \* a data element takes several bytes
Rep(n, x) == [ i \in 1..n |-> x ]

Init == /\ m \in Names /\ w = 1 /\ r = 0 /\ stream = << >> /\ size = 0 /\ dims \in 1..2 /\ failed = FALSE
        /\ lens \in [ {"exact", "coded", "other"} -> 0..MaxLen ]
LenOf(s) == IF s.op = "fixed" THEN dims ELSE IF s.op = "counted" THEN lens["exact"] ELSE IF s.op = "coded" THEN lens["coded"] ELSE lens["other"]
Write ==
  /\ r = 0 /\ w <= Len(Methods[m])
  /\ LET s == Methods[m][w]
         t == CASE s.op = "var" -> << <<s.name, IF s.name \in {"len u", "len v", "len data"} THEN lens["other"] ELSE 9>> >>
                [] s.op = "counted" -> << <<"count", LenOf(s)>> >> \o Rep(Width * LenOf(s), <<s.name, 9>>)
                [] s.op \in {"fixed", "len"} -> Rep(LenOf(s), <<s.name, 9>>)
                [] s.op = "coded" -> << <<s.name, LenOf(s)>> >> \o Rep(LenOf(s), <<s.name, 9>>)
     IN stream' = stream \o t
  /\ w' = w + 1 /\ UNCHANGED <<m, r, lens, size, dims, failed>>
(* the size is reported, something else follows in memory *)
Close == /\ r = 0 /\ w > Len(Methods[m])
         /\ size' = IF Variant = "short" /\ m = "offline" THEN Len(stream) - 1 ELSE Len(stream)
         /\ stream' = SubSeq(stream, 1, size') \o << <<"garbage", 1>>, <<"garbage", 1>>, <<"garbage", 1>>, <<"garbage", 1>> >>
         /\ r' = 1 /\ w' = 1 /\ UNCHANGED <<m, lens, dims, failed>>
(* values of the variables read so far are in the stream: w is now the reader's position *)
Value(v, upto) == LET i == CHOOSE k \in 1..upto : stream[k][1] = v IN stream[i][2]
Read ==
  /\ r >= 1 /\ r <= Len(Methods[m]) /\ ~ failed
  /\ LET s == Reader(m)[r]
         there == w <= Len(stream)
         known == s.op # "len" \/ \E k \in 1..(w - 1) : stream[k][1] = s.of
         n == IF ~ there THEN (IF s.op \in {"fixed", "len"} THEN 0 ELSE 1)
              ELSE CASE s.op = "var" -> 1
                [] s.op = "counted" -> 1 + Width * stream[w][2]
                [] s.op = "unscaled" -> 1 + stream[w][2]
                [] s.op = "fixed" -> dims
                [] s.op = "len" -> IF known THEN Value(s.of, w - 1) ELSE 0
                [] s.op = "coded" -> 1 + stream[w][2]
         name(k) == IF s.op \in {"counted", "unscaled"} /\ k = w THEN "count" ELSE s.name
     IN /\ failed' = (~ known \/ w + n - 1 > Len(stream) \/ \E k \in { z \in w..(w + n - 1) : z <= Len(stream) } : stream[k][1] # name(k))
        /\ w' = w + n
  /\ r' = r + 1 /\ UNCHANGED <<m, stream, lens, size, dims>>
Next == Write \/ Close \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Understood == ~ failed
EndsTogether == r > Len(Methods[m]) => w - 1 = size
Terminates == <>(r > Len(Methods[m]) \/ failed)
=============================================================================
