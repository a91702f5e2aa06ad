------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* The codec as its users see it: a machine whose only state is what has   *)
(* been answered so far.  A request is identified by its key (method,      *)
(* parameters and input).  Compress answers with a stream, Decompress      *)
(* turns the stream at hand into arrays; both are functions of the key,    *)
(* whatever happened before and in whichever process (Restart).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Allowed(_, _)     \* Allowed(key, output): the contract of the method
VARIABLES streams,          \* key -> the stream it was compressed to
          outputs,          \* key -> the arrays its stream was decompressed to
          pending           \* the key whose stream is at hand, or << >>
cvars == <<streams, outputs, pending>>

None == << >>
CodecInit == streams = << >> /\ outputs = << >> /\ pending = None

StreamOk(key, s) == key \in DOMAIN streams => streams[key] = s
OutputOk(key, o) == key \in DOMAIN outputs => outputs[key] = o
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Compress(key, s) ==
  /\ StreamOk(key, s)
  /\ streams' = Put(streams, key, s)
  /\ pending' = key
  /\ UNCHANGED outputs

Decompress(o) ==
  /\ pending # None
  /\ OutputOk(pending, o)
  /\ Allowed(pending, o)
  /\ outputs' = Put(outputs, pending, o)
  /\ pending' = None
  /\ UNCHANGED streams

Restart == pending' = None /\ UNCHANGED <<streams, outputs>>

(* what follows for every user: answers are functions of the request, and every answer is allowed *)
AnswersAllowed == \A key \in DOMAIN outputs : Allowed(key, outputs[key])
StableAnswers == [][ /\ \A key \in DOMAIN streams : streams'[key] = streams[key]
                     /\ \A key \in DOMAIN outputs : outputs'[key] = outputs[key] ]_cvars
============================================================================
