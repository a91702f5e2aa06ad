---------------------------- MODULE TraceCodec ----------------------------
(***************************************************************************)
(* Are the recorded executions behaviours of Codec, with Contract as what  *)
(* a method may answer?  One behaviour walks through all jobs; for each    *)
(* job through all runs of it (separate processes, with other contents of  *)
(* fresh memory), and for each run through its calls: Compress and         *)
(* Decompress, then the end of the process.  An event that the codec does  *)
(* not allow is consumed by Reject, which reports it; the trace is         *)
(* accepted if Reject is never taken.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Cx == INSTANCE Contract
T == INSTANCE TraceData

CONSTANTS Clauses,        \* contract clauses this check decides
          JudgeCrash      \* whether an answer that never comes is a rejection (else only missing)

VARIABLES streams, outputs, pending,   \* of Codec
          job, run, call, phase        \* position: phase in {"compress", "decompress", "end"}
vars == <<streams, outputs, pending, job, run, call, phase>>

(* the arrays of the answer at the current position *)
Ins(q) == [k \in 1..q.nin |-> T!InArr(job, call, k)]
Outs(p) == [k \in 1..p.nout |-> T!OutArr(run, job, call, k)]
ContractAllows(key, o) == TRUE   \* WhyDecompress names the clauses of the contract one by one
C == INSTANCE Codec WITH Allowed <- ContractAllows

----------------------------------------------------------------------------
Answered == call <= T!Ending(run, job).outcalls
Q == T!Request(job, call)
P == T!Reply(run, job, call)

Flag(b, name) == IF b THEN {name} ELSE {}
(* why Compress / Decompress cannot take the recorded answer *)
WhyCompress(q, p) ==
  Flag("pure" \in Clauses /\ ~ C!StreamOk(q.key, <<p.digest, p.size>>), "another stream for the same request")
  \cup Flag("pure" \in Clauses /\ ~ p.inputOk, "input or stream modified")
  \cup Flag("size" \in Clauses /\ ~ (Cx!SizeOk(q, p) /\ Cx!EntropyOk(q, p, Ins(q))), "size")
WhyDecompress(q, p) ==
  Flag("output" \in Clauses /\ q.op \notin Cx!NoDecoder /\ ~ C!OutputOk(q.key, p.output), "another output for the same stream")
  \cup Flag("consumed" \in Clauses /\ ~ Cx!ConsumedOk(q, p), "consumed")
  \cup Flag("lossless" \in Clauses /\ ~ Cx!LosslessOk(q, p), "lossless")
  \cup Flag("file" \in Clauses /\ ~ Cx!FileOk(q, p), "file")
  \cup Cx!Failures(q, Ins(q), Outs(p), Clauses \cap Cx!DataClauses)
  \cup Flag("size" \in Clauses /\ ~ Cx!RatioOk(q, p, Ins(q)), "ratio")

TraceInit == /\ streams = << >> /\ outputs = << >> /\ pending = << >>
             /\ job = 1 /\ run = 1 /\ call = 1 /\ phase = "compress"

Here(ph) == job <= T!NJobs /\ phase = ph
Report(why) == PrintT(<<"REJECT", job, run, call, phase, why>>) /\ TLCSet(1, TLCGet(1) + 1)

(* the compressor answered *)
StepCompress ==
  /\ Here("compress") /\ Answered
  /\ LET q == Q  p == P  why == WhyCompress(q, p) IN
     \/ why = {} /\ C!Compress(q.key, <<p.digest, p.size>>)
     \/ \* not the codec's step, but another check's business
        /\ why = {} /\ ~ C!StreamOk(q.key, <<p.digest, p.size>>)
        /\ pending' = q.key /\ UNCHANGED <<streams, outputs>>
     \/ /\ why # {} /\ Report(why)
        /\ pending' = q.key /\ UNCHANGED <<streams, outputs>>
  /\ phase' = "decompress"
  /\ UNCHANGED <<job, run, call>>

(* the decompressor answered *)
StepDecompress ==
  /\ Here("decompress")
  /\ LET q == Q  p == P  why == WhyDecompress(q, p) IN
     \/ why = {} /\ C!Decompress(p.output)
     \/ /\ why = {} /\ ~ C!OutputOk(q.key, p.output)
        /\ pending' = C!None /\ UNCHANGED <<streams, outputs>>
     \/ /\ why # {} /\ Report(why)
        /\ pending' = C!None /\ UNCHANGED <<streams, outputs>>
  /\ phase' = IF call < T!NCalls(job) THEN "compress" ELSE "end"
  /\ call' = IF call < T!NCalls(job) THEN call + 1 ELSE call
  /\ UNCHANGED <<job, run>>

(* no answer was recorded for the call: the process died in it, or in a later one *)
StepLost ==
  /\ Here("compress") /\ ~ Answered
  /\ phase' = "end"
  /\ UNCHANGED <<streams, outputs, pending, job, run, call>>

NextProcess == IF run < T!NRuns THEN run' = run + 1 /\ job' = job /\ UNCHANGED <<streams, outputs>>
               ELSE run' = 1 /\ job' = job + 1 /\ streams' = << >> /\ outputs' = << >>
(* the process ended; all calls answered is the only end the codec has *)
StepEnd ==
  /\ Here("end")
  /\ LET e == T!Ending(run, job) IN
     \/ e.kind = "returned"
     \/ e.kind # "returned" /\ JudgeCrash /\ Report({e.kind, e.stage, e.op})
     \/ e.kind # "returned" /\ ~ JudgeCrash
  /\ pending' = C!None /\ call' = 1 /\ phase' = "compress"
  /\ NextProcess

TraceNext == StepCompress \/ StepDecompress \/ StepLost \/ StepEnd
TraceSpec == TraceInit /\ [][TraceNext]_vars

(* all jobs consumed, none rejected *)
Count == TLCGet("stats").diameter
TraceAccepted == /\ PrintT(<<"TRACE", "jobs", T!NJobs, "states", Count, "rejected", TLCGet(1)>>)
                 /\ TLCGet(1) = 0
Done == job > T!NJobs
ASSUME TLCSet(1, 0)
============================================================================
