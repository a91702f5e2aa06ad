----------------------------- MODULE TraceData -----------------------------
(* What the harness recorded (java/cpsz/TraceData.java reads its files).    *)
(* Job j is a sequence of NCalls(j) calls; run r in 1..NRuns is a separate  *)
(* execution of all jobs in other processes.  The right-hand sides below    *)
(* are placeholders for the tool overrides and are never evaluated.         *)
LOCAL INSTANCE Integers
NJobs == 0                    \* number of jobs
NRuns == 0                    \* number of runs
NCalls(j) == 0                \* number of calls of job j
Request(j, c) == [op |-> ""]  \* what call c asked for: op, typ, r1, r2, r3, bsize, bi, zstd, fresh, tail, eb, nin, n,
                              \* input and key (identities of the input arrays, and of method + parameters + input)
Ending(r, j) == [kind |-> ""] \* how the process ended: kind in {returned, crash, hang}; call, stage where; outcalls answered
Reply(r, j, c) == [size |-> 0]\* size, digest of the stream; aux; inputOk; nout, identity of the output arrays
InArr(j, c, k) == << >>       \* input array k as numbers
OutArr(r, j, c, k) == << >>   \* output array k as numbers
============================================================================
