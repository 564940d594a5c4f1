------------------------------ MODULE CliTrace ------------------------------
(* Recorded invocations of the real command line tool, held against Cli. *)
EXTENDS Cli, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Chunk == atoi(IOEnv.CHUNK)

VARIABLES l, at
Init == l \in {i \in 0 .. N - 1 : i % Chunk = 0} /\ at = "start"
Next == /\ l < N
        /\ at # "end"
        /\ l' = l + 1
        /\ at' = IF l' % Chunk = 0 THEN "end" ELSE "in"
        /\ LET t == Trace[l']
           IN  ~Right(t.q, t.e) => PrintT("BAD " \o ToString(<<l', IF t.crash THEN "crash" ELSE "ending", Selected(t.q)>>))

(* every line was looked at *)
Consumed == TLCGet("stats").distinct = N + ((N + Chunk - 1) \div Chunk)
=============================================================================
