------------------------------- MODULE C16_History ------------------------------
(* Replays a recorded program against the abstract machine of Lifecycle: there, the answer to a       *)
(* question is a function of the recipe of the objects and the question.  The state after each event  *)
(* is what is known of that function; an event that contradicts it is a violation.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
ObsAll == JsonDeserialize(IOEnv.OBS)
\* known: question -> answer, "" while unknown
RECURSIVE Replay(_, _, _, _)
Replay(ev, i, known, bad) ==
  IF i > Len(ev) THEN bad
  ELSE LET e == ev[i]
           contradicts == known[e.key] # "" /\ known[e.key] # e.d
       IN Replay(ev, i + 1, [known EXCEPT ![e.key] = IF @ = "" THEN e.d ELSE @],
                 bad \cup (IF contradicts THEN {e.q \o ": the answer depends on what was asked before"} ELSE {})
                     \cup (IF e.late # e.d THEN {e.q \o ": an answer changed after it was given"} ELSE {})
                     \cup (IF e.a1 # e.a0 THEN {e.q \o ": the question changed an object passed to it"} ELSE {})
                     \cup (IF e.a2 # e.a1 THEN {e.q \o ": an object passed to the question changed later"} ELSE {}))
Verdict(o) == Replay(o.ev, 1, o.fresh, {})
VARIABLES lane, pos, failed
INSTANCE Runner WITH Judge <- Verdict, Obs <- ObsAll, Lanes <- 8
=================================================================================
