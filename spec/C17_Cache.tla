-------------------------------- MODULE C17_Cache -------------------------------
(* Recorded runs of real processes that share a cache directory, and matrices written and read back.  *)
(* The operations of a run are replayed on a model of the file system (names, inodes, descriptors),   *)
(* which tells what every reader could see; the outcome of every process that was not ended must be   *)
(* the matrix computed without a cache (Sound of CacheFS).                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
ObsAll == JsonDeserialize(IOEnv.OBS)

\* state of the replay: the inode each name and each open file of a process refers to, the inodes
\* somebody is still writing, and whether a reader opened one of those
MaxF == 64
MaxP == 8
Start == [name |-> [f \in 0..MaxF |-> 0], open |-> [p \in 1..MaxP |-> [f \in 0..MaxF |-> 0]],
          writing |-> {}, next |-> 1, torn |-> FALSE]
ReplayOp(s, e) ==
  IF e.f > MaxF \/ e.to > MaxF \/ e.p > MaxP \/ e.killed THEN s
  ELSE IF e.op \in {"openw", "openx", "openc", "openu"} /\ e.r = 0
    THEN IF s.name[e.f] = 0
         THEN [s EXCEPT !.name[e.f] = s.next, !.open[e.p][e.f] = s.next, !.writing = @ \cup {s.next}, !.next = @ + 1]
         ELSE [s EXCEPT !.open[e.p][e.f] = s.name[e.f], !.writing = @ \cup {s.name[e.f]}]
  ELSE IF e.op = "openr" /\ e.r = 0 THEN [s EXCEPT !.open[e.p][e.f] = s.name[e.f]]
  ELSE IF e.op = "read" THEN [s EXCEPT !.torn = @ \/ (s.open[e.p][e.f] \in s.writing)]
  ELSE IF e.op = "close" THEN [s EXCEPT !.writing = @ \ {s.open[e.p][e.f]}, !.open[e.p][e.f] = 0]
  ELSE IF e.op = "rename" /\ e.r = 0 THEN [s EXCEPT !.name[e.to] = s.name[e.f], !.name[e.f] = 0]
  ELSE IF e.op = "link" /\ e.r = 0 THEN [s EXCEPT !.name[e.to] = s.name[e.f]]
  ELSE IF e.op = "unlink" /\ e.r = 0 THEN [s EXCEPT !.name[e.f] = 0]
  ELSE s
RECURSIVE Replay(_, _, _)
Replay(s, ops, i) == IF i > Len(ops) THEN s ELSE Replay(TLCEval(ReplayOp(s, ops[i])), ops, i + 1)

Processes(o) ==
  LET bad == { i \in DOMAIN o.outs : ~o.outs[i].killed /\ (o.outs[i].failed \/ o.outs[i].got # o.outs[i].want) }
      failed == { i \in bad : o.outs[i].failed }
      torn == Replay(Start, o.ops, 1).torn
      why == IF torn THEN " after a file was read before it was complete" ELSE ""
  IN (IF failed # {} THEN {"a call fails because of the cache" \o why} ELSE {})
     \cup (IF bad \ failed # {} THEN {"a wrong matrix is returned" \o why} ELSE {})
Matrix(o) ==
  (IF o.string.rows = o.rows /\ o.string.cols = o.cols /\ o.string.flat = o.want THEN {} ELSE {"the string of a matrix reads as another one"})
  \cup (IF o.disk.rows = o.rows /\ o.disk.cols = o.cols /\ o.disk.flat = o.want THEN {} ELSE {"a saved matrix loads as another one"})
  \cup (IF \A i \in DOMAIN o.none : o.none[i] THEN {} ELSE {"a matrix is loaded under another name, type or size"})
  \cup (IF o.same THEN {} ELSE {"saving changes the matrix"})
Verdict(o) == IF o.kind = "matrix" THEN Matrix(o) ELSE Processes(o)
VARIABLES lane, pos, failed
INSTANCE Runner WITH Judge <- Verdict, Obs <- ObsAll, Lanes <- 8
=================================================================================
