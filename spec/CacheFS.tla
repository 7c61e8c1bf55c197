--------------------------------- MODULE CacheFS --------------------------------
(* Processes that share one cached matrix on disk.  A process looks the matrix up; when it is not     *)
(* there (or not acceptable) it computes and writes it, in two pieces, by one of three protocols:     *)
(*   "in place"  open the final name with truncation and write                                        *)
(*   "shared"    write one agreed temporary name and rename it                                        *)
(*   "replace"   write a temporary name of its own and rename it                                      *)
(* Any process may die at any point.  Checked says that a reader recognises an incomplete file.       *)
(* Sound: no process ever answers from an incomplete file or fails.  TLC shows it for "replace" and   *)
(* for checked readers and refutes it for the unchecked others; in simulation mode the module gives   *)
(* the schedules under which real processes are run.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Procs, Protocol, Checked, MaxCrash, Record
VARIABLES pc, names, inodes, fd, got, crashed, sched
vars == << pc, names, inodes, fd, got, crashed, sched >>
TempOf(p) == IF Protocol = "shared" THEN "temp" ELSE "temp" \o ToString(p)
Names == {"final", "temp"} \cup { "temp" \o ToString(p) : p \in Procs }
\* an inode is the set of pieces it holds; both pieces make the matrix
Init == /\ pc = [p \in Procs |-> "look"] /\ names = [n \in Names |-> 0] /\ inodes = << >>
        /\ fd = [p \in Procs |-> 0] /\ got = [p \in Procs |-> "none"] /\ crashed = 0 /\ sched = << >>
Log(p, a) == sched' = IF Record THEN Append(sched, << p, a >>) ELSE << >>
Goto(p, s) == pc' = [pc EXCEPT ![p] = s]
Look(p) ==
  /\ pc[p] = "look"
  /\ IF names["final"] = 0 THEN Goto(p, "open") /\ UNCHANGED fd
     ELSE fd' = [fd EXCEPT ![p] = names["final"]] /\ Goto(p, "read")
  /\ UNCHANGED << names, inodes, got, crashed >> /\ Log(p, "go")
Read(p) ==
  /\ pc[p] = "read"
  /\ IF inodes[fd[p]] = {1, 2} THEN got' = [got EXCEPT ![p] = "right"] /\ Goto(p, "done")
     ELSE IF Checked THEN Goto(p, "open") /\ UNCHANGED got
     ELSE got' = [got EXCEPT ![p] = "wrong"] /\ Goto(p, "done")
  /\ UNCHANGED << names, inodes, fd, crashed >> /\ Log(p, "go")
Open(p) ==
  /\ pc[p] = "open"
  /\ LET n == IF Protocol = "in place" THEN "final" ELSE TempOf(p)
     IN IF names[n] # 0 THEN /\ inodes' = [inodes EXCEPT ![names[n]] = {}]
                             /\ fd' = [fd EXCEPT ![p] = names[n]] /\ UNCHANGED names
        ELSE /\ inodes' = Append(inodes, {}) /\ names' = [names EXCEPT ![n] = Len(inodes) + 1]
             /\ fd' = [fd EXCEPT ![p] = Len(inodes) + 1]
  /\ Goto(p, "first") /\ UNCHANGED << got, crashed >> /\ Log(p, "go")
Write(p, s, k, nxt) ==
  /\ pc[p] = s /\ inodes' = [inodes EXCEPT ![fd[p]] = @ \cup {k}] /\ Goto(p, nxt)
  /\ UNCHANGED << names, fd, got, crashed >> /\ Log(p, IF k = 2 THEN "go" ELSE "half")
Close(p) ==
  /\ pc[p] = "close"
  /\ IF Protocol = "in place" THEN got' = [got EXCEPT ![p] = "right"] /\ Goto(p, "done")
     ELSE Goto(p, "rename") /\ UNCHANGED got
  /\ UNCHANGED << names, inodes, fd, crashed >> /\ Log(p, "go")
Rename(p) ==
  /\ pc[p] = "rename"
  /\ LET n == TempOf(p)
     IN IF names[n] = 0 THEN got' = [got EXCEPT ![p] = "wrong"] /\ UNCHANGED names
        ELSE names' = [names EXCEPT !["final"] = names[n], ![n] = 0] /\ got' = [got EXCEPT ![p] = "right"]
  /\ Goto(p, "done") /\ UNCHANGED << inodes, fd, crashed >> /\ Log(p, "go")
Crash(p) ==
  /\ crashed < MaxCrash /\ pc[p] \notin {"done", "dead"}
  /\ Goto(p, "dead") /\ crashed' = crashed + 1 /\ UNCHANGED << names, inodes, fd, got >> /\ Log(p, "kill")
Next == \E p \in Procs : \/ Look(p) \/ Read(p) \/ Open(p) \/ Write(p, "first", 1, "second")
                         \/ Write(p, "second", 2, "close") \/ Close(p) \/ Rename(p) \/ Crash(p)
Spec == Init /\ [][Next]_vars
Sound == \A p \in Procs : got[p] # "wrong"
\* once the file is complete it stays so
Stable == [][names["final"] # 0 /\ inodes[names["final"]] = {1, 2} =>
               names'["final"] # 0 /\ inodes'[names'["final"]] = {1, 2}]_vars

Over == \A p \in Procs : pc[p] \in {"done", "dead"}
GenNext == \/ ~Over /\ LET p == RandomElement({ q \in Procs : pc[q] \notin {"done", "dead"} })
                           c == RandomElement(1..14)
                       IN \E q \in {p} : \E d \in {c} :
                            IF d = 1 /\ crashed < MaxCrash THEN Crash(q)
                            ELSE Look(q) \/ Read(q) \/ Open(q) \/ Write(q, "first", 1, "second")
                                 \/ Write(q, "second", 2, "close") \/ Close(q) \/ Rename(q)
           \/ Over /\ PrintT(ToJson(sched)) /\ pc' = [pc EXCEPT ![1] = "end"]
              /\ UNCHANGED << names, inodes, fd, got, crashed, sched >>
GenSpec == Init /\ [][GenNext]_vars
=================================================================================
