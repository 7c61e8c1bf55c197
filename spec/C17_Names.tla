-------------------------------- MODULE C17_Names -------------------------------
(* What elements leave in the cache: the name of a file determines the matrix in it (Ids of CacheFS   *)
(* and Lifecycle are injective up to equal matrices), and what is read back is what was computed.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
ObsAll == JsonDeserialize(IOEnv.OBS)
Verdict(o) ==
  LET E == o.entries
      D == DOMAIN E
      F == UNION { { << f, E[i].plain >> : f \in { E[i].files[k] : k \in DOMAIN E[i].files } } : i \in D }
      names == { z[1] : z \in F }
      shared == { f \in names : Cardinality({ z \in F : z[1] = f }) > 1 }
      clash == { i \in D : \E k \in DOMAIN E[i].files : E[i].files[k] \in shared }
  IN { E[i].label \o ": another element with a different matrix uses the same file" : i \in clash }
     \cup { E[i].label \o ": the matrix read back is not the one computed" : i \in { j \in D : E[j].back # E[j].plain } }
     \cup { E[i].label \o ": the matrix with the cache is not the one without" : i \in { j \in D : E[j].d # E[j].plain } }
VARIABLES lane, pos, failed
INSTANCE Runner WITH Judge <- Verdict, Obs <- ObsAll, Lanes <- 1
=================================================================================
