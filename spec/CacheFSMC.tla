-------------------------------- MODULE CacheFSMC -------------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES pc, names, inodes, fd, got, crashed, sched
NProcs == atoi(IOEnv.NPROCS)
INSTANCE CacheFS WITH Procs <- 1..NProcs, Protocol <- IOEnv.PROTOCOL, Checked <- (IOEnv.CHECKED = "yes"),
                      MaxCrash <- 2, Record <- (IOEnv.RECORD = "yes")
=================================================================================
