------------------------------- MODULE LifecycleMC ------------------------------
(* Exhaustive check of the discipline of remembered results on a small instance.                     *)
EXTENDS Integers, Sequences
CONSTANTS IdsConst
VARIABLES object, memory, disk, used, program
INSTANCE Lifecycle WITH Kinds <- << "E", "E", "R" >>, Ids <- IdsConst, Handles <- 1..2, Depth <- 40, Variants <- 1
View == << object, memory, disk, used >>
Distinct == << 1, 2, 3 >>
Shared == << 1, 1, 3 >>
=================================================================================
