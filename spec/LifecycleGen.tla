------------------------------ MODULE LifecycleGen ------------------------------
EXTENDS Integers, Sequences, Json, IOUtils
VARIABLES object, memory, disk, used, program
Given == JsonDeserialize(IOEnv.RECIPES)
INSTANCE Lifecycle WITH Kinds <- Given, Ids <- [r \in DOMAIN Given |-> r], Handles <- 1..4,
                        Depth <- atoi(IOEnv.DEPTH), Variants <- 9
=================================================================================
