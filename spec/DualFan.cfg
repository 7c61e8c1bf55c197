CONSTANTS MaxN = 9
SPECIFICATION Spec
INVARIANTS Closes Balanced Unit1 Mirror Tour ClosedForm Partition PartitionO
CHECK_DEADLOCK FALSE
