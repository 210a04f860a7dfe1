CONSTANTS
MaxRows = 6
MaxCpus = 4
Cut = "anywhere"
SPECIFICATION Spec
INVARIANTS SameAsSerial Disjoint Covers Bounded
CHECK_DEADLOCK FALSE
