CONSTANTS
MaxRows = 8
MaxCpus = 6
Cut = "message"
SPECIFICATION Spec
INVARIANTS SameAsSerial Disjoint Covers Bounded
CHECK_DEADLOCK FALSE
