CONSTANTS
MaxRows = 6
MaxCpus = 4
Cut = "message"
SPECIFICATION Spec
INVARIANTS SameAsSerial Disjoint Covers Bounded
PROPERTY Finishes
CHECK_DEADLOCK FALSE
