SPECIFICATION Spec
CONSTANT KINDS = {"CTMC"}
INVARIANTS Faithful RoundTrip Sharp Numbering Noticed Emit
CHECK_DEADLOCK FALSE
