SPECIFICATION Spec
CONSTANT KINDS = {"MC"}
INVARIANTS Faithful RoundTrip Sharp Numbering Noticed Emit
CHECK_DEADLOCK FALSE
