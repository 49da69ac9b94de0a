SPECIFICATION Spec
CONSTANT KINDS = {"MDP"}
INVARIANTS Faithful RoundTrip Sharp Numbering Noticed Emit
CHECK_DEADLOCK FALSE
