SPECIFICATION Spec
CONSTANT KINDS = {"MC","CTMC","MDP","HMM"}
INVARIANTS Laws Bounded Emit
CHECK_DEADLOCK FALSE
