SPECIFICATION Spec
CONSTANT MaxV = 150
CONSTANT Kinds = {"int", "uns", "eng", "fix", "str"}
INVARIANTS IntOK UnsOK EngOK FixOK StrOK
CHECK_DEADLOCK FALSE
