SPECIFICATION Spec
INVARIANTS PolyLaw ExpoLaw CosLaw PcLaw ConLaw Emit
CHECK_DEADLOCK FALSE
