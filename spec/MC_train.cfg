SPECIFICATION Spec
INVARIANTS NoError Descends CrashSafe FaultsLeaveNoTrace WholeBatch FrozenStays Feasible Reaches Emit
CHECK_DEADLOCK FALSE
