SPECIFICATION Spec
INVARIANTS Required Enough Depends Independent Valid Emit
CHECK_DEADLOCK FALSE
