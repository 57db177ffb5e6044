SPECIFICATION Spec
INVARIANTS LinearRule ClipRule RssRule WrapRule RateRule AdamRule Emit
CHECK_DEADLOCK FALSE
