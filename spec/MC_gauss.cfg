SPECIFICATION Spec
INVARIANTS Normalised MeanIs VarianceIs Factorises Pushforward Mode ScoreIs ScoreMean Emit
CHECK_DEADLOCK FALSE
