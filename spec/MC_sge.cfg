SPECIFICATION Spec
INVARIANTS Quadrature Score Path MvMean MvScale MvScaleFree Exchange CvUnbiased DeltaExpected NoVariance OptCoef Emit
CHECK_DEADLOCK FALSE
