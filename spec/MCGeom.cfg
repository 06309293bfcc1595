SPECIFICATION Spec
INVARIANTS Kernels_ SkewOK WakeFollows SameField SameGround NoFlow Symmetric Rigid YawIsFrame FullTurn RoundTrip
CHECK_DEADLOCK FALSE
