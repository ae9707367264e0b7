INIT KInit
NEXT KNext
INVARIANTS Refusals QueryNeedsKb WriteNeedsKb QuerySound QueryComplete QueryEnds ImageIffPresent KCaseOk
PROPERTIES LoadOk ImagesKept
CHECK_DEADLOCK FALSE
