# Assertions are the library's refusal mechanism; debug output changes nothing.
func tool.Assert(b, fmts)
  requires "no panic while the world is stopped: the runtime makes that fatal" [C04] b || stwDepth == 0
  panicsiff "panics exactly when the condition is false" !b
  modifies nothing

func tool.DebugPrintf(format, a)
  nopanic
  modifies nothing
