func stw.stopTheWorld(reason) (w)
  trusted "the Go runtime: on return the world is stopped once more"
  nopanic
  modifies stwDepth
  ensures stwDepth == old(stwDepth) + 1
func stw.startTheWorld(w)
  trusted "the Go runtime: on return the world is stopped once less"
  nopanic
  modifies stwDepth
  ensures stwDepth == old(stwDepth) - 1
