# A runtime helper a generic wrapper may call besides the one implementation.
define isHelper(a: u64) = (inst.duffcopyStart <= a && a <= inst.duffcopyEnd) || (inst.duffzeroStart <= a && a <= inst.duffzeroEnd) || has(inst.proxyCallRace, a)

func inst.isGenericProxyCallExtra(addr) (extra, name)
  nopanic
  modifies nothing
  ensures "exactly the bulk copy/zero routines and the race detector's hooks are skipped" [C05] extra == isHelper(addr)
