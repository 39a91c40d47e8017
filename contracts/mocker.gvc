# Scopes, mockers of functions and of variables.

# the scopes: one registry per scope, the innermost one last
define scopesOK() = len(mockey.gMocker) > 0 && (forall i: int :: 0 <= i && i < len(mockey.gMocker) ==> mockey.gMocker[i] != nil) && (forall i: int, j: int :: 0 <= i && i < j && j < len(mockey.gMocker) ==> mockey.gMocker[i] != mockey.gMocker[j])
define top() = mockey.gMocker[len(mockey.gMocker)-1]
define regIn(i: int, k: `uintptr`, m: Iface) = has(mockey.gMocker[i], k) && mockey.gMocker[i][k] == m
define scope(i: int) = 0 <= i && i < len(mockey.gMocker)
define regOnce(k: `uintptr`, m: Iface) = forall i: int, j: int :: scope(i) && scope(j) && regIn(i, k, m) && regIn(j, k, m) ==> i == j
# the registries are as before, but for the entry of key k in scope i
define regSame(i: int, k: `uintptr`) = (has(mockey.gMocker[i], k) <==> old(has(mockey.gMocker[i], k))) && (has(mockey.gMocker[i], k) ==> mockey.gMocker[i][k] == old(mockey.gMocker[i][k]))
define regFrame() = forall i: int, k: `uintptr` :: scope(i) ==> regSame(i, k)

# the address a mocked variable lives at
uf locaddr(v: Any): u64
define varOK(m: `*mockey.MockerVar`) = m != nil && m.target == loc(locaddr(m.target), m.targetType) && locaddr(m.target) != 0 && kind(m.targetType) != 0
define varKey(m: `*mockey.MockerVar`) = uintptr(locaddr(m.target))
define originOK(m: `*mockey.MockerVar`) = isnil(m.origin) ? kind(m.targetType) == 20 : (assignable(typeof(m.origin), m.targetType) && (typeof(m.origin) == m.targetType || kind(m.targetType) == 20))
define cell(m: `*mockey.MockerVar`) = RC[locaddr(m.target)]
define funcOK(m: `*mockey.Mocker`) = m != nil && kind(rvtype(m.target)) == 19 && closptr(rvIface(m.target)) != 0
define funcKey(m: `*mockey.Mocker`) = uintptr(ld64(closptr(rvIface(m.target))))
define instOK(i: Iface) = (is(i, `*mockey.Mocker`) || is(i, `*mockey.MockerVar`)) && (is(i, `*mockey.Mocker`) ==> funcOK(as(i, `*mockey.Mocker`))) && (is(i, `*mockey.MockerVar`) ==> varOK(as(i, `*mockey.MockerVar`)))
define instKey(i: Iface) = is(i, `*mockey.Mocker`) ? funcKey(as(i, `*mockey.Mocker`)) : varKey(as(i, `*mockey.MockerVar`))

func tool.OuterCaller() (info)
  home C13
  nopanic
  modifies nothing

func mockey.removeFromGlobal(mocker)
  home C13,C15,C16
  requires scopesOK() && instOK(mocker) && regOnce(instKey(mocker), mocker)
  nopanic
  modifies maps map[uintptr]mockey.mockerInstance
  ensures "the mock is registered in no scope" [C13,C15,C16] forall i: int :: scope(i) ==> !regIn(i, instKey(mocker), mocker)
  ensures "every other entry of every scope stays" [C13,C15,C14] forall i: int, k: `uintptr` :: scope(i) && !(k == instKey(mocker) && old(regIn(i, k, mocker))) ==> regSame(i, k)
  cand forall n: int :: -1 <= n && n < len(mockey.gMocker) && (forall i: int :: n < i && i < len(mockey.gMocker) ==> !regIn(i, instKey(mocker), mocker))

func mockey.MockValue(targetPtr) (r)
  home C19,C16
  panicsiff "a variable argument that is not a pointer is refused" [C19] kind(typeof(targetPtr)) != 22 || ptrof(targetPtr) == 0
  modifies new mockey.MockerVar
  ensures "the mock remembers the variable and what it holds" [C16] fresh(r) && r.target == loc(ptrof(targetPtr), elemT(typeof(targetPtr))) && r.targetType == elemT(typeof(targetPtr)) && r.origin == RC[ptrof(targetPtr)] && !r.isPatched

func (*mockey.MockerVar).Patch(mocker) (r)
  home C16,C13,C14
  requires scopesOK() && varOK(mocker)
  requires "a value has been given" !mocker.isPatched ==> assignable(rvtype(mocker.hook), mocker.targetType) && mocker.hook == rv(rvtype(mocker.hook), rvIface(mocker.hook))
  panicsiff "refused exactly when the scope has an active mock of the variable" [C14] !mocker.isPatched && has(top(), varKey(mocker))
  modifies mocker.isPatched, mocker.outerCaller, RC, maps map[uintptr]mockey.mockerInstance
  ensures "the variable holds the mock value" [C16] r == mocker && mocker.isPatched && (old(mocker.isPatched) ? cell(mocker) == old(cell(mocker)) : cell(mocker) == rassign(mocker.targetType, rvIface(mocker.hook)))
  ensures "no other variable changes" [C16] forall a: u64 :: a != locaddr(mocker.target) ==> RC[a] == old(RC[a])
  ensures "the current scope lists the mock" [C13,C15] !old(mocker.isPatched) ==> regIn(len(mockey.gMocker)-1, varKey(mocker), box(mocker))
  ensures "every other entry of every scope stays" [C13,C14] forall i: int, k: `uintptr` :: scope(i) && (old(mocker.isPatched) || i < len(mockey.gMocker) - 1 || k != varKey(mocker)) ==> regSame(i, k)
  exsures "a refused mock changes nothing" [C14,C16] (forall a: u64 :: RC[a] == old(RC[a])) && regFrame() && mocker.isPatched == old(mocker.isPatched)

func (*mockey.MockerVar).To(mocker, value) (r)
  home C16,C14
  requires scopesOK() && varOK(mocker)
  panicsiff "refused exactly when the value does not fit or the scope has another mock of the variable" [C16,C14] (!isnil(value) && !assignable(typeof(value), mocker.targetType)) || (!mocker.isPatched && has(top(), varKey(mocker)))
  modifies mocker.hook, mocker.isPatched, mocker.outerCaller, RC, maps map[uintptr]mockey.mockerInstance
  ensures "the variable holds exactly the given value" [C16] r == mocker && mocker.isPatched && cell(mocker) == (isnil(value) ? zeroIface(mocker.targetType) : rassign(mocker.targetType, value))
  ensures "no other variable changes" [C16] forall a: u64 :: a != locaddr(mocker.target) ==> RC[a] == old(RC[a])
  ensures "the current scope lists the mock" [C13,C15] !old(mocker.isPatched) ==> regIn(len(mockey.gMocker)-1, varKey(mocker), box(mocker))
  ensures "every other entry of every scope stays" [C13,C14] forall i: int, k: `uintptr` :: scope(i) && (old(mocker.isPatched) || i < len(mockey.gMocker) - 1 || k != varKey(mocker)) ==> regSame(i, k)
  exsures "a refused value changes nothing" [C16,C14] (forall a: u64 :: RC[a] == old(RC[a])) && regFrame() && mocker.isPatched == old(mocker.isPatched)

func (*mockey.MockerVar).UnPatch(mocker) (r)
  home C16,C13,C15
  requires scopesOK() && varOK(mocker) && originOK(mocker)
  requires "an active mock is listed in one scope" mocker.isPatched ==> regOnce(varKey(mocker), box(mocker))
  nopanic
  modifies mocker.isPatched, RC, maps map[uintptr]mockey.mockerInstance
  ensures "the variable holds what it held when the mock was created" [C16] r == mocker && !mocker.isPatched && cell(mocker) == (old(mocker.isPatched) ? (isnil(mocker.origin) ? zeroIface(mocker.targetType) : mocker.origin) : old(cell(mocker)))
  ensures "no other variable changes" [C16] forall a: u64 :: a != locaddr(mocker.target) ==> RC[a] == old(RC[a])
  ensures "no scope lists the mock" [C13,C15] old(mocker.isPatched) ==> (forall i: int :: scope(i) ==> !regIn(i, varKey(mocker), box(mocker)))
  ensures "every other entry of every scope stays" [C13,C14,C15] forall i: int, k: `uintptr` :: scope(i) && !(old(mocker.isPatched) && k == varKey(mocker) && old(regIn(i, k, box(mocker)))) ==> regSame(i, k)

# ---- mocks of functions
# the word at c is apart from the n bytes at b
define wordApart(c: u64, b: u64, n: u64) = !inRange(c, b, n) && !inRange(c + 1, b, n) && !inRange(c + 2, b, n) && !inRange(c + 3, b, n) && !inRange(c + 4, b, n) && !inRange(c + 5, b, n) && !inRange(c + 6, b, n) && !inRange(c + 7, b, n)
define there(c: u64) = existing(c) && existing(c + 1) && existing(c + 2) && existing(c + 3) && existing(c + 4) && existing(c + 5) && existing(c + 6) && existing(c + 7)
define fnWord(m: `*mockey.Mocker`) = closptr(rvIface(m.target))
define siteOf(m: `*mockey.Mocker`) = patched(mem, codeAddr(m.target), m.builder.generic)
# what Unpatch needs
define patchOK(m: `*mockey.Mocker`) = m.patch != nil && 0 <= m.patch.size && m.patch.size <= len(m.patch.code) && ule(hookLen(), u64(m.patch.size)) && plainRange(u64(m.patch.base), u64(m.patch.size)) && plainRange(ptr(m.patch.code), u64(len(m.patch.code)))
define savedApart(m: `*mockey.Mocker`) = forall a: u64 :: trig(ld8(a, mem)) ==> !(inRange(a, u64(m.patch.base), u64(m.patch.size)) && inRange(a, ptr(m.patch.code), u64(len(m.patch.code))))

func (*mockey.Mocker).Patch(mocker) (r)
  home C13,C14
  requires scopesOK() && funcOK(mocker) && mocker.builder != nil
  requires "the page size has been read" u64(common.pageSize) == pagesize()
  requires "the world is not stopped" stwDepth == 0
  requires "a hook has been built" kind(rvtype(mocker.hook)) == 19 && kind(typeof(mocker.proxy)) == 22 && kind(elemT(typeof(mocker.proxy))) == 19
  requires "code lies in mapped memory" forall a: u64 :: trig(ld8(a, mem)) ==> inRange(a, siteOf(mocker), u64(64)) ==> existing(a)
  requires "an address range" plainRange(siteOf(mocker), u64(64))
  requires "the function's value lies outside of code" there(fnWord(mocker)) && wordApart(fnWord(mocker), siteOf(mocker), u64(64))
  panicsif "an active mock is left alone" !mocker.isPatched
  modifies M, prot, RC, stwDepth, mocker.isPatched, mocker.patch, mocker.outerCaller, maps map[uintptr]mockey.mockerInstance
  ensures "the world runs" stwDepth == 0
  ensures "the mock is active" [C13] r == mocker && mocker.isPatched
  ensures "an active mock stays as it is" [C13] old(mocker.isPatched) ==> noneChanged(mem, old(mem)) && mocker.patch == old(mocker.patch)
  ensures "a target that the current scope mocks already is refused" [C14] !old(mocker.isPatched) ==> !old(has(top(), funcKey(mocker)))
  ensures "the current scope lists the mock" [C13,C15] !old(mocker.isPatched) ==> regIn(len(mockey.gMocker)-1, old(funcKey(mocker)), box(mocker))
  ensures "every other entry of every scope stays" [C13,C14] forall i: int, k: `uintptr` :: scope(i) && (old(mocker.isPatched) || i < len(mockey.gMocker) - 1 || k != old(funcKey(mocker))) ==> regSame(i, k)
  ensures "the mock knows what it changed" [C13] !old(mocker.isPatched) ==> patchOK(mocker) && u64(mocker.patch.base) == old(siteOf(mocker))
  ensures "calls of the target reach the hook" [C13] !old(mocker.isPatched) ==> hookJump(mem, old(siteOf(mocker)), closptr(rvIface(mocker.hook)))
  exsures "a refused mock is not active and no scope's list changes" [C14] regFrame() && !mocker.isPatched
  exsures "a second mock of the target in the scope changes nothing" [C14] old(has(top(), funcKey(mocker))) ==> noneChanged(mem, old(mem)) && (forall a: u64 :: RC[a] == old(RC[a])) && mocker.patch == old(mocker.patch)

func (*mockey.Mocker).UnPatch(mocker) (r)
  home C13,C15,C07
  requires scopesOK() && funcOK(mocker)
  requires "the page size has been read" u64(common.pageSize) == pagesize()
  requires "the world is not stopped" stwDepth == 0
  requires "an active mock is as Patch leaves it" mocker.isPatched ==> patchOK(mocker) && savedApart(mocker) && regOnce(funcKey(mocker), box(mocker)) && wordApart(fnWord(mocker), u64(mocker.patch.base), u64(mocker.patch.size)) && wordApart(fnWord(mocker), ptr(mocker.patch.code), u64(len(mocker.patch.code)))
  panicsif "removing a removed mock does nothing" mocker.isPatched
  modifies M, prot, stwDepth, mocker.isPatched, mocker.times, mocker.mockTimes, maps map[uintptr]mockey.mockerInstance
  ensures "the world runs" stwDepth == 0
  ensures "the mock is not active" [C13,C15] r == mocker && !mocker.isPatched
  ensures "the counters start again" [C07] mocker.times == (old(mocker.isPatched) ? 0 : old(mocker.times)) && mocker.mockTimes == (old(mocker.isPatched) ? 0 : old(mocker.mockTimes))
  ensures "every saved byte is put back" [C13] old(mocker.isPatched) ==> forall o: u64 :: ult(o, u64(mocker.patch.size)) ==> ld8(u64(mocker.patch.base) + o) == ld8(ptr(mocker.patch.code) + o, old(mem))
  ensures "nothing else changes" [C13] forall a: u64 :: !old(mocker.isPatched) || (!inRange(a, u64(mocker.patch.base), u64(mocker.patch.size)) && !inRange(a, ptr(mocker.patch.code), u64(len(mocker.patch.code)))) ==> ld8(a) == ld8(a, old(mem))
  ensures "no scope lists the mock" [C13,C15] old(mocker.isPatched) ==> (forall i: int :: scope(i) ==> !regIn(i, funcKey(mocker), box(mocker)))
  ensures "every other entry of every scope stays" [C13,C14,C15] forall i: int, k: `uintptr` :: scope(i) && !(old(mocker.isPatched) && k == funcKey(mocker) && old(regIn(i, k, box(mocker)))) ==> regSame(i, k)

func (*mockey.Mocker).Release(mocker) (r)
  home C13
  requires scopesOK() && funcOK(mocker) && builderOK(mocker.builder)
  requires "the page size has been read" u64(common.pageSize) == pagesize()
  requires "the world is not stopped" stwDepth == 0
  requires "an active mock is as Patch leaves it" mocker.isPatched ==> patchOK(mocker) && savedApart(mocker) && regOnce(funcKey(mocker), box(mocker)) && wordApart(fnWord(mocker), u64(mocker.patch.base), u64(mocker.patch.size)) && wordApart(fnWord(mocker), ptr(mocker.patch.code), u64(len(mocker.patch.code)))
  panicsif "a removed mock is not removed again" mocker.isPatched
  modifies M, prot, stwDepth, mocker.isPatched, mocker.times, mocker.mockTimes, maps map[uintptr]mockey.mockerInstance, all mockey.MockBuilder.conditions, new []*mockey.mockCondition, new mockey.mockCondition
  ensures "the world runs" stwDepth == 0
  ensures "the mock is removed, its builder has one empty condition" [C13] r == mocker.builder && !mocker.isPatched && len(r.conditions) == 1 && isnil(r.conditions[0].when) && isnil(r.conditions[0].hook)
  ensures "no scope lists the mock" [C13,C15] old(mocker.isPatched) ==> (forall i: int :: scope(i) ==> !regIn(i, funcKey(mocker), box(mocker)))

# ---- counters and the goroutine filter
func (*mockey.Mocker).access(mocker)
  home C07
  requires mocker != nil
  nopanic
  modifies mocker.times
  ensures "one call more" [C07] mocker.times == old(mocker.times) + 1

func (*mockey.Mocker).mock(mocker)
  home C07
  requires mocker != nil
  nopanic
  modifies mocker.mockTimes
  ensures "one hook more" [C07] mocker.mockTimes == old(mocker.mockTimes) + 1

func (*mockey.Mocker).Times(mocker) (r)
  home C07
  requires mocker != nil
  nopanic
  modifies nothing
  ensures "the number of calls" [C07] r == mocker.times

func (*mockey.Mocker).MockTimes(mocker) (r)
  home C07
  requires mocker != nil
  nopanic
  modifies nothing
  ensures "the number of hooks run" [C07] r == mocker.mockTimes

# the runtime's record of the running goroutine, and where it keeps the id
uf curg(): u64
uf goidOffset(): u64
define goid() = ld64(curg() + goidOffset())

func tool.getG() (r)
  trusted "assembly: the running goroutine's record, checked by executing it"
  nopanic
  modifies nothing
  ensures "the running goroutine's record" u64(r) == curg()

func tool.GetGoroutineID() (r)
  home C20
  requires "the offset is the running release's" u64(tool.gGoroutineIDOffset) == goidOffset()
  nopanic
  modifies nothing
  ensures "the runtime's id of the running goroutine" [C20,C08] u64(r) == goid()

func (*mockey.MockBuilder).IncludeCurrentGoRoutine(builder) (r)
  home C08
  requires builder != nil && u64(tool.gGoroutineIDOffset) == goidOffset()
  nopanic
  modifies builder.filterGoroutine, builder.gId
  ensures "calls of the configuring goroutine only" [C08] r == builder && builder.filterGoroutine == 1 && u64(builder.gId) == goid()

func (*mockey.MockBuilder).ExcludeCurrentGoRoutine(builder) (r)
  home C08
  requires builder != nil && u64(tool.gGoroutineIDOffset) == goidOffset()
  nopanic
  modifies builder.filterGoroutine, builder.gId
  ensures "all calls but those of the configuring goroutine" [C08] r == builder && builder.filterGoroutine == 2 && u64(builder.gId) == goid()
