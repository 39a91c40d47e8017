# The hook that runs in the target's place.

# between building a hook and the calls it serves, the mock's configuration is
# what it was: every reconfiguration builds a new hook
stable mockey.mockCondition.when, mockey.mockCondition.hook, mockey.mockCondition.builder, mockey.MockBuilder.target, mockey.MockBuilder.generic, mockey.MockBuilder.conditions, mockey.MockBuilder.proxyCaller, mockey.Mocker.builder, mockey.Mocker.proxy, mockey.Mocker.target, elems `*mockey.mockCondition`, elems `func([]reflect.Value) bool`, elems `func([]reflect.Value) []reflect.Value`, global mockey.genericInfoType

func tool.ReserveStack()
  home C06
  nopanic
  modifies nothing

# a function of the shape that takes the target's place
define hookArity(b: `*mockey.MockBuilder`) = numIn(typeof(b.target)) + (b.generic ? 1 : 0)
define hookLike(b: `*mockey.MockBuilder`, t: RType) = isFn(t) && variadic(t) == variadic(typeof(b.target)) && numIn(t) == hookArity(b) && (forall i: int :: 0 <= i && i < numIn(t) ==> inT(t, i) == hookIn(b, i))
define hookResults(b: `*mockey.MockBuilder`, t: RType) = numOut(t) == numOut(typeof(b.target)) && (forall i: int :: 0 <= i && i < numOut(t) ==> outT(t, i) == outT(typeof(b.target), i))
define condReady(c: `*mockey.mockCondition`) = condOK(c) && (!isnil(c.when) ==> hookLike(c.builder, typeof(c.when)) && boolResult(typeof(c.when)) && closptr(c.when) != 0) && (!isnil(c.hook) ==> hookLike(c.builder, typeof(c.hook)) && hookResults(c.builder, typeof(c.hook)) && closptr(c.hook) != 0)
# the arguments of a call
define callArgs(b: `*mockey.MockBuilder`, s: ASeq) = len(s) == hookArity(b) && (forall k: int :: 0 <= k && k < hookArity(b) ==> kind(rvtype(at(s, k))) != 0 && assignable(rvtype(at(s, k)), hookIn(b, k)))
define holds(c: `*mockey.mockCondition`, w: World, s: ASeq) = isnil(c.when) || boolOf(rvIface(at(callResult(w, c.when, s), 0)))
define asked(c: `*mockey.mockCondition`, w: World, s: ASeq) = isnil(c.when) ? w : callWorld(w, c.when, s)

# asks condition c
funcspec Match(c: `*mockey.mockCondition`) (args) (r)
  shape `func([]reflect.Value) bool`
  requires condReady(c) && callArgs(c.builder, seq(args))
  panicsiff "only the predicate itself panics" !isnil(c.when) && callPanics(W, c.when, seq(args))
  modifies W
  ensures "the predicate is asked once with the call's arguments, none is always true" r == holds(c, old(W), seq(args)) && W == asked(c, old(W), seq(args))
  exsures "the predicate was asked once" W == asked(c, old(W), seq(args))

# ---- the origin
uf joined(s: ASeq, n: int, t: ASeq): ASeq
axiom "the first n of s, then t" forall s: ASeq, n: int, t: ASeq :: trig(joined(s, n, t)) ==> len(joined(s, n, t)) == n + len(t) && (forall k: int :: 0 <= k && k < n ==> at(joined(s, n, t), k) == at(s, k)) && (forall k: int :: n <= k && k < n + len(t) ==> at(joined(s, n, t), k) == at(t, k - n))
define mockerOK(m: `*mockey.Mocker`) = m != nil && builderOK(m.builder) && rvtype(m.target) == typeof(m.builder.target)
define holder(m: `*mockey.Mocker`) = ptrof(m.builder.proxyCaller)
define holderT(m: `*mockey.Mocker`) = elemT(typeof(m.builder.proxyCaller))
uf skips(t: RType, h: RType): int
axiom "whether the holder's type leaves the first parameter out" forall t: RType, h: RType :: trig(skips(t, h)) ==> (fit(t, h, 0) ==> skips(t, h) == 0) && (!fit(t, h, 0) ==> skips(t, h) == 1)
define omits(m: `*mockey.Mocker`) = (m.builder.generic ? 1 : 0) + skips(typeof(m.builder.target), holderT(m))
# the saved copy of the original, as a function of the shape that takes the target's place
define origF(m: `*mockey.Mocker`) = RC[ptrof(m.proxy)]
define proxyOK(m: `*mockey.Mocker`) = kind(typeof(m.proxy)) == 22 && ptrof(m.proxy) != 0 && hookLike(m.builder, elemT(typeof(m.proxy))) && hookResults(m.builder, elemT(typeof(m.proxy)))

# what the origin holder holds while a call with arguments s is pending
funcspec OriginFn(m: `*mockey.Mocker`, s: ASeq) (inner) (r)
  requires proxyOK(m) && callArgs(m.builder, s)
  requires "the mock is installed" closptr(origF(m)) != 0
  requires "arguments of the holder's type" len(seq(inner)) == numIn(holderT(m)) && (forall k: int :: 0 <= k && k < numIn(holderT(m)) ==> kind(rvtype(at(seq(inner), k))) != 0 && assignable(rvtype(at(seq(inner), k)), inT(holderT(m), k)))
  panicsiff "only the original itself panics" callPanics(W, origF(m), joined(s, omits(m), seq(inner)))
  modifies W
  ensures "the saved original runs once, the pending call's leading arguments standing in for those the holder omits" seq(r) == callResult(old(W), origF(m), joined(s, omits(m), seq(inner))) && W == callWorld(old(W), origF(m), joined(s, omits(m), seq(inner)))

# readies the origin holder for a call
funcspec Setter(m: `*mockey.Mocker`) (args)
  requires proxyOK(m) && callArgs(m.builder, seq(args))
  requires "the holder is not the mock's own variable" !isnil(m.builder.proxyCaller) ==> holder(m) != ptrof(m.proxy)
  nopanic
  modifies RC, M
  ensures "no other variable changes" forall a: u64 :: isnil(m.builder.proxyCaller) || a != holder(m) ==> RC[a] == old(RC[a])
  ensures "the holder runs the original" !isnil(m.builder.proxyCaller) ==> sat(OriginFn, impl(RC[holder(m)]), m, seq(args))

func (*mockey.Mocker).buildProxy(mocker) (r)
  home C12,C06
  requires mockerOK(mocker)
  panicsiff "an origin holder that does not fit is refused" [C12] !isnil(mocker.builder.proxyCaller) && (kind(typeof(mocker.builder.proxyCaller)) != 22 || holder(mocker) == 0 || kind(holderT(mocker)) != 19 || variadic(holderT(mocker)) != variadic(typeof(mocker.builder.target)) || !(fit(typeof(mocker.builder.target), holderT(mocker), 0) || fit(typeof(mocker.builder.target), holderT(mocker), 1)))
  modifies mocker.proxy, RC
  ensures "a variable of its own for the saved original" [C12] proxyOK(mocker) && fresh(ptrof(mocker.proxy))
  ensures "no variable changes" [C12] forall a: u64 :: !fresh(a) ==> RC[a] == old(RC[a])
  ensures "calls ready the holder" [C12,C06] sat(Setter, r, mocker)

# runs condition c
define exeF(m: `*mockey.Mocker`, c: `*mockey.mockCondition`) = isnil(c.hook) ? origF(m) : c.hook
funcspec Exec(m: `*mockey.Mocker`, c: `*mockey.mockCondition`) (args) (r)
  shape `func([]reflect.Value) []reflect.Value`
  requires proxyOK(m) && condReady(c) && c.builder == m.builder && callArgs(m.builder, seq(args))
  requires "the mock is installed" closptr(origF(m)) != 0
  panicsiff "only what is called itself panics" callPanics(W, exeF(m, c), seq(args))
  modifies W, m.mockTimes
  ensures "the condition's hook, the original without one, runs once with the call's arguments" seq(r) == callResult(old(W), exeF(m, c), seq(args)) && W == callWorld(old(W), exeF(m, c), seq(args))
  ensures "a hook is counted" m.mockTimes == old(m.mockTimes) + (isnil(c.hook) ? 0 : 1)
  exsures "it ran once, a hook is counted" W == callWorld(old(W), exeF(m, c), seq(args)) && m.mockTimes == old(m.mockTimes) + (isnil(c.hook) ? 0 : 1)

# the world after the first k conditions were asked
uf asking(m: `*mockey.Mocker`, w: World, s: ASeq, k: int): World
# marks the conditions the proof looks at
uf looked(k: int): bool
axiom "a mark says nothing" forall k: int :: trig(looked(k)) ==> looked(k)
define passes(m: `*mockey.Mocker`) = !(m.builder.filterGoroutine == 1 && goid() != u64(m.builder.gId)) && !(m.builder.filterGoroutine == 2 && goid() == u64(m.builder.gId))
define refusedBefore(m: `*mockey.Mocker`, w: World, s: ASeq, k: int) = forall i: int :: trig(asking(m, w, s, i)) && 0 <= i && i < k ==> !holds(m.builder.conditions[i], asking(m, w, s, i), s)

# the first condition that holds, the number of conditions if none does
uf chosen(m: `*mockey.Mocker`, w: World, s: ASeq): int
# the hook of mocker m: what a call of the target runs
funcspec Hook(m: `*mockey.Mocker`) (args) (r)
  requires proxyOK(m) && callArgs(m.builder, seq(args))
  requires "the mock is installed" closptr(origF(m)) != 0
  requires "the offset is the running release's" u64(tool.gGoroutineIDOffset) == goidOffset()
  requires "what asking means" asking(m, W, seq(args), 0) == W && (forall k: int :: trig(looked(k)) && 0 <= k && k < len(m.builder.conditions) ==> asking(m, W, seq(args), k + 1) == asked(m.builder.conditions[k], asking(m, W, seq(args), k), seq(args)))
  requires "what chosen means" looked(chosen(m, W, seq(args))) && 0 <= chosen(m, W, seq(args)) && chosen(m, W, seq(args)) <= len(m.builder.conditions) && refusedBefore(m, W, seq(args), chosen(m, W, seq(args))) && (chosen(m, W, seq(args)) < len(m.builder.conditions) ==> holds(m.builder.conditions[chosen(m, W, seq(args))], asking(m, W, seq(args), chosen(m, W, seq(args))), seq(args)))
  modifies W, RC, M, m.times, m.mockTimes
  ensures "every call is counted" [C07] m.times == old(m.times) + 1
  ensures "a goroutine the filter leaves out runs the original" [C08] !passes(m) ==> seq(r) == callResult(old(W), origF(m), seq(args)) && W == callWorld(old(W), origF(m), seq(args)) && m.mockTimes == old(m.mockTimes)
  ensures "the first condition that holds runs, and no other" [C06] passes(m) && chosen(m, old(W), seq(args)) < len(m.builder.conditions) ==> seq(r) == callResult(asking(m, old(W), seq(args), chosen(m, old(W), seq(args)) + 1), exeF(m, m.builder.conditions[chosen(m, old(W), seq(args))]), seq(args))
  ensures "it runs once, after the predicates were asked in order up to it" [C06] passes(m) && chosen(m, old(W), seq(args)) < len(m.builder.conditions) ==> W == callWorld(asking(m, old(W), seq(args), chosen(m, old(W), seq(args)) + 1), exeF(m, m.builder.conditions[chosen(m, old(W), seq(args))]), seq(args))
  ensures "a hook that runs is counted" [C06,C07] passes(m) && chosen(m, old(W), seq(args)) < len(m.builder.conditions) && !isnil(m.builder.conditions[chosen(m, old(W), seq(args))].hook) ==> m.mockTimes == old(m.mockTimes) + 1
  ensures "a condition without a hook counts as the original" [C06,C07] passes(m) && chosen(m, old(W), seq(args)) < len(m.builder.conditions) && isnil(m.builder.conditions[chosen(m, old(W), seq(args))].hook) ==> m.mockTimes == old(m.mockTimes)
  ensures "without one the original runs" [C06] passes(m) && chosen(m, old(W), seq(args)) == len(m.builder.conditions) ==> seq(r) == callResult(asking(m, old(W), seq(args), len(m.builder.conditions)), origF(m), seq(args)) && W == callWorld(asking(m, old(W), seq(args), len(m.builder.conditions)), origF(m), seq(args)) && m.mockTimes == old(m.mockTimes)
  exsures "every call is counted" [C07] m.times == old(m.times) + 1
  cand forall n: int :: looked(n) && 0 <= n && n <= chosen(m, old(W), seq(args)) && W == asking(m, old(W), seq(args), n)

func (*mockey.Mocker).buildHook(mocker)
  home C06
  requires condsOK(mocker.builder) && mockerOK(mocker)
  requires "the conditions are as configured" forall i: int :: 0 <= i && i < len(mocker.builder.conditions) ==> condReady(mocker.builder.conditions[i])
  panicsiff "an origin holder that does not fit is refused" [C12] !isnil(mocker.builder.proxyCaller) && (kind(typeof(mocker.builder.proxyCaller)) != 22 || holder(mocker) == 0 || kind(holderT(mocker)) != 19 || variadic(holderT(mocker)) != variadic(typeof(mocker.builder.target)) || !(fit(typeof(mocker.builder.target), holderT(mocker), 0) || fit(typeof(mocker.builder.target), holderT(mocker), 1)))
  modifies mocker.hook, mocker.proxy, RC, M, E:func([]reflect.Value) bool, E:func([]reflect.Value) []reflect.Value
  ensures "a hook of the shape that takes the target's place" [C06,C10] hookLike(mocker.builder, rvtype(mocker.hook)) && hookResults(mocker.builder, rvtype(mocker.hook))
  ensures "a variable of its own for the saved original" [C06] proxyOK(mocker) && fresh(ptrof(mocker.proxy))
  ensures "no variable changes" [C06] forall a: u64 :: !fresh(a) ==> RC[a] == old(RC[a])
  ensures "what it does when called" [C06] sat(Hook, impl(rvIface(mocker.hook)), mocker)
  cand forall n: int, s: `[]func([]reflect.Value) bool` :: len(s) == n && (forall k: int :: 0 <= k && k < n ==> sat(Match, s[k], mocker.builder.conditions[k]))
  cand forall n: int, s: `[]func([]reflect.Value) []reflect.Value` :: len(s) == n && (forall k: int :: 0 <= k && k < n ==> sat(Exec, s[k], mocker, mocker.builder.conditions[k]))
  cand forall n: int :: 0 <= n && n <= len(mocker.builder.conditions)
