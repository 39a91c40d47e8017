# Conditions, hooks, predicates and return values.

# the parameters of b from sb on are those of a from sa on
define argsFit(a: RType, b: RType, sa: int, sb: int) = numIn(a) - sa == numIn(b) - sb && (forall i: int :: sa <= i && i < numIn(a) ==> inT(a, i) == inT(b, i - sa + sb))
define isFn(t: RType) = kind(t) == 19
define wantsGeneric(t: RType) = numIn(t) > 0 && inT(t, 0) == mockey.genericInfoType
define shiftOf(t: RType) = wantsGeneric(t) ? 1 : 0
# typ is the target's shape, with or without the leading parameter, with or without generic information before
# the same, for functions that only pass it on
uf fit(a: RType, b: RType, sa: int): bool
axiom "what fit means" forall a: RType, b: RType, sa: int :: trig(fit(a, b, sa)) ==> (fit(a, b, sa) <==> argsFit(a, b, sa, 0))
define shapeOK(tgt: RType, typ: RType) = isFn(typ) && variadic(tgt) == variadic(typ) && (argsFit(tgt, typ, 0, shiftOf(typ)) || argsFit(tgt, typ, 1, shiftOf(typ)))
define builderOK(b: `*mockey.MockBuilder`) = b != nil && isFn(typeof(b.target))
define condOK(m: `*mockey.mockCondition`) = m != nil && builderOK(m.builder)
define boolResult(t: RType) = numOut(t) == 1 && kind(outT(t, 0)) == 1
# the k-th parameter of what is put in the target's place
define hookIn(b: `*mockey.MockBuilder`, k: int) = b.generic ? (k == 0 ? mockey.genericInfoType : inT(typeof(b.target), k - 1)) : inT(typeof(b.target), k)
define hookAccepted(b: `*mockey.MockBuilder`, t: RType) = shapeOK(typeof(b.target), t) && (b.generic || !wantsGeneric(t))
define whenAccepted(b: `*mockey.MockBuilder`, t: RType) = isFn(t) && boolResult(t) && hookAccepted(b, t)

func tool.CheckFuncArgs(a, b, shiftA, shiftB) (r)
  home C11,C12
  requires isFn(a) && isFn(b) && 0 <= shiftA && shiftA <= 1 && 0 <= shiftB && shiftB <= 1
  nopanic
  modifies nothing
  ensures "true exactly when the rest of the parameters is the same" [C11,C12] r <==> argsFit(a, b, shiftA, shiftB)
  cand forall n: int :: shiftA <= n && (forall i: int :: shiftA <= i && i < n ==> inT(a, i) == inT(b, i - shiftA + shiftB))
  cand forall n: int :: n <= numIn(a) || n == shiftA
  cand forall n: int, k: int :: k == n - shiftA + shiftB

func tool.CheckReturnType(fn, results)
  home C10
  panicsiff "refused exactly when the number differs or some value cannot be converted" [C10] !isFn(typeof(fn)) || numOut(typeof(fn)) != len(results) || (exists i: int :: 0 <= i && i < len(results) && !isnil(results[i]) && !convertible(typeof(results[i]), outT(typeof(fn), i)))
  modifies nothing
  cand forall n: int :: 0 <= n && n <= len(results) && (forall k: int :: 0 <= k && k < n ==> isnil(results[k]) || convertible(typeof(results[k]), outT(typeof(fn), k)))

func (*mockey.Mocker).missReceiver(mocker, target, hook) (r)
  home C12
  requires isFn(target)
  panicsiff "an origin holder that does not fit is refused" [C12] !(isFn(typeof(hook)) && variadic(target) == variadic(typeof(hook)) && (fit(target, typeof(hook), 0) || fit(target, typeof(hook), 1)))
  modifies nothing
  ensures "whether the receiver is omitted" [C12] r == !fit(target, typeof(hook), 0) && (fit(target, typeof(hook), 0) || fit(target, typeof(hook), 1))

func (*mockey.mockCondition).checkGenericAndReceiver(m, typ) (hasGeneric, hasReceiver)
  home C11
  requires condOK(m)
  panicsiff "refused exactly when the parameter list is not the target's" [C11] !shapeOK(typeof(m.builder.target), typ)
  modifies nothing
  ensures "whether it asks for the generic information" [C11] hasGeneric == wantsGeneric(typ)
  ensures "whether it has the leading parameter" [C11] hasReceiver == argsFit(typeof(m.builder.target), typ, 0, shiftOf(typ))

define genN(m: `*mockey.mockCondition`) = m.builder.generic ? 1 : 0

func (*mockey.mockCondition).adaptArgsForReflectCall(m, args, hasGeneric, hasReceiver) (r)
  home C11
  requires condOK(m) && len(args) >= genN(m) + (hasReceiver ? 0 : 1)
  nopanic
  modifies nothing
  ensures "as many as the function takes" [C11] len(r) == len(args) - (m.builder.generic && !hasGeneric ? 1 : 0) - (hasReceiver ? 0 : 1)
  ensures "the generic information first, if and only if it is asked for" [C11] m.builder.generic && hasGeneric ==> r[0] == args[0]
  ensures "the call's arguments in order, without the leading one if it is omitted" [C11] forall k: int :: (m.builder.generic && hasGeneric ? 1 : 0) <= k && k < len(r) ==> r[k] == args[k + len(args) - len(r)]

func (*mockey.MockBuilder).hookType(builder) (r)
  home C11,C06
  requires builderOK(builder)
  nopanic
  modifies nothing
  ensures "a function of the target's variadicity" [C11,C06] isFn(r) && variadic(r) == variadic(typeof(builder.target))
  ensures "the target's parameters, the generic information before them on a generic mock" [C11,C06] numIn(r) == numIn(typeof(builder.target)) + (builder.generic ? 1 : 0) && (forall i: int :: 0 <= i && i < numIn(typeof(builder.target)) ==> inT(r, i + (builder.generic ? 1 : 0)) == inT(typeof(builder.target), i)) && (builder.generic ==> inT(r, 0) == mockey.genericInfoType)
  ensures "the target's results" [C10,C11,C06] numOut(r) == numOut(typeof(builder.target)) && (forall i: int :: 0 <= i && i < numOut(r) ==> outT(r, i) == outT(typeof(builder.target), i))
  cand forall n: int :: 0 <= n && n <= numIn(typeof(builder.target))
  cand forall n: int :: 0 <= n && n <= numOut(typeof(builder.target))
  cand forall n: int, s: `[]reflect.Type` :: len(s) == n + 1
  cand forall n: int, s: `[]reflect.Type` :: len(s) == n
  cand forall n: int, s: `[]reflect.Type` :: s[0] == mockey.genericInfoType && (forall k: int :: 0 <= k && k < n ==> s[k+1] == inT(typeof(builder.target), k))
  cand forall n: int, s: `[]reflect.Type` :: forall k: int :: 0 <= k && k < n ==> s[k] == outT(typeof(builder.target), k)

func (*mockey.mockCondition).Complete(m) (r)
  home C19
  requires m != nil
  nopanic
  modifies nothing
  ensures "complete with predicate and hook" [C19] r == (!isnil(m.when) && !isnil(m.hook))

func (*mockey.mockCondition).SetWhenForce(m, when)
  home C11,C19
  requires condOK(m)
  panicsiff "refused exactly when it is not a predicate over the call's arguments" [C11,C19] isnil(when) || !whenAccepted(m.builder, typeof(when)) 
  modifies m.when
  ensures "the condition has a predicate" [C19] !isnil(m.when)
  exsures "a refused predicate changes nothing" [C19] m.when == old(m.when)
  cand forall n: int, s: `[]reflect.Type` :: len(s) == n && (forall k: int :: 0 <= k && k < n ==> s[k] == hookIn(m.builder, k))
  cand forall n: int :: 0 <= n && n <= numIn(typeof(m.builder.target)) + (m.builder.generic ? 1 : 0)

func (*mockey.mockCondition).SetWhen(m, when)
  home C19
  requires condOK(m)
  panicsiff "a second predicate is refused, and so is what is not a predicate" [C19,C11] !isnil(m.when) || isnil(when) || !whenAccepted(m.builder, typeof(when)) 
  modifies m.when
  ensures "the condition has a predicate" [C19] !isnil(m.when)
  exsures "a refused predicate changes nothing" [C19] m.when == old(m.when)

func (*mockey.mockCondition).SetToForce(m, to)
  home C11,C19
  requires condOK(m)
  panicsiff "refused exactly when it is not a hook for the target" [C11,C19] isnil(to) || !hookAccepted(m.builder, typeof(to))
  modifies m.hook
  ensures "the condition has a hook" [C19] !isnil(m.hook)
  exsures "a refused hook changes nothing" [C19] m.hook == old(m.hook)

func (*mockey.mockCondition).SetTo(m, to)
  home C19
  requires condOK(m)
  panicsiff "a second hook is refused, and so is what is not a hook" [C19,C11] !isnil(m.hook) || isnil(to) || !hookAccepted(m.builder, typeof(to))
  modifies m.hook
  ensures "the condition has a hook" [C19] !isnil(m.hook)
  exsures "a refused hook changes nothing" [C19] m.hook == old(m.hook)

func (*mockey.mockCondition).SetReturnForce(m, results)
  home C10,C19
  requires condOK(m)
  nopanic
  modifies m.hook
  ensures "the condition has a hook" [C19,C10] !isnil(m.hook)

func (*mockey.mockCondition).SetReturn(m, results)
  home C19
  requires condOK(m)
  panicsiff "a second hook is refused" [C19] !isnil(m.hook)
  modifies m.hook
  ensures "the condition has a hook" [C19,C10] !isnil(m.hook)

# Builders. The conditions are in declaration order; only the last one may be incomplete.
define lastOf(b: `*mockey.MockBuilder`) = b.conditions[len(b.conditions)-1]
define condsOK(b: `*mockey.MockBuilder`) = builderOK(b) && len(b.conditions) > 0 && (forall i: int :: 0 <= i && i < len(b.conditions) ==> condOK(b.conditions[i]) && b.conditions[i].builder == b && (i == len(b.conditions) - 1 || b.conditions[i] != lastOf(b)))
define complete(m: `*mockey.mockCondition`) = !isnil(m.when) && !isnil(m.hook)

func (*mockey.MockBuilder).newCondition(builder) (r)
  home C19
  requires builder != nil
  nopanic
  modifies nothing
  ensures "an empty condition of this builder" [C19] fresh(r) && r.builder == builder && isnil(r.when) && isnil(r.hook)

func (*mockey.MockBuilder).resetCondition(builder) (r)
  home C19,C13
  requires builderOK(builder)
  nopanic
  modifies builder.conditions, new []*mockey.mockCondition, new mockey.mockCondition
  ensures "one empty condition is left" [C19,C13] r == builder && condsOK(builder) && len(builder.conditions) == 1 && fresh(builder.conditions[0]) && isnil(builder.conditions[0].when) && isnil(builder.conditions[0].hook)

func (*mockey.MockBuilder).lastCondition(builder) (r)
  home C19
  requires condsOK(builder)
  nopanic
  modifies builder.conditions, elems(builder.conditions), new []*mockey.mockCondition, new mockey.mockCondition
  ensures "still conditions of this builder" condsOK(builder)
  ensures "the condition that is not complete yet, or a new one behind them all" [C19] r == builder.conditions[len(builder.conditions)-1] && !complete(r) && len(builder.conditions) == old(len(builder.conditions)) + (old(complete(builder.conditions[len(builder.conditions)-1])) ? 1 : 0)
  ensures "the one under construction stays" [C19] !old(complete(lastOf(builder))) ==> r == old(lastOf(builder)) && !fresh(r)
  ensures "a new one is empty" [C19] old(complete(builder.conditions[len(builder.conditions)-1])) ==> fresh(r) && isnil(r.when) && isnil(r.hook)
  ensures "the conditions before it are kept, in order" [C19] forall i: int :: 0 <= i && i < old(len(builder.conditions)) ==> builder.conditions[i] == old(builder.conditions)[i]

func (*mockey.MockBuilder).When(builder, when) (r)
  home C19
  requires condsOK(builder)
  panicsiff "a second predicate for an incomplete condition is refused" [C19] (!complete(lastOf(builder)) && !isnil(lastOf(builder).when)) || isnil(when) || !whenAccepted(builder, typeof(when))
  modifies builder.conditions, elems(builder.conditions), all mockey.mockCondition.when, new []*mockey.mockCondition, new mockey.mockCondition
  ensures "the predicate belongs to the condition being built" [C19] r == builder && !isnil(lastOf(builder).when) && (old(complete(lastOf(builder))) ? isnil(lastOf(builder).hook) : lastOf(builder).hook == old(lastOf(builder).hook))
  ensures "still conditions of this builder" condsOK(builder)
  ensures "a complete condition is followed by a new one" [C19] len(builder.conditions) == old(len(builder.conditions)) + (old(complete(lastOf(builder))) ? 1 : 0)
  ensures "the earlier conditions stay, in order" [C19] forall i: int :: 0 <= i && i < len(builder.conditions) - 1 ==> builder.conditions[i] == old(builder.conditions)[i]
  ensures "the other conditions keep theirs" [C19] forall c: `*mockey.mockCondition` :: !fresh(c) && c != lastOf(builder) ==> c.when == old(c.when)

func (*mockey.MockBuilder).To(builder, hook) (r)
  home C19
  requires condsOK(builder)
  panicsiff "a second hook for an incomplete condition is refused" [C19] (!complete(lastOf(builder)) && !isnil(lastOf(builder).hook)) || isnil(hook) || !hookAccepted(builder, typeof(hook))
  modifies builder.conditions, elems(builder.conditions), all mockey.mockCondition.hook, new []*mockey.mockCondition, new mockey.mockCondition
  ensures "the hook belongs to the condition being built" [C19] r == builder && !isnil(lastOf(builder).hook) && (old(complete(lastOf(builder))) ? isnil(lastOf(builder).when) : lastOf(builder).when == old(lastOf(builder).when))
  ensures "still conditions of this builder" condsOK(builder)
  ensures "a complete condition is followed by a new one" [C19] len(builder.conditions) == old(len(builder.conditions)) + (old(complete(lastOf(builder))) ? 1 : 0)
  ensures "the earlier conditions stay, in order" [C19] forall i: int :: 0 <= i && i < len(builder.conditions) - 1 ==> builder.conditions[i] == old(builder.conditions)[i]
  ensures "the other conditions keep theirs" [C19] forall c: `*mockey.mockCondition` :: !fresh(c) && c != lastOf(builder) ==> c.hook == old(c.hook)

func (*mockey.MockBuilder).Return(builder, results) (r)
  home C19
  requires condsOK(builder)
  panicsiff "a second hook for an incomplete condition is refused" [C19] !complete(lastOf(builder)) && !isnil(lastOf(builder).hook)
  modifies builder.conditions, elems(builder.conditions), all mockey.mockCondition.hook, new []*mockey.mockCondition, new mockey.mockCondition
  ensures "the values belong to the condition being built" [C19] r == builder && !isnil(lastOf(builder).hook) && (old(complete(lastOf(builder))) ? isnil(lastOf(builder).when) : lastOf(builder).when == old(lastOf(builder).when))
  ensures "still conditions of this builder" condsOK(builder)
  ensures "a complete condition is followed by a new one" [C19] len(builder.conditions) == old(len(builder.conditions)) + (old(complete(lastOf(builder))) ? 1 : 0)
  ensures "the earlier conditions stay, in order" [C19] forall i: int :: 0 <= i && i < len(builder.conditions) - 1 ==> builder.conditions[i] == old(builder.conditions)[i]
  ensures "the other conditions keep theirs" [C19] forall c: `*mockey.mockCondition` :: !fresh(c) && c != lastOf(builder) ==> c.hook == old(c.hook)

func (*mockey.MockBuilder).Origin(builder, funcPtr) (r)
  home C19
  requires builder != nil
  panicsiff "a second origin holder is refused, and so is what is not a pointer" [C19] !isnil(builder.proxyCaller) || kind(typeof(funcPtr)) != 22
  modifies builder.proxyCaller
  ensures "the origin holder is kept" [C19] r == builder && builder.proxyCaller == funcPtr
  exsures "a refused origin holder changes nothing" [C19] builder.proxyCaller == old(builder.proxyCaller)

func (*mockey.MockBuilder).FilterGoRoutine(builder, filter, gId) (r)
  home C08
  requires builder != nil
  nopanic
  modifies builder.filterGoroutine, builder.gId
  ensures "the most recent setting is the one in force" [C08] r == builder && builder.filterGoroutine == filter && builder.gId == gId

func mockey.Mock(target, opt) (r)
  home C19
  ensures "a target that is not a function is refused" [C19] isFn(typeof(target))
  modifies W
  ensures "a builder for the target with one empty condition" [C19] r.target == target && condsOK(r) && len(r.conditions) == 1 && isnil(r.conditions[0].when) && isnil(r.conditions[0].hook) && isnil(r.proxyCaller)
