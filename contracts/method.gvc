# Lookup of unexported methods: the runtime's method tables in raw memory.

# the number that the first k bytes at p encode, seven bits each
rec num7(m: Mem, p: u64, k: int): u64 = k <= 0 ? 0 : num7(m, p, k - 1) + (u64(ld8(p + u64(k - 1), m) & 0x7f) << u64(7 * (k - 1)))
define ends7(m: Mem, p: u64, k: int) = k >= 1 && ld8(p + u64(k - 1), m) & 0x80 == 0 && (forall j: int :: 0 <= j && j < k - 1 ==> ld8(p + u64(j), m) & 0x80 != 0)

# how many bytes the number at p takes: tables the linker wrote are finite
uf size7(m: Mem, p: u64): int
define num7OK(m: Mem, p: u64) = size7(m, p) <= 9 && ends7(m, p, size7(m, p))

func (unsafereflect.name).readVarint(n, off) (k, v)
  home C18
  requires "the number ends" num7OK(mem, ptr(n.bytes) + u64(off))
  nopanic
  modifies nothing
  ensures "its size" k == size7(mem, ptr(n.bytes) + u64(off))
  ensures "the bytes up to the first without the continuation bit" [C18] ends7(mem, ptr(n.bytes) + u64(off), k)
  ensures "the number they encode, seven bits each" [C18] u64(v) == num7(mem, ptr(n.bytes) + u64(off), k)
  cand forall i: int :: 0 <= i && i < size7(mem, ptr(n.bytes) + u64(off))
  cand forall i: int :: forall j: int :: 0 <= j && j < i ==> ld8(ptr(n.bytes) + u64(off) + u64(j), mem) & 0x80 != 0
  cand forall i: int, v: int :: u64(v) == num7(mem, ptr(n.bytes) + u64(off), i)

# ---- layout of type descriptors (internal/abi): flags at 20, kind at 23, the
# uncommon part behind the kind's own record
define rtKind(m: Mem, t: u64) = u64(ld8(t + 23, m) & 31)
define rtUncommon(m: Mem, t: u64) = ld8(t + 20, m) & 1 != 0
define rtTabled(m: Mem, t: u64) = rtUncommon(m, t) && (rtKind(m, t) == 22 || rtKind(m, t) == 19 || rtKind(m, t) == 20 || rtKind(m, t) == 25)
define rtExtra(m: Mem, t: u64): u64 = t + (rtKind(m, t) == 22 || rtKind(m, t) == 19 ? u64(56) : u64(80))
define tabLen(m: Mem, u: u64) = u64(ld8(u + 4, m)) | u64(ld8(u + 5, m)) << 8
define tabAt(m: Mem, u: u64) = u + u64(ld32(u + 8, m))

func (*unsafereflect.uncommonType).methods(t) (r)
  home C18
  requires "a type descriptor" ptr(t) != 0 && ult(ptr(t), u64(1) << 48)
  nopanic
  modifies nothing
  ensures "the table's length" [C18] u64(len(r)) == tabLen(mem, ptr(t))
  ensures "the table's place" [C18] len(r) > 0 ==> ptr(r) == tabAt(mem, ptr(t))

func (*unsafereflect.rtype).methods(t) (r)
  home C18
  requires "a type descriptor" ptr(t) != 0 && ult(ptr(t), u64(1) << 47)
  nopanic
  modifies nothing
  ensures "the whole method table of the type" [C18] u64(len(r)) == (rtTabled(mem, ptr(t)) ? tabLen(mem, rtExtra(mem, ptr(t))) : 0)
  ensures "where the type descriptor puts it" [C18] len(r) > 0 ==> ptr(r) == tabAt(mem, rtExtra(mem, ptr(t)))

define nameAt(m: Mem, p: u64): Str = p == 0 ? "" : mkstr(p + 1 + u64(size7(m, p + 1)), num7(m, p + 1, size7(m, p + 1)))

func (unsafereflect.name).name(n) (s)
  home C18
  requires "the name is well formed" ptr(n.bytes) != 0 ==> num7OK(mem, ptr(n.bytes) + 1)
  nopanic
  modifies nothing
  ensures "the bytes of the name" [C18] s == nameAt(mem, ptr(n.bytes))

# ---- what the runtime makes of the offsets in a descriptor
uf nameOf(t: u64, o: u64): u64
uf typeOfOff(t: u64, o: u64): u64
uf codeOf(t: u64, o: u64): u64
func unsafereflect.resolveNameOff(t, o) (r)
  trusted "runtime function reached by linkname"
  nopanic
  modifies nothing
  ensures ptr(r) == nameOf(ptr(t), u64(o))
func unsafereflect.resolveTypeOff(t, o) (r)
  trusted "runtime function reached by linkname"
  nopanic
  modifies nothing
  ensures ptr(r) == typeOfOff(ptr(t), u64(o))
func unsafereflect.resolveTextOff(t, o) (r)
  trusted "runtime function reached by linkname"
  nopanic
  modifies nothing
  ensures ptr(r) == codeOf(ptr(t), u64(o))

define entAt(m: Mem, t: u64, i: int): u64 = tabAt(m, rtExtra(m, t)) + u64(16) * u64(i)
define entName(m: Mem, t: u64, i: int): u64 = nameOf(t, sext32(ld32(entAt(m, t, i), m)))
define entCount(m: Mem, t: u64): int = rtTabled(m, t) ? int(tabLen(m, rtExtra(m, t))) : 0
define entIs(m: Mem, t: u64, i: int, s: Str) = nameAt(m, entName(m, t, i)) == s
# the first entry from i on that has the name
rec entFind(m: Mem, t: u64, i: int, s: Str): int = i >= entCount(m, t) ? entCount(m, t) : (entIs(m, t, i, s) ? i : entFind(m, t, i + 1, s))

func (*unsafereflect.rtype).Method(t, p) (fn)
  home C18
  nopanic
  modifies nothing
  ensures "a cell with the code of the method" [C18] fresh(fn) && wordIn(fn) == codeOf(ptr(t), u64(p.tfn))

func unsafereflect.MethodByName(target, name) (typ, fn, ok)
  home C18
  requires "a type descriptor" rtdata(typeof(target)) != 0 && ult(rtdata(typeof(target)), u64(1) << 47)
  requires "its names are well formed" forall o: u64 :: trig(nameOf(rtdata(typeof(target)), o)) && nameOf(rtdata(typeof(target)), o) != 0 ==> num7OK(mem, nameOf(rtdata(typeof(target)), o) + 1)
  nopanic
  modifies nothing
  ensures "found exactly when the table has the name" [C18] ok <==> entFind(mem, rtdata(typeof(target)), 0, name) < entCount(mem, rtdata(typeof(target)))
  ensures "the code of the method of that name" [C18] ok ==> fresh(fn) && wordIn(fn) == codeOf(rtdata(typeof(target)), sext32(ld32(entAt(mem, rtdata(typeof(target)), entFind(mem, rtdata(typeof(target)), 0, name)) + 12, mem)))
  ensures "the type of the method of that name" [C18] ok ==> typ == typeAt(typeOfOff(rtdata(typeof(target)), sext32(ld32(entAt(mem, rtdata(typeof(target)), entFind(mem, rtdata(typeof(target)), 0, name)) + 4, mem))))
  cand forall i: int :: entFind(mem, rtdata(typeof(target)), i + 1, name) == entFind(mem, rtdata(typeof(target)), 0, name)
  cand forall i: int :: 0 <= i + 1 && i + 1 <= entCount(mem, rtdata(typeof(target)))

define descr(i: Iface): u64 = rtdata(typeof(i))
define found(m: Mem, i: Iface, s: Str) = entFind(m, descr(i), 0, s) < entCount(m, descr(i))
define methodT(m: Mem, i: Iface, s: Str): RType = typeAt(typeOfOff(descr(i), sext32(ld32(entAt(m, descr(i), entFind(m, descr(i), 0, s)) + 4, m))))
define methodCode(m: Mem, i: Iface, s: Str): u64 = codeOf(descr(i), sext32(ld32(entAt(m, descr(i), entFind(m, descr(i), 0, s)) + 12, m)))

func mockey.unsafeMethodByName(instance, methodName) (r)
  home C18
  requires "a type descriptor" descr(instance) != 0 && ult(descr(instance), u64(1) << 47)
  requires "its names are well formed" forall o: u64 :: trig(nameOf(descr(instance), o)) && nameOf(descr(instance), o) != 0 ==> num7OK(mem, nameOf(descr(instance), o) + 1)
  panicsiff "refused exactly when the table has no such method or its type is not available" [C18] !found(mem, instance, methodName) || !isFn(methodT(mem, instance, methodName))
  modifies nothing
  ensures "the receiver, then the method's parameters" [C18] isFn(typeof(r)) && numIn(typeof(r)) == 1 + numIn(methodT(mem, instance, methodName)) && inT(typeof(r), 0) == typeof(instance) && (forall i: int :: 0 <= i && i < numIn(methodT(mem, instance, methodName)) ==> inT(typeof(r), i + 1) == inT(methodT(mem, instance, methodName), i))
  ensures "the method's results" [C18] numOut(typeof(r)) == numOut(methodT(mem, instance, methodName)) && (forall i: int :: 0 <= i && i < numOut(typeof(r)) ==> outT(typeof(r), i) == outT(methodT(mem, instance, methodName), i))
  ensures "variadic kept" [C18] variadic(typeof(r)) == variadic(methodT(mem, instance, methodName))
  ensures "it runs the method's code" [C18] fresh(ifdata(r)) && wordIn(ifdata(r)) == methodCode(mem, instance, methodName)
  cand forall n: int :: 0 <= n && n <= numIn(methodT(mem, instance, methodName))
  cand forall n: int :: 0 <= n && n <= numOut(methodT(mem, instance, methodName))
  cand forall n: int, s: `[]reflect.Type` :: len(s) == n + 1
  cand forall n: int, s: `[]reflect.Type` :: len(s) == n
  cand forall n: int, s: `[]reflect.Type` :: s[0] == typeof(instance) && (forall k: int :: 0 <= k && k < n ==> s[k+1] == inT(methodT(mem, instance, methodName), k))
  cand forall n: int, s: `[]reflect.Type` :: forall k: int :: 0 <= k && k < n ==> s[k] == outT(methodT(mem, instance, methodName), k)

# ---- lookup by name
uf hasMethod(t: RType, s: Str): bool
uf methodFn(t: RType, s: Str): Any
# a struct type's fields, and the fields of a struct value
uf numField(t: RType): int
axiom "sizes of struct types" forall t: RType :: trig(numField(t)) ==> ult(u64(numField(t)), u64(1) << 32)
uf embeds(t: RType, i: int): bool
uf fieldV(rc: Cells, v: Any, i: int): Any
# the search through embedded structs: depth first, in the order of the fields
uf nestHas(rc: Cells, v: Any, s: Str): bool
uf nestFn(rc: Cells, v: Any, s: Str): Any
uf nestIdx(rc: Cells, v: Any, s: Str): int
uf seeks(rc: Cells, v: Any, s: Str): bool
axiom "a mark says nothing" forall rc: Cells, v: Any, s: Str :: trig(seeks(rc, v, s)) ==> seeks(rc, v, s)
# what a pointer or an interface value leads to
define nestAt(v: Any): Any = kind(rvtype(v)) == 22 ? (ptrof(rvIface(v)) == 0 ? nilAny() : loc(ptrof(rvIface(v)), elemT(rvtype(v)))) : (kind(rvtype(v)) == 20 ? valueOf(rvIface(v)) : v)
define nestT(v: Any): RType = rvtype(nestAt(v))
define nestIn(rc: Cells, v: Any, s: Str, i: int) = embeds(nestT(v), i) && nestHas(rc, fieldV(rc, nestAt(v), i), s)
define nestSub(rc: Cells, v: Any, s: Str) = kind(nestT(v)) == 25 && nestIdx(rc, v, s) < numField(nestT(v))
axiom "the first embedded field in which the search succeeds" forall rc: Cells, v: Any, s: Str :: trig(seeks(rc, v, s)) ==> kind(nestT(v)) == 25 ==> 0 <= nestIdx(rc, v, s) && nestIdx(rc, v, s) <= numField(nestT(v)) && (forall i: int :: 0 <= i && i < nestIdx(rc, v, s) ==> !nestIn(rc, v, s, i)) && (nestIdx(rc, v, s) < numField(nestT(v)) ==> nestIn(rc, v, s, nestIdx(rc, v, s)))
axiom "an embedded field, else the type's own method, else its pointer's" forall rc: Cells, v: Any, s: Str :: trig(seeks(rc, v, s)) ==> (nestHas(rc, v, s) <==> nestAt(v) != nilAny() && (nestSub(rc, v, s) || hasMethod(nestT(v), s) || hasMethod(ptrTo(nestT(v)), s)))
axiom "which method that is" forall rc: Cells, v: Any, s: Str :: trig(seeks(rc, v, s)) ==> nestFn(rc, v, s) == (nestSub(rc, v, s) ? nestFn(rc, fieldV(rc, nestAt(v), nestIdx(rc, v, s)), s) : (hasMethod(nestT(v), s) ? methodFn(nestT(v), s) : methodFn(ptrTo(nestT(v)), s)))

func mockey.getNestedMethod(val, methodName) (m, ok)
  home C17
  requires "a value" val != nilAny()
  requires seeks(RC, val, methodName)
  nopanic
  modifies nothing
  ensures "found exactly when an embedded field, the type or its pointer has it" ok == nestHas(RC, val, methodName)
  ensures "depth first in field order, the type's own last" ok ==> m.Func == nestFn(RC, val, methodName)
  ensures "a function" ok ==> kind(rvtype(m.Func)) == 19
  cand forall i: int :: 0 <= i && i <= nestIdx(RC, val, methodName)

uf fieldNamed(rc: Cells, v: Any, s: Str): Any
# what a field of that name holds
define throughPtr(v: Any): Any = kind(rvtype(v)) == 22 ? (ptrof(rvIface(v)) == 0 ? nilAny() : loc(ptrof(rvIface(v)), elemT(rvtype(v)))) : v
define fieldOf(rc: Cells, i: Iface, s: Str): Any = fieldNamed(rc, throughPtr(valueOf(i)), s)
define fieldHas(rc: Cells, i: Iface, s: Str) = kind(rvtype(throughPtr(valueOf(i)))) == 25 && kind(rvtype(fieldOf(rc, i, s))) == 19
define codeIn(m: Mem, i: Iface): u64 = closptr(i) == 0 ? u64(0) : ld64(closptr(i), m)
func mockey.getFieldMethod(instance, fieldName) (r, ok)
  trusted "executed: functions held by fields (bounded)"
  nopanic
  modifies nothing
  ensures "found exactly when a field of a function type has the name" ok == fieldHas(RC, instance, fieldName)
  ensures "a function of the field's type" ok ==> typeof(r) == rvtype(fieldOf(RC, instance, fieldName)) && !isnil(r)
  ensures "a function value of its own that runs the field's code" ok ==> closptr(r) != 0 && fresh(closptr(r)) && ld64(closptr(r)) == codeIn(old(mem), rvIface(fieldOf(RC, instance, fieldName)))

define exportedName(s: Str) = len(s) != 0 && ule(0x41, s[0]) && ule(s[0], 0x5a)
func mockey.GetMethod(instance, methodName) (r)
  home C17,C18
  requires "a type descriptor" !isnil(instance) ==> descr(instance) != 0 && ult(descr(instance), u64(1) << 47)
  requires "its names are well formed" forall o: u64 :: trig(nameOf(descr(instance), o)) && nameOf(descr(instance), o) != 0 ==> num7OK(mem, nameOf(descr(instance), o) + 1)
  panicsiff "refused exactly when there is no such method or field" [C17,C18] isnil(instance) || !(nestHas(RC, valueOf(instance), methodName) || hasMethod(typeof(instance), methodName) || fieldHas(RC, instance, methodName)) && (len(methodName) == 0 || exportedName(methodName) || !found(mem, instance, methodName) || !isFn(methodT(mem, instance, methodName)))
  modifies nothing
  ensures "a method found on an embedded struct" [C17] nestHas(RC, valueOf(instance), methodName) ==> r == rvIface(nestFn(RC, valueOf(instance), methodName))
  ensures "else one of the instance's own type" [C17] !nestHas(RC, valueOf(instance), methodName) && hasMethod(typeof(instance), methodName) ==> r == rvIface(methodFn(typeof(instance), methodName))
  ensures "else a function held by a field" [C17] !nestHas(RC, valueOf(instance), methodName) && !hasMethod(typeof(instance), methodName) && fieldHas(RC, instance, methodName) ==> typeof(r) == rvtype(fieldOf(RC, instance, methodName)) && ld64(closptr(r)) == codeIn(old(mem), rvIface(fieldOf(RC, instance, methodName)))
  ensures "else the unexported method's code" [C18] !nestHas(RC, valueOf(instance), methodName) && !hasMethod(typeof(instance), methodName) && !fieldHas(RC, instance, methodName) ==> wordIn(ifdata(r)) == methodCode(mem, instance, methodName) && inT(typeof(r), 0) == typeof(instance) && numIn(typeof(r)) == 1 + numIn(methodT(mem, instance, methodName)) && variadic(typeof(r)) == variadic(methodT(mem, instance, methodName))
  ensures "never nil" [C17] !isnil(r)

func mockey.GetPrivateMethod(instance, methodName) (r)
  home C17
  panicsiff "refused exactly when its type has no such method" [C17] isnil(instance) || !hasMethod(typeof(instance), methodName)
  modifies nothing
  ensures "the method of the instance's type" [C17] r == rvIface(methodFn(typeof(instance), methodName)) && !isnil(r)

func mockey.GetNestedMethod(instance, methodName) (r)
  home C17
  panicsiff "refused exactly when there is no such method" [C17] isnil(instance) || !nestHas(RC, valueOf(instance), methodName)
  modifies nothing
  ensures "the method found" [C17] r == rvIface(nestFn(RC, valueOf(instance), methodName)) && !isnil(r)
