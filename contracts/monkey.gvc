# Installing and removing a patch.

define codeAddr(v: Any) = ld64(closptr(rvIface(v)))
# the code that is overwritten: the function itself, or the one implementation its wrapper calls
define patched(m: Mem, a: u64, generic: bool) = generic ? scanFirst(m, a, 0, 10000) : a
define patchRefused(m: Mem, a: u64, unsafe: bool, generic: bool) = (generic && (scanBad(m, a, 0, 10000) || scanCount(m, a, 0, 10000) != 1)) || refused(m, patched(m, a, generic), unsafe)
define plainRange(a: u64, n: u64) = ule(a, a + n - 1) && a + n != 0 && ult(pageOf(a + n - 1), pageOf(a + n - 1) + pagesize())
define noneChanged(m: Mem, m0: Mem) = forall a: u64 :: existing(a) ==> ld8(a, m) == ld8(a, m0)

func monkey.PatchValue(target, hook, proxy, unsafe, generic) (r)
  home C01,C02,C03,C05
  opaque cutAt cutBad scanBad scanCount scanFirst
  requires "the page size has been read" u64(common.pageSize) == pagesize()
  requires "the world is not stopped" stwDepth == 0
  requires "target and hook are functions, proxy points to a function variable" kind(rvtype(target)) == 19 && closptr(rvIface(target)) != 0 && kind(rvtype(hook)) == 19 && kind(rvtype(proxy)) == 22 && kind(elemT(rvtype(proxy))) == 19
  requires "code lies in mapped memory" forall a: u64 :: trig(ld8(a, mem)) ==> inRange(a, patched(mem, codeAddr(target), generic), u64(64)) ==> existing(a)
  requires "an address range" plainRange(patched(mem, codeAddr(target), generic), u64(64))
  modifies M, prot, RC, stwDepth
  ensures "the world runs" stwDepth == 0
  exsures "the world runs" stwDepth == 0
  ensures "the function patched is the one the wrapper calls, or the target itself" [C05] u64(r.base) == old(patched(mem, codeAddr(target), generic))
  ensures "the saved entry is the shortest that is long enough" [C03] u64(r.size) == old(savedLen(mem, patched(mem, codeAddr(target), generic)))
  ensures "the patch knows what it changed" [C01] fresh(r) && u64(r.base) == old(patched(mem, codeAddr(target), generic)) && r.size <= len(r.code) && ule(hookLen(), u64(r.size)) && r.size >= 0 && r.size <= 64
  ensures "the patch can be removed" [C01] plainRange(u64(r.base), u64(r.size)) && plainRange(ptr(r.code), u64(len(r.code))) && (forall i: u64 :: ult(i, u64(len(r.code))) ==> fresh(ptr(r.code) + i))
  ensures "the origin variable holds a function that runs the saved entry" [C03,C12] ld64(closptr(RC[ptrof(rvIface(proxy))])) == ptr(r.code)
  ensures "the overwritten bytes are saved" [C01,C03] forall o: u64 :: ult(o, u64(r.size)) ==> ld8(ptr(r.code) + o) == ld8(u64(r.base) + o, old(mem))
  ensures "no byte outside the saved range changes" [C01] forall a: u64 :: existing(a) && !inRange(a, u64(r.base), u64(r.size)) ==> ld8(a) == ld8(a, old(mem))
  ensures "the target's entry jumps to the hook" [C01,C02] hookJump(mem, u64(r.base), closptr(rvIface(hook)))
  ensures "the saved entry continues behind what was saved" [C03] backJump(mem, ptr(r.code) + u64(r.size), u64(r.base) + u64(r.size))
  ensures "a function that must be refused is not patched" [C03,C05] !old(patchRefused(mem, codeAddr(target), unsafe, generic))
  exsures "a refused function: nothing has been modified" [C03,C05] old(patchRefused(mem, codeAddr(target), unsafe, generic)) ==> noneChanged(mem, old(mem)) && RC[ptrof(rvIface(proxy))] == old(RC[ptrof(rvIface(proxy))])

func (*monkey.Patch).Unpatch(p)
  home C01
  requires "the page size has been read" u64(common.pageSize) == pagesize()
  requires "the world is not stopped" stwDepth == 0
  requires "a patch as PatchValue makes them" p != nil && 0 <= p.size && p.size <= len(p.code) && ule(hookLen(), u64(p.size)) && plainRange(u64(p.base), u64(p.size)) && plainRange(ptr(p.code), u64(len(p.code)))
  requires "the saved code has its own page" forall a: u64 :: trig(ld8(a, mem)) ==> !(inRange(a, u64(p.base), u64(p.size)) && inRange(a, ptr(p.code), u64(len(p.code))))
  modifies M, prot, stwDepth
  ensures "the world runs" stwDepth == 0
  exsures "the world runs" stwDepth == 0
  ensures "every saved byte is put back" [C01] forall o: u64 :: ult(o, u64(p.size)) ==> ld8(u64(p.base) + o) == ld8(ptr(p.code) + o, old(mem))
  ensures "no other byte changes, but in the page that is given back" [C01] forall a: u64 :: !inRange(a, u64(p.base), u64(p.size)) && !inRange(a, ptr(p.code), u64(len(p.code))) ==> ld8(a) == ld8(a, old(mem))

# Installing, then anything that leaves the code and the saved page as they are
# (in particular nested pairs), then removing: the code is as before.
lemma pair(m0: Mem, m1: Mem, m2: Mem, m3: Mem, b: u64, n: u64, p: u64, l: u64)
  requires ule(n, l) && plainRange(b, n) && plainRange(p, l)
  requires "installed" (forall o: u64 :: ult(o, n) ==> ld8(p + o, m1) == ld8(b + o, m0)) && (forall a: u64 :: !inRange(a, p, l) && !inRange(a, b, n) ==> ld8(a, m1) == ld8(a, m0))
  requires "in between" forall a: u64 :: ld8(a, m2) == ld8(a, m1)
  requires "removed" (forall o: u64 :: ult(o, n) ==> ld8(b + o, m3) == ld8(p + o, m2)) && (forall a: u64 :: !inRange(a, b, n) && !inRange(a, p, l) ==> ld8(a, m3) == ld8(a, m2))
  ensures "every byte outside the saving page is as before" [C01] forall a: u64 :: !inRange(a, p, l) ==> ld8(a, m3) == ld8(a, m0)
