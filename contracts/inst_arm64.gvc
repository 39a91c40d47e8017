# Jump encodings, arm64: the value of x26 after one move instruction.
define isMOVZ(w: u32) = w & 0xff80001f == 0xd280001a
define isMOVK(w: u32) = w & 0xff80001f == 0xf280001a
define movImm(w: u32) = u64(bits(w, 20, 5))
define movSh(w: u32) = u64(bits(w, 22, 21)) * 16
define movX26(w: u32, v: u64) = ite(isMOVZ(w), movImm(w) << movSh(w), (v &^ (0xffff << movSh(w))) | (movImm(w) << movSh(w)))
define isMov(w: u32) = isMOVZ(w) || isMOVK(w)
define w32(m: Mem, p: u64) = ld32(p, m)
define loadsX26(m: Mem, p: u64, v: u64) = isMOVZ(w32(m,p)) && isMov(w32(m,p+4)) && isMov(w32(m,p+8)) && isMov(w32(m,p+12)) && movX26(w32(m,p+12), movX26(w32(m,p+8), movX26(w32(m,p+4), movX26(w32(m,p), u64(0))))) == v
# BR x26 ; LDR x19, [x26] ; BR x19
define codeJumpTo(m: Mem, p: u64, n: u64, to: u64) = n == 20 && loadsX26(m, p, to) && w32(m, p+16) == 0xd61f0340
define codeJumpInto(m: Mem, p: u64, n: u64, clo: u64) = n == 24 && loadsX26(m, p, clo) && w32(m, p+16) == 0xf9400353 && w32(m, p+20) == 0xd61f0260

func inst.BranchTo(to) (r)
  home C02
  nopanic
  modifies nothing
  ensures "the code jumps to the requested address" [C02] codeJumpTo(mem, ptr(r), len(r), to)
  ensures "the code is in fresh memory" len(r) <= 20 && 5 <= len(r) && cap(r) >= len(r) && ule(ptr(r), ptr(r) + u64(cap(r))) && ptr(r) != 0 && fresh(r) && (forall i: u64 :: ult(i, u64(cap(r))) ==> fresh(ptr(r)+i))

func inst.BranchInto(to) (r)
  home C02
  nopanic
  modifies nothing
  ensures "the code jumps to the closure's code with the context register set" [C02] codeJumpInto(mem, ptr(r), len(r), to)
  ensures "the code is in fresh memory" len(r) <= 24 && 5 <= len(r) && cap(r) >= len(r) && ule(ptr(r), ptr(r) + u64(cap(r))) && ptr(r) != 0 && fresh(r) && (forall i: u64 :: ult(i, u64(cap(r))) ==> fresh(ptr(r)+i))

func inst.Disassemble(code, required, checkLen) (n)
  home C03
  requires 0 <= required && required < len(code) && required % 4 == 0
  nopanic
  modifies nothing
  ensures "whole instructions, and the fewest that are long enough" [C03] n % 4 == 0 && required <= n && n < required + 4

# Scan of a generic wrapper of n bytes at a, from offset p.
define gW(m: Mem, a: u64, p: u64) = armword(m, a+p)
define gOK(m: Mem, a: u64, p: u64, n: u64) = n - p >= 4 && armok(gW(m, a, p))
define gRet(m: Mem, a: u64, p: u64) = armRET(gW(m, a, p))
define gCall(m: Mem, a: u64, p: u64) = armBL(gW(m, a, p))
# the destination of a BL: its own address plus the sign-extended 26-bit offset times four
define gOff(w: u32) = ((u64(bits(w, 25, 0)) << 2) ^ 0x8000000) - 0x8000000
define gDest(m: Mem, a: u64, p: u64) = a + p + gOff(gW(m, a, p))
define gCounts(m: Mem, a: u64, p: u64) = gCall(m, a, p) && !isHelper(gDest(m, a, p))
rec scanBad(m: Mem, a: u64, p: u64, n: u64): bool = p >= n ? false : (!gOK(m,a,p,n) ? true : (gRet(m,a,p) ? false : scanBad(m, a, p + 4, n)))
rec scanCount(m: Mem, a: u64, p: u64, n: u64): u64 = p >= n ? u64(0) : (gRet(m,a,p) ? u64(0) : (gCounts(m,a,p) ? 1 + scanCount(m, a, p + 4, n) : scanCount(m, a, p + 4, n)))
rec scanFirst(m: Mem, a: u64, p: u64, n: u64): u64 = p >= n ? u64(0) : (gRet(m,a,p) ? u64(0) : (gCounts(m,a,p) ? gDest(m,a,p) : scanFirst(m, a, p + 4, n)))

func inst.GetGenericJumpAddr(addr, maxScan) (r)
  home C05
  requires "the scanned area is a plain address range" 0 < maxScan && maxScan < 0x100000
  panicsiff "refused exactly when there is no such call, more than one, or the code cannot be read" [C05] scanBad(mem, addr, 0, maxScan) || scanCount(mem, addr, 0, maxScan) != 1
  modifies nothing
  ensures "the destination of the only call that is not a runtime helper" [C05] r == scanFirst(mem, addr, 0, maxScan)
  cand forall p: u64 :: p < maxScan + 16
  cand forall p: u64 :: scanBad(mem, addr, p, maxScan) == scanBad(mem, addr, 0, maxScan)
  cand forall p: u64, s: `[]uintptr` :: scanCount(mem, addr, p, maxScan) + u64(len(s)) == scanCount(mem, addr, 0, maxScan)
  cand forall p: u64, s: `[]uintptr` :: (len(s) == 0 ? scanFirst(mem, addr, p, maxScan) : s[0]) == scanFirst(mem, addr, 0, maxScan)
  cand forall p: u64, s: `[]uintptr` :: u64(len(s)) <= p

# where the jumps that are written into code lie
define hookJump(m: Mem, p: u64, clo: u64) = codeJumpInto(m, p, 24, clo)
define backJump(m: Mem, p: u64, to: u64) = codeJumpTo(m, p, 20, to)
define hookLen() = u64(24)
define refused(m: Mem, a: u64, unsafe: bool) = false
define savedLen(m: Mem, a: u64) = u64(24)
