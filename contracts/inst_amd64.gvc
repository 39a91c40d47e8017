# Jump encodings, amd64.
define movabsRDX(m: Mem, p: u64, v: u64) = ld8(p, m) == 0x48 && ld8(p+1, m) == 0xba && ld64(p+2, m) == v
# jmp *rdx ; jmp *(rdx) ; jmp *0(rip) with the address behind it
define jmpRDX(m: Mem, p: u64) = ld8(p, m) == 0xff && ld8(p+1, m) == 0xe2
define jmpMemRDX(m: Mem, p: u64) = ld8(p, m) == 0xff && ld8(p+1, m) == 0x22
define jmpRIP(m: Mem, p: u64, v: u64) = ld8(p, m) == 0xff && ld8(p+1, m) == 0x25 && ld32(p+2, m) == 0 && ld64(p+6, m) == v

# the n bytes at p in m send control to address to
define codeJumpTo(m: Mem, p: u64, n: u64, to: u64) = n == 12 && movabsRDX(m, p, to) && jmpRDX(m, p+10) || n == 14 && jmpRIP(m, p, to)
# the n bytes at p in m load the closure pointer clo and send control to the code it points to
define codeJumpInto(m: Mem, p: u64, n: u64, clo: u64) = n == 12 && movabsRDX(m, p, clo) && jmpMemRDX(m, p+10)

func inst.BranchTo(to) (r)
  home C02
  nopanic
  modifies nothing
  ensures "the code jumps to the requested address" [C02] codeJumpTo(mem, ptr(r), len(r), to)
  ensures "the code is in fresh memory" len(r) <= 20 && 5 <= len(r) && cap(r) >= len(r) && ule(ptr(r), ptr(r) + u64(cap(r))) && ptr(r) != 0 && fresh(r) && (forall i: u64 :: ult(i, u64(cap(r))) ==> fresh(ptr(r)+i))

func inst.BranchInto(to) (r)
  home C02
  nopanic
  modifies nothing
  ensures "the code jumps to the closure's code with the context register set" [C02] codeJumpInto(mem, ptr(r), len(r), to)
  ensures "the code is in fresh memory" len(r) <= 20 && 5 <= len(r) && cap(r) >= len(r) && ule(ptr(r), ptr(r) + u64(cap(r))) && ptr(r) != 0 && fresh(r) && (forall i: u64 :: ult(i, u64(cap(r))) ==> fresh(ptr(r)+i))

# One instruction at a decodes (given at least the longest instruction's bytes).
define insOK(m: Mem, a: u64) = x86ok(m, a, u64(15))
define insLen(m: Mem, a: u64) = x86len(m, a, u64(15))
define insRet(m: Mem, a: u64) = x86op(m, a, u64(15)) == u32(x86asm.RET)

# Where the shortest run of whole instructions from a+p on that covers req bytes ends.
rec cutAt(m: Mem, a: u64, p: int, req: int): int = p >= req ? p : cutAt(m, a, p + int(insLen(m, a+u64(p))), req)
# Whether that run holds something that must be refused.
rec cutBad(m: Mem, a: u64, p: int, req: int, chk: bool): bool = p >= req ? false : (!insOK(m, a+u64(p)) || (chk && insRet(m, a+u64(p))) || cutBad(m, a, p + int(insLen(m, a+u64(p))), req, chk))

func inst.Disassemble(code, required, checkLen) (n)
  home C03
  requires "enough bytes follow to decode every instruction that starts before the required length" 0 <= required && required <= 32 && required + 15 <= len(code)
  panicsiff "refused exactly when a return (with the length check on) or undecodable bytes lie in the needed prefix" [C03] cutBad(mem, ptr(code), 0, required, checkLen)
  modifies nothing
  ensures "the shortest run of whole instructions that is long enough" [C03] n == cutAt(mem, ptr(code), 0, required)
  ensures "the length is in range" required <= n && n < required + 15
  cand forall p: int :: cutAt(mem, ptr(code), p, required) == cutAt(mem, ptr(code), 0, required)
  cand forall p: int :: cutBad(mem, ptr(code), p, required, checkLen) == cutBad(mem, ptr(code), 0, required, checkLen)
  cand forall p: int :: 0 <= p && p < required + 15

# Scan of a generic wrapper: n bytes at a, from offset p.
define gOK(m: Mem, a: u64, p: u64, n: u64) = x86ok(m, a+p, n-p)
define gLen(m: Mem, a: u64, p: u64, n: u64) = u64(x86len(m, a+p, n-p))
define gOp(m: Mem, a: u64, p: u64, n: u64) = x86op(m, a+p, n-p)
define gRet(m: Mem, a: u64, p: u64, n: u64) = gOp(m, a, p, n) == u32(x86asm.RET)
define gCall(m: Mem, a: u64, p: u64, n: u64) = gOp(m, a, p, n) == u32(x86asm.CALL)
define gRelCall(m: Mem, a: u64, p: u64, n: u64) = is(x86arg0(m, a+p, n-p), `x86asm.Rel`)
# the destination: end of the instruction plus the sign-extended displacement
define gDest(m: Mem, a: u64, p: u64, n: u64) = a + p + gLen(m, a, p, n) + sext32(u32(as(x86arg0(m, a+p, n-p), `x86asm.Rel`)))
define gCounts(m: Mem, a: u64, p: u64, n: u64) = gCall(m, a, p, n) && !isHelper(gDest(m, a, p, n))

# refused on the way: undecodable bytes or an indirect call before the first return
rec scanBad(m: Mem, a: u64, p: u64, n: u64): bool = p >= n ? false : (!gOK(m,a,p,n) ? true : (gRet(m,a,p,n) ? false : ((gCall(m,a,p,n) && !gRelCall(m,a,p,n)) || scanBad(m, a, p + gLen(m,a,p,n), n))))
rec scanCount(m: Mem, a: u64, p: u64, n: u64): u64 = p >= n ? u64(0) : (gRet(m,a,p,n) ? u64(0) : (gCounts(m,a,p,n) ? 1 + scanCount(m, a, p + gLen(m,a,p,n), n) : scanCount(m, a, p + gLen(m,a,p,n), n)))
# destination of the first call that counts
rec scanFirst(m: Mem, a: u64, p: u64, n: u64): u64 = p >= n ? u64(0) : (gRet(m,a,p,n) ? u64(0) : (gCounts(m,a,p,n) ? gDest(m,a,p,n) : scanFirst(m, a, p + gLen(m,a,p,n), n)))

func inst.GetGenericJumpAddr(addr, maxScan) (r)
  home C05
  requires "the scanned area is a plain address range" 0 < maxScan && maxScan < 0x100000
  panicsiff "refused exactly when there is no such call, more than one, or the code cannot be read" [C05] scanBad(mem, addr, 0, maxScan) || scanCount(mem, addr, 0, maxScan) != 1
  modifies nothing
  ensures "the destination of the only call that is not a runtime helper" [C05] r == scanFirst(mem, addr, 0, maxScan)
  cand forall p: u64 :: p < maxScan + 16
  cand forall p: u64 :: scanBad(mem, addr, p, maxScan) == scanBad(mem, addr, 0, maxScan)
  cand forall p: u64, s: `[]uintptr` :: scanCount(mem, addr, p, maxScan) + u64(len(s)) == scanCount(mem, addr, 0, maxScan)
  cand forall p: u64, s: `[]uintptr` :: (len(s) == 0 ? scanFirst(mem, addr, p, maxScan) : s[0]) == scanFirst(mem, addr, 0, maxScan)
  cand forall p: u64, s: `[]uintptr` :: u64(len(s)) <= p

# where the jumps that are written into code lie
define hookJump(m: Mem, p: u64, clo: u64) = codeJumpInto(m, p, 12, clo)
define backJump(m: Mem, p: u64, to: u64) = codeJumpTo(m, p, 12, to) || codeJumpTo(m, p, 14, to)
define hookLen() = u64(12)
# the entry of the function at a cannot be saved
define refused(m: Mem, a: u64, unsafe: bool) = cutBad(m, a, 0, 12, !unsafe)
define savedLen(m: Mem, a: u64) = u64(cutAt(m, a, 0, 12))
