# Code writes. prot is the protection of every page byte; stwDepth counts the
# stops of the world that have not been undone.

# the pages that hold the n bytes at t
define pageHolds(a: u64, t: u64, n: u64) = n != 0 && ule(pageOf(a) - pageOf(t), pageOf(t + n - 1) - pageOf(t))
define inRange(a: u64, t: u64, n: u64) = ult(a - t, n)
define apart(t: u64, d: u64, n: u64) = forall a: u64 :: trig(ld8(a, mem)) ==> !(inRange(a, t, n) && inRange(a, d, n))

func mem.write(target, data, n, page, pageSize, oriProt) (r)
  trusted "assembly: executed by the batteries (bounded)"
  requires "one page, by its own address" u64(pageSize) == pagesize() && page == pageOf(target) && (n == 0 || ule(u64(n) - 1, page + pagesize() - 1 - target)) && sle(0, n)
  requires "the pages end readable and executable, not writable" oriProt == 5
  requires "the data is not what is being overwritten" apart(target, data, u64(n))
  nopanic
  modifies M, prot
  ensures "the bytes" r == 0 ==> (forall o: u64 :: ld8(target + o, mem) == (ult(o, u64(n)) ? ld8(data + o, old(mem)) : ld8(target + o, old(mem))))
  ensures "no other byte" forall o: u64 :: ult(o, u64(n)) || ld8(target + o, mem) == ld8(target + o, old(mem))
  ensures "the protection" (forall a: u64 :: pageOf(a) == page || protAt(a) == old(protAt(a))) && (r == 0 ==> (forall a: u64 :: pageOf(a) == page ==> protAt(a) == 5))

func mem.WriteWithSTW(target, data)
  home C04
  requires "the world is not stopped already" [C04] stwDepth == 0
  requires "the page size has been read" u64(common.pageSize) == pagesize()
  requires "a range of addresses" len(data) == 0 || ule(target, target + u64(len(data)) - 1) && target + u64(len(data)) != 0 && ule(ptr(data), ptr(data) + u64(len(data)) - 1)
  requires "the data is not what is being overwritten" apart(target, ptr(data), u64(len(data)))
  requires "room after the last page" len(data) == 0 || ult(pageOf(target + u64(len(data)) - 1), pageOf(target + u64(len(data)) - 1) + pagesize())
  modifies M, prot, stwDepth
  ensures "exactly the given bytes are written" [C04,C01] forall o: u64 :: trigx(ld8(target + o, mem)) ==> ld8(target + o, mem) == (ult(o, u64(len(data))) ? ld8(ptr(data) + o, old(mem)) : ld8(target + o, old(mem)))
  ensures "the pages holding them are readable and executable, no other page's protection changes" [C04] forall a: u64 :: protAt(a) == (pageHolds(a, target, u64(len(data))) ? u8(5) : old(protAt(a)))
  ensures "the world runs again" [C04] stwDepth == old(stwDepth)
  exsures "a failed write leaves every other byte alone" [C04] forall o: u64 :: trigx(ld8(target + o, mem)) ==> !ult(o, u64(len(data))) ==> ld8(target + o, mem) == ld8(target + o, old(mem))
  exsures "a failed write leaves every other page's protection alone" [C04] forall a: u64 :: !pageHolds(a, target, u64(len(data))) ==> protAt(a) == old(protAt(a))
  exsures "the world runs again after a failed write" [C04] stwDepth == old(stwDepth)
  cand forall b: uintptr, d: []byte :: u64(ptr(d)) == ptr(data) + (b - target) && u64(len(d)) == u64(len(data)) - (b - target) && ule(b - target, u64(len(data)))
  cand forall b: uintptr :: b == target || b == pageOf(b) || b == target + u64(len(data))
  cand forall b: uintptr :: forall o: u64 :: ld8(target + o, mem) == (ult(o, b - target) ? ld8(ptr(data) + o, old(mem)) : ld8(target + o, old(mem)))
  cand forall b: uintptr :: forall a: u64 :: protAt(a) == (pageHolds(a, target, b - target) ? u8(5) : old(protAt(a)))
