# Return sequences. curV is the entry the next call gets, curT how often it has been handed out.
guarded mockey.sequence.curV by readLock
guarded mockey.sequence.curT by readLock

define seqEntries(s: `*mockey.sequence`) = (forall i: int :: 0 <= i && i < len(s.values) ==> s.values[i] != nil && s.values[i].t > 0)
define seqInv(s: `*mockey.sequence`) = s != nil && len(s.values) > 0 && seqEntries(s) && 0 <= s.curV && s.curV < len(s.values) && 0 <= s.curT && s.curT < s.values[s.curV].t
# nothing has been handed out yet
define seqNew(s: `*mockey.sequence`) = s.curV == 0 && s.curT == 0
define sameValues(a: `[]interface{}`, b: `[]interface{}`) = len(a) == len(b) && arr(a) == arr(b) && off(a) == off(b)

func (*mockey.sequence).GetNext(s) (r)
  requires "a sequence as the builder makes them" seqInv(s)
  nopanic
  modifies s.curV, s.curT
  ensures "the entry whose turn it is" [C09,C10] len(r) == old(len(s.values[s.curV].v)) && (forall k: int :: 0 <= k && k < len(r) ==> r[k] == old(s.values[s.curV].v)[k])
  ensures "the same entry again until its number of calls is used up" [C09] old(s.curT) + 1 < old(s.values[s.curV].t) ==> s.curV == old(s.curV) && s.curT == old(s.curT) + 1
  ensures "then the next entry, and the first one after the last" [C09] !(old(s.curT) + 1 < old(s.values[s.curV].t)) ==> s.curT == 0 && s.curV == (old(s.curV) + 1 < len(s.values) ? old(s.curV) + 1 : 0)
  ensures "still a sequence" [C09] seqInv(s)

func (*mockey.sequence).Then(s, value) (r)
  requires s != nil && seqEntries(s) && seqNew(s)
  nopanic
  modifies s.values, elems(s.values)
  ensures "an entry for one call is added at the end" [C09] len(s.values) == old(len(s.values)) + 1 && s.values[old(len(s.values))].t == 1 && sameValues(s.values[old(len(s.values))].v, value)
  ensures "the entries before it are kept" [C09] forall i: int :: 0 <= i && i < old(len(s.values)) ==> s.values[i] == old(s.values)[i]
  ensures "the new entry is its own object" fresh(s.values[old(len(s.values))])
  ensures "still a sequence at its start" [C09] seqInv(s) && seqNew(s)

func (*mockey.sequence).Times(s, t) (r)
  requires seqInv(s) && seqNew(s)
  requires "every entry is its own object" forall i: int, j: int :: 0 <= i && i < j && j < len(s.values) ==> s.values[i] != s.values[j]
  panicsiff "a repeat count below one is refused" [C09] t < 1
  modifies all mockey.sequenceValue.t
  ensures "the last entry is repeated that often" [C09] s.values[len(s.values)-1].t == t
  ensures "the other entries keep theirs" [C09] forall i: int :: 0 <= i && i < len(s.values) - 1 ==> s.values[i].t == old(s.values[i].t)
  ensures "still a sequence at its start" [C09] seqInv(s) && seqNew(s)

func mockey.Sequence(value) (r)
  nopanic
  modifies nothing
  ensures "a new sequence of that one entry for one call" [C09] is(r, `*mockey.sequence`) && len(as(r, `*mockey.sequence`).values) == 1 && as(r, `*mockey.sequence`).values[0].t == 1 && sameValues(as(r, `*mockey.sequence`).values[0].v, value)
  ensures "at its start" [C09] seqInv(as(r, `*mockey.sequence`)) && seqNew(as(r, `*mockey.sequence`))
