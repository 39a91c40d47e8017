# What the language guarantees about function types.
axiom "sizes of function types" forall t: RType :: trig(numIn(t)) ==> ult(u64(numIn(t)), u64(65536))
axiom "sizes of function types" forall t: RType :: trig(numOut(t)) ==> ult(u64(numOut(t)), u64(65536))
axiom "a variadic function has a last parameter, of slice type" forall t: RType :: trig(variadic(t)) ==> variadic(t) ==> numIn(t) > 0 && kind(inT(t, numIn(t) - 1)) == 23
