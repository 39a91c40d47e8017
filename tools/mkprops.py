#!/usr/bin/env python3-vt
"""Writes /verif/properties.jsonl from the table below (kept readable here) and validates it."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
M='internal/monkey/'
p("C01","Removing a mock restores the target's machine code exactly",
  "Removing a mock puts back every byte of machine code that installing it changed, and the pair of operations changes no other byte of existing memory. When the same function is mocked several times over (nested scopes) and the mocks are removed in reverse order, the code ends exactly as it was before the first one. This holds for every function body, every address, every hook and with or without the unsafe and generic options.",
  ["inputs","histories"],"all target addresses and code bytes, all hook addresses, all cut lengths, any nesting depth of LIFO patch/unpatch pairs",
  "tests patch a few dozen compiled functions and only observe return values afterwards; they never compare the bytes, and no function in them straddles a page or has an unusual prologue",
  [M+"patch.go",M+"mem/write.go",M+"mem/write_linux.go",M+"common/page_alloc.go",M+"common/transform.go"],
  [("saved prefix in the proxy page, written back with the saved length",M+"patch.go:PatchValue,Unpatch"),("page-split writer",M+"mem/write.go:WriteWithSTW")],
  [("Patch{base,size,code}","address, length and copy of the overwritten prefix",M+"patch.go")])
p("C02","Generated jumps go exactly to the requested address, for every address",
  "For every 64-bit address, on amd64 and arm64, the jump written over a mocked function transfers control to the hook's code with the closure context register holding the hook's closure, and the jump that ends a saved prefix transfers control to exactly the given code address. The generated code alters no general register other than the closure-context register and (arm64 only) one scratch register that never carries arguments.",
  ["inputs"],"all 2^64 target addresses, both instruction sets",
  "tests build the encodings for a handful of addresses that the process happens to have; bit patterns that only appear in other address ranges, and all of arm64, are never executed",
  [M+"inst/inst_amd64.go",M+"inst/inst_arm64.go"],
  [("MOVABS RDX + JMP RDX / JMP [RDX]",M+"inst/inst_amd64.go"),("MOVZ/MOVK x26 + BR / LDR x19",M+"inst/inst_arm64.go")])
p("C03","The saved entry is whole instructions, long enough, and refused if too short",
  "Before a function is overwritten, its leading instructions are copied as whole instructions: the copy ends on an instruction boundary, is the shortest such prefix that is at least as long as the jump, and is followed immediately by a jump back to the first instruction that was not copied. On amd64, when the function returns within that prefix (and the unsafe option is off) or holds undecodable bytes there, mocking is refused with a panic before any code or pointer has been modified.",
  ["inputs"],"all instruction sequences (all decodings of the 64-byte prefix), all required lengths, both values of the unsafe option",
  "which prologues the compiler emits is decided by the handful of test functions; the boundary cases (prefix ending exactly at the jump length, RET as last needed instruction, undecodable byte) are not constructed",
  [M+"inst/disasm_amd64.go",M+"inst/disasm_arm64.go",M+"patch.go"],
  [("instruction walk to the cutting point",M+"inst/disasm_amd64.go:Disassemble"),("proxy page construction",M+"patch.go:PatchValue")])
p("C04","Code writes hit exactly the given bytes, keep code executable, resume world",
  "Writing code at an address changes exactly the given bytes, for every address, length and page alignment, including ranges that cross page boundaries. Only the pages holding those bytes ever have their protection changed, each by its own page, and when the write completes they are readable and executable and no longer writable. On every exit, including a failed write, a stopped world has been started again exactly once.",
  ["inputs","fault_sequences"],"all addresses, lengths, page offsets and page sizes (powers of two); every protection call may fail",
  "tests write short ranges at addresses where page crossings and mprotect failures practically never occur; the stop-the-world build is not tested at all",
  [M+"mem/write.go",M+"mem/write_linux.go",M+"mem/write_linux_amd64.s",M+"mem/write_linux_arm64.s",M+"common/page.go",M+"mem/prot/protect_linux.go",M+"common/runtime_link/stw/stw_above_1_22.go"],
  [("page splitting loop",M+"mem/write.go:WriteWithSTW"),("mprotect/memmove/mprotect sequence",M+"mem/write_linux_amd64.s")])
p("C05","Generic mocks patch the one implementation the instantiation calls",
  "Mocking a generic instantiation redirects exactly the function that the instantiation's wrapper calls: the destination of the only call instruction before the wrapper's first return that is not one of the runtime's bulk copy/zero or race-detector helpers, computed exactly for forward and backward displacements. When there is no such call or more than one, mocking is refused and nothing is modified.",
  ["inputs","programs"],"all wrapper instruction sequences, all 32-bit displacements (amd64) and branch offsets (arm64), all helper address ranges",
  "tests contain few generic shapes, all with the displacement sign and helper layout their own link happened to produce",
  [M+"inst/disasm_amd64.go",M+"inst/disasm_arm64.go",M+"inst/generic_extra.go",M+"inst/generic_extra_race.go",M+"patch.go"],
  [("call scan",M+"inst/disasm_amd64.go:GetGenericJumpAddr"),("displacement arithmetic",M+"inst/disasm_amd64.go:calcAddr"),("helper filter",M+"inst/generic_extra.go")])
p("C06","A call to a mocked function runs the first matching condition's hook",
  "When a mocked function is called (and its goroutine is not filtered out), the conditions are evaluated in the order they were declared, with the call's own arguments, stopping at the first that holds (a condition without predicate always holds); that condition's hook, or the original when it has none, runs exactly once with those arguments and its results are what the caller receives. When no condition holds the original runs exactly once with the call's arguments and its results are returned.",
  ["inputs","histories"],"any number of conditions, any predicates and hooks (including stateful and panicking ones), any arguments",
  "tests use at most a few conditions with pure predicates; order, exactly-once evaluation and use of the same arguments for predicate and hook are not distinguishable by their assertions",
  ["mock.go","mock_condition.go","internal/tool/call.go"],
  [("condition loop in the installed hook","mock.go:buildHook"),("dynamic call","internal/tool/call.go:ReflectCall")])
p("C07","Call counters equal the calls made and the hooks run since installation",
  "While a mock is installed, its call count equals the number of calls made to the target (whatever the goroutine filter or conditions decide) and its mock count equals the number of those calls in which a mock hook was run. Counts are exact under concurrent calls, are not affected by anything else, and both restart at zero once the mock is removed.",
  ["inputs","schedules","histories"],"all call histories, condition outcomes, goroutine filters and interleavings of concurrent calls",
  "tests count a handful of sequential calls; lost updates, filtered calls and unmock/re-mock histories are sampled once or not at all",
  ["mock.go"],[("atomic increments in the installed hook","mock.go:access,mock"),("reset on removal","mock.go:UnPatch")],
  [("times, mockTimes","call and mock counters","mock.go:Mocker")])
p("C08","The goroutine filter admits exactly the goroutines it names",
  "A mock restricted to a goroutine takes effect only for calls made on that goroutine, and a mock that excludes a goroutine takes effect for calls on every goroutine except it; calls on other goroutines run the original with their arguments and return its results. The include/exclude-current variants name the goroutine that configures the mock, and the most recent setting is the one in force.",
  ["inputs","schedules"],"all goroutine ids, all filter settings and re-settings, all callers",
  "tests use two goroutines and one setting each; ids that collide in some bits, re-settings and results of filtered calls are not covered",
  ["mock.go","internal/tool/goroutine.go"],[("filter switch in the installed hook","mock.go:buildHook"),("filter setters","mock.go:FilterGoRoutine,IncludeCurrentGoRoutine,ExcludeCurrentGoRoutine")])
p("C09","A return sequence yields its values in cyclic order, one slot per call",
  "A return sequence hands out its entries in declaration order, each for its declared number of consecutive calls (one by default), then starts again from the first entry, for ever. Concurrent calls each consume exactly one position of that schedule, so no position is skipped or handed out twice. A repeat count below one is refused.",
  ["inputs","schedules","histories"],"all sequences of entries and repeat counts, any number of calls, all interleavings of concurrent calls",
  "tests walk two or three short sequences, and the concurrency test compares totals of one configuration",
  ["mock_sequence.go"],[("cursor under lock","mock_sequence.go:GetNext"),("entry list","mock_sequence.go:Then,Times")],
  [("curV, curT","cursor into the schedule","mock_sequence.go:sequence")])
p("C10","Configured return values are returned in order, converted, or refused",
  "A mock configured with return values returns exactly those values, position by position, each converted to the declared result type, an untyped nil giving that type's zero value. If the number of values differs from the number of results, or some value cannot be converted to its result type, the call panics and never returns other values; values taken from a return sequence are treated the same way on every call.",
  ["inputs"],"all result counts and types, all values, nil at any position, with and without a sequence",
  "tests use one or two results of basic types",
  ["mock_condition.go","internal/tool/check.go"],[("value conversion in the return hook","mock_condition.go:SetReturnForce"),("count and convertibility check","internal/tool/check.go:CheckReturnType")])
p("C11","Hooks and predicates receive the call's arguments, adapted to their shape",
  "A hook or predicate is accepted exactly when its parameter list is the target's, optionally without the leading (receiver) parameter and, on a generic mock, optionally preceded by the generic-information parameter, and it agrees with the target on being variadic; anything else panics when it is configured. Whenever it runs it receives exactly the call's argument values in order, the generic information first if and only if it asks for it and the leading parameter dropped if and only if it omits it. A variadic argument list arrives as the very slice the caller passed.",
  ["inputs","programs"],"all target and hook signatures, generic and not, variadic and not, all argument values",
  "tests cover a few signatures with up to three parameters; aliasing or nil-ness of variadic slices and near-miss signatures are not covered",
  ["mock_condition.go","internal/tool/check.go","internal/tool/call.go","mock.go"],
  [("shape check","mock_condition.go:checkGenericAndReceiver; internal/tool/check.go:CheckFuncArgs"),("argument adaptation","mock_condition.go:adaptArgsForReflectCall"),("dynamic call","internal/tool/call.go:ReflectCall")])
p("C12","The origin function runs the original once with the caller's arguments",
  "Calling the function obtained through Origin while the mock is installed runs the saved original code exactly once with the given arguments (supplying the pending call's receiver or generic information where the origin's signature omits them) and returns its results. It neither consults the mock's conditions nor changes its counters, and it leaves the pending call's own arguments untouched, so a hook running afterwards still sees them. An origin holder whose parameter list does not fit (the target's, optionally without the leading parameter, agreeing on being variadic) is refused.",
  ["inputs","histories"],"all signatures and arguments, any number of origin calls at any point of predicates and hooks",
  "tests call origin once, at the end of the hook, so damage to the pending call's arguments is invisible to them",
  ["mock.go","internal/monkey/fn/inject.go","internal/tool/call.go"],
  [("origin setter closure","mock.go:buildProxy"),("injection of the saved code","internal/monkey/fn/inject.go:InjectInto")])
p("C13","A mock is active exactly between installation and removal",
  "Installing an installed mock and removing a removed one have no effect; removing and installing alternately any number of times switches the target between original and mocked behaviour each time. Reconfiguring an existing mock (predicate, hook, return values, goroutine filter, origin) takes effect for the next call, with the other settings kept; releasing it removes it and clears its conditions. The registry of the current scope lists a mock if and only if it is installed.",
  ["histories","schedules"],"all finite histories of install, remove, reconfigure and release on one mock, from any scope depth",
  "tests run a few fixed histories; removal from an inner scope followed by a new mock is not among them",
  ["mock.go","mock_var.go","convey.go"],[("isPatched under lock","mock.go:Patch,UnPatch"),("rebuild","mock.go:rePatch,Release"),("registry","convey.go:addToGlobal,removeFromGlobal")],
  [("isPatched","installed flag","mock.go, mock_var.go"),("gMocker","stack of per-scope registries","convey.go")])
p("C14","Mocking an already mocked target in one scope is refused and harmless",
  "Installing a second mock on a target that already has an installed mock in the current scope panics, and after the panic the target, the first mock and the registry behave exactly as before the attempt; this holds for functions and for variables. Mocking a different target, mocking the same target in a nested scope, or mocking it again after the first mock was removed is never refused for this reason.",
  ["histories","inputs"],"all pairs of mocks and all scope stacks and histories",
  "the one test only checks that a panic message appears, not what the target does afterwards",
  ["convey.go","mock.go","mock_var.go"],[("registry lookup","convey.go:addToGlobal")],[("gMocker","stack of per-scope registries","convey.go")])
p("C15","Leaving a scope removes exactly the mocks made in it, even on panic",
  "When a scope ends, normally or by a panic of its body, every mock of a function or variable installed in it and still active has been removed, and mocks installed in enclosing scopes are still active and still registered there. Removing all mocks explicitly does the same for the current scope only. Scopes nest to any depth and run again for every execution of the body.",
  ["histories","fault_sequences"],"all scope bodies (any set of mocks, nested scopes, panics at any point), all nesting depths",
  "tests nest two levels without panics",
  ["convey.go","mock.go","mock_var.go"],[("scope push, deferred cleanup and pop","convey.go:PatchConvey"),("explicit cleanup","convey.go:UnPatchAll")],
  [("gMocker","stack of per-scope registries","convey.go")])
p("C16","A mocked variable holds the mock value, then its former value again",
  "After mocking a variable it holds exactly the given value (the type's zero value for an untyped nil), also when an active mock is given a new value; after removal it holds exactly the value it had when the mock was created, for every type including interfaces holding nil. A value whose type is not assignable to the variable's is refused and the variable keeps its content.",
  ["inputs","histories"],"all variable types and contents, all values, all histories of set, remove and set again",
  "tests use an int, a struct and a pointer; nil interfaces and re-set histories are not covered",
  ["mock_var.go"],[("saved content and set/restore","mock_var.go:MockValue,To,Patch,UnPatch")],
  [("origin","content when the mock was created","mock_var.go:MockerVar")])
p("C17","Method lookup by name finds the method Go would, or panics",
  "Looking up an exported method by name on an instance returns a function whose first parameter is the receiver and which is the method of that name found on an embedded struct (searched depth first in field order) or else on the instance's own value or pointer type; a function-typed field is returned as a function running the same code. If there is no such method or field, it panics and never returns nil or another method.",
  ["inputs","programs"],"all instance types, nestings of anonymous fields, nil embedded pointers and interfaces, all names",
  "tests use a handful of types with one level of embedding",
  ["utils.go"],[("recursive search","utils.go:getNestedMethod"),("lookup order","utils.go:GetMethod"),("field carrier","utils.go:getFieldMethod")])
p("C18","Private methods are resolved from the runtime's own metadata exactly",
  "Looking up an unexported method by name on a value of a pointer, struct or function type returns a function that runs exactly the code of the method of that name in the instance type's method table, with the receiver followed by the method's declared parameters and results (variadic kept), for method tables and names of any length. If no method of that name exists, or its type is not available, it panics rather than returning some other code.",
  ["inputs","programs"],"all method tables, all name lengths (multi-byte length encoding), all kinds of receiver types the metadata reader supports",
  "tests look up two standard library methods with short names on pointer types",
  ["internal/unsafereflect/type.go","internal/unsafereflect/name_above_1_17.go","utils.go"],
  [("method table walk","internal/unsafereflect/type.go:MethodByName,methods"),("name decoding","internal/unsafereflect/name_above_1_17.go:readVarint"),("function value assembly","utils.go:unsafeMethodByName")])
p("C19","Building a mock keeps each setting, and refuses contradictory ones",
  "Each predicate and each hook or return value given while building is kept with the condition it was declared for: a condition is completed by having both, in either order, and the next one given starts a new condition after it. Giving a second predicate or hook to an incomplete condition, a second origin holder, a target or hook that is not a function, a predicate whose result is not a single boolean, or an origin or variable argument that is not a pointer panics, and so does resetting a predicate, hook or return value of a mock with more than one condition.",
  ["inputs","histories"],"all sequences of builder calls and argument kinds",
  "tests build at most four conditions in one order and check no more than a few of the refusals",
  ["mock.go","mock_condition.go","internal/tool/assert.go","mock_var.go"],
  [("condition list","mock.go:lastCondition,resetCondition"),("assertions","mock_condition.go:SetWhen,SetTo,SetReturn; internal/tool/assert.go")])
p("C20","The goroutine id read is the runtime's id of the running goroutine",
  "The id used for goroutine filtering is the runtime's own id of the goroutine that asks, so two live goroutines never get the same one and one goroutine always gets the same, for every supported Go release and both instruction sets.",
  ["configurations","schedules"],"all Go releases the version rule distinguishes (those installed here are checked), all goroutines",
  "the tests run on a single Go release and compare one goroutine's id",
  ["internal/tool/goroutine.go","internal/tool/goroutine_amd64.s","internal/tool/goroutine_arm64.s"],
  [("offset chosen by release","internal/tool/goroutine.go:init"),("g register read","internal/tool/goroutine_amd64.s")],
  [("gGoroutineIDOffset","offset of the id in the runtime's goroutine record","internal/tool/goroutine.go")])
here=os.path.dirname(os.path.abspath(__file__))
out=os.path.join(here,"..","properties.jsonl")
s="".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P)
open(out,"w").write(s)
try:
    import jsonschema
    sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,sch)
    print("valid",len(P))
except ImportError: print("written",len(P))
