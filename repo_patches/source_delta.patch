From f8ae334b45b949523fd146651cc03f5ac7579f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:52 +0000
Subject: [PATCH 01/10] fix: calling the origin function no longer overwrites
 the pending call's arguments

---
 mock.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mock.go b/mock.go
index 676f006..5e17329 100644
--- a/mock.go
+++ b/mock.go
@@ -313,7 +313,8 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 		}
 		proxyCallerSetter = func(args []reflect.Value) {
 			pElem.Set(reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
-				return tool.ReflectCall(proxy.Elem(), append(args[0:shift], innerArgs...))
+				// args belongs to the pending call, append must not write to it
+				return tool.ReflectCall(proxy.Elem(), append(args[0:shift:shift], innerArgs...))
 			}))
 		}
 	}
-- 
2.43.0


From 7ba1e92a956580d5e2aa615d2754c532fd36d4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:55 +0000
Subject: [PATCH 02/10] fix: pass a variadic argument slice to hooks,
 predicates and origins as it is

---
 internal/tool/call.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/internal/tool/call.go b/internal/tool/call.go
index 40dd333..d1e786f 100644
--- a/internal/tool/call.go
+++ b/internal/tool/call.go
@@ -22,16 +22,8 @@ import (
 
 func ReflectCall(f reflect.Value, args []reflect.Value) []reflect.Value {
 	if f.Type().IsVariadic() {
-		newArgs := make([]reflect.Value, 0)
-		lastArg := args[len(args)-1]
-		for i := 0; i < len(args)-1; i++ {
-			newArgs = append(newArgs, args[i])
-		}
-
-		for i := 0; i < lastArg.Len(); i++ {
-			newArgs = append(newArgs, lastArg.Index(i))
-		}
-		return f.Call(newArgs)
+		// the last argument already is the variadic slice, pass it as it is
+		return f.CallSlice(args)
 	} else {
 		return f.Call(args)
 	}
-- 
2.43.0


From e2ad903520cfd097b59fe4274790f55641d4b386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:58 +0000
Subject: [PATCH 03/10] fix: refuse a re-mock before anything has been changed

---
 convey.go   | 8 ++++++--
 mock.go     | 1 +
 mock_var.go | 1 +
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/convey.go b/convey.go
index 7e7bd3e..97beb49 100644
--- a/convey.go
+++ b/convey.go
@@ -48,12 +48,16 @@ func PatchConvey(items ...interface{}) {
 	convey.Convey(items...)
 }
 
-func addToGlobal(mocker mockerInstance) {
-	tool.DebugPrintf("%v added\n", mocker.key())
+// assertNotMocked refuses a second mock on one target in the current scope
+func assertNotMocked(mocker mockerInstance) {
 	last, ok := gMocker[len(gMocker)-1][mocker.key()]
 	if ok {
 		tool.Assert(!ok, "re-mock %v, previous mock at: %v", mocker.name(), last.caller())
 	}
+}
+
+func addToGlobal(mocker mockerInstance) {
+	tool.DebugPrintf("%v added\n", mocker.key())
 	gMocker[len(gMocker)-1][mocker.key()] = mocker
 }
 
diff --git a/mock.go b/mock.go
index 5e17329..fee2105 100644
--- a/mock.go
+++ b/mock.go
@@ -328,6 +328,7 @@ func (mocker *Mocker) Patch() *Mocker {
 	if mocker.isPatched {
 		return mocker
 	}
+	assertNotMocked(mocker)
 	mocker.patch = monkey.PatchValue(mocker.target, mocker.hook, reflect.ValueOf(mocker.proxy), mocker.builder.unsafe, mocker.builder.generic)
 	mocker.isPatched = true
 	addToGlobal(mocker)
diff --git a/mock_var.go b/mock_var.go
index 910816c..f79554b 100644
--- a/mock_var.go
+++ b/mock_var.go
@@ -73,6 +73,7 @@ func (mocker *MockerVar) Patch() *MockerVar {
 	defer mocker.lock.Unlock()
 
 	if !mocker.isPatched {
+		assertNotMocked(mocker)
 		mocker.target.Set(mocker.hook)
 		mocker.isPatched = true
 		addToGlobal(mocker)
-- 
2.43.0


From 564604a109e5798b2f213c4f38795e34f1367a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:00 +0000
Subject: [PATCH 04/10] fix: start the world again when a code write fails

---
 internal/monkey/mem/write.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/monkey/mem/write.go b/internal/monkey/mem/write.go
index 5d71863..9f2df2c 100644
--- a/internal/monkey/mem/write.go
+++ b/internal/monkey/mem/write.go
@@ -27,6 +27,7 @@ import (
 func WriteWithSTW(target uintptr, data []byte) {
 	ctx := stw.NewSTWCtx()
 	ctx.StopTheWorld()
+	defer ctx.StartTheWorld()
 
 	begin := target
 	end := target + uintptr(len(data))
@@ -44,6 +45,4 @@ func WriteWithSTW(target uintptr, data []byte) {
 		tool.Assert(err == nil, err)
 		break
 	}
-
-	ctx.StartTheWorld()
 }
-- 
2.43.0


From dbeaecbf866fc9865ee186c1dcf2ac19b8e4c830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:03 +0000
Subject: [PATCH 05/10] fix: giving an active variable mock a new value takes
 effect, a refused value does not

---
 mock_var.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/mock_var.go b/mock_var.go
index f79554b..ad2e44e 100644
--- a/mock_var.go
+++ b/mock_var.go
@@ -54,20 +54,33 @@ func MockValue(targetPtr interface{}) *MockerVar {
 
 func (mocker *MockerVar) To(value interface{}) *MockerVar {
 	var v reflect.Type
+	var hook reflect.Value
 
 	if value == nil {
-		mocker.hook = reflect.Zero(mocker.targetType)
+		hook = reflect.Zero(mocker.targetType)
 		v = mocker.targetType
 	} else {
-		mocker.hook = reflect.ValueOf(value)
+		hook = reflect.ValueOf(value)
 		v = reflect.TypeOf(value)
 	}
 
 	tool.Assert(v.AssignableTo(mocker.targetType), "value type:%s not match target type:%s", v.Name(), mocker.targetType.Name())
+	mocker.setHook(hook)
 	mocker.Patch()
 	return mocker
 }
 
+// setHook records the mock value, an active mock gets it at once
+func (mocker *MockerVar) setHook(hook reflect.Value) {
+	mocker.lock.Lock()
+	defer mocker.lock.Unlock()
+
+	mocker.hook = hook
+	if mocker.isPatched {
+		mocker.target.Set(hook)
+	}
+}
+
 func (mocker *MockerVar) Patch() *MockerVar {
 	mocker.lock.Lock()
 	defer mocker.lock.Unlock()
-- 
2.43.0


From bc7a079d1bafb74f70a7d9db06851556e979f8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:06 +0000
Subject: [PATCH 06/10] fix: removing a mock deletes its own registry entry, in
 whatever scope it was made

---
 convey.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/convey.go b/convey.go
index 97beb49..c8ce068 100644
--- a/convey.go
+++ b/convey.go
@@ -63,7 +63,13 @@ func addToGlobal(mocker mockerInstance) {
 
 func removeFromGlobal(mocker mockerInstance) {
 	tool.DebugPrintf("%v removed\n", mocker.key())
-	delete(gMocker[len(gMocker)-1], mocker.key())
+	// the mocker may have been added in an outer scope, and the inner scopes may hold another mocker of the same target
+	for i := len(gMocker) - 1; i >= 0; i-- {
+		if gMocker[i][mocker.key()] == mocker {
+			delete(gMocker[i], mocker.key())
+			return
+		}
+	}
 }
 
 // Unpatch all mocks in current 'PatchConvey' context
-- 
2.43.0


From d7bcd476847df8bcf7a25b967f2b1c6e8e2f73fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:09 +0000
Subject: [PATCH 07/10] fix: goroutine id offset for Go 1.25 and later

---
 internal/tool/goroutine.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/tool/goroutine.go b/internal/tool/goroutine.go
index 9dd4a60..78ece9e 100644
--- a/internal/tool/goroutine.go
+++ b/internal/tool/goroutine.go
@@ -24,15 +24,16 @@ import (
 )
 
 // The `goid` field offset in the struct g in the runtime package
-// 152 before, 160 after go1.22 (go1.23 introduced the `syscallbp` field before goid)
+// 152 before go1.23, 160 in go1.23 and go1.24 (go1.23 introduced the `syscallbp` field before goid),
+// 152 again since go1.25 (go1.25 removed the `ret` field of `sched` before goid)
 var gGoroutineIDOffset uintptr
 
 func init() {
-	gGoroutineIDOffset = 152 // Go1.22-
+	gGoroutineIDOffset = 152 // Go1.22-, Go1.25+
 	vcode := strings.Split(strings.TrimPrefix(runtime.Version(), "go"), ".")
 	if len(vcode) >= 2 && vcode[0] == "1" {
-		if subv, err := strconv.ParseInt(vcode[1], 10, 64); err == nil && subv > 22 {
-			gGoroutineIDOffset = 160 // Go1.23+
+		if subv, err := strconv.ParseInt(vcode[1], 10, 64); err == nil && (subv == 23 || subv == 24) {
+			gGoroutineIDOffset = 160 // Go1.23, Go1.24
 		}
 	}
 }
-- 
2.43.0


From 83a0f2fff5dd40cb2034b352666a6298cd3f81a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:18 +0000
Subject: [PATCH 08/10] fix: refuse a predicate that asks for generic
 information on a non-generic target

It was accepted and every call of the target then panicked in reflect with
too few input arguments.
---
 mock_condition.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mock_condition.go b/mock_condition.go
index 4105790..428e2a5 100644
--- a/mock_condition.go
+++ b/mock_condition.go
@@ -51,6 +51,7 @@ func (m *mockCondition) SetWhenForce(when interface{}) {
 	}
 
 	hasGeneric, hasReceiver := m.checkGenericAndReceiver(wVal.Type())
+	tool.Assert(m.builder.generic || !hasGeneric, "non-generic function should not have 'GenericInfo' as first argument")
 	whenType := reflect.FuncOf(inTypes, []reflect.Type{out1}, hookType.IsVariadic())
 	m.when = reflect.MakeFunc(whenType, func(args []reflect.Value) (results []reflect.Value) {
 		results = tool.ReflectCall(wVal, m.adaptArgsForReflectCall(args, hasGeneric, hasReceiver))
-- 
2.43.0


From c0f036c71b05979d28f8af03b9d137deed69ec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:23 +0000
Subject: [PATCH 09/10] fix: make room on the stack before running the saved
 entry of a function

---
 internal/tool/call.go | 18 ++++++++++++++++++
 mock.go               |  2 ++
 2 files changed, 20 insertions(+)

diff --git a/internal/tool/call.go b/internal/tool/call.go
index d1e786f..9695d2f 100644
--- a/internal/tool/call.go
+++ b/internal/tool/call.go
@@ -28,3 +28,21 @@ func ReflectCall(f reflect.Value, args []reflect.Value) []reflect.Value {
 		return f.Call(args)
 	}
 }
+
+// stackRoom is the room that ReserveStack makes, it has to exceed the frame of the function called next
+const stackRoom = 64 << 10
+
+// ReserveStack makes room on the stack of the goroutine. It has to be called before the saved copy of a patched
+// function's entry: if the check there finds too little room, growing the stack restarts the function, which then runs
+// the hook instead of the original, or jumps out of the saved copy.
+//
+//go:noinline
+func ReserveStack() {
+	var room [stackRoom]byte
+	touch(&room)
+}
+
+//go:noinline
+func touch(room *[stackRoom]byte) {
+	room[0] = 1
+}
diff --git a/mock.go b/mock.go
index fee2105..b6da062 100644
--- a/mock.go
+++ b/mock.go
@@ -237,6 +237,7 @@ func (mocker *Mocker) buildHook() {
 	proxySetter := mocker.buildProxy()
 
 	originExec := func(args []reflect.Value) []reflect.Value {
+		tool.ReserveStack()
 		return tool.ReflectCall(reflect.ValueOf(mocker.proxy).Elem(), args)
 	}
 
@@ -313,6 +314,7 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 		}
 		proxyCallerSetter = func(args []reflect.Value) {
 			pElem.Set(reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
+				tool.ReserveStack()
 				// args belongs to the pending call, append must not write to it
 				return tool.ReflectCall(proxy.Elem(), append(args[0:shift:shift], innerArgs...))
 			}))
-- 
2.43.0


From 747e0d371430279c739dc57a3aca6bf6171a46b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:21 +0000
Subject: [PATCH 10/10] fix: start the world before a failed code write panics

---
 internal/monkey/mem/write.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/internal/monkey/mem/write.go b/internal/monkey/mem/write.go
index 9f2df2c..4c7b4bf 100644
--- a/internal/monkey/mem/write.go
+++ b/internal/monkey/mem/write.go
@@ -25,6 +25,12 @@ import (
 // WriteWithSTW copies data bytes to the target address and replaces the original bytes, during which it will stop the
 // world (only the current goroutine's P is running).
 func WriteWithSTW(target uintptr, data []byte) {
+	// a panic is fatal while the world is stopped, so it has to wait
+	err := writeWithSTW(target, data)
+	tool.Assert(err == nil, err)
+}
+
+func writeWithSTW(target uintptr, data []byte) error {
 	ctx := stw.NewSTWCtx()
 	ctx.StopTheWorld()
 	defer ctx.StartTheWorld()
@@ -36,13 +42,13 @@ func WriteWithSTW(target uintptr, data []byte) {
 			nextPage := common.PageOf(begin) + uintptr(common.PageSize())
 			buf := data[:nextPage-begin]
 			data = data[nextPage-begin:]
-			err := Write(begin, buf)
-			tool.Assert(err == nil, err)
+			if err := Write(begin, buf); err != nil {
+				return err
+			}
 			begin += uintptr(len(buf))
 			continue
 		}
-		err := Write(begin, data)
-		tool.Assert(err == nil, err)
-		break
+		return Write(begin, data)
 	}
+	return nil
 }
-- 
2.43.0

