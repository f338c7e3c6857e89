From 5c522491e3fd31c03a7cf57d0fb59de8e3bcc8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 01/15] fix: refuse strings whose record size does not fit 32
 bits

---
 src/nkstring.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/nkstring.c b/src/nkstring.c
index 8158bd6..23ee4d9 100644
--- a/src/nkstring.c
+++ b/src/nkstring.c
@@ -127,11 +127,19 @@ nkuint32_t nkiVmStringTableFindOrAddString(
         {
             nkuint32_t len = nkiStrlen(str);
 
-            struct NKVMString *newString =
+            struct NKVMString *newString;
+            nkuint32_t index;
+
+            // The size of the whole record must fit in 32 bits.
+            if(len > ~(nkuint32_t)0 - (nkuint32_t)sizeof(struct NKVMString) - 1) {
+                NK_CATASTROPHE();
+            }
+
+            newString =
                 (struct NKVMString *)nkiMalloc(
                     vm, sizeof(struct NKVMString) + len + 1);
 
-            nkuint32_t index = nkiTableAddEntry(vm, table, newString);
+            index = nkiTableAddEntry(vm, table, newString);
 
             if(index == NK_INVALID_VALUE) {
                 nkiFree(vm, newString);
-- 
2.43.0


From 40f520db1a25784eb4ebe9a148b255f484b12a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:01 +0000
Subject: [PATCH 02/15] fix: return blocks to the host's allocator when tearing
 down after a failed allocation

---
 src/nkvm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index e6cd7ee..b03f31e 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -290,7 +290,8 @@ void nkiVmDestroy(struct NKVM *vm)
 #if NK_EXTRA_FANCY_LEAK_TRACKING_LINUX
             free(vm->allocations->stackTrace);
 #endif
-            free(vm->allocations);
+            vm->freeReplacement(
+                vm->allocations, vm->mallocAndFreeReplacementUserData);
             vm->allocations = next;
         }
 
-- 
2.43.0


From 174ab08220647562c565e2d2e4c1a92d0a5ae359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:01 +0000
Subject: [PATCH 03/15] fix: hand the host's user data to its allocator after
 creation too

---
 src/nkx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nkx.c b/src/nkx.c
index d50e0e1..3c9dd4c 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -78,6 +78,8 @@ struct NKVM *nkxVmCreateEx(
     nkiMemset(vm, 0, sizeof(*vm));
     vm->mallocReplacement = params->mallocReplacement;
     vm->freeReplacement = params->freeReplacement;
+    vm->mallocAndFreeReplacementUserData =
+        params->mallocAndFreeReplacementUserData;
 
     NK_SET_FAILURE_RECOVERY(vm);
 
-- 
2.43.0


From 2c172633b790e3b3b8bb46eec9cf0f159d7a65ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:20 +0000
Subject: [PATCH 04/15] fix: refuse an object field over the limit before
 linking it

---
 src/nkobjs.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/nkobjs.c b/src/nkobjs.c
index 8384f1a..24c6e04 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -249,6 +249,13 @@ struct NKValue *nkiVmObjectFindOrAddEntry(
             return NULL;
         }
 
+        // Refuse before anything is linked, so the entry does not stay
+        // behind uncounted.
+        if(ob->size >= vm->limits.maxFieldsPerObject) {
+            nkiAddError(vm, "Reached object field count limit.");
+            return NULL;
+        }
+
         el = (struct NKVMObjectElement *)nkiMalloc(
             vm, sizeof(struct NKVMObjectElement));
         nkiMemset(el, 0, sizeof(struct NKVMObjectElement));
@@ -257,13 +264,6 @@ struct NKValue *nkiVmObjectFindOrAddEntry(
         *obList = el;
 
         ob->size++;
-        if(!ob->size || ob->size > vm->limits.maxFieldsPerObject) {
-            ob->size--;
-
-            nkiAddError(vm, "Reached object field count limit.");
-
-            return NULL;
-        }
     }
 
     return &el->value;
-- 
2.43.0


From 3d0d770607451de2b60bf64c5388495c8e01337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:20 +0000
Subject: [PATCH 05/15] fix: leave the handle count alone when there is no
 handle to release

---
 src/nkobjs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nkobjs.c b/src/nkobjs.c
index 24c6e04..a8275d2 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -345,6 +345,7 @@ void nkiVmObjectReleaseHandle(struct NKVM *vm, struct NKValue *value)
     if(ob->externalHandleCount == 0) {
         nkiAddError(
             vm, "Tried to release handle for object with no external handles.");
+        return;
     }
 
     ob->externalHandleCount--;
-- 
2.43.0


From 068f0683854b30240cb59eb6b3d02672be84a946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:20 +0000
Subject: [PATCH 06/15] fix: hash both floating point zeros alike, as they
 compare equal

---
 src/nkvalue.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nkvalue.c b/src/nkvalue.c
index ea887c0..2d4b4f8 100644
--- a/src/nkvalue.c
+++ b/src/nkvalue.c
@@ -360,8 +360,12 @@ nkuint32_t nkiValueHash(struct NKVM *vm, struct NKValue *value)
 
     switch(value->type) {
 
-        case NK_VALUETYPE_INT:
         case NK_VALUETYPE_FLOAT:
+            // Both zeros compare equal, so they have to hash equally.
+            ret = value->floatData == 0.0f ? 0 : value->basicHashValue;
+            break;
+
+        case NK_VALUETYPE_INT:
         case NK_VALUETYPE_FUNCTIONID:
         case NK_VALUETYPE_OBJECTID:
             ret = value->basicHashValue;
-- 
2.43.0


From 5846bed859f59950f7e8f3e1da3315e0b6f9d277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:00 +0000
Subject: [PATCH 07/15] fix: nkiVmDestroy falls back to failure cleanup when it
 runs out of memory

The recovery point returned without freeing anything, so a teardown whose
final collection failed to allocate leaked the whole machine.
---
 src/nkvm.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index b03f31e..cbee9d6 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -305,7 +305,15 @@ void nkiVmDestroy(struct NKVM *vm)
 
         NK_FAILURE_RECOVERY_DECL();
 
-        NK_SET_FAILURE_RECOVERY_VOID();
+        NK_SET_FAILURE_RECOVERY_BASE();
+
+        // If we run out of memory in the middle of this, fall back to
+        // the catastrophic failure cleanup mode.
+        if(setjmp(catastrophicFailureJmpBuf)) {
+            NK_CLEAR_FAILURE_RECOVERY();
+            nkiVmDestroy(vm);
+            return;
+        }
 
         // Nuke the entire static address space and stack, then force
         // a final garbage collection pass before we start making the
-- 
2.43.0


From e5f889c26498379400d971969a87f222bfbe7296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:00 +0000
Subject: [PATCH 08/15] fix: nkxVmObjectGetExternalHandleCount sets a recovery
 point

Reporting a null value as an error allocates, and without a recovery point
an allocation failure there jumped through a null buffer.
---
 src/nkx.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nkx.c b/src/nkx.c
index 3c9dd4c..75a0f33 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -419,7 +419,12 @@ void nkxVmObjectReleaseHandle(struct NKVM *vm, struct NKValue *value)
 
 nkuint32_t nkxVmObjectGetExternalHandleCount(struct NKVM *vm, struct NKValue *value)
 {
-    return nkiVmObjectGetExternalHandleCount(vm, value);
+    NK_FAILURE_RECOVERY_DECL();
+    nkuint32_t ret = 0;
+    NK_SET_FAILURE_RECOVERY(ret);
+    ret = nkiVmObjectGetExternalHandleCount(vm, value);
+    NK_CLEAR_FAILURE_RECOVERY();
+    return ret;
 }
 
 void nkxSetUserData(struct NKVM *vm, void *userData)
-- 
2.43.0


From ecdf883bd960512269f97efcbc9c13db7ca5e394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:00 +0000
Subject: [PATCH 09/15] fix: re-registering a native's argument types does not
 free them twice

The old arrays stayed referenced after being freed, so a failing allocation
of the new ones left dangling pointers for teardown to free again; the old
external type array was leaked.
---
 src/nkx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nkx.c b/src/nkx.c
index 75a0f33..c72baf2 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -449,6 +449,12 @@ static void nkiSetupExternalFunction_addArgs(
 
     if(func->argTypes) {
         nkiFree(vm, func->argTypes);
+        func->argTypes = NULL;
+    }
+
+    if(func->argExternalTypes) {
+        nkiFree(vm, func->argExternalTypes);
+        func->argExternalTypes = NULL;
     }
 
     func->argTypes = (enum NKValueType *)nkiMallocArray(
-- 
2.43.0


From 9a05ec0e8025a4c9008fe06675905cad6857cf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:00 +0000
Subject: [PATCH 10/15] fix: nkxSerializeData reports misuse through
 nkxAddError

nkiAddError allocates and needs a recovery point the caller does not have.
---
 src/nkx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nkx.c b/src/nkx.c
index c72baf2..02ecf11 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -988,7 +988,7 @@ nkbool nkxSerializerGetWriteMode(struct NKVM *vm)
 nkbool nkxSerializeData(struct NKVM *vm, void *data, nkuint32_t size)
 {
     if(!vm->serializationState.writer) {
-        nkiAddError(vm, "Attempted to access serialization writer outside of serialization.");
+        nkxAddError(vm, "Attempted to access serialization writer outside of serialization.");
         return nkfalse;
     }
 
-- 
2.43.0


From 97d0695faf2e9a9874a266963d1e35831535183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:24 +0000
Subject: [PATCH 11/15] fix: convert out-of-range floats to integers without
 undefined behaviour

---
 src/nkvalue.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/nkvalue.c b/src/nkvalue.c
index 2d4b4f8..39f1428 100644
--- a/src/nkvalue.c
+++ b/src/nkvalue.c
@@ -102,7 +102,14 @@ nkint32_t nkiValueToInt(struct NKVM *vm, struct NKValue *value)
             return value->intData;
 
         case NK_VALUETYPE_FLOAT:
-            return (int)value->floatData;
+            // Converting a value that doesn't fit is undefined in C, so
+            // all of those (including NaN) give the lowest integer.
+            if(value->floatData >= -2147483648.0f &&
+                value->floatData < 2147483648.0f)
+            {
+                return (nkint32_t)value->floatData;
+            }
+            return -2147483647L - 1;
 
         case NK_VALUETYPE_STRING:
         {
-- 
2.43.0


From e81b422f71bbed4a6390af87bed6eafcde3deee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:24 +0000
Subject: [PATCH 12/15] fix: integer arithmetic instructions wrap instead of
 overflowing

---
 src/nkopcode.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index 4997d01..2ec395d 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -56,8 +56,9 @@ void nkiOpcode_add(struct NKVM *vm)
 
             nkiVmStackPushInt(
                 vm,
-                in1->intData +
-                nkiValueToInt(vm, in2));
+                (nkint32_t)(
+                    (nkuint32_t)in1->intData +
+                    (nkuint32_t)nkiValueToInt(vm, in2)));
             break;
 
         case NK_VALUETYPE_FLOAT:
@@ -164,8 +165,9 @@ void nkiOpcode_subtract(struct NKVM *vm)
         case NK_VALUETYPE_INT:
             nkiVmStackPushInt(
                 vm,
-                in1->intData -
-                nkiValueToInt(vm, in2));
+                (nkint32_t)(
+                    (nkuint32_t)in1->intData -
+                    (nkuint32_t)nkiValueToInt(vm, in2)));
             break;
 
         case NK_VALUETYPE_FLOAT:
@@ -200,8 +202,9 @@ void nkiOpcode_multiply(struct NKVM *vm)
         case NK_VALUETYPE_INT:
             nkiVmStackPushInt(
                 vm,
-                in1->intData *
-                nkiValueToInt(vm, in2));
+                (nkint32_t)(
+                    (nkuint32_t)in1->intData *
+                    (nkuint32_t)nkiValueToInt(vm, in2)));
             break;
 
         case NK_VALUETYPE_FLOAT:
@@ -325,7 +328,7 @@ void nkiOpcode_negate(struct NKVM *vm)
         case NK_VALUETYPE_INT: {
             nkiVmStackPushInt(
                 vm,
-                -(in1->intData));
+                (nkint32_t)(0 - (nkuint32_t)in1->intData));
         } break;
 
         case NK_VALUETYPE_FLOAT: {
-- 
2.43.0


From e9799456833929b399c0caf6fcb25425657ab697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:24 +0000
Subject: [PATCH 13/15] fix: logical and/or lost every bit above the lowest
 byte

---
 src/nkopcode.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index 2ec395d..a1ef9ce 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -969,8 +969,8 @@ void nkiOpcode_and(struct NKVM *vm)
 {
     // Do NOT try to inline these function calls in this expression. C
     // shortcutting will ruin your day.
-    nkbool in1 = nkiValueToInt(vm, nkiVmStackPop(vm));
-    nkbool in2 = nkiValueToInt(vm, nkiVmStackPop(vm));
+    nkbool in1 = nkiValueToInt(vm, nkiVmStackPop(vm)) != 0;
+    nkbool in2 = nkiValueToInt(vm, nkiVmStackPop(vm)) != 0;
     nkiVmStackPushInt(vm, in1 && in2);
 }
 
@@ -978,8 +978,8 @@ void nkiOpcode_or(struct NKVM *vm)
 {
     // Do NOT try to inline these function calls in this expression. C
     // shortcutting will ruin your day.
-    nkbool in1 = nkiValueToInt(vm, nkiVmStackPop(vm));
-    nkbool in2 = nkiValueToInt(vm, nkiVmStackPop(vm));
+    nkbool in1 = nkiValueToInt(vm, nkiVmStackPop(vm)) != 0;
+    nkbool in2 = nkiValueToInt(vm, nkiVmStackPop(vm)) != 0;
     nkiVmStackPushInt(vm, in1 || in2);
 }
 
-- 
2.43.0


From d7dee9347a831b25051592abfd81c81a9468a382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:46 +0000
Subject: [PATCH 14/15] fix: coroutine instructions followed a null context of
 a coroutine object without data

---
 src/nkopcode.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index a1ef9ce..5168658 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -1288,7 +1288,7 @@ void nkiOpcode_coroutineResume(struct NKVM *vm)
             (struct NKVMExecutionContext *)nkxVmObjectGetExternalData(
                 vm, &coroutine);
 
-        if(context->coroutineState == NK_COROUTINE_INVALID) {
+        if(!context || context->coroutineState == NK_COROUTINE_INVALID) {
             nkiAddError(vm, "Tried to resume an invalid coroutine.");
             return;
         }
@@ -1353,6 +1353,11 @@ void nkiOpcode_coroutineIsFinished(struct NKVM *vm)
             (struct NKVMExecutionContext *)nkxVmObjectGetExternalData(
                 vm, &coroutine);
 
+        if(!context) {
+            nkiAddError(vm, "Tried to check for a finished coroutine with an invalid coroutine.");
+            return;
+        }
+
         returnValue.type = NK_VALUETYPE_INT;
         returnValue.intData = 0;
 
-- 
2.43.0


From e18070ad2742d0dfc563c19587d8ac5b08e0faff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:02 +0000
Subject: [PATCH 15/15] fix: call instruction with more arguments than the
 stack holds looped over up to 2^32 stack slots

---
 src/nkopcode.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index 5168658..ba3e211 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -479,6 +479,14 @@ void nkiOpcode_call(struct NKVM *vm)
     // PEEK at the top of the stack. That's _argumentCount.
     argumentCount = nkiValueToInt(vm, nkiVmStackPeek(vm, (vm->currentExecutionContext->stack.size - 1)));
 
+    // The function id and all the arguments have to be on the stack.
+    if(vm->currentExecutionContext->stack.size < 2 ||
+        argumentCount > vm->currentExecutionContext->stack.size - 2)
+    {
+        nkiAddError(vm, "Argument count bigger than stack in function call.");
+        return;
+    }
+
     // PEEK at the function id (stack top - _argumentCount). Save it.
     {
         struct NKValue *functionIdValue = nkiVmStackPeek(
-- 
2.43.0

