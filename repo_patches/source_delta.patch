From 33bb8e9d349f3e7114ccb628fbf54076cece454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:54 +0000
Subject: [PATCH 01/53] fix: nkxVmCreateEx passes the host's userData to its
 allocator callbacks

---
 src/nkx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nkx.c b/src/nkx.c
index d50e0e1..3c9dd4c 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -78,6 +78,8 @@ struct NKVM *nkxVmCreateEx(
     nkiMemset(vm, 0, sizeof(*vm));
     vm->mallocReplacement = params->mallocReplacement;
     vm->freeReplacement = params->freeReplacement;
+    vm->mallocAndFreeReplacementUserData =
+        params->mallocAndFreeReplacementUserData;
 
     NK_SET_FAILURE_RECOVERY(vm);
 
-- 
2.43.0


From 2d105ceae2acc0c64325aa3e7c660f00841bd5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:47 +0000
Subject: [PATCH 02/53] fix: is_finished() no longer shifts the compiler's
 stack frame offset

---
 src/nkvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index e6cd7ee..896978e 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -127,7 +127,7 @@ static void nkiVmInitOpcodeTable(void)
     NK_SETUP_OP(NK_OP_COROUTINE_CREATE,       nkiOpcode_coroutineCreate,        1);
     NK_SETUP_OP(NK_OP_COROUTINE_YIELD,        nkiOpcode_coroutineYield,         0);
     NK_SETUP_OP(NK_OP_COROUTINE_RESUME,       nkiOpcode_coroutineResume,        -1);
-    NK_SETUP_OP(NK_OP_COROUTINE_ISFINISHED,   nkiOpcode_coroutineIsFinished,    1);
+    NK_SETUP_OP(NK_OP_COROUTINE_ISFINISHED,   nkiOpcode_coroutineIsFinished,    0);
 
     NK_SETUP_OP(NK_OP_PUSHNIL,                nkiOpcode_pushNil,                1);
 
-- 
2.43.0


From cc635c137d95ba3194067727a37a8adbff753515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:05 +0000
Subject: [PATCH 03/53] fix: nkxVmShrink keeps coroutine stacks, object keys
 and external references valid

---
 src/nkgc.c     |  44 ++++++++++++
 src/nkobjs.h   |   6 ++
 src/nkshrink.c | 179 +++++++++++++++++++++++++++----------------------
 3 files changed, 148 insertions(+), 81 deletions(-)

diff --git a/src/nkgc.c b/src/nkgc.c
index 8ffbef8..feae7f7 100644
--- a/src/nkgc.c
+++ b/src/nkgc.c
@@ -215,6 +215,50 @@ void nkiVmGarbageCollect_markStack(
     }
 }
 
+nkuint32_t nkiVmGarbageCollect_markExternalReferences(struct NKVM *vm)
+{
+    nkuint32_t i;
+    struct NKVMGCState gcState;
+    nkiMemset(&gcState, 0, sizeof(gcState));
+    gcState.currentGCPass = ++vm->gcInfo.lastGCPass;
+    gcState.vm = vm;
+
+    // Ask every external object what it refers to. Coroutines are
+    // internal, and the references inside of them are under our
+    // control.
+    for(i = 0; i < vm->objectTable.capacity; i++) {
+
+        struct NKVMObject *ob = vm->objectTable.objectTable[i];
+
+        if(ob &&
+            ob->externalDataType.id < vm->externalTypeCount &&
+            ob->externalDataType.id != vm->internalObjectTypes.coroutine.id)
+        {
+            NKVMExternalObjectGCMarkCallback callback =
+                vm->externalTypes[ob->externalDataType.id].gcMarkCallback;
+
+            if(callback) {
+                struct NKValue val;
+                nkiMemset(&val, 0, sizeof(val));
+                val.type = NK_VALUETYPE_OBJECTID;
+                val.objectId = i;
+                callback(vm, &val, ob->externalData, &gcState);
+            }
+        }
+    }
+
+    // Only mark the objects that were directly referenced. No need to
+    // look at anything they refer to.
+    while(gcState.openList) {
+        struct NKVMValueGCEntry *entry = gcState.openList;
+        gcState.openList = entry->next;
+        entry->object->lastGCPass = gcState.currentGCPass;
+        nkiFree(vm, entry);
+    }
+
+    return gcState.currentGCPass;
+}
+
 void nkiVmGarbageCollect(struct NKVM *vm)
 {
     struct NKVMGCState gcState;
diff --git a/src/nkobjs.h b/src/nkobjs.h
index c1c386e..d86d121 100644
--- a/src/nkobjs.h
+++ b/src/nkobjs.h
@@ -167,4 +167,10 @@ void nkiVmGarbageCollect_markValue(
     struct NKVMGCState *gcState,
     struct NKValue *v);
 
+/// Mark only the values that external data refers to (as reported by
+/// the GC mark callbacks). Returns the GC pass number they are marked
+/// with.
+nkuint32_t nkiVmGarbageCollect_markExternalReferences(
+    struct NKVM *vm);
+
 #endif // NINKASI_OBJECTS_H
diff --git a/src/nkshrink.c b/src/nkshrink.c
index 53d6e84..4aac9a8 100644
--- a/src/nkshrink.c
+++ b/src/nkshrink.c
@@ -43,63 +43,108 @@
 
 #include "nkcommon.h"
 
-void nkiVmMoveObject(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
+static void nkiVmMoveReferencesInStack(
+    struct NKVMStack *stack, enum NKValueType type,
+    nkuint32_t oldSlot, nkuint32_t newSlot)
 {
-    assert(vm->objectTable.capacity > newSlot);
-    assert(vm->objectTable.capacity > oldSlot);
-    assert(!vm->objectTable.objectTable[newSlot]);
-    assert(vm->objectTable.objectTable[oldSlot]);
+    nkuint32_t i;
+    for(i = 0; i < stack->size; i++) {
+        struct NKValue *value = &stack->values[i];
+        if(value->type == type && value->basicHashValue == oldSlot) {
+            value->basicHashValue = newSlot;
+        }
+    }
+}
 
-    vm->objectTable.objectTable[oldSlot]->objectTableIndex = newSlot;
-    vm->objectTable.objectTable[newSlot] = vm->objectTable.objectTable[oldSlot];
-    vm->objectTable.objectTable[oldSlot] = NULL;
+/// Rewrite every reference to an object or string (specified by type)
+/// that the VM has. References in external data cannot be rewritten.
+static void nkiVmMoveReferences(
+    struct NKVM *vm, enum NKValueType type,
+    nkuint32_t oldSlot, nkuint32_t newSlot)
+{
+    nkuint32_t i;
 
-    {
-        nkuint32_t i;
+    // Rewrite all stack references in the root context. (Coroutine
+    // stacks are rewritten with the objects they belong to.)
+    nkiVmMoveReferencesInStack(
+        &vm->rootExecutionContext.stack, type, oldSlot, newSlot);
 
-        // Rewrite all stack references.
-        for(i = 0; i < vm->currentExecutionContext->stack.size; i++) {
-            if(vm->currentExecutionContext->stack.values[i].type == NK_VALUETYPE_OBJECTID) {
-                if(vm->currentExecutionContext->stack.values[i].objectId == oldSlot) {
-                    vm->currentExecutionContext->stack.values[i].objectId = newSlot;
-                }
-            }
+    // Rewrite all static references.
+    for(i = 0; i <= vm->staticAddressMask; i++) {
+        if(vm->staticSpace[i].type == type &&
+            vm->staticSpace[i].basicHashValue == oldSlot)
+        {
+            vm->staticSpace[i].basicHashValue = newSlot;
         }
+    }
 
-        // Rewrite all static references.
-        for(i = 0; i <= vm->staticAddressMask; i++) {
-            if(vm->staticSpace[i].type == NK_VALUETYPE_OBJECTID) {
-                if(vm->staticSpace[i].objectId == oldSlot) {
-                    vm->staticSpace[i].objectId = newSlot;
-                }
-            }
-        }
+    // Rewrite all references in any keys or values.
+    for(i = 0; i < vm->objectTable.capacity; i++) {
+        struct NKVMObject *ob = vm->objectTable.objectTable[i];
+        if(ob) {
+            nkuint32_t k;
+            struct NKVMObjectElement *movedKeys = NULL;
 
-        // Rewrite all object references in any keys or values.
-        for(i = 0; i < vm->objectTable.capacity; i++) {
-            struct NKVMObject *ob = vm->objectTable.objectTable[i];
-            if(ob) {
-                nkuint32_t k;
-                for(k = 0; k < nkiVMObjectHashBucketCount; k++) {
-                    struct NKVMObjectElement *el;
-                    for(el = ob->hashBuckets[k]; el; el = el->next) {
-                        if(el->key.type == NK_VALUETYPE_OBJECTID && el->key.objectId == oldSlot) {
-                            el->key.objectId = newSlot;
-                        }
-                        if(el->value.type == NK_VALUETYPE_OBJECTID && el->value.objectId == oldSlot) {
-                            el->value.objectId = newSlot;
-                        }
+            for(k = 0; k < nkiVMObjectHashBucketCount; k++) {
+                struct NKVMObjectElement **elPtr = &ob->hashBuckets[k];
+                while(*elPtr) {
+                    struct NKVMObjectElement *el = *elPtr;
+
+                    if(el->value.type == type && el->value.basicHashValue == oldSlot) {
+                        el->value.basicHashValue = newSlot;
+                    }
+
+                    if(el->key.type == type && el->key.basicHashValue == oldSlot) {
+                        el->key.basicHashValue = newSlot;
+                        *elPtr = el->next;
+                        el->next = movedKeys;
+                        movedKeys = el;
+                    } else {
+                        elPtr = &el->next;
                     }
                 }
             }
+
+            // The hash of a key can depend on the slot it refers to,
+            // so put them back into whatever bucket they're in now.
+            while(movedKeys) {
+                struct NKVMObjectElement *el = movedKeys;
+                struct NKVMObjectElement **bucket =
+                    &ob->hashBuckets[
+                        nkiValueHash(vm, &el->key) & (nkiVMObjectHashBucketCount - 1)];
+                movedKeys = el->next;
+                el->next = *bucket;
+                *bucket = el;
+            }
+
+            if(ob->externalData && ob->externalDataType.id ==
+                vm->internalObjectTypes.coroutine.id)
+            {
+                struct NKVMExecutionContext *context =
+                    (struct NKVMExecutionContext *)ob->externalData;
+                nkiVmMoveReferencesInStack(
+                    &context->stack, type, oldSlot, newSlot);
+            }
         }
     }
 }
 
-void nkiVmMoveString(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
+void nkiVmMoveObject(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
 {
-    nkuint32_t i;
+    assert(vm->objectTable.capacity > newSlot);
+    assert(vm->objectTable.capacity > oldSlot);
+    assert(!vm->objectTable.objectTable[newSlot]);
+    assert(vm->objectTable.objectTable[oldSlot]);
+
+    vm->objectTable.objectTable[oldSlot]->objectTableIndex = newSlot;
+    vm->objectTable.objectTable[newSlot] = vm->objectTable.objectTable[oldSlot];
+    vm->objectTable.objectTable[oldSlot] = NULL;
+
+    nkiVmMoveReferences(vm, NK_VALUETYPE_OBJECTID, oldSlot, newSlot);
+}
 
+void nkiVmMoveString(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
+{
     assert(vm->stringTable.capacity > newSlot);
     assert(vm->stringTable.capacity > oldSlot);
     assert(!vm->stringTable.stringTable[newSlot]);
@@ -110,42 +155,7 @@ void nkiVmMoveString(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
     vm->stringTable.stringTable[newSlot] = vm->stringTable.stringTable[oldSlot];
     vm->stringTable.stringTable[oldSlot] = NULL;
 
-    // Rewrite all stack references.
-    for(i = 0; i < vm->currentExecutionContext->stack.size; i++) {
-        if(vm->currentExecutionContext->stack.values[i].type == NK_VALUETYPE_STRING) {
-            if(vm->currentExecutionContext->stack.values[i].stringTableEntry == oldSlot) {
-                vm->currentExecutionContext->stack.values[i].stringTableEntry = newSlot;
-            }
-        }
-    }
-
-    // Rewrite all static references.
-    for(i = 0; i <= vm->staticAddressMask; i++) {
-        if(vm->staticSpace[i].type == NK_VALUETYPE_STRING) {
-            if(vm->staticSpace[i].stringTableEntry == oldSlot) {
-                vm->staticSpace[i].stringTableEntry = newSlot;
-            }
-        }
-    }
-
-    // Rewrite all object references in any keys or values.
-    for(i = 0; i < vm->objectTable.capacity; i++) {
-        struct NKVMObject *ob = vm->objectTable.objectTable[i];
-        if(ob) {
-            nkuint32_t k;
-            for(k = 0; k < nkiVMObjectHashBucketCount; k++) {
-                struct NKVMObjectElement *el;
-                for(el = ob->hashBuckets[k]; el; el = el->next) {
-                    if(el->key.type == NK_VALUETYPE_STRING && el->key.stringTableEntry == oldSlot) {
-                        el->key.stringTableEntry = newSlot;
-                    }
-                    if(el->value.type == NK_VALUETYPE_STRING && el->value.stringTableEntry == oldSlot) {
-                        el->value.stringTableEntry = newSlot;
-                    }
-                }
-            }
-        }
-    }
+    nkiVmMoveReferences(vm, NK_VALUETYPE_STRING, oldSlot, newSlot);
 }
 
 void nkiVmShrinkStack(
@@ -179,6 +189,7 @@ void nkiVmShrink(struct NKVM *vm)
 {
     nkuint32_t emptyHoleSearch = 0;
     nkuint32_t objectSearch = 0;
+    nkuint32_t externalReferencePass;
     nkuint32_t i;
 
     // VMs with errors may be in an unpredictable or inconsistent
@@ -187,9 +198,10 @@ void nkiVmShrink(struct NKVM *vm)
         return;
     }
 
-    // FIXME: I don't think we can actually do the following code
-    // reliably. Moving objects around in the object table will mess
-    // up references to those objects!
+    // Find everything that's referenced from external data. We can't
+    // update those references, so whatever they refer to has to stay
+    // where it is.
+    externalReferencePass = nkiVmGarbageCollect_markExternalReferences(vm);
 
     while(emptyHoleSearch < vm->objectTable.capacity) {
         if(!vm->objectTable.objectTable[emptyHoleSearch]) {
@@ -213,6 +225,8 @@ void nkiVmShrink(struct NKVM *vm)
                     // object IDs after the fact.
 
                     if(!vm->objectTable.objectTable[objectSearch]->externalHandleCount &&
+                        vm->objectTable.objectTable[objectSearch]->lastGCPass !=
+                        externalReferencePass &&
                         vm->objectTable.objectTable[objectSearch]->externalDataType.id !=
                         vm->internalObjectTypes.coroutine.id)
                     {
@@ -242,7 +256,10 @@ void nkiVmShrink(struct NKVM *vm)
             // Find a string to move into this slot.
             while(objectSearch < vm->stringTable.capacity) {
                 if(vm->stringTable.stringTable[objectSearch]) {
-                    if(!vm->stringTable.stringTable[objectSearch]->dontGC) {
+                    if(!vm->stringTable.stringTable[objectSearch]->dontGC &&
+                        vm->stringTable.stringTable[objectSearch]->lastGCPass !=
+                        externalReferencePass)
+                    {
                         // Found something for this hole!
                         nkiVmMoveString(vm, objectSearch, emptyHoleSearch);
                         break;
-- 
2.43.0


From 5f99222ca6d1619804429f7a6a70b9fa9576f027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 04/53] fix: yielding out of a nkxVmCallFunction in progress is
 an error instead of an endless loop

---
 src/nkfunc.c   | 5 ++++-
 src/nkopcode.c | 6 ++++++
 src/nkvm.c     | 1 +
 src/nkvm.h     | 5 +++++
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/nkfunc.c b/src/nkfunc.c
index 00339f6..faeb692 100644
--- a/src/nkfunc.c
+++ b/src/nkfunc.c
@@ -80,7 +80,8 @@ void nkiVmCallFunction(
         // Save whatever the real instruction pointer was so that we
         // can restore it after we're done with this artificially
         // injected function call.
-        nkuint32_t oldInstructionPtr = vm->currentExecutionContext->instructionPointer;
+        struct NKVMExecutionContext *context = vm->currentExecutionContext;
+        nkuint32_t oldInstructionPtr = context->instructionPointer;
         nkuint32_t i;
 
         // Push the function ID itself onto the stack.
@@ -127,11 +128,13 @@ void nkiVmCallFunction(
         // we return, we'll just keep executing until we hit an error,
         // or the instruction pointer is at NK_UINT_MAX
         // (NK_UINT_MAX-1, +1 for the instruction iteration).
+        context->hostCallDepth++;
         while(vm->currentExecutionContext->instructionPointer != NK_UINT_MAX &&
             !vm->errorState.firstError)
         {
             nkiVmIterate(vm);
         }
+        context->hostCallDepth--;
 
         // Save return value.
         if(returnValue) {
diff --git a/src/nkopcode.c b/src/nkopcode.c
index 4997d01..3ef9d0b 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -1239,6 +1239,12 @@ void nkiOpcode_coroutineYield(struct NKVM *vm)
 
         nkiAddError(vm, "Tried to yield from the root execution context.");
 
+    } else if(vm->currentExecutionContext->hostCallDepth) {
+
+        // There's a nkiVmCallFunction() waiting for a function to
+        // return in this context.
+        nkiAddError(vm, "Tried to yield across a host function call.");
+
     } else {
 
         // Retrieve return value from the coroutine execution context.
diff --git a/src/nkvm.c b/src/nkvm.c
index 896978e..fb73060 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -172,6 +172,7 @@ void nkiVmInitExecutionContext(
     context->coroutineObject.type = NK_VALUETYPE_NIL;
     context->coroutineObject.intData = 0;
     context->coroutineState = NK_COROUTINE_INVALID;
+    context->hostCallDepth = 0;
 }
 
 void nkiVmDeinitExecutionContext(
diff --git a/src/nkvm.h b/src/nkvm.h
index efaad10..4c51d50 100644
--- a/src/nkvm.h
+++ b/src/nkvm.h
@@ -179,6 +179,11 @@ struct NKVMExecutionContext
 
     // This corresponds to the NKVMCoroutineState enum.
     nkuint32_t coroutineState;
+
+    // Number of nkiVmCallFunction() calls in progress that were made
+    // while this was the current context. The C stack frames of those
+    // have to unwind before we can yield out of this context.
+    nkuint32_t hostCallDepth;
 };
 
 /// The VM object itself.
-- 
2.43.0


From 30a1841ae91e7a343def6846dc34970d772faa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 05/53] fix: nkxVmExecuteProgram does not execute instructions
 after an error

---
 src/nkvm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nkvm.c b/src/nkvm.c
index fb73060..ac076ef 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -426,6 +426,11 @@ void nkiVmIterate(struct NKVM *vm)
 
 nkbool nkiVmExecuteProgram(struct NKVM *vm)
 {
+    // Don't execute anything (else) after an error.
+    if(nkiVmHasErrors(vm)) {
+        return nkfalse;
+    }
+
     while(vm->instructions[
             vm->currentExecutionContext->instructionPointer &
             vm->instructionAddressMask].opcode != NK_OP_END)
-- 
2.43.0


From 338e7e711855b8a7f66aae61046f0881768a6263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 06/53] fix: restoring a snapshot keeps every external
 function's internal function id

---
 src/nksave.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index 4fa3d9c..739bb25 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -797,6 +797,14 @@ nkbool nkiSerializeFunctionTable_inner(
 {
     nkuint32_t i;
 
+    // Clear out the existing internal function values before loading,
+    // in case we don't actually find something for some of them.
+    if(!writeMode) {
+        for(i = 0; i < vm->externalFunctionCount; i++) {
+            vm->externalFunctionTable[i].internalFunctionId.id = NK_INVALID_VALUE;
+        }
+    }
+
     for(i = 0; i < tmpExternalFunctionCount; i++) {
 
         struct NKVMExternalFunction tmpExternalFunc = {0};
@@ -819,11 +827,6 @@ nkbool nkiSerializeFunctionTable_inner(
 
             for(n = 0; n < vm->externalFunctionCount; n++) {
 
-                // Clear out the internal function value,
-                // in case we don't actually find
-                // something.
-                vm->externalFunctionTable[n].internalFunctionId.id = NK_INVALID_VALUE;
-
                 if(!nkiStrcmp(tmpExternalFunc.name, vm->externalFunctionTable[n].name)) {
                     functionIdMapping[i].id = n;
                     vm->externalFunctionTable[n].internalFunctionId =
-- 
2.43.0


From 4bb423ac095609b4d6e5a17cf9a0cb4dfb41543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:17 +0000
Subject: [PATCH 07/53] fix: a refused object field is not left behind in the
 object

---
 src/nkobjs.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/nkobjs.c b/src/nkobjs.c
index 8384f1a..4db54bf 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -249,6 +249,12 @@ struct NKValue *nkiVmObjectFindOrAddEntry(
             return NULL;
         }
 
+        // Check the limits before touching the object.
+        if(ob->size == NK_UINT_MAX || ob->size >= vm->limits.maxFieldsPerObject) {
+            nkiAddError(vm, "Reached object field count limit.");
+            return NULL;
+        }
+
         el = (struct NKVMObjectElement *)nkiMalloc(
             vm, sizeof(struct NKVMObjectElement));
         nkiMemset(el, 0, sizeof(struct NKVMObjectElement));
@@ -257,13 +263,6 @@ struct NKValue *nkiVmObjectFindOrAddEntry(
         *obList = el;
 
         ob->size++;
-        if(!ob->size || ob->size > vm->limits.maxFieldsPerObject) {
-            ob->size--;
-
-            nkiAddError(vm, "Reached object field count limit.");
-
-            return NULL;
-        }
     }
 
     return &el->value;
-- 
2.43.0


From 94b44ff5d535ace3d769952f9c7503fdd0f7d8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:34 +0000
Subject: [PATCH 08/53] fix: saving does not change the GC interval, loading
 bounds the GC countdown

---
 src/nksave.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index 739bb25..b67bffa 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -776,11 +776,28 @@ nkbool nkiSerializeGcState(
 
     // gcInterval needs a hard limit here because the instruction
     // count limit is only enforced on garbage collection intervals.
-    if(vm->gcInfo.gcInterval > 65536) {
-        vm->gcInfo.gcInterval = 65536;
+    if(!writeMode) {
+        if(vm->gcInfo.gcInterval > 65536) {
+            vm->gcInfo.gcInterval = 65536;
+        }
+        if(vm->gcInfo.gcInterval < 1) {
+            vm->gcInfo.gcInterval = 1;
+        }
     }
 
     NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcCountdown);
+
+    // Same goes for the countdown to the next interval. (And a
+    // countdown of zero would wrap around.)
+    if(!writeMode) {
+        if(vm->gcInfo.gcCountdown > vm->gcInfo.gcInterval) {
+            vm->gcInfo.gcCountdown = vm->gcInfo.gcInterval;
+        }
+        if(vm->gcInfo.gcCountdown < 1) {
+            vm->gcInfo.gcCountdown = 1;
+        }
+    }
+
     NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcNewObjectInterval);
     NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcNewObjectCountdown);
 
-- 
2.43.0


From 0274be7076bb5bab8ec52abf6b7944e18c9a9c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:34 +0000
Subject: [PATCH 09/53] fix: the instruction limit survives its own error and a
 zero GC interval

---
 src/nkvm.c | 3 +++
 src/nkx.c  | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/nkvm.c b/src/nkvm.c
index ac076ef..e69d457 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -407,6 +407,9 @@ void nkiVmIterate(struct NKVM *vm)
             if(vm->instructionsLeftBeforeTimeout < vm->gcInfo.gcInterval) {
                 nkiAddError(vm, "Instruction count limit reached.");
                 vm->instructionsLeftBeforeTimeout = 0;
+                // Check again on the next instruction, if we ever
+                // get that far (instead of wrapping around).
+                vm->gcInfo.gcCountdown = 1;
                 return;
             }
             vm->instructionsLeftBeforeTimeout -= vm->gcInfo.gcInterval;
diff --git a/src/nkx.c b/src/nkx.c
index 3c9dd4c..7002eb6 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -717,6 +717,12 @@ nkuint32_t nkxGetMaxAllocatedMemory(struct NKVM *vm)
 
 void nkxSetGarbageCollectionInterval(struct NKVM *vm, nkuint32_t gcInterval)
 {
+    // An interval of zero would make the countdown wrap around, and
+    // neither the collector nor the instruction limit would run.
+    if(!gcInterval) {
+        gcInterval = 1;
+    }
+
     if(vm->gcInfo.gcCountdown > gcInterval) {
         vm->gcInfo.gcCountdown = gcInterval;
     }
-- 
2.43.0


From aba7c86169caa92760b6526ea7442ce0d53d677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:14 +0000
Subject: [PATCH 10/53] fix: a failed VM returns its memory through the host's
 free callback

---
 src/nkvm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index e69d457..efbcd3d 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -291,7 +291,8 @@ void nkiVmDestroy(struct NKVM *vm)
 #if NK_EXTRA_FANCY_LEAK_TRACKING_LINUX
             free(vm->allocations->stackTrace);
 #endif
-            free(vm->allocations);
+            vm->freeReplacement(
+                vm->allocations, vm->mallocAndFreeReplacementUserData);
             vm->allocations = next;
         }
 
-- 
2.43.0


From 691ae90642a55d865fef6bb21d4065488b8dc2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:26 +0000
Subject: [PATCH 11/53] fix: nkxVmObjectGetExternalHandleCount and
 nkxSerializeData report errors inside a recovery frame

---
 src/nkx.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/nkx.c b/src/nkx.c
index 7002eb6..5cc460f 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -419,7 +419,12 @@ void nkxVmObjectReleaseHandle(struct NKVM *vm, struct NKValue *value)
 
 nkuint32_t nkxVmObjectGetExternalHandleCount(struct NKVM *vm, struct NKValue *value)
 {
-    return nkiVmObjectGetExternalHandleCount(vm, value);
+    nkuint32_t ret = 0;
+    NK_FAILURE_RECOVERY_DECL();
+    NK_SET_FAILURE_RECOVERY(0);
+    ret = nkiVmObjectGetExternalHandleCount(vm, value);
+    NK_CLEAR_FAILURE_RECOVERY();
+    return ret;
 }
 
 void nkxSetUserData(struct NKVM *vm, void *userData)
@@ -983,7 +988,10 @@ nkbool nkxSerializerGetWriteMode(struct NKVM *vm)
 nkbool nkxSerializeData(struct NKVM *vm, void *data, nkuint32_t size)
 {
     if(!vm->serializationState.writer) {
+        NK_FAILURE_RECOVERY_DECL();
+        NK_SET_FAILURE_RECOVERY(nkfalse);
         nkiAddError(vm, "Attempted to access serialization writer outside of serialization.");
+        NK_CLEAR_FAILURE_RECOVERY();
         return nkfalse;
     }
 
-- 
2.43.0


From 469f961c134c8c0bf7c473468d064dcbee116085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:45 +0000
Subject: [PATCH 12/53] fix: nkxVmProgramHasEnded is safe on a VM with an
 allocation failure

---
 src/nkx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nkx.c b/src/nkx.c
index 5cc460f..543a490 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -1128,6 +1128,12 @@ void nkxValueSetFunction(struct NKVM *vm, struct NKValue *value, NKVMInternalFun
 
 nkbool nkxVmProgramHasEnded(struct NKVM *vm)
 {
+    // After an allocation failure nothing will execute anymore, and
+    // the instructions may not even exist.
+    if(vm->errorState.allocationFailure) {
+        return nktrue;
+    }
+
     return vm->instructions[
         vm->currentExecutionContext->instructionPointer &
         vm->instructionAddressMask].opcode == NK_OP_END;
-- 
2.43.0


From 6549934a00971a8bf9262f203bc1d3020b0faeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:46 +0000
Subject: [PATCH 13/53] fix: running out of memory inside nkxVmDelete does not
 leak

---
 src/nkx.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nkx.c b/src/nkx.c
index 543a490..9eab193 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -103,6 +103,14 @@ void nkxVmDelete(struct NKVM *vm)
 {
     if(vm) {
         nkiVmDestroy(vm);
+
+        // If we ran out of memory in the middle of that, then the
+        // teardown was cut short, and what remains has to be cleaned
+        // up in catastrophic failure mode.
+        if(vm->allocations) {
+            nkiVmDestroy(vm);
+        }
+
         vm->freeReplacement(
             vm, vm->mallocAndFreeReplacementUserData);
     }
-- 
2.43.0


From 7e0365f5ce494f519cbc31c67898f82f1d07a88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:51 +0000
Subject: [PATCH 14/53] fix: nkxVmFindGlobalVariable is safe on a VM with an
 allocation failure

---
 src/nkx.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nkx.c b/src/nkx.c
index 9eab193..0947a26 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -208,7 +208,12 @@ struct NKValue *nkxVmFindGlobalVariable(
         NK_CLEAR_FAILURE_RECOVERY();
         return ret;
     } else {
-        return nkiVmFindGlobalVariable(vm, name);
+        struct NKValue *ret = NULL;
+        NK_FAILURE_RECOVERY_DECL();
+        NK_SET_FAILURE_RECOVERY(NULL);
+        ret = nkiVmFindGlobalVariable(vm, name);
+        NK_CLEAR_FAILURE_RECOVERY();
+        return ret;
     }
 }
 
-- 
2.43.0


From e1e01ea9e46b7efeb9f9293353412b70ccb91797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:38 +0000
Subject: [PATCH 15/53] fix: external type lookups are safe on a VM with an
 allocation failure

---
 src/nkx.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/nkx.c b/src/nkx.c
index 0947a26..a19fb0a 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -582,13 +582,23 @@ NKVMExternalDataTypeID nkxVmRegisterExternalType(
 NKVMExternalDataTypeID nkxVmFindExternalType(
     struct NKVM *vm, const char *name)
 {
-    return nkiVmFindExternalType(vm, name);
+    NKVMExternalDataTypeID ret = { NK_INVALID_VALUE };
+    NK_FAILURE_RECOVERY_DECL();
+    NK_SET_FAILURE_RECOVERY(ret);
+    ret = nkiVmFindExternalType(vm, name);
+    NK_CLEAR_FAILURE_RECOVERY();
+    return ret;
 }
 
 const char *nkxVmGetExternalTypeName(
     struct NKVM *vm, NKVMExternalDataTypeID id)
 {
-    return nkiVmGetExternalTypeName(vm, id);
+    const char *ret = "";
+    NK_FAILURE_RECOVERY_DECL();
+    NK_SET_FAILURE_RECOVERY(ret);
+    ret = nkiVmGetExternalTypeName(vm, id);
+    NK_CLEAR_FAILURE_RECOVERY();
+    return ret;
 }
 
 nkbool nkxVmObjectSetExternalType(
-- 
2.43.0


From bce7e3d931101d18aff671c1ff8a52a1fa601a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:32 +0000
Subject: [PATCH 16/53] fix: running out of memory for the object table of a
 snapshot does not leave its old capacity

---
 src/nksave.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nksave.c b/src/nksave.c
index b67bffa..b402505 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -313,6 +313,7 @@ nkbool nkiSerializeObjectTable(
         // Reallocate the object table if we're reading.
         nkiFree(vm, vm->objectTable.objectTable);
         vm->objectTable.objectTable = NULL;
+        vm->objectTable.capacity = 0;
 
         vm->objectTable.objectTable =
             (struct NKVMObject **)nkiMallocArray(
-- 
2.43.0


From 8c3d2ff0de3f975af0163160e1b45cab0f1e91e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:51 +0000
Subject: [PATCH 17/53] fix: an allocation failure in a serialization callback
 ends the save or load

---
 src/nksave.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nksave.c b/src/nksave.c
index b402505..99b39d5 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -210,6 +210,10 @@ nkbool nkiSerializeErrorState(
         NKI_SERIALIZE_PUSHSERIALIZERSTATE();    \
         x;                                      \
         NKI_SERIALIZE_POPSERIALIZERSTATE();     \
+        /* Do not carry on with a failed VM. */ \
+        if(NK_CHECK_CATASTROPHE()) {            \
+            NK_CATASTROPHE();                   \
+        }                                       \
     } while(0)
 
 nkbool nkiSerializeObject(
-- 
2.43.0


From c7dfd450c8fc95f4a51c23480dfeb2dac4afcae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:07 +0000
Subject: [PATCH 18/53] fix: releasing a handle that is not held does not
 underflow the handle count

---
 src/nkobjs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nkobjs.c b/src/nkobjs.c
index 4db54bf..c940e6f 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -344,6 +344,7 @@ void nkiVmObjectReleaseHandle(struct NKVM *vm, struct NKValue *value)
     if(ob->externalHandleCount == 0) {
         nkiAddError(
             vm, "Tried to release handle for object with no external handles.");
+        return;
     }
 
     ob->externalHandleCount--;
-- 
2.43.0


From 61fa0e1610b6b157adc8c4e55cba18c7f0f42a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:35 +0000
Subject: [PATCH 19/53] fix: a failure inside a serialization callback fails
 the save or load

---
 src/nkcorout.c |  7 ++++++-
 src/nksave.c   | 20 ++++++++++++++++++--
 src/nkvm.h     |  4 ++++
 src/nkx.c      | 14 ++++++++++----
 4 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/nkcorout.c b/src/nkcorout.c
index 4377e5b..19957ec 100644
--- a/src/nkcorout.c
+++ b/src/nkcorout.c
@@ -124,7 +124,12 @@ void nkiCoroutineLibrary_coroutineSerializeData(
                 vm->serializationState.userdata,
                 vm->serializationState.writeMode))
         {
-            nkiAddError(vm, "Coroutine serialization failed.");
+            vm->serializationState.failed = nktrue;
+
+            // Don't let a failed save affect the running program.
+            if(!vm->serializationState.writeMode) {
+                nkiAddError(vm, "Coroutine serialization failed.");
+            }
         }
     } else {
         nkiAddError(vm, "Coroutine serialization failed.");
diff --git a/src/nksave.c b/src/nksave.c
index 99b39d5..4ae8f7d 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -196,24 +196,40 @@ nkbool nkiSerializeErrorState(
     NKVMSerializationWriter oldWriter = vm->serializationState.writer;  \
     void *oldUserdata = vm->serializationState.userdata;                \
     nkbool oldWriteMode = vm->serializationState.writeMode;             \
+    nkbool oldFailed = vm->serializationState.failed;                   \
     vm->serializationState.writer = writer;                             \
     vm->serializationState.userdata = userdata;                         \
-    vm->serializationState.writeMode = writeMode;
+    vm->serializationState.writeMode = writeMode;                       \
+    vm->serializationState.failed = nkfalse;
 
 #define NKI_SERIALIZE_POPSERIALIZERSTATE()              \
     vm->serializationState.userdata = oldUserdata;      \
     vm->serializationState.writer = oldWriter;          \
-    vm->serializationState.writeMode = oldWriteMode;
+    vm->serializationState.writeMode = oldWriteMode;    \
+    vm->serializationState.failed = oldFailed;
 
 #define NKI_SERIALIZE_WRAPCALLBACK(x)           \
     do {                                        \
+        struct NKError *lastErrorBefore =       \
+            vm->errorState.lastError;           \
+        nkbool callbackFailed;                  \
         NKI_SERIALIZE_PUSHSERIALIZERSTATE();    \
         x;                                      \
+        callbackFailed =                        \
+            vm->serializationState.failed;      \
         NKI_SERIALIZE_POPSERIALIZERSTATE();     \
         /* Do not carry on with a failed VM. */ \
         if(NK_CHECK_CATASTROPHE()) {            \
             NK_CATASTROPHE();                   \
         }                                       \
+        /* Failed data or a new error in the    \
+           callback fails the whole thing. */   \
+        if(callbackFailed ||                    \
+            vm->errorState.lastError !=         \
+            lastErrorBefore)                    \
+        {                                       \
+            return nkfalse;                     \
+        }                                       \
     } while(0)
 
 nkbool nkiSerializeObject(
diff --git a/src/nkvm.h b/src/nkvm.h
index 4c51d50..321cae6 100644
--- a/src/nkvm.h
+++ b/src/nkvm.h
@@ -261,6 +261,10 @@ struct NKVM
         NKVMSerializationWriter writer;
         void *userdata;
         nkbool writeMode;
+
+        // Set when something went wrong inside a serialization
+        // callback.
+        nkbool failed;
     } serializationState;
 
     nkuint32_t instructionsLeftBeforeTimeout;
diff --git a/src/nkx.c b/src/nkx.c
index a19fb0a..2dcc0cb 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -1018,10 +1018,16 @@ nkbool nkxSerializeData(struct NKVM *vm, void *data, nkuint32_t size)
         return nkfalse;
     }
 
-    return vm->serializationState.writer(
-        data, size,
-        vm->serializationState.userdata,
-        vm->serializationState.writeMode);
+    if(!vm->serializationState.writer(
+            data, size,
+            vm->serializationState.userdata,
+            vm->serializationState.writeMode))
+    {
+        vm->serializationState.failed = nktrue;
+        return nkfalse;
+    }
+
+    return nktrue;
 }
 
 nkbool nkxInitSubsystem(
-- 
2.43.0


From fddaa5f463406a2def08a9d8014090d1838d84c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:05 +0000
Subject: [PATCH 20/53] fix: coroutine objects without any data do not crash
 the VM

---
 src/nkdbg.c    | 4 +++-
 src/nkopcode.c | 4 ++--
 src/nkshrink.c | 4 +++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/nkdbg.c b/src/nkdbg.c
index d25e48a..29c07c2 100644
--- a/src/nkdbg.c
+++ b/src/nkdbg.c
@@ -271,7 +271,9 @@ void nkiDbgDumpState(struct NKVM *vm, const char *script, FILE *stream)
 
             if(ob->externalDataType.id == vm->internalObjectTypes.coroutine.id) {
                 fprintf(stream, "      coroutine data:\n");
-                nkiDbgDumpExecutionContext(vm, stream, (struct NKVMExecutionContext*)ob->externalData);
+                if(ob->externalData) {
+                    nkiDbgDumpExecutionContext(vm, stream, (struct NKVMExecutionContext*)ob->externalData);
+                }
             }
         }
     }
diff --git a/src/nkopcode.c b/src/nkopcode.c
index 3ef9d0b..7239f78 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -1291,7 +1291,7 @@ void nkiOpcode_coroutineResume(struct NKVM *vm)
             (struct NKVMExecutionContext *)nkxVmObjectGetExternalData(
                 vm, &coroutine);
 
-        if(context->coroutineState == NK_COROUTINE_INVALID) {
+        if(!context || context->coroutineState == NK_COROUTINE_INVALID) {
             nkiAddError(vm, "Tried to resume an invalid coroutine.");
             return;
         }
@@ -1359,7 +1359,7 @@ void nkiOpcode_coroutineIsFinished(struct NKVM *vm)
         returnValue.type = NK_VALUETYPE_INT;
         returnValue.intData = 0;
 
-        if(context->coroutineState == NK_COROUTINE_FINISHED) {
+        if(context && context->coroutineState == NK_COROUTINE_FINISHED) {
             returnValue.intData = 1;
         }
 
diff --git a/src/nkshrink.c b/src/nkshrink.c
index 4aac9a8..3f9445e 100644
--- a/src/nkshrink.c
+++ b/src/nkshrink.c
@@ -286,7 +286,9 @@ void nkiVmShrink(struct NKVM *vm)
         {
             struct NKVMExecutionContext *context =
                 (struct NKVMExecutionContext *)ob->externalData;
-            nkiVmShrinkStack(vm, &context->stack);
+            if(context) {
+                nkiVmShrinkStack(vm, &context->stack);
+            }
         }
     }
 }
-- 
2.43.0


From c405e9454c14b511b4c2f754a221863f4d1b3376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:05 +0000
Subject: [PATCH 21/53] fix: a global variable list that fails to load is not
 left half filled

---
 src/nksave.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index 4ae8f7d..e8363ee 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -984,6 +984,7 @@ nkbool nkiSerializeGlobalsList(
         }
         nkiFree(vm, vm->globalVariables);
         vm->globalVariables = NULL;
+        vm->globalVariableCount = 0;
     }
 
     NKI_SERIALIZE_BASIC(nkuint32_t, globalVariableCount);
@@ -1000,12 +1001,18 @@ nkbool nkiSerializeGlobalsList(
         nkiMemset(vm->globalVariables, 0,
             sizeof(vm->globalVariables[0]) * globalVariableCount);
 
-        vm->globalVariableCount = globalVariableCount;
     }
 
     // Load/save each global name and index.
-    for(i = 0; i < vm->globalVariableCount; i++) {
+    for(i = 0; i < globalVariableCount; i++) {
         NKI_SERIALIZE_STRING(vm->globalVariables[i].name);
+
+        // Only count what's been loaded, in case the rest of the list
+        // cannot be.
+        if(!writeMode) {
+            vm->globalVariableCount = i + 1;
+        }
+
         NKI_SERIALIZE_BASIC(nkuint32_t, vm->globalVariables[i].staticPosition);
     }
 
-- 
2.43.0


From 89bfc51fe883404fff544f53f472d51b8b37c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:42 +0000
Subject: [PATCH 22/53] fix: a VM that could not be loaded completely has an
 error

---
 src/nkx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nkx.c b/src/nkx.c
index 2dcc0cb..618e184 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -654,6 +654,12 @@ nkbool nkxVmSerialize(struct NKVM *vm, NKVMSerializationWriter writer, void *use
     nkbool ret = nkfalse;
     NK_SET_FAILURE_RECOVERY(ret);
     ret = nkiVmSerialize(vm, writer, userdata, writeMode);
+
+    // A VM that is only partially loaded must not be executed.
+    if(!ret && !writeMode && !nkiVmHasErrors(vm)) {
+        nkiAddError(vm, "Could not load the serialized VM state.");
+    }
+
     NK_CLEAR_FAILURE_RECOVERY();
     return ret;
 }
-- 
2.43.0


From 6f4d26a53ebe314b622b5a2fdb806e2d8875c00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:43 +0000
Subject: [PATCH 23/53] fix: a rejected instruction address mask is not kept

---
 src/nksave.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index e8363ee..83d8797 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -616,6 +616,8 @@ nkbool nkiSerializeStringTable(
 
 nkbool nkiSerializeInstructions(struct NKVM *vm, NKVMSerializationWriter writer, void *userdata, nkbool writeMode)
 {
+    nkuint32_t instructionAddressMask = vm->instructionAddressMask;
+
     // Find the actual end of the instruction buffer.
     nkuint32_t instructionLimitSearch = vm->instructionAddressMask;
     if(writeMode) {
@@ -632,23 +634,23 @@ nkbool nkiSerializeInstructions(struct NKVM *vm, NKVMSerializationWriter writer,
     // something like a literal value instead of a real opcode, and if
     // we cut off the address mask before it, that would read the
     // wrong value.
-    NKI_SERIALIZE_BASIC(nkuint32_t, vm->instructionAddressMask);
+    NKI_SERIALIZE_BASIC(nkuint32_t, instructionAddressMask);
 
     // Thanks AFL! Instruction address mask of 2^32-1 means that the
     // actual allocation is 2^32, which overflows to zero, and we're
     // left in a situation where we think we have a giant instruction
     // buffer when we really have a NULL pointer.
-    if(vm->instructionAddressMask == ~(nkuint32_t)0) {
+    if(instructionAddressMask == ~(nkuint32_t)0) {
         nkiAddError(vm, "Instruction address mask is too large.");
         return nkfalse;
     }
 
-    if(!nkiIsPow2(vm->instructionAddressMask + 1)) {
+    if(!nkiIsPow2(instructionAddressMask + 1)) {
         nkiAddError(vm, "Instruction address mask is not a power of two minus one.");
         return nkfalse;
     }
 
-    if(instructionLimitSearch > vm->instructionAddressMask) {
+    if(instructionLimitSearch > instructionAddressMask) {
         nkiAddError(vm, "Too many instructions for given instruction address mask.");
         return nkfalse;
     }
@@ -656,14 +658,17 @@ nkbool nkiSerializeInstructions(struct NKVM *vm, NKVMSerializationWriter writer,
     // Recreate the entire instruction space if we're reading.
     if(!writeMode) {
         nkiFree(vm, vm->instructions);
+        vm->instructions = NULL;
 
         // Thanks AFL!
         vm->instructions = (struct NKInstruction *)nkiMallocArray(
             vm,
             sizeof(struct NKInstruction),
-            vm->instructionAddressMask + 1);
+            instructionAddressMask + 1);
+
+        nkiMemset(vm->instructions, 0, sizeof(struct NKInstruction) * (instructionAddressMask + 1));
 
-        nkiMemset(vm->instructions, 0, sizeof(struct NKInstruction) * (vm->instructionAddressMask + 1));
+        vm->instructionAddressMask = instructionAddressMask;
     }
 
     // Load/save the actual instructions themselves.
-- 
2.43.0


From db2f851c7b6d47b07e07bc985db4eeb76e6fbc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:44 +0000
Subject: [PATCH 24/53] fix: static space that could not be loaded is not left
 uninitialized

---
 src/nksave.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nksave.c b/src/nksave.c
index 83d8797..7d3b050 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -708,6 +708,10 @@ nkbool nkiSerializeStatics(struct NKVM *vm, NKVMSerializationWriter writer, void
         vm->staticSpace = NULL;
         vm->staticSpace = (struct NKValue *)nkiMallocArray(
             vm, sizeof(struct NKValue), vm->staticAddressMask + 1);
+
+        // Clear it, in case it can't be read completely.
+        nkiMemset(vm->staticSpace, 0,
+            sizeof(struct NKValue) * (vm->staticAddressMask + 1));
     }
 
     // Read/write the static space.
-- 
2.43.0


From d3a1251c7e63ec1c43fbaed0290cbc838bc26920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:44 +0000
Subject: [PATCH 25/53] fix: a stack larger than its capacity is rejected
 before it is used

---
 src/nksave.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nksave.c b/src/nksave.c
index 7d3b050..c5b6e41 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -752,6 +752,11 @@ nkbool nkiSerializeStack(
         return nkfalse;
     }
 
+    if(stackSize > stackCapacity) {
+        nkiAddError(vm, "Stack size is larger than stack capacity.");
+        return nkfalse;
+    }
+
     stack->indexMask = stack->capacity - 1;
 
     // Make new stack space for read mode.
-- 
2.43.0


From ee9b57150e7036badd177dd9844318fbc026d2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:45 +0000
Subject: [PATCH 26/53] fix: a rejected string table capacity is not kept

---
 src/nksave.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index c5b6e41..62378db 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -451,20 +451,21 @@ nkbool nkiSerializeStringTable(
     // capacity, if we're in READ mode.
     if(!writeMode) {
         nkiVmStringTableDestroy(vm);
-        vm->stringTable.capacity = capacity;
 
         // Thanks AFL! String table size can cause a 32-bit integer
         // overflow after being multiplied by the size of the string
         // pointer. (FIXME: We might not need this after the addition
         // of nkiMallocArray.)
-        if(~(nkuint32_t)0 / sizeof(struct NKVMString*) <= vm->stringTable.capacity) {
+        if(~(nkuint32_t)0 / sizeof(struct NKVMString*) <= capacity) {
             nkiAddError(vm, "String table too large.");
             return nkfalse;
         }
 
         vm->stringTable.stringTable =
             (struct NKVMString **)nkiMallocArray(
-                vm, sizeof(struct NKVMString*), vm->stringTable.capacity);
+                vm, sizeof(struct NKVMString*), capacity);
+
+        vm->stringTable.capacity = capacity;
 
         // Note: Memset takes a size_t here, which on 64-bit bit can
         // take higher values than our nkuint32_t type passed into
-- 
2.43.0


From cf34a4f08ca60c77d0bb22511832ec070586ee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:45 +0000
Subject: [PATCH 27/53] fix: a partially read handle count is not used

---
 src/nksave.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nksave.c b/src/nksave.c
index 62378db..4376e9a 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -239,12 +239,15 @@ nkbool nkiSerializeObject(
 {
     // Note: objectTableIndex is set in calling function.
 
+    nkuint32_t externalHandleCount = object->externalHandleCount;
+
     NKI_SERIALIZE_BASIC(nkuint32_t, object->size);
-    NKI_SERIALIZE_BASIC(nkuint32_t, object->externalHandleCount);
+    NKI_SERIALIZE_BASIC(nkuint32_t, externalHandleCount);
 
     // If we're loading, we need to reconstruct the external handle
     // list.
     if(!writeMode) {
+        object->externalHandleCount = externalHandleCount;
         if(object->externalHandleCount) {
             if(vm->objectsWithExternalHandles) {
                 vm->objectsWithExternalHandles->previousExternalHandleListPtr =
-- 
2.43.0


From f1a6822365c2644648b2244f804e156e3a2f21e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:57 +0000
Subject: [PATCH 28/53] fix: a load stops when an object cannot take another
 field

---
 src/nksave.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index 4376e9a..b889575 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -288,10 +288,12 @@ nkbool nkiSerializeObject(
 
             value = nkiVmObjectFindOrAddEntry(vm, object, &key, nkfalse);
 
-            if(value) {
-                NKI_SERIALIZE_BASIC(struct NKValue, *value);
+            if(!value) {
+                return nkfalse;
             }
 
+            NKI_SERIALIZE_BASIC(struct NKValue, *value);
+
         }
 
     }
-- 
2.43.0


From 66a6b1bc492ddd94c56ea7cbf1aa6eeffb96013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:57 +0000
Subject: [PATCH 29/53] fix: loading the error list does not lose existing
 errors

---
 src/nksave.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nksave.c b/src/nksave.c
index b889575..80aa65a 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -174,6 +174,11 @@ nkbool nkiSerializeErrorState(
         nkuint32_t errorNum;
         struct NKError **lastPtr = &vm->errorState.firstError;
 
+        // Add to whatever errors are there already.
+        while(*lastPtr) {
+            lastPtr = &(*lastPtr)->next;
+        }
+
         for(errorNum = 0; errorNum < errorCount; errorNum++) {
             char *errorText = NULL;
             struct NKError *newError = NULL;
-- 
2.43.0


From a8ead791d188a0e627694ca2bbedc44a2e42360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:58 +0000
Subject: [PATCH 30/53] fix: a coroutine without data is not accepted in the
 active coroutine chain

---
 src/nksave.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nksave.c b/src/nksave.c
index 80aa65a..ecbd064 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -1427,6 +1427,7 @@ nkbool nkiSerializeActiveCoroutines(
                 executionContext = &vm->rootExecutionContext;
             } else if(inValue.type == NK_VALUETYPE_OBJECTID &&
                 object &&
+                object->externalData &&
                 object->externalDataType.id == vm->internalObjectTypes.coroutine.id)
             {
                 executionContext = (struct NKVMExecutionContext*)object->externalData;
-- 
2.43.0


From f974e3f9a7e081ca66cb1fb515dc99504888ff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:44 +0000
Subject: [PATCH 31/53] fix: a source file list that fails to load is not left
 half filled

---
 src/nksave.c | 7 ++++++-
 src/nkvm.c   | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/nksave.c b/src/nksave.c
index ecbd064..5588ad5 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -1335,12 +1335,17 @@ nkbool nkiSerializeSourceFileList(
         }
 
         vm->sourceFileList = sourceFileList;
-        vm->sourceFileCount = sourceFileCount;
     }
 
     // Fill the list or write it out.
     for(i = 0; i < sourceFileCount; i++) {
         NKI_SERIALIZE_STRING(sourceFileList[i]);
+
+        // Only count what's been loaded, in case the rest of the list
+        // cannot be.
+        if(!writeMode) {
+            vm->sourceFileCount = i + 1;
+        }
     }
 
     return nktrue;
diff --git a/src/nkvm.c b/src/nkvm.c
index efbcd3d..eda8050 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -621,6 +621,7 @@ void nkiVmClearSourceFileList(struct NKVM *vm)
         }
         nkiFree(vm, vm->sourceFileList);
         vm->sourceFileList = NULL;
+        vm->sourceFileCount = 0;
     }
 }
 
-- 
2.43.0


From df1811f478cff25685863ef83f874aebdf17edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:42 +0000
Subject: [PATCH 32/53] fix: dumping a VM with an invalid opcode does not crash

---
 src/nkvm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index eda8050..d3fc57f 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -154,7 +154,8 @@ static void nkiVmInitOpcodeTable(void)
 
 const char *nkiVmGetOpcodeName(enum NKOpcode op)
 {
-    return nkiOpcodeNameTable[op & (NK_OPCODE_PADDEDCOUNT - 1)];
+    const char *name = nkiOpcodeNameTable[op & (NK_OPCODE_PADDEDCOUNT - 1)];
+    return name ? name : "<invalid opcode>";
 }
 
 // ----------------------------------------------------------------------
-- 
2.43.0


From ec062f6d36cf2f06f483b78705c2b982d67a1f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:52 +0000
Subject: [PATCH 33/53] fix: a host call that does not fit on the stack calls
 nothing

---
 src/nkfunc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nkfunc.c b/src/nkfunc.c
index faeb692..9036049 100644
--- a/src/nkfunc.c
+++ b/src/nkfunc.c
@@ -95,6 +95,12 @@ void nkiVmCallFunction(
         // Push argument count.
         nkiVmStackPushInt(vm, argumentCount);
 
+        // If we ran out of stack space, then what's on the stack is not
+        // the call we wanted to make.
+        if(vm->errorState.firstError) {
+            return;
+        }
+
         // Set the instruction pointer to a special return value we
         // use for external calls into the VM. This will push a
         // NK_UINT_MAX-1 pointer onto the stack, which the VM will
-- 
2.43.0


From cc65eedf22a3c242f0ce89334e1f3207a510fa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:42 +0000
Subject: [PATCH 34/53] fix: a push refused for lack of stack space leaves the
 stack alone

---
 src/nkstack.c | 6 +++---
 src/nkvm.h    | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nkstack.c b/src/nkstack.c
index dc9fffc..81d7542 100644
--- a/src/nkstack.c
+++ b/src/nkstack.c
@@ -89,7 +89,7 @@ struct NKValue *nkiVmStackPush_internal(struct NKVM *vm)
                 vm,
                 "Stack overflow.");
 
-            return &stack->values[0];
+            return &vm->discardedStackValue;
         }
 
         // Thanks AFL! Continued attempts to keep pushing stuff to the
@@ -105,14 +105,14 @@ struct NKValue *nkiVmStackPush_internal(struct NKVM *vm)
             nkiAddError(
                 vm,
                 "Stack ran out of address space.");
-            return &stack->values[0];
+            return &vm->discardedStackValue;
         }
 
         if(newStackCapacity > vm->limits.maxStackSize) {
             nkiAddError(
                 vm,
                 "Reached stack capacity limit.");
-            return &stack->values[0];
+            return &vm->discardedStackValue;
         }
 
         newStackIndexMask <<= 1;
diff --git a/src/nkvm.h b/src/nkvm.h
index 321cae6..3ab0d29 100644
--- a/src/nkvm.h
+++ b/src/nkvm.h
@@ -195,6 +195,9 @@ struct NKVM
     struct NKVMExecutionContext rootExecutionContext;
     struct NKVMExecutionContext *currentExecutionContext;
 
+    // Where a value goes when there is no space for it on the stack.
+    struct NKValue discardedStackValue;
+
     // Static data.
     struct NKValue *staticSpace;
     nkuint32_t staticAddressMask;
-- 
2.43.0


From bb7306a4ef3d9774c308ac949549cd9df3f24a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:06 +0000
Subject: [PATCH 35/53] fix: a script file that cannot be read completely is
 not compiled

---
 src/nkx.c | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/nkx.c b/src/nkx.c
index 618e184..24f6dc7 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -273,6 +273,7 @@ nkbool nkxCompilerCompileScriptFile(
 {
     struct NKVM *vm = cs->vm;
     FILE *in = fopen(scriptFilename, "rb");
+    long fileLen = -1;
     nkuint32_t len;
     char *buf;
     nkbool success;
@@ -285,10 +286,23 @@ nkbool nkxCompilerCompileScriptFile(
         return nkfalse;
     }
 
-    // Read file length.
-    fseek(in, 0, SEEK_END);
-    len = ftell(in);
-    fseek(in, 0, SEEK_SET);
+    // Read file length. This can fail or give us nonsense for things
+    // that aren't regular files.
+    if(!fseek(in, 0, SEEK_END)) {
+        fileLen = ftell(in);
+    }
+    if(fileLen < 0 ||
+        (unsigned long)fileLen >= NK_UINT_MAX ||
+        fseek(in, 0, SEEK_SET))
+    {
+        NK_FAILURE_RECOVERY_DECL();
+        fclose(in);
+        NK_SET_FAILURE_RECOVERY(nkfalse);
+        nkiCompilerAddError(cs, "Cannot read script file.");
+        NK_CLEAR_FAILURE_RECOVERY();
+        return nkfalse;
+    }
+    len = (nkuint32_t)fileLen;
 
     buf = (char *)malloc(len + 1);
     if(!buf) {
@@ -296,10 +310,22 @@ nkbool nkxCompilerCompileScriptFile(
         nkiErrorStateSetAllocationFailFlag(vm);
         return nkfalse;
     }
-    fread(buf, len, 1, in);
+
+    // We want exactly what we expected to be in there, or nothing.
+    success = fread(buf, 1, len, in) == len && fgetc(in) == EOF && !ferror(in);
     buf[len] = 0;
 
     fclose(in);
+
+    if(!success) {
+        NK_FAILURE_RECOVERY_DECL();
+        free(buf);
+        NK_SET_FAILURE_RECOVERY(nkfalse);
+        nkiCompilerAddError(cs, "Cannot read script file.");
+        NK_CLEAR_FAILURE_RECOVERY();
+        return nkfalse;
+    }
+
     success = nkxCompilerCompileScript(cs, buf, scriptFilename);
     free(buf);
 
-- 
2.43.0


From 17a252e53879d3717299de30a5faa01d81ff1f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:56 +0000
Subject: [PATCH 36/53] fix: a script file with a null character in it is not
 compiled in part

---
 src/nkx.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/nkx.c b/src/nkx.c
index 24f6dc7..a7a9ff0 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -326,6 +326,16 @@ nkbool nkxCompilerCompileScriptFile(
         return nkfalse;
     }
 
+    // The compiler would take a null character for the end of the script.
+    if(nkiStrlen(buf) != len) {
+        NK_FAILURE_RECOVERY_DECL();
+        free(buf);
+        NK_SET_FAILURE_RECOVERY(nkfalse);
+        nkiCompilerAddError(cs, "Script file contains a null character.");
+        NK_CLEAR_FAILURE_RECOVERY();
+        return nkfalse;
+    }
+
     success = nkxCompilerCompileScript(cs, buf, scriptFilename);
     free(buf);
 
-- 
2.43.0


From 3f71e061c42ccefa1b0a560129ef0c965c350cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:00 +0000
Subject: [PATCH 37/53] fix: declarations and return statements do not use up
 the compiler's recursion limit

---
 src/nkcompil.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 78d3843..1316019 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -424,11 +424,17 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
 
         case NK_TOKENTYPE_VAR:
             // "var" = Variable declaration.
-            return nkiCompilerCompileVariableDeclaration(cs);
+            if(!nkiCompilerCompileVariableDeclaration(cs)) {
+                return nkfalse;
+            }
+            break;
 
         case NK_TOKENTYPE_RETURN:
             // "return" = Return statement.
-            return nkiCompilerCompileReturnStatement(cs);
+            if(!nkiCompilerCompileReturnStatement(cs)) {
+                return nkfalse;
+            }
+            break;
 
         case NK_TOKENTYPE_CURLYBRACE_OPEN:
             // Curly braces mean we need to parse a block.
-- 
2.43.0


From 93221f56f9d3340ba13b1514d61171866454a02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:35 +0000
Subject: [PATCH 38/53] fix: clearing the error state of a session resets the
 compiler's recursion count

---
 src/nkcompil.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 1316019..0273eff 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -1667,6 +1667,9 @@ void nkiCompilerClearReplErrorState(
     struct NKCompilerState *cs,
     nkuint32_t instructionPointerReset)
 {
+    // The failed code may have been abandoned at any depth.
+    cs->recursionCount = 0;
+
     // Reset instruction write index.
     cs->instructionWriteIndex = instructionPointerReset;
     cs->vm->instructions[cs->instructionWriteIndex].opcode = NK_OP_END;
-- 
2.43.0


From c9db75798c7eec3a106a43746e5d8d6c9073e9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:35 +0000
Subject: [PATCH 39/53] fix: clearing the error state of a session drops the
 variables of the failed line

---
 src/nkcompil.c | 28 ++++++++++++++++++++++++++++
 src/nkcompil.h |  4 ++++
 2 files changed, 32 insertions(+)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 0273eff..2b03a90 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -357,6 +357,7 @@ struct NKCompilerStateContextVariable *nkiCompilerAddVariable(
             nkiCompilerEmitPushLiteralInt(cs, var->position, nktrue);
             nkiCompilerAddInstructionSimple(cs, NK_OP_STATICPOKE, nktrue);
             nkiCompilerAddInstructionSimple(cs, NK_OP_POP, nktrue);
+            var->declarationEnd = cs->instructionWriteIndex;
         }
 
     } else {
@@ -1670,6 +1671,33 @@ void nkiCompilerClearReplErrorState(
     // The failed code may have been abandoned at any depth.
     cs->recursionCount = 0;
 
+    // Forget about global variables that the failed code declared, so
+    // they can be declared again. (New ones are always added to the
+    // start of the list, but the hosting application may have added
+    // some of its own in the meantime.)
+    {
+        struct NKCompilerStateContextVariable **varPtr =
+            &cs->context->variables;
+
+        while(*varPtr) {
+            struct NKCompilerStateContextVariable *var = *varPtr;
+            if(var->declarationEnd > instructionPointerReset) {
+                nkiMemset(
+                    &cs->vm->staticSpace[var->position], 0,
+                    sizeof(struct NKValue));
+                *varPtr = var->next;
+                nkiFree(cs->vm, var->name);
+                nkiFree(cs->vm, var);
+            } else {
+                varPtr = &var->next;
+            }
+        }
+
+        if(cs->vm->globalVariables) {
+            nkiCompilerGenerateGlobalVariables(cs);
+        }
+    }
+
     // Reset instruction write index.
     cs->instructionWriteIndex = instructionPointerReset;
     cs->vm->instructions[cs->instructionWriteIndex].opcode = NK_OP_END;
diff --git a/src/nkcompil.h b/src/nkcompil.h
index 36d8e46..f7497b5 100644
--- a/src/nkcompil.h
+++ b/src/nkcompil.h
@@ -67,6 +67,10 @@ struct NKCompilerStateContextVariable
     // position from the start of the stack frame.
     nkuint32_t position;
 
+    // Instruction write index right after the declaration of a global
+    // variable in a script. Zero if it was not declared by a script.
+    nkuint32_t declarationEnd;
+
     struct NKCompilerStateContextVariable *next;
 };
 
-- 
2.43.0


From b689ae1fdf46b315998e48ef5bf91ef3e7661663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:25 +0000
Subject: [PATCH 40/53] fix: looking up a global variable that does not exist
 is not an error

---
 src/nkx.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/nkx.c b/src/nkx.c
index a7a9ff0..99cce71 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -199,8 +199,20 @@ struct NKValue *nkxVmFindGlobalVariable(
         struct NKValue *ret = NULL;
         NK_SET_FAILURE_RECOVERY(NULL);
         {
-            struct NKCompilerStateContextVariable *var =
-                nkiCompilerLookupVariable(cs, name);
+            struct NKCompilerStateContext *ctx = cs->context;
+            struct NKCompilerStateContextVariable *var;
+
+            // Global variables are all in the root context. (A
+            // missing one is not an error here, so we can't use
+            // nkiCompilerLookupVariable().)
+            while(ctx->parent) {
+                ctx = ctx->parent;
+            }
+            for(var = ctx->variables; var; var = var->next) {
+                if(!nkiStrcmp(var->name, name)) {
+                    break;
+                }
+            }
             if(var) {
                 ret = &vm->staticSpace[var->position & vm->staticAddressMask];
             }
-- 
2.43.0


From 93f9776810ce7784104592bed0a5f1fc2d65367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:51 +0000
Subject: [PATCH 41/53] fix: code of a session that has been executed is not
 overwritten after a runtime error

---
 src/nkcompil.c | 9 +++++++--
 src/nkcompil.h | 3 +++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 2b03a90..d2a7b19 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -1146,6 +1146,7 @@ void nkiCompilerPartiallyFinalize(
         nkuint32_t oldWriteIndex = cs->instructionWriteIndex;
         nkiCompilerAddInstructionSimple(cs, NK_OP_END, nkfalse);
         cs->instructionWriteIndex = oldWriteIndex;
+        cs->finalizedInstructionIndex = oldWriteIndex;
     }
 }
 
@@ -1698,8 +1699,12 @@ void nkiCompilerClearReplErrorState(
         }
     }
 
-    // Reset instruction write index.
-    cs->instructionWriteIndex = instructionPointerReset;
+    // Reset instruction write index. Anything that has been executed
+    // has to stay, because there may be values with functions or
+    // suspended coroutines from it.
+    if(cs->instructionWriteIndex != cs->finalizedInstructionIndex) {
+        cs->instructionWriteIndex = instructionPointerReset;
+    }
     cs->vm->instructions[cs->instructionWriteIndex].opcode = NK_OP_END;
 
     // Re-init error state.
diff --git a/src/nkcompil.h b/src/nkcompil.h
index f7497b5..98b9d8d 100644
--- a/src/nkcompil.h
+++ b/src/nkcompil.h
@@ -93,6 +93,9 @@ struct NKCompilerState
 
     nkuint32_t instructionWriteIndex;
 
+    // End of the code that can have been executed already.
+    nkuint32_t finalizedInstructionIndex;
+
     struct NKCompilerStateContext *context;
 
     struct NKToken *currentToken;
-- 
2.43.0


From 0cd93470be844a8c02ab44f022d409e53400004d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:42 +0000
Subject: [PATCH 42/53] fix: clearing the error state of a session drops the
 position markers of the failed line

---
 src/nkcompil.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index d2a7b19..0614947 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -1703,7 +1703,16 @@ void nkiCompilerClearReplErrorState(
     // has to stay, because there may be values with functions or
     // suspended coroutines from it.
     if(cs->instructionWriteIndex != cs->finalizedInstructionIndex) {
+
         cs->instructionWriteIndex = instructionPointerReset;
+
+        // The list of position markers must stay in order.
+        while(cs->vm->positionMarkerCount &&
+            cs->vm->positionMarkerList[cs->vm->positionMarkerCount - 1].instructionIndex >=
+            instructionPointerReset)
+        {
+            cs->vm->positionMarkerCount--;
+        }
     }
     cs->vm->instructions[cs->instructionWriteIndex].opcode = NK_OP_END;
 
-- 
2.43.0


From 5d4450bee6bea211ffd235479e438823e70dc30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:13 +0000
Subject: [PATCH 43/53] fix: runtime errors in the first line of a script name
 that line

---
 src/nkcompil.c | 48 ++++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 0614947..2762a52 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -909,6 +909,30 @@ nkbool nkiCompilerCompileFunctionDefinition(
     return ret;
 }
 
+/// Record that the instructions written from here on belong to the
+/// line that the current token is on.
+static void nkiCompilerAddPositionMarker(struct NKCompilerState *cs)
+{
+    struct NKVMFilePositionMarker newMarker;
+
+    cs->currentLineNumber = cs->currentToken->lineNumber;
+    cs->currentFileIndex = cs->currentToken->fileIndex;
+    cs->currentActualLineNumber = cs->currentToken->actualLineNumber;
+
+    newMarker.fileIndex = cs->currentToken->fileIndex;
+    newMarker.lineNumber = cs->currentToken->lineNumber;
+    newMarker.instructionIndex = cs->instructionWriteIndex;
+    newMarker.actualLineNumber = cs->currentToken->actualLineNumber;
+
+    cs->vm->positionMarkerList =
+        (struct NKVMFilePositionMarker*)nkiReallocArray(
+            cs->vm, cs->vm->positionMarkerList,
+            sizeof(struct NKVMFilePositionMarker),
+            cs->vm->positionMarkerCount + 1);
+
+    cs->vm->positionMarkerList[cs->vm->positionMarkerCount++] = newMarker;
+}
+
 struct NKToken *nkiCompilerNextToken(struct NKCompilerState *cs)
 {
     if(cs->currentToken) {
@@ -918,24 +942,7 @@ struct NKToken *nkiCompilerNextToken(struct NKCompilerState *cs)
             if((nkint32_t)cs->currentLineNumber != cs->currentToken->lineNumber ||
                 cs->currentFileIndex != cs->currentToken->fileIndex)
             {
-                struct NKVMFilePositionMarker newMarker;
-
-                cs->currentLineNumber = cs->currentToken->lineNumber;
-                cs->currentFileIndex = cs->currentToken->fileIndex;
-                cs->currentActualLineNumber = cs->currentToken->actualLineNumber;
-
-                newMarker.fileIndex = cs->currentToken->fileIndex;
-                newMarker.lineNumber = cs->currentToken->lineNumber;
-                newMarker.instructionIndex = cs->instructionWriteIndex;
-                newMarker.actualLineNumber = cs->currentToken->actualLineNumber;
-
-                cs->vm->positionMarkerList =
-                    (struct NKVMFilePositionMarker*)nkiReallocArray(
-                        cs->vm, cs->vm->positionMarkerList,
-                        sizeof(struct NKVMFilePositionMarker),
-                        cs->vm->positionMarkerCount + 1);
-
-                cs->vm->positionMarkerList[cs->vm->positionMarkerCount++] = newMarker;
+                nkiCompilerAddPositionMarker(cs);
             }
         }
     }
@@ -1211,6 +1218,11 @@ nkbool nkiCompilerCompileScript(
     cs->currentFileIndex =
         cs->currentToken ? cs->currentToken->fileIndex : NK_INVALID_VALUE;
 
+    // The first line needs a position marker too.
+    if(cs->currentToken) {
+        nkiCompilerAddPositionMarker(cs);
+    }
+
     success = nkiCompilerCompileBlock(cs, nktrue);
 
     cs->currentToken = NULL;
-- 
2.43.0


From 12970c65477c8c7a477192bdc352acf6dd2abf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:34 +0000
Subject: [PATCH 44/53] fix: a program can be saved after its stack limit was
 lowered

---
 src/nksave.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index 5588ad5..9cc6aa1 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -750,8 +750,9 @@ nkbool nkiSerializeStack(
         return nkfalse;
     }
 
-    // Check stack capacity limit.
-    if(stackCapacity > vm->limits.maxStackSize) {
+    // Check stack capacity limit. (Lowering the limit does not shrink
+    // stacks that exist already, and those can still be saved.)
+    if(!writeMode && stackCapacity > vm->limits.maxStackSize) {
         nkiAddError(vm, "Stack capacity is too large for limit.");
         return nkfalse;
     }
-- 
2.43.0


From b2d893b5a6a1ba92c9166c874c08171660c2de1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:24 +0000
Subject: [PATCH 45/53] fix: Quoted preprocessor parameters end at the end of
 their line.

---
 src/nktoken.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/nktoken.c b/src/nktoken.c
index 9590642..5a14eb9 100644
--- a/src/nktoken.c
+++ b/src/nktoken.c
@@ -320,22 +320,15 @@ nkbool nkiCompilerGetPreprocessorTokens(
             tokenStart = k;
 
             // Attempt to parse a quoted string.
-            while(1) {
+            while(str[k] && str[k] != '\n') {
 
                 if(str[k] == '\\') {
 
                     skipNext = !skipNext;
 
-                } else if(str[k] == '"') {
-
-                    if(!skipNext) {
-
-                        // Skip final '"'.
-                        tokenEnd = k;
-                        k++;
-                        break;
+                } else if(str[k] == '"' && !skipNext) {
 
-                    }
+                    break;
 
                 } else {
 
@@ -346,6 +339,13 @@ nkbool nkiCompilerGetPreprocessorTokens(
                 k++;
             }
 
+            tokenEnd = k;
+
+            // Skip final '"', if it was there at all.
+            if(str[k] == '"') {
+                k++;
+            }
+
         } else if(str[k] == '/' && str[k+1] == '/') {
 
             // Comment. Skip through to the end of the line.
-- 
2.43.0


From bf9eedad76fbfa793cd3b78305c76c3477e172db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:58 +0000
Subject: [PATCH 46/53] fix: Very deep expressions no longer exhaust the host's
 stack.

---
 src/nkexpr.c | 47 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/nkexpr.c b/src/nkexpr.c
index 9c605a1..5f772eb 100644
--- a/src/nkexpr.c
+++ b/src/nkexpr.c
@@ -43,26 +43,34 @@
 
 #include "nkcommon.h"
 
-// TODO: Make a non-recursive version of this.
 void nkiCompilerDeleteExpressionNode(struct NKVM *vm, struct NKExpressionAstNode *node)
 {
-    if(!node) {
-        return;
+    // Expression trees can be as deep as the source text is long, so
+    // we keep a list of nodes to delete (linked with stackNext)
+    // instead of recursing.
+    if(node) {
+        node->stackNext = NULL;
     }
 
-    if(node->ownedToken) {
-        nkiCompilerDeleteToken(vm, node->opOrValue);
-        node->opOrValue = NULL;
-    }
+    while(node) {
 
-    if(node->children[0]) {
-        nkiCompilerDeleteExpressionNode(vm, node->children[0]);
-    }
-    if(node->children[1]) {
-        nkiCompilerDeleteExpressionNode(vm, node->children[1]);
-    }
+        struct NKExpressionAstNode *next = node->stackNext;
+        nkuint32_t i;
+
+        for(i = 0; i < 2; i++) {
+            if(node->children[i]) {
+                node->children[i]->stackNext = next;
+                next = node->children[i];
+            }
+        }
 
-    nkiFree(vm, node);
+        if(node->ownedToken) {
+            nkiCompilerDeleteToken(vm, node->opOrValue);
+        }
+
+        nkiFree(vm, node);
+        node = next;
+    }
 }
 
 nkbool nkiCompilerIsSubexpressionEndingToken(struct NKToken *token)
@@ -1077,6 +1085,10 @@ struct NKExpressionAstNode *nkiCompilerCloneExpressionTree(
         return NULL;
     }
 
+    if(!nkiCompilerPushRecursion(cs)) {
+        return NULL;
+    }
+
     newNode = (struct NKExpressionAstNode *)nkiMalloc(
         cs->vm, sizeof(struct NKExpressionAstNode));
     nkiMemset(newNode, 0, sizeof(*newNode));
@@ -1098,6 +1110,7 @@ struct NKExpressionAstNode *nkiCompilerCloneExpressionTree(
     newNode->children[0] = nkiCompilerCloneExpressionTree(cs, node->children[0]);
     newNode->children[1] = nkiCompilerCloneExpressionTree(cs, node->children[1]);
 
+    nkiCompilerPopRecursion(cs);
     return newNode;
 }
 
@@ -1294,7 +1307,11 @@ struct NKExpressionAstNode *nkiCompilerCompileExpressionWithoutEmit(
     if(node) {
         nkiCompilerExpressionExpandIncrementsAndDecrements(
             cs, node, returnValueCanBeDiscarded);
-        nkiCompilerOptimizeConstants(cs->vm, &node);
+
+        // (An expression that is too deep has been refused by now.)
+        if(!nkiVmHasErrors(cs->vm)) {
+            nkiCompilerOptimizeConstants(cs->vm, &node);
+        }
     }
 
     if(nkiGetErrorCount(cs->vm)) {
-- 
2.43.0


From bf6f7d518d8cfff5d849df2e34af6b86e45b5fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:59 +0000
Subject: [PATCH 47/53] fix: Compiling reports failure whenever it left an
 error.

---
 src/nkcompil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 2762a52..4bfada8 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -1231,7 +1231,7 @@ nkbool nkiCompilerCompileScript(
     nkiCompilerDestroyTokenList(cs->vm, &tokenList);
 
     nkiCompilerPopRecursion(cs);
-    return success;
+    return success && !nkiVmHasErrors(cs->vm);
 }
 
 nkuint32_t nkiCompilerEmitJump(struct NKCompilerState *cs, nkuint32_t target)
-- 
2.43.0


From 21da9ed2412627b64a8953a714a1abdbb7e742b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:53 +0000
Subject: [PATCH 48/53] fix: Resuming a coroutine made from a native function
 no longer reruns the program.

---
 src/nkopcode.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index 7239f78..e47e131 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -1217,6 +1217,12 @@ void nkiOpcode_coroutineCreate(struct NKVM *vm)
     // Initiate the function.
     nkiOpcode_call(vm);
 
+    // A native function has already been called and has returned by
+    // now. There is nothing left to run in this coroutine.
+    if(executionContext->instructionPointer == NK_INVALID_VALUE) {
+        executionContext->coroutineState = NK_COROUTINE_FINISHED;
+    }
+
     // Note: This will leave the IP in the new context pointing at the
     // instruction before the actual function body! IP increment
     // happens after the instruction is executed, so we're expecting
-- 
2.43.0


From 7c2704572574a8e7ba98a657f0bfa3da60b61f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:02 +0000
Subject: [PATCH 49/53] fix: && and || look at the whole integer, not only its
 low byte.

---
 src/nkopcode.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index e47e131..fcee755 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -966,8 +966,8 @@ void nkiOpcode_and(struct NKVM *vm)
 {
     // Do NOT try to inline these function calls in this expression. C
     // shortcutting will ruin your day.
-    nkbool in1 = nkiValueToInt(vm, nkiVmStackPop(vm));
-    nkbool in2 = nkiValueToInt(vm, nkiVmStackPop(vm));
+    nkbool in1 = nkiValueToInt(vm, nkiVmStackPop(vm)) != 0;
+    nkbool in2 = nkiValueToInt(vm, nkiVmStackPop(vm)) != 0;
     nkiVmStackPushInt(vm, in1 && in2);
 }
 
@@ -975,8 +975,8 @@ void nkiOpcode_or(struct NKVM *vm)
 {
     // Do NOT try to inline these function calls in this expression. C
     // shortcutting will ruin your day.
-    nkbool in1 = nkiValueToInt(vm, nkiVmStackPop(vm));
-    nkbool in2 = nkiValueToInt(vm, nkiVmStackPop(vm));
+    nkbool in1 = nkiValueToInt(vm, nkiVmStackPop(vm)) != 0;
+    nkbool in2 = nkiValueToInt(vm, nkiVmStackPop(vm)) != 0;
     nkiVmStackPushInt(vm, in1 || in2);
 }
 
-- 
2.43.0


From b7ffbd4d21c91f215aab2c11c5ef90fcb31b5ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:38 +0000
Subject: [PATCH 50/53] fix: The line of a #file directive is counted like any
 other.

---
 src/nktoken.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nktoken.c b/src/nktoken.c
index 5a14eb9..bd61d54 100644
--- a/src/nktoken.c
+++ b/src/nktoken.c
@@ -484,7 +484,8 @@ nkbool nkiCompilerTokenize(
                         return nkfalse;
                     }
 
-                    lineNumber = atol(tokenStringList[1]);
+                    // (The end of this line has yet to be counted.)
+                    lineNumber = (nkint32_t)((nkuint32_t)atol(tokenStringList[1]) - 1);
 
                     if(tokenCount > 2) {
                         fileIndex = nkiVmAddSourceFile(vm, tokenStringList[2]);
@@ -520,6 +521,9 @@ nkbool nkiCompilerTokenize(
             // Clean up.
             nkiCompilerFreeStringList(vm, tokenStringList, tokenCount);
 
+            // Leave the end of the line to be counted as whitespace.
+            i--;
+
         } else if(str[i] == '(') {
 
             nkiCompilerAddToken(vm, NK_TOKENTYPE_PAREN_OPEN, "(", NK_TOKEN_STATE_PARAMETERS);
-- 
2.43.0


From 511beb87879b0f9532341f824623a2d74fd8101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:55 +0000
Subject: [PATCH 51/53] fix: Errors in creating a coroutine name the line that
 creates it.

---
 src/nkvm.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index d3fc57f..3737989 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -650,8 +650,16 @@ struct NKVMFilePositionMarker *nkiVmFindSourceMarker(
 
 struct NKVMFilePositionMarker *nkiVmFindCurrentSourceMarker(struct NKVM *vm)
 {
+    struct NKVMExecutionContext *context = vm->currentExecutionContext;
+
+    // A coroutine that is still being created is at the line that
+    // creates it.
+    if(context->instructionPointer == NK_INVALID_VALUE && context->parent) {
+        context = context->parent;
+    }
+
     return nkiVmFindSourceMarker(
         vm,
-        vm->currentExecutionContext->instructionPointer &
+        context->instructionPointer &
         vm->instructionAddressMask);
 }
-- 
2.43.0


From 2afde9c7afd5b8d79a207e220107c4584b883f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:15 +0000
Subject: [PATCH 52/53] fix: Errors in function calls made by C code name the
 line that called the C code.

---
 src/nkfunc.c |  5 +++++
 src/nkvm.c   | 14 +++++++++++---
 src/nkvm.h   |  5 +++++
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/nkfunc.c b/src/nkfunc.c
index 9036049..2004389 100644
--- a/src/nkfunc.c
+++ b/src/nkfunc.c
@@ -82,6 +82,7 @@ void nkiVmCallFunction(
         // injected function call.
         struct NKVMExecutionContext *context = vm->currentExecutionContext;
         nkuint32_t oldInstructionPtr = context->instructionPointer;
+        nkuint32_t oldHostCallInstructionPtr = context->hostCallInstructionPointer;
         nkuint32_t i;
 
         // Push the function ID itself onto the stack.
@@ -108,6 +109,9 @@ void nkiVmCallFunction(
         // it moves to the next instruction, we'll check for the
         // instruction pointer to equal NK_UINT_MAX, indicating that
         // the function call is complete.
+        if(oldInstructionPtr != NK_UINT_MAX - 1) {
+            context->hostCallInstructionPointer = oldInstructionPtr;
+        }
         vm->currentExecutionContext->instructionPointer = (NK_UINT_MAX - 1);
 
         // Execute the call instruction. When this returns we will
@@ -151,6 +155,7 @@ void nkiVmCallFunction(
 
         // Restore old state.
         vm->currentExecutionContext->instructionPointer = oldInstructionPtr;
+        context->hostCallInstructionPointer = oldHostCallInstructionPtr;
     }
 }
 
diff --git a/src/nkvm.c b/src/nkvm.c
index 3737989..c621993 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -174,6 +174,7 @@ void nkiVmInitExecutionContext(
     context->coroutineObject.intData = 0;
     context->coroutineState = NK_COROUTINE_INVALID;
     context->hostCallDepth = 0;
+    context->hostCallInstructionPointer = 0;
 }
 
 void nkiVmDeinitExecutionContext(
@@ -651,6 +652,7 @@ struct NKVMFilePositionMarker *nkiVmFindSourceMarker(
 struct NKVMFilePositionMarker *nkiVmFindCurrentSourceMarker(struct NKVM *vm)
 {
     struct NKVMExecutionContext *context = vm->currentExecutionContext;
+    nkuint32_t instructionPointer;
 
     // A coroutine that is still being created is at the line that
     // creates it.
@@ -658,8 +660,14 @@ struct NKVMFilePositionMarker *nkiVmFindCurrentSourceMarker(struct NKVM *vm)
         context = context->parent;
     }
 
+    instructionPointer = context->instructionPointer;
+
+    // A function call made by C code is at the line that called the C
+    // code, until it is in the function.
+    if(instructionPointer == NK_UINT_MAX - 1) {
+        instructionPointer = context->hostCallInstructionPointer;
+    }
+
     return nkiVmFindSourceMarker(
-        vm,
-        context->instructionPointer &
-        vm->instructionAddressMask);
+        vm, instructionPointer & vm->instructionAddressMask);
 }
diff --git a/src/nkvm.h b/src/nkvm.h
index 3ab0d29..713cefd 100644
--- a/src/nkvm.h
+++ b/src/nkvm.h
@@ -184,6 +184,11 @@ struct NKVMExecutionContext
     // while this was the current context. The C stack frames of those
     // have to unwind before we can yield out of this context.
     nkuint32_t hostCallDepth;
+
+    // Where the context was when the C code made its innermost call
+    // into the VM. This is the position of everything that happens
+    // outside of the called function.
+    nkuint32_t hostCallInstructionPointer;
 };
 
 /// The VM object itself.
-- 
2.43.0


From 7fdbfb0c42f1b3defd7d9d314126ee761eee7bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:01 +0000
Subject: [PATCH 53/53] fix: Setting up a native function again frees its old
 argument types.

---
 src/nkx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nkx.c b/src/nkx.c
index 99cce71..1ee9c9d 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -510,6 +510,12 @@ static void nkiSetupExternalFunction_addArgs(
 
     if(func->argTypes) {
         nkiFree(vm, func->argTypes);
+        func->argTypes = NULL;
+    }
+
+    if(func->argExternalTypes) {
+        nkiFree(vm, func->argExternalTypes);
+        func->argExternalTypes = NULL;
     }
 
     func->argTypes = (enum NKValueType *)nkiMallocArray(
-- 
2.43.0

