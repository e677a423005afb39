From f8e2656fdfddf1b60221ca7a6c6a982364fb2547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:05 +0000
Subject: [PATCH 01/50] fix: CONTINUE in a REPEAT loop must still test the
 UNTIL condition

---
 src/nodes/loop/repeatUntil.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/nodes/loop/repeatUntil.cpp b/src/nodes/loop/repeatUntil.cpp
index 7308ff0..cb4a43c 100644
--- a/src/nodes/loop/repeatUntil.cpp
+++ b/src/nodes/loop/repeatUntil.cpp
@@ -14,9 +14,7 @@ std::unique_ptr<NodeResult> RepeatUntilNode::evaluate(PSC::Context &ctx) {
             block.run(ctx);
         } catch (BreakErrSignal&) {
             break;
-        } catch (ContinueErrSignal&) {
-            continue;
-        }
+        } catch (ContinueErrSignal&) {}
 
         auto conditionRes = node.evaluate(ctx);
         
-- 
2.43.0


From a5d18a6e7aaf8ed9901ad9c9af9f94aff5f96008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:26 +0000
Subject: [PATCH 02/50] fix: BREAK and CONTINUE must not leave the procedure
 they are executed in

---
 src/psc/procedure.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/psc/procedure.cpp b/src/psc/procedure.cpp
index b5d43d4..8dcf8e2 100644
--- a/src/psc/procedure.cpp
+++ b/src/psc/procedure.cpp
@@ -1,5 +1,7 @@
 #include "pch.h"
 
+#include "psc/error.h"
+#include "nodes/loop/control.h"
 #include "psc/scope/block.h"
 #include "psc/scope/context.h"
 #include "procedure.h"
@@ -32,7 +34,13 @@ std::vector<PSC::DataType> Procedure::getTypes() const {
 }
 
 void Procedure::run(PSC::Context &ctx) {
-    block->run(ctx);
+    try {
+        block->run(ctx);
+    } catch (BreakErrSignal &e) {
+        throw PSC::InvalidUsageError(e.token, ctx, "'BREAK' statement");
+    } catch (ContinueErrSignal &e) {
+        throw PSC::InvalidUsageError(e.token, ctx, "'CONTINUE' statement");
+    }
 }
 
 Function::Function(
-- 
2.43.0


From 2e17b7073c51ad8543045cffbcb04c38a14ae5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:28 +0000
Subject: [PATCH 03/50] fix: a FOR loop must not use a constant as its iterator

---
 src/nodes/loop/for.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nodes/loop/for.cpp b/src/nodes/loop/for.cpp
index 9cbc72f..18a18ee 100644
--- a/src/nodes/loop/for.cpp
+++ b/src/nodes/loop/for.cpp
@@ -23,6 +23,9 @@ std::unique_ptr<NodeResult> ForLoopNode::evaluate(PSC::Context &ctx) {
     if (iterator->type != PSC::DataType::INTEGER)
         throw PSC::RuntimeError(token, ctx, "Iterator variable must be of type INTEGER");
 
+    if (iterator->isConstant)
+        throw PSC::ConstAssignError(token, ctx, iterator->name);
+
 
     auto startRes = start.evaluate(ctx);
 
-- 
2.43.0


From 1a2ffffda64d0a9736054767b6325736aa2e0e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:30 +0000
Subject: [PATCH 04/50] fix: a FOR loop must not use an array as its iterator

---
 src/nodes/loop/for.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nodes/loop/for.cpp b/src/nodes/loop/for.cpp
index 18a18ee..ba6247e 100644
--- a/src/nodes/loop/for.cpp
+++ b/src/nodes/loop/for.cpp
@@ -16,6 +16,9 @@ ForLoopNode::ForLoopNode(const Token &token, const Token &identifier, Node &star
 std::unique_ptr<NodeResult> ForLoopNode::evaluate(PSC::Context &ctx) {
     PSC::Variable *iterator = ctx.getVariable(identifier.value);
     if (iterator == nullptr) {
+        if (ctx.getArray(identifier.value) != nullptr)
+            throw PSC::RuntimeError(token, ctx, "Iterator variable must be of type INTEGER");
+
         iterator = new PSC::Variable(identifier.value, PSC::DataType::INTEGER, false, &ctx);
         ctx.addVariable(iterator);
     }
-- 
2.43.0


From d7891fa29f902681d89eadc09627f5e40d223a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:31 +0000
Subject: [PATCH 05/50] fix: CASE ranges must compare INTEGER values exactly

---
 src/nodes/selection/case.cpp | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/nodes/selection/case.cpp b/src/nodes/selection/case.cpp
index 941c025..0b6facb 100644
--- a/src/nodes/selection/case.cpp
+++ b/src/nodes/selection/case.cpp
@@ -53,26 +53,18 @@ RangeCaseComponent::RangeCaseComponent(PSC::Block &block, Node &lowerBound, Node
 {}
 
 bool RangeCaseComponent::match(const NodeResult &value, PSC::Context &ctx) {
-    PSC::real_t testValue;
-    if (value.type == PSC::DataType::INTEGER) testValue = value.get<PSC::Integer>().value;
-    else if (value.type == PSC::DataType::REAL) testValue = value.get<PSC::Real>().value;
-    else return false;
+    if (value.type != PSC::DataType::INTEGER && value.type != PSC::DataType::REAL) return false;
 
-    PSC::real_t lowerVal;
     auto lower = lowerBound.evaluate(ctx);
+    if (lower->type != PSC::DataType::INTEGER && lower->type != PSC::DataType::REAL)
+        throw PSC::RuntimeError(lowerBound.getToken(), ctx, "Lower bound must be of type INTEGER or REAL");
 
-    if (lower->type == PSC::DataType::INTEGER) lowerVal = lower->get<PSC::Integer>().value;
-    else if (lower->type == PSC::DataType::REAL) lowerVal = lower->get<PSC::Real>().value;
-    else throw PSC::RuntimeError(lowerBound.getToken(), ctx, "Lower bound must be of type INTEGER or REAL");
-
-    PSC::real_t upperVal;
     auto upper = upperBound.evaluate(ctx);
+    if (upper->type != PSC::DataType::INTEGER && upper->type != PSC::DataType::REAL)
+        throw PSC::RuntimeError(upperBound.getToken(), ctx, "Upper bound must be of type INTEGER or REAL");
 
-    if (upper->type == PSC::DataType::INTEGER) upperVal = upper->get<PSC::Integer>().value;
-    else if (upper->type == PSC::DataType::REAL) upperVal = upper->get<PSC::Real>().value;
-    else throw PSC::RuntimeError(upperBound.getToken(), ctx, "Upper bound must be of type INTEGER or REAL");
-
-    return (lowerVal <= testValue) && (testValue <= upperVal);
+    const PSC::Number &testValue = value.get<PSC::Number>();
+    return (lower->get<PSC::Number>() <= testValue)->value && (testValue <= upper->get<PSC::Number>())->value;
 }
 
 
-- 
2.43.0


From 44beb63f2aa1a708ffa93d37ef5ea556636d3561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:57 +0000
Subject: [PATCH 06/50] fix: INPUT must not change a constant

---
 src/nodes/io/io.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nodes/io/io.cpp b/src/nodes/io/io.cpp
index e9e2202..0fd0d29 100644
--- a/src/nodes/io/io.cpp
+++ b/src/nodes/io/io.cpp
@@ -82,6 +82,9 @@ std::unique_ptr<NodeResult> InputNode::evaluate(PSC::Context &ctx) {
         ctx.addVariable(var);
     }
 
+    if (var->isConstant)
+        throw PSC::ConstAssignError(token, ctx, var->name);
+
     PSC::String inputStr;
     getLine(inputStr.value, "");
 
-- 
2.43.0


From a0cf336b0340f5796cb69addd6fd021e38cd2ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:59 +0000
Subject: [PATCH 07/50] fix: READFILE and GETRECORD must not change a constant

---
 src/nodes/io/file.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index cb67719..4fd3f4b 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -41,6 +41,8 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
     }
     if (var->type != PSC::DataType::STRING)
         throw PSC::RuntimeError(token, ctx, "Variable of type STRING expected");
+    if (var->isConstant)
+        throw PSC::ConstAssignError(token, ctx, var->name);
 
     auto &filename = filenameRes->get<PSC::String>();
     PSC::File *file = ctx.getFileManager().getFile(filename);
@@ -183,6 +185,8 @@ std::unique_ptr<NodeResult> GetRecordNode::evaluate(PSC::Context &ctx) {
         throw PSC::RuntimeError(token, ctx, "Pointers cannot be stored in random files");
 
     if (variable != nullptr) {
+        if (variable->isConstant)
+            throw PSC::ConstAssignError(token, ctx, variable->name);
         if (!file->getRecord(*variable, ctx))
             throw PSC::RuntimeError(token, ctx, "Failed to read data from random file");
     } else {
-- 
2.43.0


From 17546314cc108afa4d38c4228132ff316381ca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:01 +0000
Subject: [PATCH 08/50] fix: READFILE must store into the variable itself, also
 through BYREF

---
 src/nodes/io/file.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index 4fd3f4b..a0b0c2a 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -51,9 +51,7 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
     if (file->getMode() == PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "Attempting to use 'READFILE' on random file. Use 'GETRECORD' instead.");
     
-    PSC::String *data = new PSC::String;
-    *data = file->read();
-    var->set(data);
+    var->get<PSC::String>() = file->read();
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
-- 
2.43.0


From 1001efa0678322b794d174f7e3a887aee0edc170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:20 +0000
Subject: [PATCH 09/50] fix: READFILE on a WRITE or APPEND handle must be a
 runtime error without effect

---
 src/nodes/io/file.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index a0b0c2a..602007a 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -34,6 +34,15 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
     if (filenameRes->type != PSC::DataType::STRING)
         throw PSC::RuntimeError(token, ctx, "Expected string for file name");
 
+    auto &filename = filenameRes->get<PSC::String>();
+    PSC::File *file = ctx.getFileManager().getFile(filename);
+    if (file == nullptr)
+        throw PSC::FileNotOpenError(token, ctx, filename.value);
+    if (file->getMode() == PSC::FileMode::RANDOM)
+        throw PSC::RuntimeError(token, ctx, "Attempting to use 'READFILE' on random file. Use 'GETRECORD' instead.");
+    if (file->getMode() != PSC::FileMode::READ)
+        throw PSC::RuntimeError(token, ctx, "File '" + filename.value + "' is not opened for reading");
+
     PSC::Variable *var = ctx.getVariable(identifier.value);
     if (var == nullptr) {
         var = new PSC::Variable(identifier.value, PSC::DataType::STRING, false, &ctx);
@@ -44,13 +53,6 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
     if (var->isConstant)
         throw PSC::ConstAssignError(token, ctx, var->name);
 
-    auto &filename = filenameRes->get<PSC::String>();
-    PSC::File *file = ctx.getFileManager().getFile(filename);
-    if (file == nullptr)
-        throw PSC::FileNotOpenError(token, ctx, filename.value);
-    if (file->getMode() == PSC::FileMode::RANDOM)
-        throw PSC::RuntimeError(token, ctx, "Attempting to use 'READFILE' on random file. Use 'GETRECORD' instead.");
-    
     var->get<PSC::String>() = file->read();
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
-- 
2.43.0


From 7d0ce7c010a1ec3ad41ccbf43c58f7c105cb4762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:22 +0000
Subject: [PATCH 10/50] fix: READFILE into an array must be a runtime error

---
 src/nodes/io/file.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index 602007a..b2772c5 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -45,6 +45,8 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
 
     PSC::Variable *var = ctx.getVariable(identifier.value);
     if (var == nullptr) {
+        if (ctx.getArray(identifier.value) != nullptr)
+            throw PSC::ArrayDirectAccessError(token, ctx);
         var = new PSC::Variable(identifier.value, PSC::DataType::STRING, false, &ctx);
         ctx.addVariable(var);
     }
-- 
2.43.0


From f0fcd796475c0e8f044c8f47804a2c4db2eccd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:04 +0000
Subject: [PATCH 11/50] fix: a name declared later in an activation must hide
 the global one

---
 src/psc/scope/context.cpp | 13 ++++++++++---
 src/psc/scope/context.h   |  2 ++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 6b64d51..7142682 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -47,9 +47,7 @@ void Context::copyVariableData(const Context &other) {
 }
 
 Context::~Context() {
-    for (ResolverCache *c : cache) {
-        c->clear();
-    }
+    clearCaches();
 }
 
 std::unique_ptr<Context> Context::createGlobalContext() {
@@ -121,7 +119,15 @@ const std::string &Context::getName() const {
     return name;
 }
 
+void Context::clearCaches() {
+    for (ResolverCache *c : cache) {
+        c->clear();
+    }
+    cache.clear();
+}
+
 void Context::addVariable(Variable *variable) {
+    clearCaches(); // the new name may hide a global one
     variables.emplace_back(variable);
 }
 
@@ -175,6 +181,7 @@ Function *Context::getFunction(const std::string &functionName) {
 }
 
 void Context::addArray(std::unique_ptr<Array> &&array) {
+    clearCaches();
     arrays.emplace_back(std::move(array));
 }
 
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index deba644..bf0c492 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -27,6 +27,8 @@ namespace PSC {
 
         std::vector<ResolverCache*> cache;
 
+        void clearCaches();
+
     public:
         const Token *switchToken = nullptr;
 
-- 
2.43.0


From 1bf36d0e4ba855e1dc89c24c55277e30a80174d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:27 +0000
Subject: [PATCH 12/50] fix: a local array must hide a global variable of the
 same name

---
 src/nodes/io/file.cpp           | 20 +++++++++++++-------
 src/nodes/loop/for.cpp          |  9 +++++----
 src/nodes/variable/resolver.cpp | 14 ++++----------
 src/psc/scope/context.cpp       |  8 ++++++++
 src/psc/scope/context.h         |  3 +++
 5 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index b2772c5..4f4e875 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -43,10 +43,12 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
     if (file->getMode() != PSC::FileMode::READ)
         throw PSC::RuntimeError(token, ctx, "File '" + filename.value + "' is not opened for reading");
 
-    PSC::Variable *var = ctx.getVariable(identifier.value);
+    PSC::DataHolder *holder = ctx.getHolder(identifier.value);
+    if (holder != nullptr && holder->isArray())
+        throw PSC::ArrayDirectAccessError(token, ctx);
+
+    PSC::Variable *var = static_cast<PSC::Variable*>(holder);
     if (var == nullptr) {
-        if (ctx.getArray(identifier.value) != nullptr)
-            throw PSC::ArrayDirectAccessError(token, ctx);
         var = new PSC::Variable(identifier.value, PSC::DataType::STRING, false, &ctx);
         ctx.addVariable(var);
     }
@@ -178,8 +180,10 @@ std::unique_ptr<NodeResult> GetRecordNode::evaluate(PSC::Context &ctx) {
     if (file->getMode() != PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "'GETRECORD' can only be used for random files");
 
-    PSC::Variable *variable = ctx.getVariable(identifier.value);
-    PSC::Array *array = ctx.getArray(identifier.value);
+    PSC::DataHolder *holder = ctx.getHolder(identifier.value);
+    bool isArray = holder != nullptr && holder->isArray();
+    PSC::Variable *variable = isArray ? nullptr : static_cast<PSC::Variable*>(holder);
+    PSC::Array *array = isArray ? static_cast<PSC::Array*>(holder) : nullptr;
     if (variable == nullptr && array == nullptr)
         throw PSC::NotDefinedError(identifier, ctx, identifier.value);
     if ((variable != nullptr && variable->type == PSC::DataType::POINTER)
@@ -215,8 +219,10 @@ std::unique_ptr<NodeResult> PutRecordNode::evaluate(PSC::Context &ctx) {
     if (file->getMode() != PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "'PUTRECORD' can only be used for random files");
 
-    PSC::Variable *variable = ctx.getVariable(identifier.value);
-    PSC::Array *array = ctx.getArray(identifier.value);
+    PSC::DataHolder *holder = ctx.getHolder(identifier.value);
+    bool isArray = holder != nullptr && holder->isArray();
+    PSC::Variable *variable = isArray ? nullptr : static_cast<PSC::Variable*>(holder);
+    PSC::Array *array = isArray ? static_cast<PSC::Array*>(holder) : nullptr;
     if (variable == nullptr && array == nullptr)
         throw PSC::NotDefinedError(identifier, ctx, identifier.value);
     if ((variable != nullptr && variable->type == PSC::DataType::POINTER)
diff --git a/src/nodes/loop/for.cpp b/src/nodes/loop/for.cpp
index ba6247e..b1c34ee 100644
--- a/src/nodes/loop/for.cpp
+++ b/src/nodes/loop/for.cpp
@@ -14,11 +14,12 @@ ForLoopNode::ForLoopNode(const Token &token, const Token &identifier, Node &star
 {}
 
 std::unique_ptr<NodeResult> ForLoopNode::evaluate(PSC::Context &ctx) {
-    PSC::Variable *iterator = ctx.getVariable(identifier.value);
-    if (iterator == nullptr) {
-        if (ctx.getArray(identifier.value) != nullptr)
-            throw PSC::RuntimeError(token, ctx, "Iterator variable must be of type INTEGER");
+    PSC::DataHolder *holder = ctx.getHolder(identifier.value);
+    if (holder != nullptr && holder->isArray())
+        throw PSC::RuntimeError(token, ctx, "Iterator variable must be of type INTEGER");
 
+    PSC::Variable *iterator = static_cast<PSC::Variable*>(holder);
+    if (iterator == nullptr) {
         iterator = new PSC::Variable(identifier.value, PSC::DataType::INTEGER, false, &ctx);
         ctx.addVariable(iterator);
     }
diff --git a/src/nodes/variable/resolver.cpp b/src/nodes/variable/resolver.cpp
index 6b4db88..c485a6c 100644
--- a/src/nodes/variable/resolver.cpp
+++ b/src/nodes/variable/resolver.cpp
@@ -158,16 +158,10 @@ PSC::DataHolder &SimpleVariableSource::resolve(PSC::Context &ctx) {
     PSC::DataHolder *cached = cache.get(ctx);
     if (cached != nullptr) return *cached;
 
-    PSC::Variable *var = ctx.getVariable(token.value);
-    if (var != nullptr) {
-        cache.set(var, ctx);
-        return *var;
-    }
-
-    PSC::Array *arr = ctx.getArray(token.value);
-    if (arr != nullptr) {
-        cache.set(arr, ctx);
-        return *arr;
+    PSC::DataHolder *holder = ctx.getHolder(token.value);
+    if (holder != nullptr) {
+        cache.set(holder, ctx);
+        return *holder;
     }
 
     throw PSC::NotDefinedError(token, ctx, "Identifier '" + token.value + "'");
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 7142682..948ed68 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -140,6 +140,14 @@ Variable *Context::getVariable(const std::string &varName, bool global) {
     return getGlobalContext()->getVariable(varName);
 }
 
+DataHolder *Context::getHolder(const std::string &name, bool global) {
+    if (Variable *variable = getVariable(name, false)) return variable;
+    if (Array *array = getArray(name, false)) return array;
+
+    if (!global || parent == nullptr) return nullptr;
+    return getGlobalContext()->getHolder(name);
+}
+
 const std::vector<std::unique_ptr<Variable>> &Context::getVariables() const {
     return variables;
 }
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index bf0c492..b8929b1 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -64,6 +64,9 @@ namespace PSC {
 
         Variable *getVariable(const std::string &varName, bool global = true);
 
+        // The variable or array a name denotes: locals first, then globals
+        DataHolder *getHolder(const std::string &name, bool global = true);
+
         const std::vector<std::unique_ptr<Variable>> &getVariables() const;
 
         const std::vector<std::unique_ptr<Array>> &getArrays() const;
-- 
2.43.0


From 0545411c16046577f4d4443244475aa1959b7670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:04 +0000
Subject: [PATCH 13/50] fix: identify user-defined types by their definition,
 not by name

---
 src/nodes/eval/arithmetic.cpp      |  4 +--
 src/nodes/variable/composite.cpp   |  2 +-
 src/nodes/variable/enum.cpp        |  2 +-
 src/nodes/variable/variable.cpp    |  2 +-
 src/psc/scope/context.cpp          | 28 +++++++++------
 src/psc/scope/context.h            |  6 +++-
 src/psc/types/datatypes.h          |  8 ++---
 src/psc/types/type_definitions.cpp |  4 +--
 src/psc/types/type_definitions.h   |  4 ++-
 src/psc/types/type_names.cpp       |  6 ++--
 src/psc/types/types.cpp            |  9 +++--
 src/psc/types/types.h              | 11 ++++--
 src/psc/types/userType.cpp         | 55 +++++++++++++++++-------------
 src/psc/variable.cpp               |  6 ++--
 14 files changed, 85 insertions(+), 62 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index 86f63e6..0680412 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -151,9 +151,9 @@ std::unique_ptr<NodeResult> ArithmeticOperationNode::evaluate(PSC::Context &ctx)
         res %= enumSize;
         if (res < 0) res += enumSize;
 
-        std::unique_ptr<PSC::Enum> resEnum = std::make_unique<PSC::Enum>(definition.name);
+        std::unique_ptr<PSC::Enum> resEnum = std::make_unique<PSC::Enum>(definition);
         resEnum->idx = res;
-        return std::make_unique<NodeResult>(std::move(resEnum), PSC::DataType::ENUM);
+        return std::make_unique<NodeResult>(std::move(resEnum), leftRes->type);
     }
 
     if ((leftRes->type != PSC::DataType::INTEGER && leftRes->type != PSC::DataType::REAL)
diff --git a/src/nodes/variable/composite.cpp b/src/nodes/variable/composite.cpp
index 50484da..6c005cc 100644
--- a/src/nodes/variable/composite.cpp
+++ b/src/nodes/variable/composite.cpp
@@ -11,7 +11,7 @@ std::unique_ptr<NodeResult> CompositeDefineNode::evaluate(PSC::Context &ctx) {
     if (ctx.isIdentifierType(name, false))
         throw PSC::RedefinitionError(token, ctx, name.value);
     
-    PSC::CompositeTypeDefinition definition(name.value, initBlock);
+    PSC::CompositeTypeDefinition definition(name.value, initBlock, ctx);
     ctx.createCompositeDefinition(std::move(definition));
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
diff --git a/src/nodes/variable/enum.cpp b/src/nodes/variable/enum.cpp
index 6b26955..3df3680 100644
--- a/src/nodes/variable/enum.cpp
+++ b/src/nodes/variable/enum.cpp
@@ -11,7 +11,7 @@ std::unique_ptr<NodeResult> EnumDefineNode::evaluate(PSC::Context &ctx) {
     if (ctx.isIdentifierType(name, false))
         throw PSC::RedefinitionError(token, ctx, name.value);
 
-    PSC::EnumTypeDefinition definition(name.value, std::move(values));
+    PSC::EnumTypeDefinition definition(name.value, std::vector<std::string>(values));
     ctx.createEnumDefinition(std::move(definition));
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index b287444..3e25074 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -147,7 +147,7 @@ std::unique_ptr<NodeResult> AccessNode::evaluate(PSC::Context &ctx) {
     } catch (PSC::NotDefinedError &e) {
         auto def = ctx.getEnumElement(token.value);
         if (def != nullptr)
-            return std::make_unique<NodeResult>(def, PSC::DataType(PSC::DataType::ENUM, &def->definitionName));
+            return std::make_unique<NodeResult>(def, def->getType());
         throw e;
     }
 
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 948ed68..927162e 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -14,8 +14,9 @@ Context::Context(Context *parent, const std::string &name, bool isFunctionCtx, P
     : parent(parent), name(name), isFunctionCtx(isFunctionCtx), isCompositeCtx(false), returnType(returnType)
 {}
 
-Context::Context(Context *parent, const std::string &name, bool isCompositeCtx)
-    : parent(parent), name(name), isFunctionCtx(false), isCompositeCtx(isCompositeCtx), returnType(PSC::DataType::NONE)
+Context::Context(Context *parent, const CompositeTypeDefinition &definition)
+    : parent(parent), name(definition.name), isFunctionCtx(false), isCompositeCtx(true), returnType(PSC::DataType::NONE),
+    compositeDefinition(&definition)
 {}
 
 template<typename T, typename... Args>
@@ -32,7 +33,8 @@ Context::Context(const Context &other)
     name(other.name),
     isFunctionCtx(other.isFunctionCtx),
     isCompositeCtx(other.isCompositeCtx),
-    returnType(other.returnType)
+    returnType(other.returnType),
+    compositeDefinition(other.compositeDefinition)
 {
     copyPtrVector(other.variables, variables, this);
     copyPtrVector(other.arrays, arrays);
@@ -115,6 +117,10 @@ Context *Context::getGlobalContext() {
     return ctx;
 }
 
+Context *Context::getOuterTypeContext() {
+    return isCompositeCtx ? &compositeDefinition->ctx : getGlobalContext();
+}
+
 const std::string &Context::getName() const {
     return name;
 }
@@ -216,15 +222,15 @@ PSC::DataType Context::getType(const Token &token, bool global) {
     } else if (token.type == TokenType::IDENTIFIER) {
         auto *enumDefinition = getEnumDefinition(token.value, global);
         if (enumDefinition != nullptr)
-            return PSC::DataType(PSC::DataType::ENUM, &enumDefinition->name);
+            return PSC::DataType(PSC::DataType::ENUM, enumDefinition);
         
         auto *pointerDefinition = getPointerDefinition(token.value, global);
         if (pointerDefinition != nullptr)
-            return PSC::DataType(PSC::DataType::POINTER, &pointerDefinition->name);
+            return PSC::DataType(PSC::DataType::POINTER, pointerDefinition);
         
         auto *compositeDefinition = getCompositeDefinition(token.value, global);
         if (compositeDefinition != nullptr)
-            return PSC::DataType(PSC::DataType::COMPOSITE, &compositeDefinition->name);
+            return PSC::DataType(PSC::DataType::COMPOSITE, compositeDefinition);
         
         return PSC::DataType(PSC::DataType::NONE);
     }
@@ -247,13 +253,13 @@ Enum *Context::getEnumElement(const std::string &value, bool global) {
     for (auto &definition : enums) {
         for (size_t i = 0; i < definition->values.size(); i++) {
             if (definition->values[i] == value) {
-                auto ptr = new Enum(definition->name);
+                auto ptr = new Enum(*definition);
                 ptr->idx = i;
                 return ptr;
             }
         }
     }
-    if (global && parent != nullptr) return getGlobalContext()->getEnumElement(value);
+    if (global && parent != nullptr) return getOuterTypeContext()->getEnumElement(value);
     return nullptr;
 }
 
@@ -273,7 +279,7 @@ const EnumTypeDefinition *Context::getEnumDefinition(const std::string &name, bo
     for (const auto &e : enums) {
         if (e->name == name) return e.get();
     }
-    if (global && parent != nullptr) return getGlobalContext()->getEnumDefinition(name);
+    if (global && parent != nullptr) return getOuterTypeContext()->getEnumDefinition(name);
     return nullptr;
 }
 
@@ -281,7 +287,7 @@ const PointerTypeDefinition *Context::getPointerDefinition(const std::string &na
     for (const auto &p : pointers) {
         if (p->name == name) return p.get();
     }
-    if (global && parent != nullptr) return getGlobalContext()->getPointerDefinition(name);
+    if (global && parent != nullptr) return getOuterTypeContext()->getPointerDefinition(name);
     return nullptr;
 }
 
@@ -289,7 +295,7 @@ const CompositeTypeDefinition *Context::getCompositeDefinition(const std::string
     for (const auto &c : composites) {
         if (c->name == name) return c.get();
     }
-    if (global && parent != nullptr) return getGlobalContext()->getCompositeDefinition(name);
+    if (global && parent != nullptr) return getOuterTypeContext()->getCompositeDefinition(name);
     return nullptr;
 }
 
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index b8929b1..3647fe3 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -35,6 +35,7 @@ namespace PSC {
         const bool isFunctionCtx, isCompositeCtx;
         std::unique_ptr<NodeResult> returnValue;
         const PSC::DataType returnType;
+        const CompositeTypeDefinition *const compositeDefinition = nullptr;
 
         Context(Context *parent, const std::string &name);
 
@@ -42,7 +43,7 @@ namespace PSC {
         Context(Context *parent, const std::string &name, bool isFunctionCtx, PSC::DataType returnType);
 
         // Composites
-        Context(Context *parent, const std::string &name, bool isCompositeCtx);
+        Context(Context *parent, const CompositeTypeDefinition &definition);
 
         // For copying composites
         explicit Context(const Context &other);
@@ -58,6 +59,9 @@ namespace PSC {
 
         Context *getGlobalContext();
 
+        // Where types that are not defined in this context are looked up
+        Context *getOuterTypeContext();
+
         const std::string &getName() const;
 
         void addVariable(Variable *variable);
diff --git a/src/psc/types/datatypes.h b/src/psc/types/datatypes.h
index 97787ee..7941d6b 100644
--- a/src/psc/types/datatypes.h
+++ b/src/psc/types/datatypes.h
@@ -1,19 +1,19 @@
 #pragma once
-#include <string>
-
 namespace PSC {
+    struct AbstractTypeDefinition;
+
     struct DataType {
         enum class Type {
             NONE, INTEGER, REAL, BOOLEAN, CHAR, STRING, DATE, ENUM, POINTER, COMPOSITE
         };
 
         using enum Type;
-        const std::string *name;
+        const AbstractTypeDefinition *definition; // Only for user defined types
         Type type;
 
         DataType();
 
-        DataType(Type type, const std::string *name = nullptr);
+        DataType(Type type, const AbstractTypeDefinition *definition = nullptr);
 
         bool operator==(Type other) const;
 
diff --git a/src/psc/types/type_definitions.cpp b/src/psc/types/type_definitions.cpp
index 97fa632..e565ce2 100644
--- a/src/psc/types/type_definitions.cpp
+++ b/src/psc/types/type_definitions.cpp
@@ -14,5 +14,5 @@ EnumTypeDefinition::EnumTypeDefinition(const std::string &name, std::vector<std:
 PointerTypeDefinition::PointerTypeDefinition(const std::string &name, DataType type)
     : AbstractTypeDefinition(name), type(type) {}
 
-CompositeTypeDefinition::CompositeTypeDefinition(const std::string &name, PSC::Block &initBlock)
-    : AbstractTypeDefinition(name), initBlock(initBlock) {}
+CompositeTypeDefinition::CompositeTypeDefinition(const std::string &name, PSC::Block &initBlock, Context &ctx)
+    : AbstractTypeDefinition(name), initBlock(initBlock), ctx(ctx) {}
diff --git a/src/psc/types/type_definitions.h b/src/psc/types/type_definitions.h
index f203e43..8647675 100644
--- a/src/psc/types/type_definitions.h
+++ b/src/psc/types/type_definitions.h
@@ -6,6 +6,7 @@
 
 namespace PSC {
     class Block;
+    class Context;
 
     struct AbstractTypeDefinition {
         const std::string name;
@@ -27,7 +28,8 @@ namespace PSC {
 
     struct CompositeTypeDefinition : AbstractTypeDefinition {
         PSC::Block &initBlock;
+        Context &ctx; // Where the types of the members are looked up
 
-        CompositeTypeDefinition(const std::string &name, PSC::Block &initBlock);
+        CompositeTypeDefinition(const std::string &name, PSC::Block &initBlock, Context &ctx);
     };
 }
diff --git a/src/psc/types/type_names.cpp b/src/psc/types/type_names.cpp
index b58550e..5488f4f 100644
--- a/src/psc/types/type_names.cpp
+++ b/src/psc/types/type_names.cpp
@@ -27,15 +27,15 @@ std::ostream &PSC::operator<<(std::ostream &os, PSC::DataType &type) {
             break;
         case PSC::DataType::ENUM:
             os << "Enum";
-            if (type.name != nullptr) os << "(" << *type.name << ")";
+            if (type.definition != nullptr) os << "(" << type.definition->name << ")";
             break;
         case PSC::DataType::POINTER:
             os << "Pointer";
-            if (type.name != nullptr) os << "(" << *type.name << ")";
+            if (type.definition != nullptr) os << "(" << type.definition->name << ")";
             break;
         case PSC::DataType::COMPOSITE:
             os << "Composite";
-            if (type.name != nullptr) os << "(" << *type.name << ")";
+            if (type.definition != nullptr) os << "(" << type.definition->name << ")";
             break;
     }
     return os;
diff --git a/src/psc/types/types.cpp b/src/psc/types/types.cpp
index 0d831f0..8a9f20d 100644
--- a/src/psc/types/types.cpp
+++ b/src/psc/types/types.cpp
@@ -4,16 +4,15 @@
 
 using namespace PSC;
 
-DataType::DataType() : type(PSC::DataType::NONE) {}
+DataType::DataType() : DataType(PSC::DataType::NONE) {}
 
-DataType::DataType(Type type, const std::string *name)
-    : name(name), type(type) {}
+DataType::DataType(Type type, const AbstractTypeDefinition *definition)
+    : definition(definition), type(type) {}
 
 bool DataType::operator==(Type other) const {
     return type == other;
 }
 
 bool DataType::operator==(const DataType &other) const {
-    if (name == nullptr || other.name == nullptr) return operator==(other.type);
-    return type == other.type && *name == *other.name;
+    return type == other.type && definition == other.definition;
 }
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index 0221de6..6b9cc35 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -271,10 +271,11 @@ namespace PSC {
 
     class Enum : public Custom {
     public:
+        const EnumTypeDefinition &definition;
         const std::string definitionName;
         std::size_t idx = 0;
 
-        Enum(const std::string &name);
+        Enum(const EnumTypeDefinition &definition);
 
         Enum(const Enum &other) = default;
 
@@ -282,6 +283,8 @@ namespace PSC {
 
         const EnumTypeDefinition &getDefinition(Context &ctx) const;
 
+        DataType getType() const;
+
         std::string getString(Context &ctx) const;
 
         virtual void dump(std::ostream &out) const override;
@@ -295,9 +298,10 @@ namespace PSC {
         Context *varCtx = nullptr;
 
     public:
+        const PointerTypeDefinition &definition;
         const std::string definitionName;
 
-        Pointer(const std::string &name);
+        Pointer(const PointerTypeDefinition &definition);
 
         Pointer(const Pointer &other);
 
@@ -318,10 +322,11 @@ namespace PSC {
 
     class Composite : public Custom {
     public:
+        const CompositeTypeDefinition &definition;
         const std::string definitionName;
         std::unique_ptr<Context> ctx;
 
-        Composite(const std::string &name, Context &parent);
+        Composite(const CompositeTypeDefinition &definition, Context &parent);
 
         Composite(const Composite &other);
 
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index 993eecb..7e5e2d3 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -6,15 +6,21 @@
 
 using namespace PSC;
 
-Enum::Enum(const std::string &name) : definitionName(name) {}
+Enum::Enum(const EnumTypeDefinition &definition)
+    : definition(definition), definitionName(definition.name)
+{}
 
 void Enum::operator=(const Enum &other) {
-    if (definitionName != other.definitionName) std::abort();
+    if (&definition != &other.definition) std::abort();
     idx = other.idx;
 }
 
-const EnumTypeDefinition &Enum::getDefinition(Context &ctx) const {
-    return *ctx.getEnumDefinition(definitionName);
+const EnumTypeDefinition &Enum::getDefinition(Context&) const {
+    return definition;
+}
+
+DataType Enum::getType() const {
+    return DataType(DataType::ENUM, &definition);
 }
 
 std::string Enum::getString(Context &ctx) const {
@@ -26,28 +32,28 @@ void Enum::dump(std::ostream &out) const {
     out << "ENUM " << definitionName << " " << idx;
 }
 
-bool Enum::load(std::istream &in, Context &ctx) {
+bool Enum::load(std::istream &in, Context&) {
     std::string s;
     in >> s;
     if (s != "ENUM") return false;
 
     in >> s;
-    const EnumTypeDefinition *def = ctx.getEnumDefinition(s);
-    if (def == nullptr || (def->name != definitionName)) return false;
+    if (s != definitionName) return false;
 
     size_t idx1;
     in >> idx1;
-    if (in.fail() || idx1 >= def->values.size()) return false;
+    if (in.fail() || idx1 >= definition.values.size()) return false;
 
     idx = idx1;
     return true;
 }
 
-Pointer::Pointer(const std::string &name)
-    : definitionName(name) {}
+Pointer::Pointer(const PointerTypeDefinition &definition)
+    : definition(definition), definitionName(definition.name)
+{}
 
 Pointer::Pointer(const Pointer &other)
-    : ptr(other.ptr), varCtx(other.varCtx), definitionName(other.definitionName)
+    : ptr(other.ptr), varCtx(other.varCtx), definition(other.definition), definitionName(other.definitionName)
 {}
 
 void Pointer::setValue(Variable *value) {
@@ -59,7 +65,7 @@ void Pointer::setValue(Variable *value) {
 }
 
 void Pointer::operator=(const Pointer &other) {
-    if (definitionName != other.definitionName) std::abort();
+    if (&definition != &other.definition) std::abort();
     ptr = other.ptr;
     varCtx = other.varCtx;
 }
@@ -72,8 +78,8 @@ const Context *Pointer::getCtx() const {
     return varCtx;
 }
 
-const PointerTypeDefinition &Pointer::getDefinition(Context &ctx) const {
-    return *ctx.getPointerDefinition(definitionName);
+const PointerTypeDefinition &Pointer::getDefinition(Context&) const {
+    return definition;
 }
 
 void Pointer::dump(std::ostream&) const {}
@@ -83,20 +89,22 @@ bool Pointer::load(std::istream&, Context&) {
 }
 
 
-Composite::Composite(const std::string &name, Context &parent)
-    : definitionName(name),
-    ctx(std::make_unique<Context>(&parent, definitionName, true))
+Composite::Composite(const CompositeTypeDefinition &definition, Context &parent)
+    : definition(definition),
+    definitionName(definition.name),
+    ctx(std::make_unique<Context>(&parent, definition))
 {
-    getDefinition(*ctx).initBlock.run(*ctx);
+    definition.initBlock.run(*ctx);
 }
 
 Composite::Composite(const Composite &other)
-    : definitionName(other.definitionName),
+    : definition(other.definition),
+    definitionName(other.definitionName),
     ctx(std::make_unique<Context>(*other.ctx))
 {}
 
 void Composite::operator=(const Composite &other) {
-    if (definitionName != other.definitionName) std::abort();
+    if (&definition != &other.definition) std::abort();
     ctx->copyVariableData(*other.ctx);
 }
 
@@ -108,8 +116,8 @@ DataHolder *Composite::getMember(const std::string &name) {
     return arr;
 }
 
-const CompositeTypeDefinition &Composite::getDefinition(PSC::Context &ctx) const {
-    return *ctx.getCompositeDefinition(definitionName);
+const CompositeTypeDefinition &Composite::getDefinition(PSC::Context&) const {
+    return definition;
 }
 
 void Composite::dump(std::ostream &out) const {
@@ -135,8 +143,7 @@ bool Composite::load(std::istream &in, Context &ctx) {
     if (s != "COMPOSITE") return false;
 
     in >> s;
-    const CompositeTypeDefinition *def = ctx.getCompositeDefinition(s);
-    if (def == nullptr || (def->name != definitionName)) return false;
+    if (s != definitionName) return false;
 
     for (const auto &var : this->ctx->getVariables()) {
         if (!var->load(in, ctx)) return false;
diff --git a/src/psc/variable.cpp b/src/psc/variable.cpp
index 1619079..ec7f4a3 100644
--- a/src/psc/variable.cpp
+++ b/src/psc/variable.cpp
@@ -37,13 +37,13 @@ Variable::Variable(const std::string &name, DataType type, bool isConstant, Cont
             data = new PSC::Date();
             break;
         case DataType::ENUM:
-            data = new PSC::Enum(*type.name);
+            data = new PSC::Enum(*static_cast<const EnumTypeDefinition*>(type.definition));
             break;
         case DataType::POINTER:
-            data = new PSC::Pointer(*type.name);
+            data = new PSC::Pointer(*static_cast<const PointerTypeDefinition*>(type.definition));
             break;
         case DataType::COMPOSITE:
-            data = new PSC::Composite(*type.name, *ctx);
+            data = new PSC::Composite(*static_cast<const CompositeTypeDefinition*>(type.definition), *ctx);
             break;
         case DataType::NONE:
             std::abort();
-- 
2.43.0


From a1397eb5241245614786b85ffab6d6c754e74eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:07 +0000
Subject: [PATCH 14/50] fix: enumerated arithmetic must wrap around for
 negative results and large operands

---
 src/nodes/eval/arithmetic.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index 0680412..dc5a7c7 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -139,6 +139,11 @@ std::unique_ptr<NodeResult> ArithmeticOperationNode::evaluate(PSC::Context &ctx)
             right = integer.value;
         }
 
+        const PSC::EnumTypeDefinition &definition = enumVal.getDefinition(ctx);
+        PSC::int_t enumSize = definition.values.size();
+        left %= enumSize;
+        right %= enumSize;
+
         PSC::int_t res;
         if (token.type == TokenType::PLUS) {
             res = left + right;
@@ -146,8 +151,6 @@ std::unique_ptr<NodeResult> ArithmeticOperationNode::evaluate(PSC::Context &ctx)
             res = left - right;
         }
 
-        const PSC::EnumTypeDefinition &definition = enumVal.getDefinition(ctx);
-        std::size_t enumSize = definition.values.size();
         res %= enumSize;
         if (res < 0) res += enumSize;
 
-- 
2.43.0


From 9c4bec1b48e9ba90065fdd860b61aaf48669d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 15/50] fix: copying a record must copy its array fields, and
 copies must be in place

---
 src/psc/array.cpp          | 11 ++++++++---
 src/psc/array.h            |  2 +-
 src/psc/scope/context.cpp  | 11 +++++++----
 src/psc/scope/context.h    |  2 +-
 src/psc/types/types.h      |  3 ++-
 src/psc/types/userType.cpp |  4 ++--
 src/psc/variable.cpp       | 36 +++++++++++++++++++++++++++++++++++-
 src/psc/variable.h         |  3 +++
 8 files changed, 59 insertions(+), 13 deletions(-)

diff --git a/src/psc/array.cpp b/src/psc/array.cpp
index 2cf834b..10624f1 100644
--- a/src/psc/array.cpp
+++ b/src/psc/array.cpp
@@ -26,15 +26,20 @@ Array::Array(const std::string &name, DataType type, const std::vector<ArrayDime
     : DataHolder(name), type(type), dimensions(dimensions)
 {}
 
-Array::Array(const Array &other)
+Array::Array(const Array &other, Context *ctx)
     : DataHolder(other.name),
     type(other.type),
     dimensions(Array::copyDimensions(other.dimensions))
-{}
+{
+    data.reserve(other.data.size());
+    for (const auto &element : other.data) {
+        data.emplace_back(std::make_unique<PSC::Variable>(*element, ctx));
+    }
+}
 
 void Array::copyData(const Array &other) {
     for (size_t i = 0; i < data.size(); i++) {
-        data[i] = std::make_unique<PSC::Variable>(*(other.data[i]), other.data[i]->parent);
+        data[i]->assign(other.data[i]->get<Value>());
     }
 }
 
diff --git a/src/psc/array.h b/src/psc/array.h
index 7e12b70..c5b4686 100644
--- a/src/psc/array.h
+++ b/src/psc/array.h
@@ -34,7 +34,7 @@ namespace PSC {
 
         Array(const std::string &name, DataType type, const std::vector<ArrayDimension> &dimensions);
 
-        Array(const Array &other);
+        Array(const Array &other, Context *ctx);
 
         void copyData(const Array &other);
 
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 927162e..0a92b9b 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -28,8 +28,8 @@ void copyPtrVector(const std::vector<std::unique_ptr<T>> &source, std::vector<st
     }
 }
 
-Context::Context(const Context &other)
-    : parent(other.parent),
+Context::Context(const Context &other, Context *parent)
+    : parent(parent),
     name(other.name),
     isFunctionCtx(other.isFunctionCtx),
     isCompositeCtx(other.isCompositeCtx),
@@ -37,14 +37,17 @@ Context::Context(const Context &other)
     compositeDefinition(other.compositeDefinition)
 {
     copyPtrVector(other.variables, variables, this);
-    copyPtrVector(other.arrays, arrays);
+    copyPtrVector(other.arrays, arrays, this);
     copyPtrVector(other.procedures, procedures);
     copyPtrVector(other.functions, functions);
 }
 
 void Context::copyVariableData(const Context &other) {
     for (size_t i = 0; i < variables.size(); i++) {
-        variables[i]->set(&other.variables[i]->get<Value>(), true);
+        variables[i]->assign(other.variables[i]->get<Value>());
+    }
+    for (size_t i = 0; i < arrays.size(); i++) {
+        arrays[i]->copyData(*other.arrays[i]);
     }
 }
 
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index 3647fe3..c2afc23 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -46,7 +46,7 @@ namespace PSC {
         Context(Context *parent, const CompositeTypeDefinition &definition);
 
         // For copying composites
-        explicit Context(const Context &other);
+        Context(const Context &other, Context *parent);
 
         // Only for composites
         void copyVariableData(const Context &other);
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index 6b9cc35..b0749d3 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -328,7 +328,8 @@ namespace PSC {
 
         Composite(const CompositeTypeDefinition &definition, Context &parent);
 
-        Composite(const Composite &other);
+        // The copy belongs to `parent`, or to the same context as the original if omitted
+        Composite(const Composite &other, Context *parent = nullptr);
 
         void operator=(const Composite &other);
 
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index 7e5e2d3..6bb7d46 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -97,10 +97,10 @@ Composite::Composite(const CompositeTypeDefinition &definition, Context &parent)
     definition.initBlock.run(*ctx);
 }
 
-Composite::Composite(const Composite &other)
+Composite::Composite(const Composite &other, Context *parent)
     : definition(other.definition),
     definitionName(other.definitionName),
-    ctx(std::make_unique<Context>(*other.ctx))
+    ctx(std::make_unique<Context>(*other.ctx, parent != nullptr ? parent : other.ctx->getParent()))
 {}
 
 void Composite::operator=(const Composite &other) {
diff --git a/src/psc/variable.cpp b/src/psc/variable.cpp
index ec7f4a3..d29b179 100644
--- a/src/psc/variable.cpp
+++ b/src/psc/variable.cpp
@@ -91,7 +91,41 @@ void Variable::set(Value *_data, bool copy) {
             data = new PSC::Pointer(*((const PSC::Pointer*) _data));
             break;
         case DataType::COMPOSITE:
-            data = new PSC::Composite(*((const PSC::Composite*) _data));
+            data = new PSC::Composite(*((const PSC::Composite*) _data), parent);
+            break;
+        case DataType::NONE:
+            std::abort();
+    }
+}
+
+void Variable::assign(const Value &value) {
+    switch (type.type) {
+        case DataType::INTEGER:
+            get<PSC::Integer>() = static_cast<const PSC::Integer&>(value);
+            break;
+        case DataType::REAL:
+            get<PSC::Real>() = static_cast<const PSC::Real&>(value);
+            break;
+        case DataType::BOOLEAN:
+            get<PSC::Boolean>() = static_cast<const PSC::Boolean&>(value);
+            break;
+        case DataType::CHAR:
+            get<PSC::Char>() = static_cast<const PSC::Char&>(value);
+            break;
+        case DataType::STRING:
+            get<PSC::String>() = static_cast<const PSC::String&>(value);
+            break;
+        case DataType::DATE:
+            get<PSC::Date>() = static_cast<const PSC::Date&>(value);
+            break;
+        case DataType::ENUM:
+            get<PSC::Enum>() = static_cast<const PSC::Enum&>(value);
+            break;
+        case DataType::POINTER:
+            get<PSC::Pointer>() = static_cast<const PSC::Pointer&>(value);
+            break;
+        case DataType::COMPOSITE:
+            get<PSC::Composite>() = static_cast<const PSC::Composite&>(value);
             break;
         case DataType::NONE:
             std::abort();
diff --git a/src/psc/variable.h b/src/psc/variable.h
index 7ce64d8..9ff7a57 100644
--- a/src/psc/variable.h
+++ b/src/psc/variable.h
@@ -43,6 +43,9 @@ namespace PSC {
 
         void set(Value *_data, bool copy = false);
 
+        // Copies a value of the same type into this variable
+        void assign(const Value &value);
+
         template<std::derived_from<Value> T>
         T &get() { return *((T*) data); }
 
-- 
2.43.0


From 74dcf039eb8772f52faa1f0a71e3c7098e069b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:47 +0000
Subject: [PATCH 16/50] fix: a field a record type does not declare must not be
 looked up as a global variable

---
 src/psc/types/userType.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index 6bb7d46..e67fb1b 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -109,11 +109,7 @@ void Composite::operator=(const Composite &other) {
 }
 
 DataHolder *Composite::getMember(const std::string &name) {
-    PSC::Variable *var = ctx->getVariable(name);
-    if (var != nullptr) return var;
-
-    PSC::Array *arr = ctx->getArray(name);
-    return arr;
+    return ctx->getHolder(name, false);
 }
 
 const CompositeTypeDefinition &Composite::getDefinition(PSC::Context&) const {
-- 
2.43.0


From 197184ec869ca665bd1b376958a1245587ba84a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:26 +0000
Subject: [PATCH 17/50] fix: a pointer into a returned call must stay dead when
 the address is reused

---
 src/nodes/variable/resolver.cpp |  9 ++-------
 src/psc/scope/block.cpp         | 10 +---------
 src/psc/scope/context.h         |  4 ++++
 src/psc/types/types.h           |  5 +++--
 src/psc/types/userType.cpp      | 14 +++++++++-----
 5 files changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/nodes/variable/resolver.cpp b/src/nodes/variable/resolver.cpp
index c485a6c..db4e5fa 100644
--- a/src/nodes/variable/resolver.cpp
+++ b/src/nodes/variable/resolver.cpp
@@ -51,13 +51,8 @@ PSC::DataHolder &PointerDereferencer::resolve(PSC::Context &ctx) {
     }
 
     PSC::Pointer &ptr = ptrVar->get<PSC::Pointer>();
-    const PSC::Context *ptrCtx = ptr.getCtx();
-    PSC::Context *tempCtx = &ctx;
-    while (tempCtx != ptrCtx) {
-        tempCtx = tempCtx->getParent();
-        if (tempCtx == nullptr)
-            throw PSC::RuntimeError(token, ctx, "Attempting to access deleted object from pointer '" + ptrVar->name + "'");
-    }
+    if (!ptr.isTargetAlive(ctx))
+        throw PSC::RuntimeError(token, ctx, "Attempting to access deleted object from pointer '" + ptrVar->name + "'");
 
     PSC::Variable *ptrRefVar = ptr.getValue();
     if (ptrRefVar == nullptr)
diff --git a/src/psc/scope/block.cpp b/src/psc/scope/block.cpp
index a80ad80..0a83e18 100644
--- a/src/psc/scope/block.cpp
+++ b/src/psc/scope/block.cpp
@@ -48,16 +48,8 @@ void Block::runNodeREPL(Node *node, PSC::Context &ctx) {
         } case PSC::DataType::POINTER: {
             auto &resPtr = result->get<PSC::Pointer>();
 
-            const PSC::Context *ptrCtx = resPtr.getCtx();
-            PSC::Context *tempCtx = &ctx;
-            bool valid = true;
-            while (valid && tempCtx != ptrCtx) {
-                tempCtx = tempCtx->getParent();
-                if (tempCtx == nullptr) valid = false;
-            }
-
             std::cout << resPtr.definitionName << ": ";
-            if (valid) {
+            if (resPtr.isTargetAlive(ctx)) {
                 PSC::Variable *ptrValue = resPtr.getValue();
                 const std::string &valueStr = ptrValue == nullptr ? "null" : ptrValue->name;
                 std::cout << valueStr;
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index c2afc23..9d5f9ae 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -27,11 +27,15 @@ namespace PSC {
 
         std::vector<ResolverCache*> cache;
 
+        static inline unsigned long nextId = 1;
+
         void clearCaches();
 
     public:
         const Token *switchToken = nullptr;
 
+        const unsigned long id = nextId++; // Never reused, unlike the address
+
         const bool isFunctionCtx, isCompositeCtx;
         std::unique_ptr<NodeResult> returnValue;
         const PSC::DataType returnType;
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index b0749d3..31f0ad7 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -295,7 +295,7 @@ namespace PSC {
     class Pointer : public Custom {
     private:
         Variable *ptr = nullptr;
-        Context *varCtx = nullptr;
+        unsigned long varCtxId = 0;
 
     public:
         const PointerTypeDefinition &definition;
@@ -311,7 +311,8 @@ namespace PSC {
 
         Variable *getValue() const;
 
-        const Context *getCtx() const;
+        // False if the target belonged to a procedure/function call which has returned
+        bool isTargetAlive(Context &ctx) const;
 
         const PointerTypeDefinition &getDefinition(Context &ctx) const;
     
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index e67fb1b..c5cb617 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -53,29 +53,33 @@ Pointer::Pointer(const PointerTypeDefinition &definition)
 {}
 
 Pointer::Pointer(const Pointer &other)
-    : ptr(other.ptr), varCtx(other.varCtx), definition(other.definition), definitionName(other.definitionName)
+    : ptr(other.ptr), varCtxId(other.varCtxId), definition(other.definition), definitionName(other.definitionName)
 {}
 
 void Pointer::setValue(Variable *value) {
     ptr = value;
-    varCtx = value->parent;
+    Context *varCtx = value->parent;
     while (varCtx->isCompositeCtx) {
         varCtx = varCtx->getParent();
     }
+    varCtxId = varCtx->id;
 }
 
 void Pointer::operator=(const Pointer &other) {
     if (&definition != &other.definition) std::abort();
     ptr = other.ptr;
-    varCtx = other.varCtx;
+    varCtxId = other.varCtxId;
 }
 
 Variable *Pointer::getValue() const {
     return ptr;
 }
 
-const Context *Pointer::getCtx() const {
-    return varCtx;
+bool Pointer::isTargetAlive(Context &ctx) const {
+    for (Context *c = &ctx; c != nullptr; c = c->getParent()) {
+        if (c->id == varCtxId) return true;
+    }
+    return false;
 }
 
 const PointerTypeDefinition &Pointer::getDefinition(Context&) const {
-- 
2.43.0


From b84aca4b35107d9d4b6962fe34ff2cfe3d6f83bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:28 +0000
Subject: [PATCH 18/50] fix: tracebacks must not dereference a missing call
 token

---
 src/nodes/functions/function.cpp  | 1 +
 src/nodes/functions/procedure.cpp | 1 +
 src/nodes/variable/array.cpp      | 2 ++
 src/nodes/variable/variable.cpp   | 2 ++
 src/psc/error.cpp                 | 4 +++-
 5 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/nodes/functions/function.cpp b/src/nodes/functions/function.cpp
index 15ed111..6b5c431 100644
--- a/src/nodes/functions/function.cpp
+++ b/src/nodes/functions/function.cpp
@@ -138,6 +138,7 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
         functionCtx->addVariable(var);
     }
 
+    ctx.switchToken = &token; // Resolving the arguments may have called other functions
     try {
         function->run(*functionCtx);
     } catch (ReturnErrSignal&) {}
diff --git a/src/nodes/functions/procedure.cpp b/src/nodes/functions/procedure.cpp
index e84dc65..753a6e9 100644
--- a/src/nodes/functions/procedure.cpp
+++ b/src/nodes/functions/procedure.cpp
@@ -130,6 +130,7 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
         procedureCtx->addVariable(var);
     }
 
+    ctx.switchToken = &token; // Resolving the arguments may have called other functions
     procedure->run(*procedureCtx);
     ctx.switchToken = nullptr;
 
diff --git a/src/nodes/variable/array.cpp b/src/nodes/variable/array.cpp
index 8a6cce5..ba5a27b 100644
--- a/src/nodes/variable/array.cpp
+++ b/src/nodes/variable/array.cpp
@@ -45,7 +45,9 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
             throw PSC::TypeNotDefinedError(token, ctx, type.value);
 
         auto array = std::make_unique<PSC::Array>(identifier->value, dataType, dimensions);
+        ctx.switchToken = &token; // The declarations of a record's fields may fail
         array->init(ctx);
+        ctx.switchToken = nullptr;
         ctx.addArray(std::move(array));
     }
 
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index 3e25074..73fea8b 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -21,7 +21,9 @@ std::unique_ptr<NodeResult> DeclareNode::evaluate(PSC::Context &ctx) {
         if (dataType == PSC::DataType::NONE)
             throw PSC::TypeNotDefinedError(token, ctx, type.value);
 
+        ctx.switchToken = &token; // The declarations of a record's fields may fail
         ctx.addVariable(new PSC::Variable(identifier->value, dataType, false, &ctx));
+        ctx.switchToken = nullptr;
     }
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
diff --git a/src/psc/error.cpp b/src/psc/error.cpp
index acdb67d..8806b40 100644
--- a/src/psc/error.cpp
+++ b/src/psc/error.cpp
@@ -74,7 +74,9 @@ RuntimeError::RuntimeError(const Token &token, const Context &context, const std
 
     const Context *ctx = context.getParent();
     while (ctx != nullptr) {
-        os << "\n" << ctx->getName() << ", line " << ctx->switchToken->line << ", column " << ctx->switchToken->column;
+        os << "\n" << ctx->getName();
+        if (ctx->switchToken != nullptr)
+            os << ", line " << ctx->switchToken->line << ", column " << ctx->switchToken->column;
         Context *parent = ctx->getParent();
         ctx = parent;
     }
-- 
2.43.0


From 1d7f1bad66c6c745e79ea5cbc7db4f22ad212097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:03 +0000
Subject: [PATCH 19/50] fix: a record type that contains itself must be a
 runtime error

---
 src/nodes/variable/array.cpp    | 2 ++
 src/nodes/variable/variable.cpp | 2 ++
 src/psc/scope/context.cpp       | 8 ++++++++
 src/psc/scope/context.h         | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/src/nodes/variable/array.cpp b/src/nodes/variable/array.cpp
index ba5a27b..0d70aae 100644
--- a/src/nodes/variable/array.cpp
+++ b/src/nodes/variable/array.cpp
@@ -43,6 +43,8 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
         PSC::DataType dataType = ctx.getType(type);
         if (dataType.type == PSC::DataType::NONE)
             throw PSC::TypeNotDefinedError(token, ctx, type.value);
+        if (ctx.isInsideRecord(dataType))
+            throw PSC::RuntimeError(token, ctx, "Type '" + type.value + "' cannot contain itself");
 
         auto array = std::make_unique<PSC::Array>(identifier->value, dataType, dimensions);
         ctx.switchToken = &token; // The declarations of a record's fields may fail
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index 73fea8b..542a170 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -20,6 +20,8 @@ std::unique_ptr<NodeResult> DeclareNode::evaluate(PSC::Context &ctx) {
         PSC::DataType dataType = ctx.getType(type);
         if (dataType == PSC::DataType::NONE)
             throw PSC::TypeNotDefinedError(token, ctx, type.value);
+        if (ctx.isInsideRecord(dataType))
+            throw PSC::RuntimeError(token, ctx, "Type '" + type.value + "' cannot contain itself");
 
         ctx.switchToken = &token; // The declarations of a record's fields may fail
         ctx.addVariable(new PSC::Variable(identifier->value, dataType, false, &ctx));
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 0a92b9b..f204903 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -124,6 +124,14 @@ Context *Context::getOuterTypeContext() {
     return isCompositeCtx ? &compositeDefinition->ctx : getGlobalContext();
 }
 
+bool Context::isInsideRecord(const DataType &type) const {
+    if (type.type != PSC::DataType::COMPOSITE) return false;
+    for (const Context *ctx = this; ctx != nullptr && ctx->isCompositeCtx; ctx = ctx->parent) {
+        if (ctx->compositeDefinition == type.definition) return true;
+    }
+    return false;
+}
+
 const std::string &Context::getName() const {
     return name;
 }
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index 9d5f9ae..5916308 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -66,6 +66,9 @@ namespace PSC {
         // Where types that are not defined in this context are looked up
         Context *getOuterTypeContext();
 
+        // True while a record of the given type is being created around this context
+        bool isInsideRecord(const DataType &type) const;
+
         const std::string &getName() const;
 
         void addVariable(Variable *variable);
-- 
2.43.0


From 4f24c26ae9164f75695c1381ed847c00c4c6963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:14 +0000
Subject: [PATCH 20/50] fix: an array too large to allocate must be a runtime
 error

---
 src/nodes/variable/array.cpp |  7 ++++++-
 src/psc/array.cpp            | 14 ++++++++++----
 src/psc/array.h              |  2 +-
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/nodes/variable/array.cpp b/src/nodes/variable/array.cpp
index 0d70aae..6fb7bc4 100644
--- a/src/nodes/variable/array.cpp
+++ b/src/nodes/variable/array.cpp
@@ -1,4 +1,5 @@
 #include "pch.h"
+#include <new>
 
 #include "psc/error.h"
 #include "nodes/variable/variable.h"
@@ -48,7 +49,11 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
 
         auto array = std::make_unique<PSC::Array>(identifier->value, dataType, dimensions);
         ctx.switchToken = &token; // The declarations of a record's fields may fail
-        array->init(ctx);
+        try {
+            array->init(ctx);
+        } catch (std::bad_alloc&) {
+            throw PSC::RuntimeError(token, ctx, "Array is too large");
+        }
         ctx.switchToken = nullptr;
         ctx.addArray(std::move(array));
     }
diff --git a/src/psc/array.cpp b/src/psc/array.cpp
index 10624f1..583fbb6 100644
--- a/src/psc/array.cpp
+++ b/src/psc/array.cpp
@@ -1,5 +1,7 @@
 #include "pch.h"
 
+#include <new>
+
 #include "psc/types/types.h"
 #include "psc/array.h"
 
@@ -54,15 +56,19 @@ const std::vector<ArrayDimension> Array::copyDimensions(const std::vector<ArrayD
 }
 
 void Array::init(Context &ctx) {
-    unsigned long size = 1;
+    int_t size = 1;
     for (auto &dim : dimensions) {
-        size *= dim.getSize();
+        int_t dimSize;
+        if (__builtin_sub_overflow(dim.upperBound, dim.lowerBound, &dimSize)
+            || __builtin_add_overflow(dimSize, 1, &dimSize)
+            || __builtin_mul_overflow(size, dimSize, &size)
+            || (size_t) size > data.max_size()
+        ) throw std::bad_alloc();
     }
 
     data.reserve(size);
 
-    size_t capacity = data.capacity();
-    for (size_t i = 0; i < capacity; i++) {
+    for (int_t i = 0; i < size; i++) {
         data.emplace_back(new Variable(name, type, false, &ctx));
     }
 }
diff --git a/src/psc/array.h b/src/psc/array.h
index c5b4686..86275fb 100644
--- a/src/psc/array.h
+++ b/src/psc/array.h
@@ -40,7 +40,7 @@ namespace PSC {
 
         constexpr bool isArray() const override {return true;}
 
-        // Allocates memory for elements
+        // Allocates memory for elements, throws std::bad_alloc if there are too many
         void init(Context &ctx);
 
         Variable &getElement(const std::vector<int_t> &index);
-- 
2.43.0


From e3d753713b155a75535588e8699fff7d58229267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:04 +0000
Subject: [PATCH 21/50] fix: an expression without a value must be a runtime
 error where a value is needed

---
 src/nodes/cast.cpp              | 2 +-
 src/nodes/eval/stringcat.cpp    | 3 ++-
 src/nodes/variable/variable.cpp | 3 +++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nodes/cast.cpp b/src/nodes/cast.cpp
index ca1141f..183b057 100644
--- a/src/nodes/cast.cpp
+++ b/src/nodes/cast.cpp
@@ -10,7 +10,7 @@ CastNode::CastNode(const Token &token, Node &node, PSC::DataType target)
 std::unique_ptr<NodeResult> CastNode::evaluate(PSC::Context &ctx) {
     auto value = node.evaluate(ctx);
 
-    if (!value->data->isPrimitive())
+    if (value->data == nullptr || !value->data->isPrimitive())
         throw PSC::TypeOperationError(token, ctx, "Cast");
     if (value->type == target) return value;
 
diff --git a/src/nodes/eval/stringcat.cpp b/src/nodes/eval/stringcat.cpp
index 6e3d971..ae3a80e 100644
--- a/src/nodes/eval/stringcat.cpp
+++ b/src/nodes/eval/stringcat.cpp
@@ -7,7 +7,8 @@ std::unique_ptr<NodeResult> StringConcatenationNode::evaluate(PSC::Context &ctx)
     auto leftRes = left.evaluate(ctx);
     auto rightRes = right.evaluate(ctx);
 
-    if (!leftRes->data->isPrimitive() || !rightRes->data->isPrimitive())
+    if (leftRes->data == nullptr || rightRes->data == nullptr
+        || !leftRes->data->isPrimitive() || !rightRes->data->isPrimitive())
         throw PSC::TypeOperationError(token, ctx, "'&'");
 
     auto leftStr = static_cast<const PSC::Primitive*>(leftRes->data.get())->toString();
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index 542a170..53d0b79 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -94,6 +94,9 @@ std::unique_ptr<NodeResult> AssignNode::evaluate(PSC::Context &ctx) {
         if (pedantic)
             throw PSC::PedanticError(token, "Assigning to undeclared variable");
         
+        if (valueRes->type == PSC::DataType::NONE)
+            throw PSC::InvalidUsageError(token, ctx, "assignment operator: no value to assign");
+
         var = new PSC::Variable(simpleSource->getName(), valueRes->type, false, &ctx);
         ctx.addVariable(var);
     }
-- 
2.43.0


From cba23a16f0d55251d33bb11044183f2f360dfb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 22/50] fix: a field or element of an enumerated name must be a
 runtime error

---
 src/nodes/variable/variable.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index 53d0b79..02ee1b9 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -152,6 +152,9 @@ std::unique_ptr<NodeResult> AccessNode::evaluate(PSC::Context &ctx) {
     try {
         holder = &resolver->resolve(ctx);
     } catch (PSC::NotDefinedError &e) {
+        // Only a plain name can be the name of an enumerated value
+        if (dynamic_cast<const SimpleVariableSource*>(resolver.get()) == nullptr) throw e;
+
         auto def = ctx.getEnumElement(token.value);
         if (def != nullptr)
             return std::make_unique<NodeResult>(def, def->getType());
-- 
2.43.0


From 647f9222720068588945bf45207e220ac2674e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 23/50] fix: reject out-of-range date components instead of
 narrowing them

---
 src/nodes/eval/arithmetic.cpp     | 13 ++++---------
 src/psc/builtinFunctions/date.cpp | 14 ++++++--------
 src/psc/types/date.cpp            | 12 ++++++++++++
 src/psc/types/types.h             |  3 +++
 4 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index dc5a7c7..b7accad 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -45,7 +45,7 @@ std::unique_ptr<NodeResult> StringNode::evaluate(PSC::Context&) {
 }
 
 inline PSC::Date makeDate(const std::string &dateStr) {
-    std::string dayStr, monthStr, yearStr;
+    PSC::int_t components[3] = {0, 0, 0};
     int x = 0;
     for (char c : dateStr) {
         if (c == '/') {
@@ -53,16 +53,11 @@ inline PSC::Date makeDate(const std::string &dateStr) {
             continue;
         }
 
-        if (x == 0) dayStr += c;
-        else if (x == 1) monthStr += c;
-        else yearStr += c;
+        // Saturate, anything this large is not a valid date
+        if (components[x] < 1000000) components[x] = components[x] * 10 + (c - '0');
     }
 
-    std::chrono::day day(std::stoul(dayStr));
-    std::chrono::month month(std::stoul(monthStr));
-    std::chrono::year year(std::stoul(yearStr));
-
-    return PSC::Date(std::chrono::year_month_day(year, month, day));
+    return PSC::Date(components[0], components[1], components[2]);
 }
 
 DateNode::DateNode(const Token &token)
diff --git a/src/psc/builtinFunctions/date.cpp b/src/psc/builtinFunctions/date.cpp
index a24dc1b..8dbc816 100644
--- a/src/psc/builtinFunctions/date.cpp
+++ b/src/psc/builtinFunctions/date.cpp
@@ -90,16 +90,14 @@ void PSC::BuiltinFnSETDATE::run(PSC::Context &ctx) {
     PSC::Variable *yearVar = ctx.getVariable("Year");
     if (yearVar == nullptr || yearVar->type != PSC::DataType::INTEGER) std::abort();
 
-    day day(dayVar->get<PSC::Integer>().value);
-    month month(monthVar->get<PSC::Integer>().value);
-    year year(yearVar->get<PSC::Integer>().value);
-
-    year_month_day ymd(year, month, day);
-    if (!ymd.ok())
+    auto ret = std::make_unique<PSC::Date>(
+        dayVar->get<PSC::Integer>().value,
+        monthVar->get<PSC::Integer>().value,
+        yearVar->get<PSC::Integer>().value
+    );
+    if (!ret->date.ok())
         throw PSC::RuntimeError(PSC::errToken, ctx, "Invalid Date!");
 
-    auto ret = std::make_unique<PSC::Date>(ymd);
-
     ctx.returnValue = std::make_unique<NodeResult>(std::move(ret), PSC::DataType::DATE);
 }
 
diff --git a/src/psc/types/date.cpp b/src/psc/types/date.cpp
index da4421e..ec9eac4 100644
--- a/src/psc/types/date.cpp
+++ b/src/psc/types/date.cpp
@@ -7,6 +7,18 @@ using namespace PSC;
 Date::Date(std::chrono::year_month_day date)
     : date(date) {}
 
+Date::Date(int_t day, int_t month, int_t year) : date() {
+    // The std::chrono constructors narrow their arguments silently
+    if (day < 1 || day > 31 || month < 1 || month > 12) return;
+    if (year < static_cast<int>(std::chrono::year::min()) || year > static_cast<int>(std::chrono::year::max())) return;
+
+    date = std::chrono::year_month_day(
+        std::chrono::year(static_cast<int>(year)),
+        std::chrono::month(static_cast<unsigned int>(month)),
+        std::chrono::day(static_cast<unsigned int>(day))
+    );
+}
+
 std::unique_ptr<Integer> Date::toInteger() const {
     unsigned int day = static_cast<unsigned int>(date.day());
     unsigned int month = static_cast<unsigned int>(date.month());
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index 31f0ad7..1d9508b 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -244,6 +244,9 @@ namespace PSC {
 
         Date(std::chrono::year_month_day date);
 
+        // Builds a date from unchecked components; the result is not ok() if any of them is out of range
+        Date(int_t day, int_t month, int_t year);
+
         Date(const Date&) = default;
 
         Date &operator=(const Date &other) = default;
-- 
2.43.0


From ba0eefcf9acedcadfdefc062ccf6a86b8f1b5c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 24/50] fix: keep the newline after a trailing comment; skip
 blank lines in the lexer

---
 src/lexer/lexer.cpp       | 8 +++++---
 src/lexer/symbolLexer.cpp | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lexer/lexer.cpp b/src/lexer/lexer.cpp
index e461e40..a3d02bc 100644
--- a/src/lexer/lexer.cpp
+++ b/src/lexer/lexer.cpp
@@ -55,8 +55,8 @@ const std::vector<Token*> Lexer::makeTokens() {
             if (idx >= expr->size() || currentChar != '/') {
                 tokens.emplace_back(new Token(TokenType::SLASH, line, column));
             } else {
-                int commentLine = line;
-                while (line == commentLine && idx < expr->size()) advance();
+                // The newline is not part of the comment
+                while (currentChar != '\n' && idx < expr->size()) advance();
             }
             continue;
         } else if (currentChar == '(') {
@@ -136,7 +136,9 @@ const std::vector<Token*> Lexer::makeTokens() {
             makeNumber();
             continue;
         } else if (currentChar == '\n') {
-            tokens.emplace_back(new Token(TokenType::LINE_END, line, column));
+            // Blank lines and lines with just a comment are skipped
+            if (tokens.size() > currentTokensIdx && tokens.back()->type != TokenType::LINE_END)
+                tokens.emplace_back(new Token(TokenType::LINE_END, line, column));
         } else if (currentChar != ' ' && currentChar != '\t') {
             throw PSC::InvalidCharError(line, column, currentChar);
         }
diff --git a/src/lexer/symbolLexer.cpp b/src/lexer/symbolLexer.cpp
index 7f1ad71..dcea531 100644
--- a/src/lexer/symbolLexer.cpp
+++ b/src/lexer/symbolLexer.cpp
@@ -186,7 +186,7 @@ void Lexer::makeNumber() {
     int i = 0;
     char c = getNextChar(i);
     while (isdigit(c = getNextChar(++i))) {}
-    if (c != '/' || !isdigit(c = getNextChar(++i))) return;
+    if (i < 2 || c != '/' || !isdigit(c = getNextChar(++i))) return;
 
     for (int j = 0; j < i; j++) advance();
     while (isdigit(currentChar) && idx < expr->size()) advance();
-- 
2.43.0


From f435940347c017d1e5ff30594279a3f720b325ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 25/50] fix: accept a tab between an I/O keyword and '('

---
 src/lexer/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/lexer.cpp b/src/lexer/lexer.cpp
index a3d02bc..8228598 100644
--- a/src/lexer/lexer.cpp
+++ b/src/lexer/lexer.cpp
@@ -60,7 +60,7 @@ const std::vector<Token*> Lexer::makeTokens() {
             }
             continue;
         } else if (currentChar == '(') {
-            if (idx > 0 && tokens.size() > 0 && (*expr)[idx-1] != ' ') {
+            if (idx > 0 && tokens.size() > 0 && (*expr)[idx-1] != ' ' && (*expr)[idx-1] != '\t') {
                 TokenType t = tokens[tokens.size()-1]->type;
                 if (t == TokenType::INPUT) {
                     throw PSC::LexerError(line, column, "Unexpected '('\n'INTPUT' is statement(not a function) used as 'INPUT <var>' where <var> is a variable to store the input");
-- 
2.43.0


From 63224d71a4bceca3404d239cc63284dcafe52358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 26/50] fix: require an identifier after '.'

---
 src/parser/variableExprParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/variableExprParser.cpp b/src/parser/variableExprParser.cpp
index f2b330d..8b8bce7 100644
--- a/src/parser/variableExprParser.cpp
+++ b/src/parser/variableExprParser.cpp
@@ -84,6 +84,8 @@ std::unique_ptr<AbstractVariableResolver> Parser::parseIdentifierExpression() {
                 const Token &token = *currentToken;
                 advance();
 
+                if (currentToken->type != TokenType::IDENTIFIER)
+                    throw PSC::ExpectedTokenError(*currentToken, "identifier");
                 resolver = std::make_unique<CompositeResolver>(token, std::move(resolver), *currentToken);
                 advance();
                 break;
-- 
2.43.0


From 1dddcb4d97ad708db11515c1b2749aea82feef65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 27/50] fix: diagnose out-of-range numeric literals and DATE
 casts

---
 src/nodes/cast.cpp            |  2 ++
 src/nodes/eval/arithmetic.cpp | 20 ++++++++++++++++++--
 src/parser/parser.cpp         |  2 ++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/nodes/cast.cpp b/src/nodes/cast.cpp
index 183b057..ea70e8d 100644
--- a/src/nodes/cast.cpp
+++ b/src/nodes/cast.cpp
@@ -13,6 +13,8 @@ std::unique_ptr<NodeResult> CastNode::evaluate(PSC::Context &ctx) {
     if (value->data == nullptr || !value->data->isPrimitive())
         throw PSC::TypeOperationError(token, ctx, "Cast");
     if (value->type == target) return value;
+    if (value->type == PSC::DataType::DATE && target != PSC::DataType::INTEGER && target != PSC::DataType::STRING)
+        throw PSC::RuntimeError(token, ctx, "Values of type DATE can only be cast to INTEGER or STRING");
 
     auto pvalue = static_cast<const PSC::Primitive*>(value->data.get());
 
diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index b7accad..ddb5a08 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -3,6 +3,7 @@
 #include "pch.h"
 
 #include <chrono>
+#include <cstdlib>
 #include <memory>
 #include "psc/error.h"
 #include "nodes/eval/arithmetic.h"
@@ -10,8 +11,23 @@
 #include "psc/types/type_definitions.h"
 #include "psc/types/types.h"
 
+inline PSC::int_t parseInteger(const Token &token) {
+    try {
+        return std::stol(token.value);
+    } catch (const std::out_of_range&) {
+        throw PSC::SyntaxError(token, "Integer literal out of range");
+    }
+}
+
+inline PSC::real_t parseReal(const Token &token) {
+    // Unlike std::stod, strtod does not fail for values very close to zero
+    PSC::real_t value = std::strtod(token.value.c_str(), nullptr);
+    if (std::isinf(value)) throw PSC::SyntaxError(token, "Real literal out of range");
+    return value;
+}
+
 IntegerNode::IntegerNode(const Token &token)
-    : Node(token), valueInt(std::stol(token.value))
+    : Node(token), valueInt(parseInteger(token))
 {}
 
 std::unique_ptr<NodeResult> IntegerNode::evaluate(PSC::Context&) {
@@ -20,7 +36,7 @@ std::unique_ptr<NodeResult> IntegerNode::evaluate(PSC::Context&) {
 
 
 RealNode::RealNode(const Token &token)
-    : Node(token), valueReal(std::stod(token.value))
+    : Node(token), valueReal(parseReal(token))
 {}
 
 std::unique_ptr<NodeResult> RealNode::evaluate(PSC::Context&) {
diff --git a/src/parser/parser.cpp b/src/parser/parser.cpp
index 8446c90..88dce82 100644
--- a/src/parser/parser.cpp
+++ b/src/parser/parser.cpp
@@ -17,6 +17,8 @@ PSC::DataType Parser::getPSCType() {
         return PSC::DataType::CHAR;
     } else if (currentToken->value == "STRING") {
         return PSC::DataType::STRING;
+    } else if (currentToken->value == "DATE") {
+        return PSC::DataType::DATE;
     } else {
         std::abort();
     }
-- 
2.43.0


From c266692c119af08ebdbe4c66a8c884997c44198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 28/50] fix: do not trap on INT64_MIN DIV -1 and INT64_MIN MOD
 -1

---
 src/psc/types/numeric.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/psc/types/numeric.cpp b/src/psc/types/numeric.cpp
index cc023a4..2d9925a 100644
--- a/src/psc/types/numeric.cpp
+++ b/src/psc/types/numeric.cpp
@@ -118,7 +118,9 @@ real_t modReal(real_t x, real_t y) {
 std::unique_ptr<Number> Number::operator%(const Number &other) const {
     int type = mergeType(real, other.real);
     if (type == mergeType(false, false)) { // int, int
-        int_t x = ((Integer*) this)->value % (Integer&) other;
+        int_t divisor = (Integer&) other;
+        // INT64_MIN % -1 traps on most processors
+        int_t x = divisor == -1 ? 0 : ((Integer*) this)->value % divisor;
         return std::make_unique<Integer>(x);
     }
 
@@ -142,7 +144,9 @@ std::unique_ptr<Number> Number::operator%(const Number &other) const {
 std::unique_ptr<Number> Number::operator|(const Number &other) const {
     int type = mergeType(real, other.real);
     if (type == mergeType(false, false)) { // int, int
-        int_t x = ((Integer*) this)->value / (Integer&) other;
+        int_t divisor = (Integer&) other;
+        // INT64_MIN / -1 traps on most processors, negating wraps around
+        int_t x = divisor == -1 ? (int_t) (0 - (uint64_t) ((Integer*) this)->value) : ((Integer*) this)->value / divisor;
         return std::make_unique<Integer>(x);
     }
     
-- 
2.43.0


From 2447fc3d65aaed10eefe1c5b0285db4b83214ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 29/50] fix: EOF must be TRUE as soon as no unread line remains

---
 src/psc/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index f794751..df39228 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -53,7 +53,7 @@ FileMode File::getMode() {
 
 bool File::eof() {
     if (mode != FileMode::READ) std::abort();
-    return ifile->eof();
+    return ifile->peek() == std::ifstream::traits_type::eof();
 }
 
 void File::close() {
-- 
2.43.0


From deefb1358fc3744e261ce8f8ff3b22a23056d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 30/50] fix: the first record of a random file may contain line
 breaks

---
 src/psc/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index df39228..35804bb 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -27,7 +27,7 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
             if (ifile->peek() != std::ifstream::traits_type::eof()) {
                 while (!ifile->eof()) {
                     std::getline(*ifile, line);
-                    if (line.starts_with('#') && records.size() > 1) {
+                    if (line.starts_with('#') && records.size() > 0) {
                         records[records.size()-1] += '\n';
                         records[records.size()-1] += line;
                         continue;
-- 
2.43.0


From 6525eb873eefb7ddc522d4b587438ff0352207dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 31/50] fix: skip the escape character after a line break CHAR
 in a random file

---
 src/psc/types/character.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psc/types/character.cpp b/src/psc/types/character.cpp
index e3f4c79..30a425f 100644
--- a/src/psc/types/character.cpp
+++ b/src/psc/types/character.cpp
@@ -52,6 +52,7 @@ bool Char::load(std::istream &in, Context&) {
 
     in.ignore(1); // whitespace
     value = in.get();
+    if (value == '\n') in.ignore(1); // escape character '#'
 
     return !in.fail();
 }
-- 
2.43.0


From b1d218085da7d79dc57fd24b93b07adce3fa31d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 32/50] fix: separate the array fields of a record in a random
 file

---
 src/psc/types/userType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index c5cb617..b0406aa 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -133,7 +133,7 @@ void Composite::dump(std::ostream &out) const {
     if (arrays.size() > 0) out << " ";
     for (size_t i = 0; i < arrays.size(); i++) {
         arrays[i]->dump(out);
-        if (i < vars.size() - 1) out << " ";
+        if (i < arrays.size() - 1) out << " ";
     }
 }
 
-- 
2.43.0


From 2a5782a8efa141a107e9d430db6efaa95364cfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 33/50] fix: a malformed STRING length in a random file must be
 a runtime error

---
 src/psc/types/character.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/psc/types/character.cpp b/src/psc/types/character.cpp
index 30a425f..2629f8f 100644
--- a/src/psc/types/character.cpp
+++ b/src/psc/types/character.cpp
@@ -125,20 +125,21 @@ bool String::load(std::istream &in, Context&) {
     in >> s;
     if (s != "STRING") return false;
 
-    in >> s;
+    size_t length = 0;
+    in >> length;
     if (in.fail()) return false;
-    size_t length = std::stoul(s, nullptr);
 
-    char *buf = new char[length];
     in.ignore(1); // whitespace
-    in.read(buf, length);
+    s.clear();
+    char c;
+    while (s.length() < length && in.get(c)) s += c;
+    if (s.length() != length) return false;
+
     value.clear();
-    value.reserve(length);
     for (size_t i = 0; i < length; i++) {
-        if (i > 0 && buf[i] == '#' && buf[i-1] == '\n') continue;
-        value += buf[i];
+        if (i > 0 && s[i] == '#' && s[i-1] == '\n') continue;
+        value += s[i];
     }
-    delete[] buf;
 
     return true;
 }
-- 
2.43.0


From b6cb767317150ac50fa67ccf79ce406b47b30f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 34/50] fix: a failing GETRECORD must leave its variable
 unchanged

---
 src/nodes/io/file.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index 4f4e875..948a72d 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -193,11 +193,15 @@ std::unique_ptr<NodeResult> GetRecordNode::evaluate(PSC::Context &ctx) {
     if (variable != nullptr) {
         if (variable->isConstant)
             throw PSC::ConstAssignError(token, ctx, variable->name);
-        if (!file->getRecord(*variable, ctx))
+        PSC::Variable record(*variable, variable->parent);
+        if (!file->getRecord(record, ctx))
             throw PSC::RuntimeError(token, ctx, "Failed to read data from random file");
+        variable->assign(record.get<PSC::Value>());
     } else {
-        if (!file->getRecord(*array, ctx))
+        PSC::Array record(*array, &ctx);
+        if (!file->getRecord(record, ctx))
             throw PSC::RuntimeError(token, ctx, "Failed to read data from random file");
+        array->copyData(record);
     }
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
-- 
2.43.0


From 1a33d3b8c8ad9f1075f0f873d8dcca65a5c9c793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 35/50] fix: WRITEFILE must evaluate its data before looking up
 the file

---
 src/nodes/io/file.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index 948a72d..95e04e6 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -72,6 +72,8 @@ std::unique_ptr<NodeResult> WriteFileNode::evaluate(PSC::Context &ctx) {
         throw PSC::RuntimeError(token, ctx, "Expected string for file name");
     
     auto &filename = filenameRes->get<PSC::String>();
+    auto nodeRes = this->data.evaluate(ctx);
+
     PSC::File *file = ctx.getFileManager().getFile(filename);
     if (file == nullptr)
         throw PSC::FileNotOpenError(token, ctx, filename.value);
@@ -80,7 +82,6 @@ std::unique_ptr<NodeResult> WriteFileNode::evaluate(PSC::Context &ctx) {
     else if (file->getMode() == PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "Attempting to use 'WRITEFILE' on random file. Use 'PUTRECORD' instead.");
 
-    auto nodeRes = data.evaluate(ctx);
     std::unique_ptr<PSC::String> data;
     switch (nodeRes->type.type) {
         case PSC::DataType::INTEGER:
-- 
2.43.0


From b702ce509673683abe7f953ec65e4284522170a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 36/50] fix: GETRECORD must not create invalid dates

---
 src/psc/types/date.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/psc/types/date.cpp b/src/psc/types/date.cpp
index ec9eac4..aadeb12 100644
--- a/src/psc/types/date.cpp
+++ b/src/psc/types/date.cpp
@@ -64,11 +64,22 @@ bool Date::load(std::istream &in, Context&) {
     in >> year;
     if (in.fail()) return false;
 
-    date = std::chrono::year_month_day(
+    auto loaded = std::chrono::year_month_day(
         std::chrono::year(year),
         std::chrono::month(month),
         std::chrono::day(day)
     );
 
+    // An uninitialised date (0/0/0) is stored as it is
+    bool uninitialised = day == 0 && month == 0 && year == 0;
+    if (!uninitialised
+        && (!loaded.ok()
+            || static_cast<unsigned int>(loaded.day()) != day
+            || static_cast<unsigned int>(loaded.month()) != month
+            || static_cast<int>(loaded.year()) != year
+        )
+    ) return false;
+
+    date = loaded;
     return true;
 }
-- 
2.43.0


From fdb639309ed929d3a81f5adb7e2b039394502026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 37/50] fix: OPENFILE must fail if the file cannot be opened

---
 src/psc/file.cpp | 22 ++++++++++++++++++++--
 src/psc/file.h   |  3 +++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index 35804bb..1fc6055 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -11,18 +11,23 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
         case FileMode::READ:
             ifile = std::make_unique<std::ifstream>();
             ifile->open(name.value);
+            open = ifile->is_open();
             break;
         case FileMode::WRITE:
             ofile = std::make_unique<std::ofstream>();
             ofile->open(name.value);
+            open = ofile->is_open();
             break;
         case FileMode::APPEND:
             ofile = std::make_unique<std::ofstream>();
             ofile->open(name.value, std::ios::app);
+            open = ofile->is_open();
             break;
         case FileMode::RANDOM:
             ifile = std::make_unique<std::ifstream>();
             ifile->open(name.value);
+            // Records are written when the file is closed
+            open = ifile->is_open() && std::ofstream(name.value, std::ios::app).is_open();
             std::string line;
             if (ifile->peek() != std::ifstream::traits_type::eof()) {
                 while (!ifile->eof()) {
@@ -47,6 +52,10 @@ File::~File() {
     if (open) close();
 }
 
+bool File::isOpen() const {
+    return open;
+}
+
 FileMode File::getMode() {
     return mode;
 }
@@ -116,7 +125,14 @@ void File::putRecord(DataHolder &data) {
 
 bool FileManager::createFile(const String &name, FileMode mode) {
     namespace fs = std::filesystem;
-    if (!fs::exists(fs::path(name.value))) {
+    if (name.value.find('\0') != std::string::npos) return false;
+
+    std::error_code ec;
+    fs::file_status status = fs::status(fs::path(name.value), ec);
+    if (fs::is_directory(status)) return false;
+    if (mode == FileMode::RANDOM && fs::exists(status) && !fs::is_regular_file(status)) return false;
+
+    if (!fs::exists(status)) {
         if (mode == FileMode::RANDOM) {
             std::ofstream f(name.value, std::ios::out);
             f.close();
@@ -125,7 +141,9 @@ bool FileManager::createFile(const String &name, FileMode mode) {
             return false;
         }
     }
-    files.emplace_back(std::make_unique<File>(name, mode));
+    auto file = std::make_unique<File>(name, mode);
+    if (!file->isOpen()) return false;
+    files.emplace_back(std::move(file));
     return true;
 }
 
diff --git a/src/psc/file.h b/src/psc/file.h
index 517bd89..ab9b6e5 100644
--- a/src/psc/file.h
+++ b/src/psc/file.h
@@ -29,6 +29,9 @@ namespace PSC {
 
         ~File();
 
+        // False if the file could not be opened
+        bool isOpen() const;
+
         FileMode getMode();
 
         bool eof();
-- 
2.43.0


From 9da031fb3270008881db79815902cc331218bed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 38/50] fix: report data the operating system refuses to write

---
 src/nodes/io/file.cpp |  6 ++++--
 src/psc/file.cpp      | 23 ++++++++++++++---------
 src/psc/file.h        |  8 +++++---
 3 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index 95e04e6..286ab52 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -111,7 +111,8 @@ std::unique_ptr<NodeResult> WriteFileNode::evaluate(PSC::Context &ctx) {
             throw PSC::TypeOperationError(token, ctx, "Write");
     }
 
-    file->write(*data);
+    if (!file->write(*data))
+        throw PSC::RuntimeError(token, ctx, "Failed to write to file '" + filename.value + "'");
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
@@ -130,7 +131,8 @@ std::unique_ptr<NodeResult> CloseFileNode::evaluate(PSC::Context &ctx) {
     if (file == nullptr)
         throw PSC::FileNotOpenError(token, ctx, filename.value);
 
-    ctx.getFileManager().closeFile(filename);
+    if (!ctx.getFileManager().closeFile(filename))
+        throw PSC::RuntimeError(token, ctx, "Failed to write to file '" + filename.value + "'");
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index 1fc6055..3e88321 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -49,7 +49,8 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
 }
 
 File::~File() {
-    if (open) close();
+    if (open && !close())
+        std::cerr << "Failed to write to file '" << name.value << "'" << std::endl;
 }
 
 bool File::isOpen() const {
@@ -65,7 +66,8 @@ bool File::eof() {
     return ifile->peek() == std::ifstream::traits_type::eof();
 }
 
-void File::close() {
+bool File::close() {
+    open = false;
     switch (mode) {
         case FileMode::READ:
             ifile->close();
@@ -73,7 +75,7 @@ void File::close() {
         case FileMode::WRITE:
         case FileMode::APPEND:
             ofile->close();
-            break;
+            return !ofile->fail();
         case FileMode::RANDOM:
             if (modified) {
                 ofile = std::make_unique<std::ofstream>();
@@ -82,10 +84,11 @@ void File::close() {
                     *ofile << line << "\n";
                 }
                 ofile->close();
+                return !ofile->fail();
             }
             break;
     }
-    open = false;
+    return true;
 }
 
 String File::read() {
@@ -94,8 +97,9 @@ String File::read() {
     return line;
 }
 
-void File::write(const String &data) {
-    *ofile << data.value << "\n";
+bool File::write(const String &data) {
+    *ofile << data.value << "\n" << std::flush;
+    return !ofile->fail();
 }
 
 bool File::seek(const Integer &address) {
@@ -154,13 +158,14 @@ File *FileManager::getFile(const String &name) {
     return nullptr;
 }
 
-void FileManager::closeFile(const String &name) {
+bool FileManager::closeFile(const String &name) {
     for (std::size_t i = 0; i < files.size(); i++) {
         auto &file = files[i];
         if (file->name.value == name.value) {
-            file->close();
+            bool success = file->close();
             files.erase(files.begin() + i);
-            return;
+            return success;
         }
     }
+    return false;
 }
diff --git a/src/psc/file.h b/src/psc/file.h
index ab9b6e5..4fd45bd 100644
--- a/src/psc/file.h
+++ b/src/psc/file.h
@@ -36,11 +36,13 @@ namespace PSC {
 
         bool eof();
 
-        void close();
+        // Returns false if the data could not be written
+        bool close();
 
         String read();
 
-        void write(const String &data);
+        // Returns false if the data could not be written
+        bool write(const String &data);
 
         bool seek(const Integer &address);
 
@@ -58,6 +60,6 @@ namespace PSC {
 
         File *getFile(const String &name);
 
-        void closeFile(const String &name);
+        bool closeFile(const String &name);
     };
 }
-- 
2.43.0


From a18062ced625962bb0dba6186348ce21bc540ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 39/50] fix: APPEND must not extend an unterminated last line

---
 src/psc/file.cpp | 9 +++++++++
 src/psc/file.h   | 1 +
 2 files changed, 10 insertions(+)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index 3e88321..a80658b 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -19,6 +19,13 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
             open = ofile->is_open();
             break;
         case FileMode::APPEND:
+            {
+                // Data is appended on a new line
+                std::ifstream existing(name.value);
+                char last = '\n';
+                while (existing.get(last));
+                lineEnded = last == '\n';
+            }
             ofile = std::make_unique<std::ofstream>();
             ofile->open(name.value, std::ios::app);
             open = ofile->is_open();
@@ -98,6 +105,8 @@ String File::read() {
 }
 
 bool File::write(const String &data) {
+    if (!lineEnded) *ofile << "\n";
+    lineEnded = true;
     *ofile << data.value << "\n" << std::flush;
     return !ofile->fail();
 }
diff --git a/src/psc/file.h b/src/psc/file.h
index 4fd45bd..ab92ee1 100644
--- a/src/psc/file.h
+++ b/src/psc/file.h
@@ -21,6 +21,7 @@ namespace PSC {
         size_t ptr = 0;
         bool open = true;
         bool modified = false;
+        bool lineEnded = true;
 
     public:
         const String name;
-- 
2.43.0


From de419bc9e7168a85dad13695312040abf29b05d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:02 +0000
Subject: [PATCH 40/50] fix: APPEND must not read the whole file to find its
 last character

---
 src/psc/file.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index a80658b..eb91007 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -22,9 +22,9 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
             {
                 // Data is appended on a new line
                 std::ifstream existing(name.value);
-                char last = '\n';
-                while (existing.get(last));
-                lineEnded = last == '\n';
+                existing.seekg(-1, std::ios::end);
+                char last;
+                if (existing.get(last)) lineEnded = last == '\n';
             }
             ofile = std::make_unique<std::ofstream>();
             ofile->open(name.value, std::ios::app);
-- 
2.43.0


From eefaf174e191517d7ed629d397ce9783585174d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 41/50] fix: a string literal belongs to the line it starts on

---
 src/lexer/symbolLexer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lexer/symbolLexer.cpp b/src/lexer/symbolLexer.cpp
index dcea531..d234022 100644
--- a/src/lexer/symbolLexer.cpp
+++ b/src/lexer/symbolLexer.cpp
@@ -215,6 +215,7 @@ void Lexer::makeChar() {
     if (idx + 2 >= expr->size()) 
         throw PSC::LexerError(line, column, "Char must contain at least one character");
 
+    int startLine = line;
     int startColumn = column;
     advance();
     char c;
@@ -236,10 +237,11 @@ void Lexer::makeChar() {
 
     std::string str;
     str += c;
-    tokens.emplace_back(new Token(TokenType::CHAR, line, startColumn, str));
+    tokens.emplace_back(new Token(TokenType::CHAR, startLine, startColumn, str));
 }
 
 void Lexer::makeString() {
+    int startLine = line;
     int startColumn = column;
     advance();
 
@@ -260,5 +262,5 @@ void Lexer::makeString() {
         throw PSC::ExpectedQuotesError(line, column, true);
     advance();
 
-    tokens.emplace_back(new Token(TokenType::STRING, line, startColumn, str));
+    tokens.emplace_back(new Token(TokenType::STRING, startLine, startColumn, str));
 }
-- 
2.43.0


From 094739dbd0a085686b48dc13d018493834843c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:49 +0000
Subject: [PATCH 42/50] fix: print parser warnings only for sources that are
 valid

---
 src/parser/parser.cpp | 4 +++-
 src/parser/parser.h   | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.cpp b/src/parser/parser.cpp
index 88dce82..51fa282 100644
--- a/src/parser/parser.cpp
+++ b/src/parser/parser.cpp
@@ -42,11 +42,13 @@ void Parser::setTokens(const std::vector<Token*> *_tokens) {
 }
 
 PSC::Block *Parser::parse() {
+    warnings.str("");
     PSC::Block *block = parseBlock(BlockType::MAIN);
 
     if (currentToken->type != TokenType::EXPRESSION_END)
         throw PSC::SyntaxError(*currentToken);
 
+    std::cout << warnings.str() << std::flush;
     return block;
 }
 
@@ -97,7 +99,7 @@ PSC::Block *Parser::parseBlock(BlockType blockType) {
             if (cn != nullptr) {
                 AccessNode *an = dynamic_cast<AccessNode*>(&(cn->left));
                 if (an != nullptr) {
-                    std::cout << "Warning on line " << cn->token.line << " column " << cn->token.column << ": Comparison result is ignored. Use '<-' instead of '=' if you wanted to assign." << std::endl;
+                    warnings << "Warning on line " << cn->token.line << " column " << cn->token.column << ": Comparison result is ignored. Use '<-' instead of '=' if you wanted to assign.\n";
                 }
             }
         }
diff --git a/src/parser/parser.h b/src/parser/parser.h
index 6680a80..63eaaf7 100644
--- a/src/parser/parser.h
+++ b/src/parser/parser.h
@@ -1,4 +1,5 @@
 #pragma once
+#include <sstream>
 #include <vector>
 #include <concepts>
 #include <memory>
@@ -14,6 +15,9 @@ private:
     std::vector<std::unique_ptr<Node>> nodes;
     std::vector<std::unique_ptr<PSC::Block>> blocks;
 
+    // Printed only once the whole source is known to be valid
+    std::ostringstream warnings;
+
     const Token *currentToken;
     size_t idx;
 
-- 
2.43.0


From 0a9f3cc2b9048d859a9bdac9ca95218fac0a72df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 43/50] fix: the REPL must echo an unset pointer as null

---
 src/psc/scope/block.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/psc/scope/block.cpp b/src/psc/scope/block.cpp
index 0a83e18..8781444 100644
--- a/src/psc/scope/block.cpp
+++ b/src/psc/scope/block.cpp
@@ -49,10 +49,11 @@ void Block::runNodeREPL(Node *node, PSC::Context &ctx) {
             auto &resPtr = result->get<PSC::Pointer>();
 
             std::cout << resPtr.definitionName << ": ";
-            if (resPtr.isTargetAlive(ctx)) {
-                PSC::Variable *ptrValue = resPtr.getValue();
-                const std::string &valueStr = ptrValue == nullptr ? "null" : ptrValue->name;
-                std::cout << valueStr;
+            PSC::Variable *ptrValue = resPtr.getValue();
+            if (ptrValue == nullptr) {
+                std::cout << "null";
+            } else if (resPtr.isTargetAlive(ctx)) {
+                std::cout << ptrValue->name;
             } else {
                 std::cout << "{DELETED}";
             }
-- 
2.43.0


From 7ca2a8fac149aabbda49036ec8d47b20aa8f073f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:17 +0000
Subject: [PATCH 44/50] fix: the REPL collects lines only for entries that
 start with a block keyword

---
 src/launch/repl.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/launch/repl.cpp b/src/launch/repl.cpp
index 6ebc747..9fc4c55 100644
--- a/src/launch/repl.cpp
+++ b/src/launch/repl.cpp
@@ -1,5 +1,6 @@
 #include "pch.h"
 
+#include <cctype>
 #include <string>
 #include "launch/run.h"
 #include "PsConfig.h"
@@ -19,6 +20,16 @@ static const std::string multilineKeywords[] = {
     "TYPE"
 };
 
+static std::string firstWord(const std::string &code) {
+    size_t start = 0;
+    while (start < code.size() && (code[start] == ' ' || code[start] == '\t')) start++;
+
+    size_t end = start;
+    while (end < code.size() && (isalnum((unsigned char) code[end]) || code[end] == '_')) end++;
+
+    return code.substr(start, end - start);
+}
+
 bool startREPL() {
     std::cout << "PseudoEngine2 v" << PseudoEngine2_VERSION_MAJOR << '.' << PseudoEngine2_VERSION_MINOR << '.' << PseudoEngine2_VERSION_PATCH << " REPL\nEnter '?' for help, 'EXIT' to quit\n";
 
@@ -58,8 +69,9 @@ bool startREPL() {
             continue;
         }
 
+        const std::string first = firstWord(code);
         for (const std::string &keyword : multilineKeywords) {
-            if (code.starts_with(keyword)) {
+            if (first == keyword) {
                 if (keyword == "TYPE" && code.find("=") != std::string::npos) break;
                 std::string line = " ";
                 while (line.size() > 0) {
-- 
2.43.0


From e9a29597427aa64b3f481e4e6fd11469fa091a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:32 +0000
Subject: [PATCH 45/50] fix: RUNFILE is a command word of its own in the REPL

---
 src/launch/repl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/launch/repl.cpp b/src/launch/repl.cpp
index 9fc4c55..330847d 100644
--- a/src/launch/repl.cpp
+++ b/src/launch/repl.cpp
@@ -48,7 +48,7 @@ bool startREPL() {
             continue;
         } else if (code == "EXIT") {
             break;
-        } else if (code.starts_with("RUNFILE")) {
+        } else if (firstWord(code) == "RUNFILE" && code[0] == 'R') {
             if (size < 9) {
                 std::cerr << "Expected filename" << std::endl;
                 continue;
-- 
2.43.0


From 1b15f90714a472d76303a2b4d95adc93d295e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:14 +0000
Subject: [PATCH 46/50] fix: INPUT of an empty line into a CHAR called front()
 on an empty string

---
 src/nodes/io/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/io/io.cpp b/src/nodes/io/io.cpp
index 0fd0d29..b862273 100644
--- a/src/nodes/io/io.cpp
+++ b/src/nodes/io/io.cpp
@@ -99,7 +99,7 @@ std::unique_ptr<NodeResult> InputNode::evaluate(PSC::Context &ctx) {
             var->get<PSC::Boolean>() = (inputStr.value == "TRUE");
             break;
         case PSC::DataType::CHAR:
-            var->get<PSC::Char>() = inputStr.value.front();
+            var->get<PSC::Char>() = inputStr.value.c_str()[0]; // NUL if the line is empty
             break;
         case PSC::DataType::STRING:
             var->get<PSC::String>().value = std::move(inputStr.value);
-- 
2.43.0


From cbc3c42bc912d56715ea806ea9a2a655e7235742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 47/50] fix: resolve BYREF arguments once, so that an index
 calling a function is not evaluated again

---
 src/nodes/functions/function.cpp  | 26 ++++++++++++++++----------
 src/nodes/functions/procedure.cpp | 25 ++++++++++++++++---------
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/nodes/functions/function.cpp b/src/nodes/functions/function.cpp
index 6b5c431..1e25fa3 100644
--- a/src/nodes/functions/function.cpp
+++ b/src/nodes/functions/function.cpp
@@ -65,7 +65,20 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
     argResults.reserve(args.size());
     argTypes.reserve(args.size());
 
+    std::vector<PSC::Variable*> references(args.size(), nullptr);
     for (size_t i = 0; i < args.size(); i++) {
+        AccessNode *accsNode = dynamic_cast<AccessNode*>(args[i]);
+        if (accsNode && i < function->parameters.size() && function->parameters[i].byRef) {
+            // Resolved once: the indices of an array element may call functions
+            auto &holder = accsNode->getResolver().resolve(ctx);
+            if (holder.isArray())
+                throw PSC::ArrayDirectAccessError(accsNode->getToken(), ctx);
+
+            references[i] = static_cast<PSC::Variable*>(&holder);
+            argResults.push_back(nullptr);
+            argTypes.push_back(references[i]->type);
+            continue;
+        }
         argResults.push_back(args[i]->evaluate(ctx));
         argTypes.push_back(argResults[i]->type);
     }
@@ -82,23 +95,16 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
         const PSC::Parameter &parameter = function->parameters[i];
 
         if (!parameter.byRef) argRes->implicitCast(parameter.type);
-        if (parameter.type != argRes->type) {
+        if (parameter.type != (references[i] ? references[i]->type : argRes->type)) {
             throw PSC::InvalidArgsError(token, ctx, function->getTypes(), std::move(argTypes));
         }
 
         PSC::Variable *var;
         if (parameter.byRef) {
-            AccessNode *accsNode = dynamic_cast<AccessNode*>(args[i]);
-            if (!accsNode) {
+            if (references[i] == nullptr)
                 throw PSC::RuntimeError(token, ctx, "Only variables can be used as arguements when passing by reference");
-            }
-
-            auto &holder = accsNode->getResolver().resolve(ctx);
-            if (holder.isArray())
-                throw PSC::ArrayDirectAccessError(token, ctx);
 
-            PSC::Variable &original = *static_cast<PSC::Variable*>(&holder);
-            var = original.createReference(parameter.name);
+            var = references[i]->createReference(parameter.name);
         } else {
             var = new PSC::Variable(parameter.name, argRes->type, false, functionCtx.get());
 
diff --git a/src/nodes/functions/procedure.cpp b/src/nodes/functions/procedure.cpp
index 753a6e9..c5b69f8 100644
--- a/src/nodes/functions/procedure.cpp
+++ b/src/nodes/functions/procedure.cpp
@@ -59,7 +59,20 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
     argResults.reserve(args.size());
     argTypes.reserve(args.size());
 
+    std::vector<PSC::Variable*> references(args.size(), nullptr);
     for (size_t i = 0; i < args.size(); i++) {
+        AccessNode *accsNode = dynamic_cast<AccessNode*>(args[i]);
+        if (accsNode && i < procedure->parameters.size() && procedure->parameters[i].byRef) {
+            // Resolved once: the indices of an array element may call functions
+            auto &holder = accsNode->getResolver().resolve(ctx);
+            if (holder.isArray())
+                throw PSC::ArrayDirectAccessError(accsNode->getToken(), ctx);
+
+            references[i] = static_cast<PSC::Variable*>(&holder);
+            argResults.push_back(nullptr);
+            argTypes.push_back(references[i]->type);
+            continue;
+        }
         argResults.push_back(args[i]->evaluate(ctx));
         argTypes.push_back(argResults[i]->type);
     }
@@ -76,21 +89,15 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
         const PSC::Parameter &parameter = procedure->parameters[i];
 
         if (!parameter.byRef) argRes->implicitCast(parameter.type);
-        if (parameter.type != argRes->type)
+        if (parameter.type != (references[i] ? references[i]->type : argRes->type))
             throw PSC::InvalidArgsError(token, ctx, procedure->getTypes(), std::move(argTypes));
 
         PSC::Variable *var;
         if (parameter.byRef) {
-            AccessNode *accsNode = dynamic_cast<AccessNode*>(args[i]);
-            if (!accsNode)
+            if (references[i] == nullptr)
                 throw PSC::RuntimeError(token, ctx, "Only variables and array elements can be used as arguements when passing by reference");
 
-            auto &holder = accsNode->getResolver().resolve(ctx);
-            if (holder.isArray())
-                throw PSC::ArrayDirectAccessError(token, ctx);
-
-            PSC::Variable &original = *static_cast<PSC::Variable*>(&holder);
-            var = original.createReference(parameter.name);
+            var = references[i]->createReference(parameter.name);
         } else {
             var = new PSC::Variable(parameter.name, argRes->type, false, procedureCtx.get());
 
-- 
2.43.0


From acdd8d2e8f1af44d7c627f9e8fe1cfb5d2e13fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:36 +0000
Subject: [PATCH 48/50] fix: resolve the source of an array assignment once

---
 src/nodes/variable/variable.cpp | 7 +++----
 src/psc/error.cpp               | 4 ++--
 src/psc/error.h                 | 5 ++++-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index 02ee1b9..7b77e9b 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -53,9 +53,8 @@ AssignNode::AssignNode(const Token &token, Node &node, std::unique_ptr<AbstractV
 {}
 
 void AssignNode::assignArray(PSC::Context &ctx, const PSC::ArrayDirectAccessError &e) {
-    AccessNode *accsNode = dynamic_cast<AccessNode*>(&node);
-    if (accsNode == nullptr) throw e;
-    auto array = static_cast<PSC::Array*>(&accsNode->resolver->resolve(ctx));
+    if (e.node != &node) throw e;
+    auto array = static_cast<PSC::Array*>(e.array);
     
     PSC::DataHolder &holder = resolver->resolve(ctx);
     if (!holder.isArray()) throw e;
@@ -162,7 +161,7 @@ std::unique_ptr<NodeResult> AccessNode::evaluate(PSC::Context &ctx) {
     }
 
     if (holder->isArray())
-        throw PSC::ArrayDirectAccessError(token, ctx);
+        throw PSC::ArrayDirectAccessError(token, ctx, this, holder);
     
     PSC::Variable &var = *static_cast<PSC::Variable*>(holder);
 
diff --git a/src/psc/error.cpp b/src/psc/error.cpp
index 8806b40..280bd22 100644
--- a/src/psc/error.cpp
+++ b/src/psc/error.cpp
@@ -134,8 +134,8 @@ TypeNotDefinedError::TypeNotDefinedError(const Token &token, const Context &cont
     : NotDefinedError(token, context, "Type '" + type + "'", getTypeHint(type))
 {}
 
-ArrayDirectAccessError::ArrayDirectAccessError(const Token &token, const Context &context)
-    : RuntimeError(token, context, "Attempting to access array without indices")
+ArrayDirectAccessError::ArrayDirectAccessError(const Token &token, const Context &context, const Node *node, DataHolder *array)
+    : RuntimeError(token, context, "Attempting to access array without indices"), node(node), array(array)
 {}
 
 inline std::string conditionTypeErrorMessage(TokenType type) {
diff --git a/src/psc/error.h b/src/psc/error.h
index 115c821..46430b3 100644
--- a/src/psc/error.h
+++ b/src/psc/error.h
@@ -107,7 +107,10 @@ namespace PSC {
 
     class ArrayDirectAccessError : public RuntimeError {
     public:
-        ArrayDirectAccessError(const Token &token, const Context &context);
+        const Node *node; // The expression that denotes the array, if known
+        DataHolder *array;
+
+        ArrayDirectAccessError(const Token &token, const Context &context, const Node *node = nullptr, DataHolder *array = nullptr);
     };
 
     class ConditionTypeError : public RuntimeError {
-- 
2.43.0


From 336b388849c55eec5ad0bfcad963786ea13db92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:51 +0000
Subject: [PATCH 49/50] fix: reject a random file record that holds more data
 than the variable it is read into

---
 src/psc/file.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index eb91007..3bf8187 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -122,7 +122,11 @@ bool File::getRecord(DataHolder &data, Context &ctx) {
     if (ptr == records.size()) return false;
     const std::string &line = records[ptr];
     std::istringstream ss(line);
-    return data.load(ss, ctx);
+    if (!data.load(ss, ctx)) return false;
+
+    // The record must not hold more than the variable (e.g. a type of the same name with more fields)
+    ss >> std::ws;
+    return ss.peek() == std::istringstream::traits_type::eof();
 }
 
 void File::putRecord(DataHolder &data) {
-- 
2.43.0


From 45087e1caf802fa4d83ea76bbefb001ed7ecc6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:56 +0000
Subject: [PATCH 50/50] fix: text containing a NUL character is not a numeral

---
 src/psc/types/character.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psc/types/character.cpp b/src/psc/types/character.cpp
index 2629f8f..caba64f 100644
--- a/src/psc/types/character.cpp
+++ b/src/psc/types/character.cpp
@@ -79,7 +79,7 @@ std::unique_ptr<Integer> String::toInteger() const {
     char *end;
 
     int_t x = std::strtol(cStr, &end, 10);
-    if (end[0] != '\0' || cStr[0] == '\0') {
+    if (end != cStr + value.size() || value.empty()) {
         x = 0;
     }
 
@@ -91,7 +91,7 @@ std::unique_ptr<Real> String::toReal() const {
     char *end;
 
     real_t x = std::strtod(cStr, &end);
-    if (end[0] != '\0' || cStr[0] == '\0') {
+    if (end != cStr + value.size() || value.empty()) {
         x = 0.0;
     }
 
-- 
2.43.0

