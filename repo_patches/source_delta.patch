From 0d1b9a7afdc26a29bfdab3825cd9132b753c43e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 01/35] fix: a // comment ends before its line break, and blank
 lines are allowed in TYPE blocks

---
 src/lexer/lexer.cpp     | 3 +--
 src/parser/userType.cpp | 3 ++-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lexer/lexer.cpp b/src/lexer/lexer.cpp
index e461e40..abafbbe 100644
--- a/src/lexer/lexer.cpp
+++ b/src/lexer/lexer.cpp
@@ -55,8 +55,7 @@ const std::vector<Token*> Lexer::makeTokens() {
             if (idx >= expr->size() || currentChar != '/') {
                 tokens.emplace_back(new Token(TokenType::SLASH, line, column));
             } else {
-                int commentLine = line;
-                while (line == commentLine && idx < expr->size()) advance();
+                while (idx < expr->size() && currentChar != '\n') advance();
             }
             continue;
         } else if (currentChar == '(') {
diff --git a/src/parser/userType.cpp b/src/parser/userType.cpp
index df62671..b4a3691 100644
--- a/src/parser/userType.cpp
+++ b/src/parser/userType.cpp
@@ -59,13 +59,14 @@ Node *Parser::parseComposite(const Token &token, const Token &identifier) {
     PSC::Block *block = new PSC::Block();
     blocks.emplace_back(block);
 
+    while (currentToken->type == TokenType::LINE_END) advance();
     while (currentToken->type == TokenType::DECLARE) {
         Node *declareNode = parseDeclareExpression();
         block->addNode(declareNode);
 
         if (currentToken->type != TokenType::LINE_END)
             throw PSC::ExpectedTokenError(*currentToken, "newline");
-        advance();
+        while (currentToken->type == TokenType::LINE_END) advance();
     }
 
     if (currentToken->type != TokenType::ENDTYPE)
-- 
2.43.0


From f1a543c4396e33fcc774eeee8bebe5320044ea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 02/35] fix: CONTINUE in a REPEAT loop goes on to the UNTIL
 test

---
 src/nodes/loop/repeatUntil.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/nodes/loop/repeatUntil.cpp b/src/nodes/loop/repeatUntil.cpp
index 7308ff0..cb4a43c 100644
--- a/src/nodes/loop/repeatUntil.cpp
+++ b/src/nodes/loop/repeatUntil.cpp
@@ -14,9 +14,7 @@ std::unique_ptr<NodeResult> RepeatUntilNode::evaluate(PSC::Context &ctx) {
             block.run(ctx);
         } catch (BreakErrSignal&) {
             break;
-        } catch (ContinueErrSignal&) {
-            continue;
-        }
+        } catch (ContinueErrSignal&) {}
 
         auto conditionRes = node.evaluate(ctx);
         
-- 
2.43.0


From 3ce13e2007e4fb58ea807f725b6b0a606001ca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 03/35] fix: BREAK and CONTINUE cannot act on a loop outside
 the procedure or function they are in

---
 src/psc/procedure.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/psc/procedure.cpp b/src/psc/procedure.cpp
index b5d43d4..7e2e06a 100644
--- a/src/psc/procedure.cpp
+++ b/src/psc/procedure.cpp
@@ -2,6 +2,8 @@
 
 #include "psc/scope/block.h"
 #include "psc/scope/context.h"
+#include "psc/error.h"
+#include "nodes/loop/control.h"
 #include "procedure.h"
 
 using namespace PSC;
@@ -32,7 +34,13 @@ std::vector<PSC::DataType> Procedure::getTypes() const {
 }
 
 void Procedure::run(PSC::Context &ctx) {
-    block->run(ctx);
+    try {
+        block->run(ctx);
+    } catch (BreakErrSignal &e) {
+        throw PSC::InvalidUsageError(e.token, ctx, "'BREAK' statement");
+    } catch (ContinueErrSignal &e) {
+        throw PSC::InvalidUsageError(e.token, ctx, "'CONTINUE' statement");
+    }
 }
 
 Function::Function(
-- 
2.43.0


From 163836739670d2021317bcaaf24152a3abbb1761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 04/35] fix: CASE ranges compare INTEGER values exactly and
 accept CHAR and DATE bounds

---
 src/nodes/selection/case.cpp | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/nodes/selection/case.cpp b/src/nodes/selection/case.cpp
index 941c025..8687afb 100644
--- a/src/nodes/selection/case.cpp
+++ b/src/nodes/selection/case.cpp
@@ -53,26 +53,32 @@ RangeCaseComponent::RangeCaseComponent(PSC::Block &block, Node &lowerBound, Node
 {}
 
 bool RangeCaseComponent::match(const NodeResult &value, PSC::Context &ctx) {
-    PSC::real_t testValue;
-    if (value.type == PSC::DataType::INTEGER) testValue = value.get<PSC::Integer>().value;
-    else if (value.type == PSC::DataType::REAL) testValue = value.get<PSC::Real>().value;
-    else return false;
+    if (value.type == PSC::DataType::CHAR || value.type == PSC::DataType::DATE) {
+        auto lower = lowerBound.evaluate(ctx);
+        auto upper = upperBound.evaluate(ctx);
+        if (lower->type != value.type || upper->type != value.type) return false;
+
+        if (value.type == PSC::DataType::CHAR) {
+            char c = value.get<PSC::Char>().value;
+            return lower->get<PSC::Char>().value <= c && c <= upper->get<PSC::Char>().value;
+        }
 
-    PSC::real_t lowerVal;
-    auto lower = lowerBound.evaluate(ctx);
+        auto &date = value.get<PSC::Date>().date;
+        return lower->get<PSC::Date>().date <= date && date <= upper->get<PSC::Date>().date;
+    }
 
-    if (lower->type == PSC::DataType::INTEGER) lowerVal = lower->get<PSC::Integer>().value;
-    else if (lower->type == PSC::DataType::REAL) lowerVal = lower->get<PSC::Real>().value;
-    else throw PSC::RuntimeError(lowerBound.getToken(), ctx, "Lower bound must be of type INTEGER or REAL");
+    if (value.type != PSC::DataType::INTEGER && value.type != PSC::DataType::REAL) return false;
+    const PSC::Number &testValue = value.get<PSC::Number>();
 
-    PSC::real_t upperVal;
-    auto upper = upperBound.evaluate(ctx);
+    auto lower = lowerBound.evaluate(ctx);
+    if (lower->type != PSC::DataType::INTEGER && lower->type != PSC::DataType::REAL)
+        throw PSC::RuntimeError(lowerBound.getToken(), ctx, "Lower bound must be of type INTEGER or REAL");
 
-    if (upper->type == PSC::DataType::INTEGER) upperVal = upper->get<PSC::Integer>().value;
-    else if (upper->type == PSC::DataType::REAL) upperVal = upper->get<PSC::Real>().value;
-    else throw PSC::RuntimeError(upperBound.getToken(), ctx, "Upper bound must be of type INTEGER or REAL");
+    auto upper = upperBound.evaluate(ctx);
+    if (upper->type != PSC::DataType::INTEGER && upper->type != PSC::DataType::REAL)
+        throw PSC::RuntimeError(upperBound.getToken(), ctx, "Upper bound must be of type INTEGER or REAL");
 
-    return (lowerVal <= testValue) && (testValue <= upperVal);
+    return (lower->get<PSC::Number>() <= testValue)->value && (testValue <= upper->get<PSC::Number>())->value;
 }
 
 
-- 
2.43.0


From dc20d672a3176bb342b7b355e2459cd96efb710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 05/35] fix: record values are copied with their array fields,
 and storage is assigned in place so that references and pointers to it stay
 valid

---
 src/nodes/functions/function.cpp  | 34 +------------------------
 src/nodes/functions/procedure.cpp | 34 +------------------------
 src/nodes/io/file.cpp             |  5 ++--
 src/nodes/variable/variable.cpp   | 39 +++++------------------------
 src/psc/array.cpp                 | 21 +++++++++++++---
 src/psc/array.h                   |  5 +++-
 src/psc/scope/context.cpp         | 25 ++++++++++++++-----
 src/psc/scope/context.h           |  5 +++-
 src/psc/types/types.h             |  6 +++++
 src/psc/types/userType.cpp        | 10 +++++++-
 src/psc/variable.cpp              | 41 ++++++++++++++++++-------------
 src/psc/variable.h                |  7 +++---
 12 files changed, 98 insertions(+), 134 deletions(-)

diff --git a/src/nodes/functions/function.cpp b/src/nodes/functions/function.cpp
index 15ed111..b5a28a0 100644
--- a/src/nodes/functions/function.cpp
+++ b/src/nodes/functions/function.cpp
@@ -100,39 +100,7 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
             PSC::Variable &original = *static_cast<PSC::Variable*>(&holder);
             var = original.createReference(parameter.name);
         } else {
-            var = new PSC::Variable(parameter.name, argRes->type, false, functionCtx.get());
-
-            switch (var->type.type) {
-                case PSC::DataType::INTEGER:
-                    var->get<PSC::Integer>() = argRes->get<PSC::Integer>();
-                    break;
-                case PSC::DataType::REAL:
-                    var->get<PSC::Real>() = argRes->get<PSC::Real>();
-                    break;
-                case PSC::DataType::BOOLEAN:
-                    var->get<PSC::Boolean>() = argRes->get<PSC::Boolean>();
-                    break;
-                case PSC::DataType::CHAR:
-                    var->get<PSC::Char>() = argRes->get<PSC::Char>();
-                    break;
-                case PSC::DataType::STRING:
-                    var->get<PSC::String>() = argRes->get<PSC::String>();
-                    break;
-                case PSC::DataType::DATE:
-                    var->get<PSC::Date>() = argRes->get<PSC::Date>();
-                    break;
-                case PSC::DataType::ENUM:
-                    var->get<PSC::Enum>() = argRes->get<PSC::Enum>();
-                    break;
-                case PSC::DataType::POINTER:
-                    var->get<PSC::Pointer>() = argRes->get<PSC::Pointer>();
-                    break;
-                case PSC::DataType::COMPOSITE:
-                    var->get<PSC::Composite>() = argRes->get<PSC::Composite>();
-                    break;
-                case PSC::DataType::NONE:
-                    std::abort();
-            }
+            var = new PSC::Variable(parameter.name, parameter.type, false, functionCtx.get(), argRes->data.get());
         }
 
         functionCtx->addVariable(var);
diff --git a/src/nodes/functions/procedure.cpp b/src/nodes/functions/procedure.cpp
index e84dc65..645a5d2 100644
--- a/src/nodes/functions/procedure.cpp
+++ b/src/nodes/functions/procedure.cpp
@@ -92,39 +92,7 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
             PSC::Variable &original = *static_cast<PSC::Variable*>(&holder);
             var = original.createReference(parameter.name);
         } else {
-            var = new PSC::Variable(parameter.name, argRes->type, false, procedureCtx.get());
-
-            switch (var->type.type) {
-                case PSC::DataType::INTEGER:
-                    var->get<PSC::Integer>() = argRes->get<PSC::Integer>();
-                    break;
-                case PSC::DataType::REAL:
-                    var->get<PSC::Real>() = argRes->get<PSC::Real>();
-                    break;
-                case PSC::DataType::BOOLEAN:
-                    var->get<PSC::Boolean>() = argRes->get<PSC::Boolean>();
-                    break;
-                case PSC::DataType::CHAR:
-                    var->get<PSC::Char>() = argRes->get<PSC::Char>();
-                    break;
-                case PSC::DataType::STRING:
-                    var->get<PSC::String>() = argRes->get<PSC::String>();
-                    break;
-                case PSC::DataType::DATE:
-                    var->get<PSC::Date>() = argRes->get<PSC::Date>();
-                    break;
-                case PSC::DataType::ENUM:
-                    var->get<PSC::Enum>() = argRes->get<PSC::Enum>();
-                    break;
-                case PSC::DataType::POINTER:
-                    var->get<PSC::Pointer>() = argRes->get<PSC::Pointer>();
-                    break;
-                case PSC::DataType::COMPOSITE:
-                    var->get<PSC::Composite>() = argRes->get<PSC::Composite>();
-                    break;
-                case PSC::DataType::NONE:
-                    std::abort();
-            }
+            var = new PSC::Variable(parameter.name, parameter.type, false, procedureCtx.get(), argRes->data.get());
         }
 
         procedureCtx->addVariable(var);
diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index cb67719..f36986d 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -49,9 +49,8 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
     if (file->getMode() == PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "Attempting to use 'READFILE' on random file. Use 'GETRECORD' instead.");
     
-    PSC::String *data = new PSC::String;
-    *data = file->read();
-    var->set(data);
+    PSC::String data = file->read();
+    var->set(&data);
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index b287444..dfec3c4 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -59,7 +59,7 @@ void AssignNode::assignArray(PSC::Context &ctx, const PSC::ArrayDirectAccessErro
     PSC::Array *arr = static_cast<PSC::Array*>(&holder);
     if (arr->type != array->type)
         throw PSC::RuntimeError(token, ctx, "Cannot assign arrays of different data type");
-    if (arr->dimensions != array->dimensions)
+    if (!arr->hasSameShape(*array))
         throw PSC::RuntimeError(token, ctx, "Cannot assign arrays of different dimensions");
 
     arr->copyData(*array);
@@ -90,7 +90,7 @@ std::unique_ptr<NodeResult> AssignNode::evaluate(PSC::Context &ctx) {
         if (pedantic)
             throw PSC::PedanticError(token, "Assigning to undeclared variable");
         
-        var = new PSC::Variable(simpleSource->getName(), valueRes->type, false, &ctx);
+        var = new PSC::Variable(simpleSource->getName(), valueRes->type, false, &ctx, valueRes->data.get());
         ctx.addVariable(var);
     }
 
@@ -101,37 +101,10 @@ std::unique_ptr<NodeResult> AssignNode::evaluate(PSC::Context &ctx) {
     if (var->type != valueRes->type)
         throw PSC::InvalidUsageError(token, ctx, "assignment operator: incompatible data types");
 
-    switch (var->type.type) {
-        case PSC::DataType::INTEGER:
-            var->get<PSC::Integer>() = valueRes->get<PSC::Integer>();
-            break;
-        case PSC::DataType::REAL:
-            var->get<PSC::Real>() = valueRes->get<PSC::Real>();
-            break;
-        case PSC::DataType::BOOLEAN:
-            var->get<PSC::Boolean>() = valueRes->get<PSC::Boolean>();
-            break;
-        case PSC::DataType::CHAR:
-            var->get<PSC::Char>() = valueRes->get<PSC::Char>();
-            break;
-        case PSC::DataType::STRING:
-            var->get<PSC::String>() = valueRes->get<PSC::String>();
-            break;
-        case PSC::DataType::DATE:
-            var->get<PSC::Date>() = valueRes->get<PSC::Date>();
-            break;
-        case PSC::DataType::ENUM:
-            var->get<PSC::Enum>() = valueRes->get<PSC::Enum>();
-            break;
-        case PSC::DataType::POINTER:
-            var->get<PSC::Pointer>() = valueRes->get<PSC::Pointer>();
-            break;
-        case PSC::DataType::COMPOSITE:
-            var->get<PSC::Composite>() = valueRes->get<PSC::Composite>();
-            break;
-        case PSC::DataType::NONE:
-            std::abort();
-    }
+    if (var->type == PSC::DataType::COMPOSITE && !var->get<PSC::Composite>().hasSameShape(valueRes->get<PSC::Composite>()))
+        throw PSC::RuntimeError(token, ctx, "Cannot assign arrays of different dimensions");
+
+    var->set(valueRes->data.get());
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
diff --git a/src/psc/array.cpp b/src/psc/array.cpp
index 2cf834b..f3bfe54 100644
--- a/src/psc/array.cpp
+++ b/src/psc/array.cpp
@@ -26,15 +26,30 @@ Array::Array(const std::string &name, DataType type, const std::vector<ArrayDime
     : DataHolder(name), type(type), dimensions(dimensions)
 {}
 
-Array::Array(const Array &other)
+Array::Array(const Array &other, Context *ctx)
     : DataHolder(other.name),
     type(other.type),
     dimensions(Array::copyDimensions(other.dimensions))
-{}
+{
+    data.reserve(other.data.size());
+    for (const auto &element : other.data) {
+        data.emplace_back(new Variable(*element, ctx));
+    }
+}
+
+bool Array::hasSameShape(const Array &other) const {
+    if (dimensions != other.dimensions) return false;
+    if (type != DataType::COMPOSITE) return true;
+
+    for (size_t i = 0; i < data.size(); i++) {
+        if (!data[i]->get<Composite>().hasSameShape(other.data[i]->get<Composite>())) return false;
+    }
+    return true;
+}
 
 void Array::copyData(const Array &other) {
     for (size_t i = 0; i < data.size(); i++) {
-        data[i] = std::make_unique<PSC::Variable>(*(other.data[i]), other.data[i]->parent);
+        data[i]->set(&other.data[i]->get<Value>());
     }
 }
 
diff --git a/src/psc/array.h b/src/psc/array.h
index 7e12b70..d0ec134 100644
--- a/src/psc/array.h
+++ b/src/psc/array.h
@@ -34,7 +34,10 @@ namespace PSC {
 
         Array(const std::string &name, DataType type, const std::vector<ArrayDimension> &dimensions);
 
-        Array(const Array &other);
+        // Copies elements as well
+        Array(const Array &other, Context *ctx);
+
+        bool hasSameShape(const Array &other) const;
 
         void copyData(const Array &other);
 
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 6b64d51..4c084b4 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -27,22 +27,35 @@ void copyPtrVector(const std::vector<std::unique_ptr<T>> &source, std::vector<st
     }
 }
 
-Context::Context(const Context &other)
-    : parent(other.parent),
+Context::Context(const Context &other, Context *parent)
+    : parent(parent),
     name(other.name),
     isFunctionCtx(other.isFunctionCtx),
     isCompositeCtx(other.isCompositeCtx),
     returnType(other.returnType)
 {
     copyPtrVector(other.variables, variables, this);
-    copyPtrVector(other.arrays, arrays);
-    copyPtrVector(other.procedures, procedures);
-    copyPtrVector(other.functions, functions);
+    copyPtrVector(other.arrays, arrays, this);
+}
+
+bool Context::hasSameShape(const Context &other) const {
+    for (size_t i = 0; i < variables.size(); i++) {
+        if (variables[i]->type == DataType::COMPOSITE
+            && !variables[i]->get<Composite>().hasSameShape(other.variables[i]->get<Composite>())
+        ) return false;
+    }
+    for (size_t i = 0; i < arrays.size(); i++) {
+        if (!arrays[i]->hasSameShape(*other.arrays[i])) return false;
+    }
+    return true;
 }
 
 void Context::copyVariableData(const Context &other) {
     for (size_t i = 0; i < variables.size(); i++) {
-        variables[i]->set(&other.variables[i]->get<Value>(), true);
+        variables[i]->set(&other.variables[i]->get<Value>());
+    }
+    for (size_t i = 0; i < arrays.size(); i++) {
+        arrays[i]->copyData(*other.arrays[i]);
     }
 }
 
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index deba644..c7d0b85 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -43,7 +43,10 @@ namespace PSC {
         Context(Context *parent, const std::string &name, bool isCompositeCtx);
 
         // For copying composites
-        explicit Context(const Context &other);
+        Context(const Context &other, Context *parent);
+
+        // Only for composites
+        bool hasSameShape(const Context &other) const;
 
         // Only for composites
         void copyVariableData(const Context &other);
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index 0221de6..99aaa55 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -325,8 +325,14 @@ namespace PSC {
 
         Composite(const Composite &other);
 
+        // Copy owned by a variable of the given context
+        Composite(const Composite &other, Context &parent);
+
         void operator=(const Composite &other);
 
+        // Array fields of equal bounds, needed for copying one into the other
+        bool hasSameShape(const Composite &other) const;
+
         DataHolder *getMember(const std::string &name);
 
         const CompositeTypeDefinition &getDefinition(Context &ctx) const;
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index 993eecb..0f88766 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -91,8 +91,12 @@ Composite::Composite(const std::string &name, Context &parent)
 }
 
 Composite::Composite(const Composite &other)
+    : Composite(other, *other.ctx->getParent())
+{}
+
+Composite::Composite(const Composite &other, Context &parent)
     : definitionName(other.definitionName),
-    ctx(std::make_unique<Context>(*other.ctx))
+    ctx(std::make_unique<Context>(*other.ctx, &parent))
 {}
 
 void Composite::operator=(const Composite &other) {
@@ -100,6 +104,10 @@ void Composite::operator=(const Composite &other) {
     ctx->copyVariableData(*other.ctx);
 }
 
+bool Composite::hasSameShape(const Composite &other) const {
+    return ctx->hasSameShape(*other.ctx);
+}
+
 DataHolder *Composite::getMember(const std::string &name) {
     PSC::Variable *var = ctx->getVariable(name);
     if (var != nullptr) return var;
diff --git a/src/psc/variable.cpp b/src/psc/variable.cpp
index 1619079..29a204c 100644
--- a/src/psc/variable.cpp
+++ b/src/psc/variable.cpp
@@ -7,14 +7,14 @@ using namespace PSC;
 DataHolder::DataHolder(const std::string &name) : name(name) {}
 
 Variable::Variable(const std::string &name, Variable *v)
-    : DataHolder(name), data(v->data), ref(v), type(v->type), isConstant(v->isConstant), parent(v->parent)
+    : DataHolder(name), data(nullptr), ref(v), type(v->type), isConstant(v->isConstant), parent(v->parent)
 {}
 
 Variable::Variable(const std::string &name, DataType type, bool isConstant, Context *ctx, const Value *initialData)
     : DataHolder(name), data(nullptr), ref(nullptr), type(type), isConstant(isConstant), parent(ctx)
 {
     if (initialData != nullptr) {
-        set(const_cast<Value*>(initialData), true);
+        set(initialData);
         return;
     }
     switch (type.type) {
@@ -58,40 +58,47 @@ Variable::~Variable() {
     if (ref == nullptr) delete data;
 }
 
-void Variable::set(Value *_data, bool copy) {
-    if (data != nullptr) delete data;
-    if (!copy) {
-        data = _data;
+// References and pointers to this variable (or its fields) stay valid: existing storage is assigned, never replaced
+template<std::derived_from<Value> T, typename... Args>
+static void assignValue(Value *&data, const Value *value, Args&&... args) {
+    const T &source = *static_cast<const T*>(value);
+    if (data == nullptr) data = new T(source, std::forward<Args>(args)...);
+    else *static_cast<T*>(data) = source;
+}
+
+void Variable::set(const Value *_data) {
+    if (ref != nullptr) {
+        ref->set(_data);
         return;
     }
 
     switch (type.type) {
         case DataType::INTEGER:
-            data = new PSC::Integer(*((const PSC::Integer*) _data));
+            assignValue<PSC::Integer>(data, _data);
             break;
         case DataType::REAL:
-            data = new PSC::Real(*((const PSC::Real*) _data));
+            assignValue<PSC::Real>(data, _data);
             break;
         case DataType::BOOLEAN:
-            data = new PSC::Boolean(*((const PSC::Boolean*) _data));
+            assignValue<PSC::Boolean>(data, _data);
             break;
         case DataType::CHAR:
-            data = new PSC::Char(*((const PSC::Char*) _data));
+            assignValue<PSC::Char>(data, _data);
             break;
         case DataType::STRING:
-            data = new PSC::String(*((const PSC::String*) _data));
+            assignValue<PSC::String>(data, _data);
             break;
         case DataType::DATE:
-            data = new PSC::Date(*((const PSC::Date*) _data));
+            assignValue<PSC::Date>(data, _data);
             break;
         case DataType::ENUM:
-            data = new PSC::Enum(*((const PSC::Enum*) _data));
+            assignValue<PSC::Enum>(data, _data);
             break;
         case DataType::POINTER:
-            data = new PSC::Pointer(*((const PSC::Pointer*) _data));
+            assignValue<PSC::Pointer>(data, _data);
             break;
         case DataType::COMPOSITE:
-            data = new PSC::Composite(*((const PSC::Composite*) _data));
+            assignValue<PSC::Composite>(data, _data, *parent);
             break;
         case DataType::NONE:
             std::abort();
@@ -108,9 +115,9 @@ Variable *Variable::getReference() {
 }
 
 void Variable::dump(std::ostream &out) const {
-    data->dump(out);
+    (ref == nullptr ? data : ref->data)->dump(out);
 }
 
 bool Variable::load(std::istream &in, Context &ctx) {
-    return data->load(in, ctx);
+    return (ref == nullptr ? data : ref->data)->load(in, ctx);
 }
diff --git a/src/psc/variable.h b/src/psc/variable.h
index 7ce64d8..381f30a 100644
--- a/src/psc/variable.h
+++ b/src/psc/variable.h
@@ -41,13 +41,14 @@ namespace PSC {
 
         constexpr bool isArray() const override {return false;}
 
-        void set(Value *_data, bool copy = false);
+        // Copies the given value into this variable's storage
+        void set(const Value *_data);
 
         template<std::derived_from<Value> T>
-        T &get() { return *((T*) data); }
+        T &get() { return *((T*) (ref == nullptr ? data : ref->data)); }
 
         template<std::derived_from<Value> T>
-        T &getConst() const { return *((const T*) data); }
+        T &getConst() const { return *((const T*) (ref == nullptr ? data : ref->data)); }
 
         Variable *createReference(const std::string &refName);
 
-- 
2.43.0


From 1815445cb3538c7a826064e49c4d7df15aecb01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 06/35] fix: a record member is looked up in the record only,
 not among global variables

---
 src/psc/types/userType.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index 0f88766..a87c6c4 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -109,10 +109,10 @@ bool Composite::hasSameShape(const Composite &other) const {
 }
 
 DataHolder *Composite::getMember(const std::string &name) {
-    PSC::Variable *var = ctx->getVariable(name);
+    PSC::Variable *var = ctx->getVariable(name, false);
     if (var != nullptr) return var;
 
-    PSC::Array *arr = ctx->getArray(name);
+    PSC::Array *arr = ctx->getArray(name, false);
     return arr;
 }
 
-- 
2.43.0


From fe5d11445d1d2620fd00087980a7e0b8661a11cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:33 +0000
Subject: [PATCH 07/35] fix: a record type that contains itself is reported
 instead of overflowing the stack

---
 src/nodes/variable/array.cpp    |  2 ++
 src/nodes/variable/variable.cpp | 11 +++++++++++
 src/nodes/variable/variable.h   |  3 +++
 src/psc/error.cpp               |  3 ++-
 4 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/nodes/variable/array.cpp b/src/nodes/variable/array.cpp
index 8a6cce5..76f92a8 100644
--- a/src/nodes/variable/array.cpp
+++ b/src/nodes/variable/array.cpp
@@ -44,6 +44,8 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
         if (dataType.type == PSC::DataType::NONE)
             throw PSC::TypeNotDefinedError(token, ctx, type.value);
 
+        checkRecursiveType(token, ctx, dataType);
+
         auto array = std::make_unique<PSC::Array>(identifier->value, dataType, dimensions);
         array->init(ctx);
         ctx.addArray(std::move(array));
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index dfec3c4..b9a73d5 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -5,6 +5,15 @@
 
 extern bool pedantic;
 
+void checkRecursiveType(const Token &token, const PSC::Context &ctx, const PSC::DataType &type) {
+    if (type != PSC::DataType::COMPOSITE) return;
+
+    for (const PSC::Context *c = &ctx; c != nullptr && c->isCompositeCtx; c = c->getParent()) {
+        if (c->getName() == *type.name)
+            throw PSC::RuntimeError(token, ctx, "Type '" + *type.name + "' cannot contain itself");
+    }
+}
+
 DeclareNode::DeclareNode(const Token &token, std::vector<const Token*> &&identifiers, const Token &type)
     : Node(token), identifiers(std::move(identifiers)), type(type)
 {}
@@ -21,6 +30,8 @@ std::unique_ptr<NodeResult> DeclareNode::evaluate(PSC::Context &ctx) {
         if (dataType == PSC::DataType::NONE)
             throw PSC::TypeNotDefinedError(token, ctx, type.value);
 
+        checkRecursiveType(token, ctx, dataType);
+
         ctx.addVariable(new PSC::Variable(identifier->value, dataType, false, &ctx));
     }
 
diff --git a/src/nodes/variable/variable.h b/src/nodes/variable/variable.h
index e1104c7..63e5e3d 100644
--- a/src/nodes/variable/variable.h
+++ b/src/nodes/variable/variable.h
@@ -3,6 +3,9 @@
 #include "nodes/variable/resolver.h"
 #include "psc/error.h"
 
+// Throws an error if a variable of the given type in ctx would make a record contain itself
+void checkRecursiveType(const Token &token, const PSC::Context &ctx, const PSC::DataType &type);
+
 class DeclareNode : public Node {
 private:
     const std::vector<const Token*> identifiers;
diff --git a/src/psc/error.cpp b/src/psc/error.cpp
index acdb67d..6c6762e 100644
--- a/src/psc/error.cpp
+++ b/src/psc/error.cpp
@@ -74,7 +74,8 @@ RuntimeError::RuntimeError(const Token &token, const Context &context, const std
 
     const Context *ctx = context.getParent();
     while (ctx != nullptr) {
-        os << "\n" << ctx->getName() << ", line " << ctx->switchToken->line << ", column " << ctx->switchToken->column;
+        // Not a call site: a record of the given context is being created
+        if (ctx->switchToken != nullptr) os << "\n" << ctx->getName() << ", line " << ctx->switchToken->line << ", column " << ctx->switchToken->column;
         Context *parent = ctx->getParent();
         ctx = parent;
     }
-- 
2.43.0


From a188d8ba9d149b90bb323498b3662fa80d692f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 08/35] fix: the traceback of an error in a record declaration
 names the declaring line, and a failed call leaves no call site behind

---
 src/nodes/functions/function.cpp  |  3 +--
 src/nodes/functions/procedure.cpp |  3 +--
 src/nodes/variable/array.cpp      |  1 +
 src/nodes/variable/variable.cpp   |  1 +
 src/psc/error.cpp                 |  1 -
 src/psc/scope/context.h           | 11 +++++++++++
 6 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/nodes/functions/function.cpp b/src/nodes/functions/function.cpp
index b5a28a0..1ba6a51 100644
--- a/src/nodes/functions/function.cpp
+++ b/src/nodes/functions/function.cpp
@@ -75,7 +75,7 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
         throw PSC::InvalidArgsError(token, ctx, function->getTypes(), std::move(argTypes));
 
     auto functionCtx = std::make_unique<PSC::Context>(&ctx, functionName, true, function->returnType);
-    ctx.switchToken = &token;
+    PSC::CallSite callSite(ctx, token);
 
     for (size_t i = 0; i < args.size(); i++) {
         auto &argRes = argResults[i];
@@ -113,7 +113,6 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
     if (!functionCtx->returnValue)
         throw PSC::RuntimeError(*(function->defToken), *functionCtx, "Missing RETURN statement");
 
-    ctx.switchToken = nullptr;
 
     return std::move(functionCtx->returnValue);
 }
diff --git a/src/nodes/functions/procedure.cpp b/src/nodes/functions/procedure.cpp
index 645a5d2..45ccae7 100644
--- a/src/nodes/functions/procedure.cpp
+++ b/src/nodes/functions/procedure.cpp
@@ -69,7 +69,7 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
         throw PSC::InvalidArgsError(token, ctx, procedure->getTypes(), std::move(argTypes));
 
     auto procedureCtx = std::make_unique<PSC::Context>(&ctx, procedureName);
-    ctx.switchToken = &token;
+    PSC::CallSite callSite(ctx, token);
 
     for (size_t i = 0; i < args.size(); i++) {
         auto &argRes = argResults[i];
@@ -99,7 +99,6 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
     }
 
     procedure->run(*procedureCtx);
-    ctx.switchToken = nullptr;
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
diff --git a/src/nodes/variable/array.cpp b/src/nodes/variable/array.cpp
index 76f92a8..389d437 100644
--- a/src/nodes/variable/array.cpp
+++ b/src/nodes/variable/array.cpp
@@ -46,6 +46,7 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
 
         checkRecursiveType(token, ctx, dataType);
 
+        PSC::CallSite callSite(ctx, token);
         auto array = std::make_unique<PSC::Array>(identifier->value, dataType, dimensions);
         array->init(ctx);
         ctx.addArray(std::move(array));
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index b9a73d5..3892f4a 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -32,6 +32,7 @@ std::unique_ptr<NodeResult> DeclareNode::evaluate(PSC::Context &ctx) {
 
         checkRecursiveType(token, ctx, dataType);
 
+        PSC::CallSite callSite(ctx, token);
         ctx.addVariable(new PSC::Variable(identifier->value, dataType, false, &ctx));
     }
 
diff --git a/src/psc/error.cpp b/src/psc/error.cpp
index 6c6762e..1277402 100644
--- a/src/psc/error.cpp
+++ b/src/psc/error.cpp
@@ -74,7 +74,6 @@ RuntimeError::RuntimeError(const Token &token, const Context &context, const std
 
     const Context *ctx = context.getParent();
     while (ctx != nullptr) {
-        // Not a call site: a record of the given context is being created
         if (ctx->switchToken != nullptr) os << "\n" << ctx->getName() << ", line " << ctx->switchToken->line << ", column " << ctx->switchToken->column;
         Context *parent = ctx->getParent();
         ctx = parent;
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index c7d0b85..9f2cc2d 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -103,4 +103,15 @@ namespace PSC {
 
         void addCache(ResolverCache *c);
     };
+
+    // Marks the statement of ctx being executed by code in another context, for tracebacks
+    class CallSite {
+    private:
+        Context &ctx;
+
+    public:
+        CallSite(Context &ctx, const Token &token) : ctx(ctx) {ctx.switchToken = &token;}
+
+        ~CallSite() {ctx.switchToken = nullptr;}
+    };
 }
-- 
2.43.0


From 45fd24a76831e725f8f597101f1b3b95d7b3f2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:50 +0000
Subject: [PATCH 09/35] fix: records of a type defined in a procedure can be
 declared, and such a type cannot redefine a global one

---
 src/nodes/variable/composite.cpp |  2 +-
 src/nodes/variable/enum.cpp      |  2 +-
 src/nodes/variable/pointer.cpp   |  2 +-
 src/psc/scope/context.cpp        | 10 +++++++---
 src/psc/scope/context.h          |  3 +++
 5 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/nodes/variable/composite.cpp b/src/nodes/variable/composite.cpp
index 50484da..af4f159 100644
--- a/src/nodes/variable/composite.cpp
+++ b/src/nodes/variable/composite.cpp
@@ -8,7 +8,7 @@ CompositeDefineNode::CompositeDefineNode(const Token &token, const Token &name,
     : Node(token), name(name), initBlock(initBlock) {}
 
 std::unique_ptr<NodeResult> CompositeDefineNode::evaluate(PSC::Context &ctx) {
-    if (ctx.isIdentifierType(name, false))
+    if (ctx.isIdentifierType(name, false) || ctx.getType(name) != PSC::DataType::NONE)
         throw PSC::RedefinitionError(token, ctx, name.value);
     
     PSC::CompositeTypeDefinition definition(name.value, initBlock);
diff --git a/src/nodes/variable/enum.cpp b/src/nodes/variable/enum.cpp
index 6b26955..c891ce5 100644
--- a/src/nodes/variable/enum.cpp
+++ b/src/nodes/variable/enum.cpp
@@ -8,7 +8,7 @@ EnumDefineNode::EnumDefineNode(const Token &token, const Token &name, std::vecto
     : Node(token), name(name), values(std::move(values)) {}
 
 std::unique_ptr<NodeResult> EnumDefineNode::evaluate(PSC::Context &ctx) {
-    if (ctx.isIdentifierType(name, false))
+    if (ctx.isIdentifierType(name, false) || ctx.getType(name) != PSC::DataType::NONE)
         throw PSC::RedefinitionError(token, ctx, name.value);
 
     PSC::EnumTypeDefinition definition(name.value, std::move(values));
diff --git a/src/nodes/variable/pointer.cpp b/src/nodes/variable/pointer.cpp
index 10a1694..891cce3 100644
--- a/src/nodes/variable/pointer.cpp
+++ b/src/nodes/variable/pointer.cpp
@@ -12,7 +12,7 @@ std::unique_ptr<NodeResult> PointerDefineNode::evaluate(PSC::Context &ctx) {
     if (pointerType == PSC::DataType::NONE)
         throw PSC::TypeNotDefinedError(token, ctx, type.value);
 
-    if (ctx.isIdentifierType(name, false))
+    if (ctx.isIdentifierType(name, false) || ctx.getType(name) != PSC::DataType::NONE)
         throw PSC::RedefinitionError(token, ctx, name.value);
 
     PSC::PointerTypeDefinition definition(name.value, pointerType);
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 4c084b4..72fcbd3 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -130,6 +130,10 @@ Context *Context::getGlobalContext() {
     return ctx;
 }
 
+Context *Context::getTypeScope() {
+    return isCompositeCtx ? parent : getGlobalContext();
+}
+
 const std::string &Context::getName() const {
     return name;
 }
@@ -271,7 +275,7 @@ const EnumTypeDefinition *Context::getEnumDefinition(const std::string &name, bo
     for (const auto &e : enums) {
         if (e->name == name) return e.get();
     }
-    if (global && parent != nullptr) return getGlobalContext()->getEnumDefinition(name);
+    if (global && parent != nullptr) return getTypeScope()->getEnumDefinition(name);
     return nullptr;
 }
 
@@ -279,7 +283,7 @@ const PointerTypeDefinition *Context::getPointerDefinition(const std::string &na
     for (const auto &p : pointers) {
         if (p->name == name) return p.get();
     }
-    if (global && parent != nullptr) return getGlobalContext()->getPointerDefinition(name);
+    if (global && parent != nullptr) return getTypeScope()->getPointerDefinition(name);
     return nullptr;
 }
 
@@ -287,7 +291,7 @@ const CompositeTypeDefinition *Context::getCompositeDefinition(const std::string
     for (const auto &c : composites) {
         if (c->name == name) return c.get();
     }
-    if (global && parent != nullptr) return getGlobalContext()->getCompositeDefinition(name);
+    if (global && parent != nullptr) return getTypeScope()->getCompositeDefinition(name);
     return nullptr;
 }
 
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index 9f2cc2d..d12a686 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -59,6 +59,9 @@ namespace PSC {
 
         Context *getGlobalContext();
 
+        // Where types not defined in this context are looked up: a record sees the types of the context it is declared in
+        Context *getTypeScope();
+
         const std::string &getName() const;
 
         void addVariable(Variable *variable);
-- 
2.43.0


From 0a78a2074765e6d8bcabaceaa60328c7dcb98d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 10/35] fix: an enumerated type defined in a procedure has its
 values in every call

---
 src/nodes/variable/enum.cpp | 2 +-
 src/nodes/variable/enum.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nodes/variable/enum.cpp b/src/nodes/variable/enum.cpp
index c891ce5..37ae859 100644
--- a/src/nodes/variable/enum.cpp
+++ b/src/nodes/variable/enum.cpp
@@ -11,7 +11,7 @@ std::unique_ptr<NodeResult> EnumDefineNode::evaluate(PSC::Context &ctx) {
     if (ctx.isIdentifierType(name, false) || ctx.getType(name) != PSC::DataType::NONE)
         throw PSC::RedefinitionError(token, ctx, name.value);
 
-    PSC::EnumTypeDefinition definition(name.value, std::move(values));
+    PSC::EnumTypeDefinition definition(name.value, std::vector<std::string>(values));
     ctx.createEnumDefinition(std::move(definition));
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
diff --git a/src/nodes/variable/enum.h b/src/nodes/variable/enum.h
index b185585..1cc5935 100644
--- a/src/nodes/variable/enum.h
+++ b/src/nodes/variable/enum.h
@@ -4,7 +4,7 @@
 class EnumDefineNode : public Node {
 private:
     const Token &name;
-    std::vector<std::string> values;
+    const std::vector<std::string> values;
 
 public:
     EnumDefineNode(const Token &token, const Token &name, std::vector<std::string> &&values);
-- 
2.43.0


From ac96f1ab80ec8b3fbc31d5923d8d4f3a8feb78f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 11/35] fix: enumerated values keep their type in arithmetic
 and function results, and arithmetic on them wraps for every INTEGER

---
 src/nodes/eval/arithmetic.cpp    | 18 +++++++++---------
 src/nodes/functions/function.cpp |  1 +
 src/nodes/variable/variable.cpp  |  2 +-
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index 86f63e6..b9a3638 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -130,30 +130,30 @@ std::unique_ptr<NodeResult> ArithmeticOperationNode::evaluate(PSC::Context &ctx)
         const PSC::Enum &enumVal = leftRes->get<PSC::Enum>();
         const PSC::Integer &integer = rightRes->get<PSC::Integer>();
 
+        const PSC::EnumTypeDefinition &definition = enumVal.getDefinition(ctx);
+        PSC::int_t enumSize = definition.values.size();
+
+        // Operands are reduced first so that the result cannot overflow
         PSC::int_t left, right;
         if (enumSwap) {
-            left = integer.value;
+            left = integer.value % enumSize;
             right = enumVal.idx;
         } else {
             left = enumVal.idx;
-            right = integer.value;
+            right = integer.value % enumSize;
         }
 
         PSC::int_t res;
         if (token.type == TokenType::PLUS) {
-            res = left + right;
+            res = (left + right) % enumSize;
         } else {
-            res = left - right;
+            res = (left - right) % enumSize;
         }
-
-        const PSC::EnumTypeDefinition &definition = enumVal.getDefinition(ctx);
-        std::size_t enumSize = definition.values.size();
-        res %= enumSize;
         if (res < 0) res += enumSize;
 
         std::unique_ptr<PSC::Enum> resEnum = std::make_unique<PSC::Enum>(definition.name);
         resEnum->idx = res;
-        return std::make_unique<NodeResult>(std::move(resEnum), PSC::DataType::ENUM);
+        return std::make_unique<NodeResult>(std::move(resEnum), PSC::DataType(PSC::DataType::ENUM, &definition.name));
     }
 
     if ((leftRes->type != PSC::DataType::INTEGER && leftRes->type != PSC::DataType::REAL)
diff --git a/src/nodes/functions/function.cpp b/src/nodes/functions/function.cpp
index 1ba6a51..97ea88a 100644
--- a/src/nodes/functions/function.cpp
+++ b/src/nodes/functions/function.cpp
@@ -126,6 +126,7 @@ std::unique_ptr<NodeResult> ReturnNode::evaluate(PSC::Context &ctx) {
 
     if (ctx.returnValue->type != ctx.returnType)
         throw PSC::RuntimeError(token, ctx, "Invalid return type");
+    ctx.returnValue->type = ctx.returnType;
 
     throw ReturnErrSignal();
 }
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index 3892f4a..3da7830 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -132,7 +132,7 @@ std::unique_ptr<NodeResult> AccessNode::evaluate(PSC::Context &ctx) {
     } catch (PSC::NotDefinedError &e) {
         auto def = ctx.getEnumElement(token.value);
         if (def != nullptr)
-            return std::make_unique<NodeResult>(def, PSC::DataType(PSC::DataType::ENUM, &def->definitionName));
+            return std::make_unique<NodeResult>(def, PSC::DataType(PSC::DataType::ENUM, &def->getDefinition(ctx).name));
         throw e;
     }
 
-- 
2.43.0


From 5db1204b93539d349a7b1f01b833b8b8b3c441f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 12/35] fix: a name denotes the local variable or array as soon
 as it is declared, before any global one

---
 src/nodes/variable/resolver.cpp | 14 ++++----------
 src/psc/scope/context.cpp       | 23 ++++++++++++++++++++---
 src/psc/scope/context.h         |  6 ++++++
 src/psc/types/types.cpp         |  2 +-
 4 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/nodes/variable/resolver.cpp b/src/nodes/variable/resolver.cpp
index 6b4db88..6dd6b83 100644
--- a/src/nodes/variable/resolver.cpp
+++ b/src/nodes/variable/resolver.cpp
@@ -158,16 +158,10 @@ PSC::DataHolder &SimpleVariableSource::resolve(PSC::Context &ctx) {
     PSC::DataHolder *cached = cache.get(ctx);
     if (cached != nullptr) return *cached;
 
-    PSC::Variable *var = ctx.getVariable(token.value);
-    if (var != nullptr) {
-        cache.set(var, ctx);
-        return *var;
-    }
-
-    PSC::Array *arr = ctx.getArray(token.value);
-    if (arr != nullptr) {
-        cache.set(arr, ctx);
-        return *arr;
+    PSC::DataHolder *holder = ctx.getDataHolder(token.value);
+    if (holder != nullptr) {
+        cache.set(holder, ctx);
+        return *holder;
     }
 
     throw PSC::NotDefinedError(token, ctx, "Identifier '" + token.value + "'");
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 72fcbd3..5d40589 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -60,9 +60,7 @@ void Context::copyVariableData(const Context &other) {
 }
 
 Context::~Context() {
-    for (ResolverCache *c : cache) {
-        c->clear();
-    }
+    clearCache();
 }
 
 std::unique_ptr<Context> Context::createGlobalContext() {
@@ -140,6 +138,7 @@ const std::string &Context::getName() const {
 
 void Context::addVariable(Variable *variable) {
     variables.emplace_back(variable);
+    clearCache();
 }
 
 Variable *Context::getVariable(const std::string &varName, bool global) {
@@ -193,6 +192,7 @@ Function *Context::getFunction(const std::string &functionName) {
 
 void Context::addArray(std::unique_ptr<Array> &&array) {
     arrays.emplace_back(std::move(array));
+    clearCache();
 }
 
 Array *Context::getArray(const std::string &arrayName, bool global) {
@@ -206,6 +206,16 @@ Array *Context::getArray(const std::string &arrayName, bool global) {
     return getGlobalContext()->getArray(arrayName);
 }
 
+DataHolder *Context::getDataHolder(const std::string &holderName) {
+    Variable *variable = getVariable(holderName, false);
+    if (variable != nullptr) return variable;
+
+    Array *array = getArray(holderName, false);
+    if (array != nullptr || parent == nullptr) return array;
+
+    return getGlobalContext()->getDataHolder(holderName);
+}
+
 PSC::DataType Context::getType(const Token &token, bool global) {
     if (token.type == TokenType::DATA_TYPE) {
         if (token.value == "INTEGER") return PSC::DataType(PSC::DataType::INTEGER);
@@ -299,6 +309,13 @@ FileManager &Context::getFileManager() {
     return *(getGlobalContext()->fileManager);
 }
 
+void Context::clearCache() {
+    for (ResolverCache *c : cache) {
+        c->clear();
+    }
+    cache.clear();
+}
+
 void Context::addCache(ResolverCache *c) {
     cache.push_back(c);
 }
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index d12a686..6f86d6b 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -27,6 +27,9 @@ namespace PSC {
 
         std::vector<ResolverCache*> cache;
 
+        // A new name may hide what a resolver has cached
+        void clearCache();
+
     public:
         const Token *switchToken = nullptr;
 
@@ -84,6 +87,9 @@ namespace PSC {
 
         Array *getArray(const std::string &arrayName, bool global = true);
 
+        // Variable or array the name denotes: locals first, then globals
+        DataHolder *getDataHolder(const std::string &holderName);
+
         PSC::DataType getType(const Token &token, bool global = true);
 
         bool isIdentifierType(const Token &identifier, bool global = true);
diff --git a/src/psc/types/types.cpp b/src/psc/types/types.cpp
index 0d831f0..c88b95b 100644
--- a/src/psc/types/types.cpp
+++ b/src/psc/types/types.cpp
@@ -4,7 +4,7 @@
 
 using namespace PSC;
 
-DataType::DataType() : type(PSC::DataType::NONE) {}
+DataType::DataType() : name(nullptr), type(PSC::DataType::NONE) {}
 
 DataType::DataType(Type type, const std::string *name)
     : name(name), type(type) {}
-- 
2.43.0


From 0570e54eb068a2859b1688705da034f145cd1250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 13/35] fix: FOR, INPUT, READFILE and GETRECORD do not write to
 constants

---
 src/nodes/io/file.cpp  | 5 +++++
 src/nodes/io/io.cpp    | 3 +++
 src/nodes/loop/for.cpp | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index f36986d..097f297 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -41,6 +41,8 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
     }
     if (var->type != PSC::DataType::STRING)
         throw PSC::RuntimeError(token, ctx, "Variable of type STRING expected");
+    if (var->isConstant)
+        throw PSC::ConstAssignError(token, ctx, var->name);
 
     auto &filename = filenameRes->get<PSC::String>();
     PSC::File *file = ctx.getFileManager().getFile(filename);
@@ -181,6 +183,9 @@ std::unique_ptr<NodeResult> GetRecordNode::evaluate(PSC::Context &ctx) {
         || (array != nullptr && array->type == PSC::DataType::POINTER))
         throw PSC::RuntimeError(token, ctx, "Pointers cannot be stored in random files");
 
+    if (variable != nullptr && variable->isConstant)
+        throw PSC::ConstAssignError(token, ctx, variable->name);
+
     if (variable != nullptr) {
         if (!file->getRecord(*variable, ctx))
             throw PSC::RuntimeError(token, ctx, "Failed to read data from random file");
diff --git a/src/nodes/io/io.cpp b/src/nodes/io/io.cpp
index e9e2202..0fd0d29 100644
--- a/src/nodes/io/io.cpp
+++ b/src/nodes/io/io.cpp
@@ -82,6 +82,9 @@ std::unique_ptr<NodeResult> InputNode::evaluate(PSC::Context &ctx) {
         ctx.addVariable(var);
     }
 
+    if (var->isConstant)
+        throw PSC::ConstAssignError(token, ctx, var->name);
+
     PSC::String inputStr;
     getLine(inputStr.value, "");
 
diff --git a/src/nodes/loop/for.cpp b/src/nodes/loop/for.cpp
index 9cbc72f..c8b8ed0 100644
--- a/src/nodes/loop/for.cpp
+++ b/src/nodes/loop/for.cpp
@@ -22,6 +22,8 @@ std::unique_ptr<NodeResult> ForLoopNode::evaluate(PSC::Context &ctx) {
 
     if (iterator->type != PSC::DataType::INTEGER)
         throw PSC::RuntimeError(token, ctx, "Iterator variable must be of type INTEGER");
+    if (iterator->isConstant)
+        throw PSC::ConstAssignError(token, ctx, iterator->name);
 
 
     auto startRes = start.evaluate(ctx);
-- 
2.43.0


From e92e58bed4c3c460592eb21b5e73821011566ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:26 +0000
Subject: [PATCH 14/35] fix: a pointer to a variable of a returned call is
 never taken for one of a later call at the same address

---
 src/nodes/variable/resolver.cpp | 10 ++--------
 src/psc/scope/block.cpp         | 16 ++++------------
 src/psc/scope/context.cpp       |  2 ++
 src/psc/scope/context.h         |  5 +++++
 src/psc/types/types.h           |  5 +++--
 src/psc/types/userType.cpp      | 14 +++++++++-----
 6 files changed, 25 insertions(+), 27 deletions(-)

diff --git a/src/nodes/variable/resolver.cpp b/src/nodes/variable/resolver.cpp
index 6dd6b83..574f275 100644
--- a/src/nodes/variable/resolver.cpp
+++ b/src/nodes/variable/resolver.cpp
@@ -51,17 +51,11 @@ PSC::DataHolder &PointerDereferencer::resolve(PSC::Context &ctx) {
     }
 
     PSC::Pointer &ptr = ptrVar->get<PSC::Pointer>();
-    const PSC::Context *ptrCtx = ptr.getCtx();
-    PSC::Context *tempCtx = &ctx;
-    while (tempCtx != ptrCtx) {
-        tempCtx = tempCtx->getParent();
-        if (tempCtx == nullptr)
-            throw PSC::RuntimeError(token, ctx, "Attempting to access deleted object from pointer '" + ptrVar->name + "'");
-    }
-
     PSC::Variable *ptrRefVar = ptr.getValue();
     if (ptrRefVar == nullptr)
         throw PSC::RuntimeError(token, ctx, "Attempt to access uninitalized pointer");
+    if (!ptr.isValid(ctx))
+        throw PSC::RuntimeError(token, ctx, "Attempting to access deleted object from pointer '" + ptrVar->name + "'");
 
     return *ptrRefVar;
 }
diff --git a/src/psc/scope/block.cpp b/src/psc/scope/block.cpp
index a80ad80..50bcc91 100644
--- a/src/psc/scope/block.cpp
+++ b/src/psc/scope/block.cpp
@@ -48,19 +48,11 @@ void Block::runNodeREPL(Node *node, PSC::Context &ctx) {
         } case PSC::DataType::POINTER: {
             auto &resPtr = result->get<PSC::Pointer>();
 
-            const PSC::Context *ptrCtx = resPtr.getCtx();
-            PSC::Context *tempCtx = &ctx;
-            bool valid = true;
-            while (valid && tempCtx != ptrCtx) {
-                tempCtx = tempCtx->getParent();
-                if (tempCtx == nullptr) valid = false;
-            }
-
             std::cout << resPtr.definitionName << ": ";
-            if (valid) {
-                PSC::Variable *ptrValue = resPtr.getValue();
-                const std::string &valueStr = ptrValue == nullptr ? "null" : ptrValue->name;
-                std::cout << valueStr;
+            if (resPtr.getValue() == nullptr) {
+                std::cout << "null";
+            } else if (resPtr.isValid(ctx)) {
+                std::cout << resPtr.getValue()->name;
             } else {
                 std::cout << "{DELETED}";
             }
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 5d40589..fb0ecec 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -6,6 +6,8 @@
 
 using namespace PSC;
 
+size_t Context::nextId = 1;
+
 Context::Context(Context *parent, const std::string &name)
     : Context(parent, name, false, PSC::DataType::NONE)
 {}
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index 6f86d6b..8b0fc4a 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -27,12 +27,17 @@ namespace PSC {
 
         std::vector<ResolverCache*> cache;
 
+        static size_t nextId;
+
         // A new name may hide what a resolver has cached
         void clearCache();
 
     public:
         const Token *switchToken = nullptr;
 
+        // Unlike its address, never shared with a context that no longer exists
+        const size_t id = nextId++;
+
         const bool isFunctionCtx, isCompositeCtx;
         std::unique_ptr<NodeResult> returnValue;
         const PSC::DataType returnType;
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index 99aaa55..acda61d 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -292,7 +292,7 @@ namespace PSC {
     class Pointer : public Custom {
     private:
         Variable *ptr = nullptr;
-        Context *varCtx = nullptr;
+        size_t ctxId = 0;
 
     public:
         const std::string definitionName;
@@ -307,7 +307,8 @@ namespace PSC {
 
         Variable *getValue() const;
 
-        const Context *getCtx() const;
+        // Whether the target's context is ctx or one of its callers
+        bool isValid(const Context &ctx) const;
 
         const PointerTypeDefinition &getDefinition(Context &ctx) const;
     
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index a87c6c4..abd376a 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -47,29 +47,33 @@ Pointer::Pointer(const std::string &name)
     : definitionName(name) {}
 
 Pointer::Pointer(const Pointer &other)
-    : ptr(other.ptr), varCtx(other.varCtx), definitionName(other.definitionName)
+    : ptr(other.ptr), ctxId(other.ctxId), definitionName(other.definitionName)
 {}
 
 void Pointer::setValue(Variable *value) {
     ptr = value;
-    varCtx = value->parent;
+    const Context *varCtx = value->parent;
     while (varCtx->isCompositeCtx) {
         varCtx = varCtx->getParent();
     }
+    ctxId = varCtx->id;
 }
 
 void Pointer::operator=(const Pointer &other) {
     if (definitionName != other.definitionName) std::abort();
     ptr = other.ptr;
-    varCtx = other.varCtx;
+    ctxId = other.ctxId;
 }
 
 Variable *Pointer::getValue() const {
     return ptr;
 }
 
-const Context *Pointer::getCtx() const {
-    return varCtx;
+bool Pointer::isValid(const Context &ctx) const {
+    for (const Context *c = &ctx; c != nullptr; c = c->getParent()) {
+        if (c->id == ctxId) return true;
+    }
+    return false;
 }
 
 const PointerTypeDefinition &Pointer::getDefinition(Context &ctx) const {
-- 
2.43.0


From 8445b618b34444a6902d51e08d09ddcf6fe53743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 15/35] fix: digits directly after '//' and a tab before '(' do
 not change the meaning of a line

---
 src/lexer/lexer.cpp       | 2 +-
 src/lexer/symbolLexer.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lexer/lexer.cpp b/src/lexer/lexer.cpp
index abafbbe..fdcf968 100644
--- a/src/lexer/lexer.cpp
+++ b/src/lexer/lexer.cpp
@@ -59,7 +59,7 @@ const std::vector<Token*> Lexer::makeTokens() {
             }
             continue;
         } else if (currentChar == '(') {
-            if (idx > 0 && tokens.size() > 0 && (*expr)[idx-1] != ' ') {
+            if (idx > 0 && tokens.size() > 0 && (*expr)[idx-1] != ' ' && (*expr)[idx-1] != '\t') {
                 TokenType t = tokens[tokens.size()-1]->type;
                 if (t == TokenType::INPUT) {
                     throw PSC::LexerError(line, column, "Unexpected '('\n'INTPUT' is statement(not a function) used as 'INPUT <var>' where <var> is a variable to store the input");
diff --git a/src/lexer/symbolLexer.cpp b/src/lexer/symbolLexer.cpp
index 7f1ad71..d8eb384 100644
--- a/src/lexer/symbolLexer.cpp
+++ b/src/lexer/symbolLexer.cpp
@@ -186,7 +186,8 @@ void Lexer::makeNumber() {
     int i = 0;
     char c = getNextChar(i);
     while (isdigit(c = getNextChar(++i))) {}
-    if (c != '/' || !isdigit(c = getNextChar(++i))) return;
+    // '//' starts a comment
+    if (c != '/' || i == 1 || !isdigit(c = getNextChar(++i))) return;
 
     for (int j = 0; j < i; j++) advance();
     while (isdigit(currentChar) && idx < expr->size()) advance();
-- 
2.43.0


From 3907cc335bb65a81acb5f87317036ac8092639f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 16/35] fix: the warning about an ignored comparison is printed
 only if the whole source is valid

---
 src/parser/parser.cpp | 7 ++++++-
 src/parser/parser.h   | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.cpp b/src/parser/parser.cpp
index 8446c90..2f67909 100644
--- a/src/parser/parser.cpp
+++ b/src/parser/parser.cpp
@@ -40,11 +40,16 @@ void Parser::setTokens(const std::vector<Token*> *_tokens) {
 }
 
 PSC::Block *Parser::parse() {
+    ignoredComparisons.clear();
     PSC::Block *block = parseBlock(BlockType::MAIN);
 
     if (currentToken->type != TokenType::EXPRESSION_END)
         throw PSC::SyntaxError(*currentToken);
 
+    for (const Token *token : ignoredComparisons) {
+        std::cout << "Warning on line " << token->line << " column " << token->column << ": Comparison result is ignored. Use '<-' instead of '=' if you wanted to assign." << std::endl;
+    }
+
     return block;
 }
 
@@ -95,7 +100,7 @@ PSC::Block *Parser::parseBlock(BlockType blockType) {
             if (cn != nullptr) {
                 AccessNode *an = dynamic_cast<AccessNode*>(&(cn->left));
                 if (an != nullptr) {
-                    std::cout << "Warning on line " << cn->token.line << " column " << cn->token.column << ": Comparison result is ignored. Use '<-' instead of '=' if you wanted to assign." << std::endl;
+                    ignoredComparisons.push_back(&cn->token);
                 }
             }
         }
diff --git a/src/parser/parser.h b/src/parser/parser.h
index 6680a80..3bf0336 100644
--- a/src/parser/parser.h
+++ b/src/parser/parser.h
@@ -13,6 +13,7 @@ private:
     const std::vector<Token*> *tokens;
     std::vector<std::unique_ptr<Node>> nodes;
     std::vector<std::unique_ptr<PSC::Block>> blocks;
+    std::vector<const Token*> ignoredComparisons; // reported once the whole source has been parsed
 
     const Token *currentToken;
     size_t idx;
-- 
2.43.0


From 1c36a14ce6dbbc8e02567b08b0063625aef23fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 17/35] fix: a '.' with no member name after it is a syntax
 error

---
 src/parser/variableExprParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/variableExprParser.cpp b/src/parser/variableExprParser.cpp
index f2b330d..8b8bce7 100644
--- a/src/parser/variableExprParser.cpp
+++ b/src/parser/variableExprParser.cpp
@@ -84,6 +84,8 @@ std::unique_ptr<AbstractVariableResolver> Parser::parseIdentifierExpression() {
                 const Token &token = *currentToken;
                 advance();
 
+                if (currentToken->type != TokenType::IDENTIFIER)
+                    throw PSC::ExpectedTokenError(*currentToken, "identifier");
                 resolver = std::make_unique<CompositeResolver>(token, std::move(resolver), *currentToken);
                 advance();
                 break;
-- 
2.43.0


From 8ec0ac1ca184623202e38732349c4ac9b22d8238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 18/35] fix: a BYREF argument is evaluated once

---
 src/nodes/functions/function.cpp  | 40 ++++++++++++++++++-------------
 src/nodes/functions/procedure.cpp | 38 ++++++++++++++++++-----------
 2 files changed, 48 insertions(+), 30 deletions(-)

diff --git a/src/nodes/functions/function.cpp b/src/nodes/functions/function.cpp
index 97ea88a..44b1778 100644
--- a/src/nodes/functions/function.cpp
+++ b/src/nodes/functions/function.cpp
@@ -65,9 +65,26 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
     argResults.reserve(args.size());
     argTypes.reserve(args.size());
 
+    // Variables bound to BYREF parameters, resolved once in the order of the arguments
+    std::vector<PSC::Variable*> references(args.size(), nullptr);
+
     for (size_t i = 0; i < args.size(); i++) {
-        argResults.push_back(args[i]->evaluate(ctx));
-        argTypes.push_back(argResults[i]->type);
+        AccessNode *accsNode = nullptr;
+        if (i < function->parameters.size() && function->parameters[i].byRef)
+            accsNode = dynamic_cast<AccessNode*>(args[i]);
+
+        if (accsNode != nullptr) {
+            auto &holder = accsNode->getResolver().resolve(ctx);
+            if (holder.isArray())
+                throw PSC::ArrayDirectAccessError(token, ctx);
+
+            references[i] = static_cast<PSC::Variable*>(&holder);
+            argResults.push_back(nullptr);
+            argTypes.push_back(references[i]->type);
+        } else {
+            argResults.push_back(args[i]->evaluate(ctx));
+            argTypes.push_back(argResults[i]->type);
+        }
     }
 
     size_t nArgs = function->parameters.size();
@@ -78,29 +95,20 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
     PSC::CallSite callSite(ctx, token);
 
     for (size_t i = 0; i < args.size(); i++) {
-        auto &argRes = argResults[i];
         const PSC::Parameter &parameter = function->parameters[i];
 
-        if (!parameter.byRef) argRes->implicitCast(parameter.type);
-        if (parameter.type != argRes->type) {
+        if (!parameter.byRef) argResults[i]->implicitCast(parameter.type);
+        if (parameter.type != (parameter.byRef ? argTypes[i] : argResults[i]->type))
             throw PSC::InvalidArgsError(token, ctx, function->getTypes(), std::move(argTypes));
-        }
 
         PSC::Variable *var;
         if (parameter.byRef) {
-            AccessNode *accsNode = dynamic_cast<AccessNode*>(args[i]);
-            if (!accsNode) {
+            if (references[i] == nullptr)
                 throw PSC::RuntimeError(token, ctx, "Only variables can be used as arguements when passing by reference");
-            }
-
-            auto &holder = accsNode->getResolver().resolve(ctx);
-            if (holder.isArray())
-                throw PSC::ArrayDirectAccessError(token, ctx);
 
-            PSC::Variable &original = *static_cast<PSC::Variable*>(&holder);
-            var = original.createReference(parameter.name);
+            var = references[i]->createReference(parameter.name);
         } else {
-            var = new PSC::Variable(parameter.name, parameter.type, false, functionCtx.get(), argRes->data.get());
+            var = new PSC::Variable(parameter.name, parameter.type, false, functionCtx.get(), argResults[i]->data.get());
         }
 
         functionCtx->addVariable(var);
diff --git a/src/nodes/functions/procedure.cpp b/src/nodes/functions/procedure.cpp
index 45ccae7..3345186 100644
--- a/src/nodes/functions/procedure.cpp
+++ b/src/nodes/functions/procedure.cpp
@@ -59,9 +59,26 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
     argResults.reserve(args.size());
     argTypes.reserve(args.size());
 
+    // Variables bound to BYREF parameters, resolved once in the order of the arguments
+    std::vector<PSC::Variable*> references(args.size(), nullptr);
+
     for (size_t i = 0; i < args.size(); i++) {
-        argResults.push_back(args[i]->evaluate(ctx));
-        argTypes.push_back(argResults[i]->type);
+        AccessNode *accsNode = nullptr;
+        if (i < procedure->parameters.size() && procedure->parameters[i].byRef)
+            accsNode = dynamic_cast<AccessNode*>(args[i]);
+
+        if (accsNode != nullptr) {
+            auto &holder = accsNode->getResolver().resolve(ctx);
+            if (holder.isArray())
+                throw PSC::ArrayDirectAccessError(token, ctx);
+
+            references[i] = static_cast<PSC::Variable*>(&holder);
+            argResults.push_back(nullptr);
+            argTypes.push_back(references[i]->type);
+        } else {
+            argResults.push_back(args[i]->evaluate(ctx));
+            argTypes.push_back(argResults[i]->type);
+        }
     }
 
     size_t nArgs = procedure->parameters.size();
@@ -72,27 +89,20 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
     PSC::CallSite callSite(ctx, token);
 
     for (size_t i = 0; i < args.size(); i++) {
-        auto &argRes = argResults[i];
         const PSC::Parameter &parameter = procedure->parameters[i];
 
-        if (!parameter.byRef) argRes->implicitCast(parameter.type);
-        if (parameter.type != argRes->type)
+        if (!parameter.byRef) argResults[i]->implicitCast(parameter.type);
+        if (parameter.type != (parameter.byRef ? argTypes[i] : argResults[i]->type))
             throw PSC::InvalidArgsError(token, ctx, procedure->getTypes(), std::move(argTypes));
 
         PSC::Variable *var;
         if (parameter.byRef) {
-            AccessNode *accsNode = dynamic_cast<AccessNode*>(args[i]);
-            if (!accsNode)
+            if (references[i] == nullptr)
                 throw PSC::RuntimeError(token, ctx, "Only variables and array elements can be used as arguements when passing by reference");
 
-            auto &holder = accsNode->getResolver().resolve(ctx);
-            if (holder.isArray())
-                throw PSC::ArrayDirectAccessError(token, ctx);
-
-            PSC::Variable &original = *static_cast<PSC::Variable*>(&holder);
-            var = original.createReference(parameter.name);
+            var = references[i]->createReference(parameter.name);
         } else {
-            var = new PSC::Variable(parameter.name, parameter.type, false, procedureCtx.get(), argRes->data.get());
+            var = new PSC::Variable(parameter.name, parameter.type, false, procedureCtx.get(), argResults[i]->data.get());
         }
 
         procedureCtx->addVariable(var);
-- 
2.43.0


From d49d156daf4f1f31848f5a967e2dee36758533dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 19/35] fix: the source of a whole-array assignment is
 evaluated once

---
 src/nodes/variable/variable.cpp | 11 +++++------
 src/nodes/variable/variable.h   |  1 -
 src/psc/error.cpp               |  4 ++++
 src/psc/error.h                 |  6 ++++++
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index 3da7830..8ef8b33 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -61,10 +61,9 @@ AssignNode::AssignNode(const Token &token, Node &node, std::unique_ptr<AbstractV
 {}
 
 void AssignNode::assignArray(PSC::Context &ctx, const PSC::ArrayDirectAccessError &e) {
-    AccessNode *accsNode = dynamic_cast<AccessNode*>(&node);
-    if (accsNode == nullptr) throw e;
-    auto array = static_cast<PSC::Array*>(&accsNode->resolver->resolve(ctx));
-    
+    if (e.node != &node) throw e;
+    auto array = static_cast<PSC::Array*>(e.array);
+
     PSC::DataHolder &holder = resolver->resolve(ctx);
     if (!holder.isArray()) throw e;
     
@@ -137,8 +136,8 @@ std::unique_ptr<NodeResult> AccessNode::evaluate(PSC::Context &ctx) {
     }
 
     if (holder->isArray())
-        throw PSC::ArrayDirectAccessError(token, ctx);
-    
+        throw PSC::ArrayDirectAccessError(token, ctx, *holder, *this);
+
     PSC::Variable &var = *static_cast<PSC::Variable*>(holder);
 
     PSC::Value *data = nullptr;
diff --git a/src/nodes/variable/variable.h b/src/nodes/variable/variable.h
index 63e5e3d..81a75e0 100644
--- a/src/nodes/variable/variable.h
+++ b/src/nodes/variable/variable.h
@@ -45,7 +45,6 @@ public:
 class AccessNode : public Node {
 private:
     std::unique_ptr<AbstractVariableResolver> resolver;
-    friend AssignNode;
 
 public:
     // token: IDENTIFIER
diff --git a/src/psc/error.cpp b/src/psc/error.cpp
index 1277402..e794534 100644
--- a/src/psc/error.cpp
+++ b/src/psc/error.cpp
@@ -136,6 +136,10 @@ ArrayDirectAccessError::ArrayDirectAccessError(const Token &token, const Context
     : RuntimeError(token, context, "Attempting to access array without indices")
 {}
 
+ArrayDirectAccessError::ArrayDirectAccessError(const Token &token, const Context &context, DataHolder &array, const Node &node)
+    : RuntimeError(token, context, "Attempting to access array without indices"), array(&array), node(&node)
+{}
+
 inline std::string conditionTypeErrorMessage(TokenType type) {
     std::stringstream msg;
     msg << "Invalid condition for ";
diff --git a/src/psc/error.h b/src/psc/error.h
index 115c821..9655650 100644
--- a/src/psc/error.h
+++ b/src/psc/error.h
@@ -107,7 +107,13 @@ namespace PSC {
 
     class ArrayDirectAccessError : public RuntimeError {
     public:
+        // The array and the node that denotes it, if a whole array was read
+        DataHolder *const array = nullptr;
+        const Node *const node = nullptr;
+
         ArrayDirectAccessError(const Token &token, const Context &context);
+
+        ArrayDirectAccessError(const Token &token, const Context &context, DataHolder &array, const Node &node);
     };
 
     class ConditionTypeError : public RuntimeError {
-- 
2.43.0


From 9b8d5a86128ee611f468901c3c01f0ebe0f7633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 20/35] fix: GETRECORD and PUTRECORD use the variable or array
 the name denotes in the current scope

---
 src/nodes/io/file.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index 097f297..5f02f2b 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -175,10 +175,12 @@ std::unique_ptr<NodeResult> GetRecordNode::evaluate(PSC::Context &ctx) {
     if (file->getMode() != PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "'GETRECORD' can only be used for random files");
 
-    PSC::Variable *variable = ctx.getVariable(identifier.value);
-    PSC::Array *array = ctx.getArray(identifier.value);
-    if (variable == nullptr && array == nullptr)
+    PSC::DataHolder *holder = ctx.getDataHolder(identifier.value);
+    if (holder == nullptr)
         throw PSC::NotDefinedError(identifier, ctx, identifier.value);
+
+    PSC::Variable *variable = holder->isArray() ? nullptr : static_cast<PSC::Variable*>(holder);
+    PSC::Array *array = holder->isArray() ? static_cast<PSC::Array*>(holder) : nullptr;
     if ((variable != nullptr && variable->type == PSC::DataType::POINTER)
         || (array != nullptr && array->type == PSC::DataType::POINTER))
         throw PSC::RuntimeError(token, ctx, "Pointers cannot be stored in random files");
@@ -213,10 +215,12 @@ std::unique_ptr<NodeResult> PutRecordNode::evaluate(PSC::Context &ctx) {
     if (file->getMode() != PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "'PUTRECORD' can only be used for random files");
 
-    PSC::Variable *variable = ctx.getVariable(identifier.value);
-    PSC::Array *array = ctx.getArray(identifier.value);
-    if (variable == nullptr && array == nullptr)
+    PSC::DataHolder *holder = ctx.getDataHolder(identifier.value);
+    if (holder == nullptr)
         throw PSC::NotDefinedError(identifier, ctx, identifier.value);
+
+    PSC::Variable *variable = holder->isArray() ? nullptr : static_cast<PSC::Variable*>(holder);
+    PSC::Array *array = holder->isArray() ? static_cast<PSC::Array*>(holder) : nullptr;
     if ((variable != nullptr && variable->type == PSC::DataType::POINTER)
         || (array != nullptr && array->type == PSC::DataType::POINTER))
         throw PSC::RuntimeError(token, ctx, "Pointers cannot be stored in random files");
-- 
2.43.0


From a72e506f2a57dd86e683ca00d7c64a5648692e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:56 +0000
Subject: [PATCH 21/35] fix: READFILE needs a handle opened FOR READ and
 creates its variable only if it succeeds

---
 src/nodes/io/file.cpp | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index 5f02f2b..9e5c323 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -34,23 +34,33 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
     if (filenameRes->type != PSC::DataType::STRING)
         throw PSC::RuntimeError(token, ctx, "Expected string for file name");
 
-    PSC::Variable *var = ctx.getVariable(identifier.value);
-    if (var == nullptr) {
-        var = new PSC::Variable(identifier.value, PSC::DataType::STRING, false, &ctx);
-        ctx.addVariable(var);
-    }
-    if (var->type != PSC::DataType::STRING)
-        throw PSC::RuntimeError(token, ctx, "Variable of type STRING expected");
-    if (var->isConstant)
-        throw PSC::ConstAssignError(token, ctx, var->name);
-
     auto &filename = filenameRes->get<PSC::String>();
     PSC::File *file = ctx.getFileManager().getFile(filename);
     if (file == nullptr)
         throw PSC::FileNotOpenError(token, ctx, filename.value);
     if (file->getMode() == PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "Attempting to use 'READFILE' on random file. Use 'GETRECORD' instead.");
-    
+    if (file->getMode() != PSC::FileMode::READ)
+        throw PSC::RuntimeError(token, ctx, "File '" + filename.value + "' is not open in READ mode");
+
+    PSC::DataHolder *holder = ctx.getDataHolder(identifier.value);
+    if (holder != nullptr && holder->isArray())
+        throw PSC::ArrayDirectAccessError(token, ctx);
+
+    PSC::Variable *var = static_cast<PSC::Variable*>(holder);
+    if (var != nullptr) {
+        if (var->type != PSC::DataType::STRING)
+            throw PSC::RuntimeError(token, ctx, "Variable of type STRING expected");
+        if (var->isConstant)
+            throw PSC::ConstAssignError(token, ctx, var->name);
+    } else {
+        if (ctx.isIdentifierType(identifier))
+            throw PSC::NotDefinedError(identifier, ctx, "Identifier '" + identifier.value + "'");
+
+        var = new PSC::Variable(identifier.value, PSC::DataType::STRING, false, &ctx);
+        ctx.addVariable(var);
+    }
+
     PSC::String data = file->read();
     var->set(&data);
 
-- 
2.43.0


From 8d076b487ac65206b12e04ef7be7fc9a8f8d7bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 22/35] fix: GETRECORD decodes every stored value exactly,
 rejects malformed records, and leaves the variable unchanged if it fails

---
 src/psc/file.cpp            | 17 +++++++++++++++--
 src/psc/types/character.cpp | 23 ++++++++++++-----------
 src/psc/types/date.cpp      | 10 ++++++++--
 src/psc/types/userType.cpp  |  2 +-
 4 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index f794751..bae5bb1 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -27,7 +27,7 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
             if (ifile->peek() != std::ifstream::traits_type::eof()) {
                 while (!ifile->eof()) {
                     std::getline(*ifile, line);
-                    if (line.starts_with('#') && records.size() > 1) {
+                    if (line.starts_with('#') && records.size() > 0) {
                         records[records.size()-1] += '\n';
                         records[records.size()-1] += line;
                         continue;
@@ -100,7 +100,20 @@ bool File::getRecord(DataHolder &data, Context &ctx) {
     if (ptr == records.size()) return false;
     const std::string &line = records[ptr];
     std::istringstream ss(line);
-    return data.load(ss, ctx);
+
+    // Decoded into a copy, so that data is unchanged if the record does not match
+    if (data.isArray()) {
+        Array &array = static_cast<Array&>(data);
+        Array loaded(array, &ctx);
+        if (!loaded.load(ss, ctx)) return false;
+        array.copyData(loaded);
+    } else {
+        Variable &variable = static_cast<Variable&>(data);
+        Variable loaded(variable.name, variable.type, false, variable.parent, &variable.get<Value>());
+        if (!loaded.load(ss, ctx)) return false;
+        variable.set(&loaded.get<Value>());
+    }
+    return true;
 }
 
 void File::putRecord(DataHolder &data) {
diff --git a/src/psc/types/character.cpp b/src/psc/types/character.cpp
index e3f4c79..18ff11b 100644
--- a/src/psc/types/character.cpp
+++ b/src/psc/types/character.cpp
@@ -52,8 +52,11 @@ bool Char::load(std::istream &in, Context&) {
 
     in.ignore(1); // whitespace
     value = in.get();
+    if (in.fail()) return false;
+
+    if (value == '\n' && in.get() != '#') return false;
 
-    return !in.fail();
+    return true;
 }
 
 
@@ -124,20 +127,18 @@ bool String::load(std::istream &in, Context&) {
     in >> s;
     if (s != "STRING") return false;
 
-    in >> s;
-    if (in.fail()) return false;
-    size_t length = std::stoul(s, nullptr);
+    size_t length = 0;
+    in >> length;
+    if (in.fail() || in.get() != ' ') return false;
 
-    char *buf = new char[length];
-    in.ignore(1); // whitespace
-    in.read(buf, length);
     value.clear();
-    value.reserve(length);
+    char previous = '\0';
     for (size_t i = 0; i < length; i++) {
-        if (i > 0 && buf[i] == '#' && buf[i-1] == '\n') continue;
-        value += buf[i];
+        int c = in.get();
+        if (in.fail()) return false;
+        if (c != '#' || previous != '\n') value += (char) c;
+        previous = (char) c;
     }
-    delete[] buf;
 
     return true;
 }
diff --git a/src/psc/types/date.cpp b/src/psc/types/date.cpp
index da4421e..2d55789 100644
--- a/src/psc/types/date.cpp
+++ b/src/psc/types/date.cpp
@@ -52,11 +52,17 @@ bool Date::load(std::istream &in, Context&) {
     in >> year;
     if (in.fail()) return false;
 
-    date = std::chrono::year_month_day(
+    if (day > 31 || month > 12 || year < (int) std::chrono::year::min() || year > (int) std::chrono::year::max())
+        return false;
+
+    std::chrono::year_month_day loaded{
         std::chrono::year(year),
         std::chrono::month(month),
         std::chrono::day(day)
-    );
+    };
+    // A declared DATE that was never assigned is stored as 0 0 0
+    if (!loaded.ok() && (day != 0 || month != 0 || year != 0)) return false;
 
+    date = loaded;
     return true;
 }
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index abd376a..a1e9ad6 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -137,7 +137,7 @@ void Composite::dump(std::ostream &out) const {
     if (arrays.size() > 0) out << " ";
     for (size_t i = 0; i < arrays.size(); i++) {
         arrays[i]->dump(out);
-        if (i < vars.size() - 1) out << " ";
+        if (i < arrays.size() - 1) out << " ";
     }
 }
 
-- 
2.43.0


From 697c86bac0673d3a69dcfa7c3bc2ae6e587a06fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 23/35] fix: a record with more fields than the variable is not
 read into it

---
 src/psc/file.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index bae5bb1..d346295 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -96,6 +96,10 @@ bool File::seek(const Integer &address) {
     return true;
 }
 
+static bool atEnd(std::istream &in) {
+    return (in >> std::ws).eof();
+}
+
 bool File::getRecord(DataHolder &data, Context &ctx) {
     if (ptr == records.size()) return false;
     const std::string &line = records[ptr];
@@ -105,12 +109,12 @@ bool File::getRecord(DataHolder &data, Context &ctx) {
     if (data.isArray()) {
         Array &array = static_cast<Array&>(data);
         Array loaded(array, &ctx);
-        if (!loaded.load(ss, ctx)) return false;
+        if (!loaded.load(ss, ctx) || !atEnd(ss)) return false;
         array.copyData(loaded);
     } else {
         Variable &variable = static_cast<Variable&>(data);
         Variable loaded(variable.name, variable.type, false, variable.parent, &variable.get<Value>());
-        if (!loaded.load(ss, ctx)) return false;
+        if (!loaded.load(ss, ctx) || !atEnd(ss)) return false;
         variable.set(&loaded.get<Value>());
     }
     return true;
-- 
2.43.0


From fb0b6a41eee98bf4ac0b2538dd69d9ba1c96449e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 24/35] fix: EOF is TRUE as soon as no unread line remains, and
 APPEND starts on a new line

---
 src/psc/file.cpp | 11 ++++++++++-
 src/psc/file.h   |  1 +
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index d346295..405f22e 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -17,6 +17,12 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
             ofile->open(name.value);
             break;
         case FileMode::APPEND:
+            // Added lines must not become part of an unfinished last line
+            ifile = std::make_unique<std::ifstream>();
+            ifile->open(name.value);
+            unfinishedLine = ifile->seekg(-1, std::ios::end) && ifile->get() != '\n';
+            ifile->close();
+
             ofile = std::make_unique<std::ofstream>();
             ofile->open(name.value, std::ios::app);
             break;
@@ -53,7 +59,7 @@ FileMode File::getMode() {
 
 bool File::eof() {
     if (mode != FileMode::READ) std::abort();
-    return ifile->eof();
+    return ifile->peek() == std::ifstream::traits_type::eof();
 }
 
 void File::close() {
@@ -86,6 +92,9 @@ String File::read() {
 }
 
 void File::write(const String &data) {
+    if (unfinishedLine) *ofile << "\n";
+    unfinishedLine = false;
+
     *ofile << data.value << "\n";
 }
 
diff --git a/src/psc/file.h b/src/psc/file.h
index 517bd89..82d4877 100644
--- a/src/psc/file.h
+++ b/src/psc/file.h
@@ -21,6 +21,7 @@ namespace PSC {
         size_t ptr = 0;
         bool open = true;
         bool modified = false;
+        bool unfinishedLine = false;
 
     public:
         const String name;
-- 
2.43.0


From 3817758c195381bc5bc7bcdbe8bc9c967efb691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 25/35] fix: files that cannot be opened or written are
 reported

---
 src/launch/runFile.cpp |  1 +
 src/nodes/io/file.cpp  | 10 +++++---
 src/psc/file.cpp       | 52 ++++++++++++++++++++++++++++++++++--------
 src/psc/file.h         | 17 ++++++++++----
 4 files changed, 64 insertions(+), 16 deletions(-)

diff --git a/src/launch/runFile.cpp b/src/launch/runFile.cpp
index ba56bd9..3272ca5 100644
--- a/src/launch/runFile.cpp
+++ b/src/launch/runFile.cpp
@@ -31,6 +31,7 @@ bool runFile() {
 
         auto globalCtx = PSC::Context::createGlobalContext();
         block->run(*globalCtx);
+        if (!globalCtx->getFileManager().closeAll()) return false;
     } catch (const PSC::Error &e) {
         std::cout << "\n";
         e.print();
diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index 9e5c323..0eb61a2 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -76,6 +76,9 @@ std::unique_ptr<NodeResult> WriteFileNode::evaluate(PSC::Context &ctx) {
     if (filenameRes->type != PSC::DataType::STRING)
         throw PSC::RuntimeError(token, ctx, "Expected string for file name");
     
+    // Evaluated first as it may open or close files
+    auto nodeRes = data.evaluate(ctx);
+
     auto &filename = filenameRes->get<PSC::String>();
     PSC::File *file = ctx.getFileManager().getFile(filename);
     if (file == nullptr)
@@ -85,7 +88,6 @@ std::unique_ptr<NodeResult> WriteFileNode::evaluate(PSC::Context &ctx) {
     else if (file->getMode() == PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "Attempting to use 'WRITEFILE' on random file. Use 'PUTRECORD' instead.");
 
-    auto nodeRes = data.evaluate(ctx);
     std::unique_ptr<PSC::String> data;
     switch (nodeRes->type.type) {
         case PSC::DataType::INTEGER:
@@ -115,7 +117,8 @@ std::unique_ptr<NodeResult> WriteFileNode::evaluate(PSC::Context &ctx) {
             throw PSC::TypeOperationError(token, ctx, "Write");
     }
 
-    file->write(*data);
+    if (!file->write(*data))
+        throw PSC::RuntimeError(token, ctx, "Failed to write to file '" + filename.value + "'");
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
@@ -134,7 +137,8 @@ std::unique_ptr<NodeResult> CloseFileNode::evaluate(PSC::Context &ctx) {
     if (file == nullptr)
         throw PSC::FileNotOpenError(token, ctx, filename.value);
 
-    ctx.getFileManager().closeFile(filename);
+    if (!ctx.getFileManager().closeFile(filename))
+        throw PSC::RuntimeError(token, ctx, "Failed to write file '" + filename.value + "'");
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index 405f22e..aac82a8 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -11,10 +11,12 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
         case FileMode::READ:
             ifile = std::make_unique<std::ifstream>();
             ifile->open(name.value);
+            open = ifile->is_open();
             break;
         case FileMode::WRITE:
             ofile = std::make_unique<std::ofstream>();
             ofile->open(name.value);
+            open = ofile->is_open();
             break;
         case FileMode::APPEND:
             // Added lines must not become part of an unfinished last line
@@ -25,10 +27,12 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
 
             ofile = std::make_unique<std::ofstream>();
             ofile->open(name.value, std::ios::app);
+            open = ofile->is_open();
             break;
         case FileMode::RANDOM:
             ifile = std::make_unique<std::ifstream>();
             ifile->open(name.value);
+            open = ifile->is_open();
             std::string line;
             if (ifile->peek() != std::ifstream::traits_type::eof()) {
                 while (!ifile->eof()) {
@@ -50,7 +54,12 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
 }
 
 File::~File() {
-    if (open) close();
+    if (open && !close())
+        std::cerr << "Error: Failed to write file '" << name.value << "'" << std::endl;
+}
+
+bool File::isOpen() const {
+    return open;
 }
 
 FileMode File::getMode() {
@@ -62,7 +71,8 @@ bool File::eof() {
     return ifile->peek() == std::ifstream::traits_type::eof();
 }
 
-void File::close() {
+bool File::close() {
+    bool success = true;
     switch (mode) {
         case FileMode::READ:
             ifile->close();
@@ -70,6 +80,7 @@ void File::close() {
         case FileMode::WRITE:
         case FileMode::APPEND:
             ofile->close();
+            success = ofile->good();
             break;
         case FileMode::RANDOM:
             if (modified) {
@@ -79,10 +90,12 @@ void File::close() {
                     *ofile << line << "\n";
                 }
                 ofile->close();
+                success = ofile->good();
             }
             break;
     }
     open = false;
+    return success;
 }
 
 String File::read() {
@@ -91,11 +104,12 @@ String File::read() {
     return line;
 }
 
-void File::write(const String &data) {
+bool File::write(const String &data) {
     if (unfinishedLine) *ofile << "\n";
     unfinishedLine = false;
 
-    *ofile << data.value << "\n";
+    *ofile << data.value << "\n" << std::flush;
+    return ofile->good();
 }
 
 bool File::seek(const Integer &address) {
@@ -142,7 +156,12 @@ void File::putRecord(DataHolder &data) {
 
 bool FileManager::createFile(const String &name, FileMode mode) {
     namespace fs = std::filesystem;
-    if (!fs::exists(fs::path(name.value))) {
+    if (name.value.find('\0') != std::string::npos) return false;
+
+    std::error_code error;
+    fs::path path(name.value);
+    if (fs::is_directory(path, error)) return false;
+    if (!fs::exists(path, error)) {
         if (mode == FileMode::RANDOM) {
             std::ofstream f(name.value, std::ios::out);
             f.close();
@@ -151,7 +170,10 @@ bool FileManager::createFile(const String &name, FileMode mode) {
             return false;
         }
     }
-    files.emplace_back(std::make_unique<File>(name, mode));
+
+    auto file = std::make_unique<File>(name, mode);
+    if (!file->isOpen()) return false;
+    files.emplace_back(std::move(file));
     return true;
 }
 
@@ -162,13 +184,25 @@ File *FileManager::getFile(const String &name) {
     return nullptr;
 }
 
-void FileManager::closeFile(const String &name) {
+bool FileManager::closeFile(const String &name) {
     for (std::size_t i = 0; i < files.size(); i++) {
         auto &file = files[i];
         if (file->name.value == name.value) {
-            file->close();
+            bool success = file->close();
             files.erase(files.begin() + i);
-            return;
+            return success;
         }
     }
+    return false;
+}
+
+bool FileManager::closeAll() {
+    bool success = true;
+    for (auto &file : files) {
+        if (file->close()) continue;
+        std::cerr << "Error: Failed to write file '" << file->name.value << "'" << std::endl;
+        success = false;
+    }
+    files.clear();
+    return success;
 }
diff --git a/src/psc/file.h b/src/psc/file.h
index 82d4877..43648e4 100644
--- a/src/psc/file.h
+++ b/src/psc/file.h
@@ -19,7 +19,7 @@ namespace PSC {
         std::unique_ptr<std::ifstream> ifile;
         std::vector<std::string> records;
         size_t ptr = 0;
-        bool open = true;
+        bool open = false;
         bool modified = false;
         bool unfinishedLine = false;
 
@@ -34,11 +34,16 @@ namespace PSC {
 
         bool eof();
 
-        void close();
+        // false if the file could not be opened
+        bool isOpen() const;
+
+        // false if not everything could be written
+        bool close();
 
         String read();
 
-        void write(const String &data);
+        // false if the line could not be written
+        bool write(const String &data);
 
         bool seek(const Integer &address);
 
@@ -56,6 +61,10 @@ namespace PSC {
 
         File *getFile(const String &name);
 
-        void closeFile(const String &name);
+        // false if not everything could be written
+        bool closeFile(const String &name);
+
+        // Reports files that could not be written
+        bool closeAll();
     };
 }
-- 
2.43.0


From be36e9d4da33ebccec5f1e24f2fac31f401b76a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 26/35] fix: text with a null character or without digits is
 not converted to a number

---
 src/psc/types/character.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psc/types/character.cpp b/src/psc/types/character.cpp
index 18ff11b..7eefa6d 100644
--- a/src/psc/types/character.cpp
+++ b/src/psc/types/character.cpp
@@ -1,4 +1,5 @@
 #include "pch.h"
+#include <cmath>
 
 #include "psc/types/types.h"
 
@@ -81,7 +82,7 @@ std::unique_ptr<Integer> String::toInteger() const {
     char *end;
 
     int_t x = std::strtol(cStr, &end, 10);
-    if (end[0] != '\0' || cStr[0] == '\0') {
+    if (end != cStr + value.size() || value.empty()) {
         x = 0;
     }
 
@@ -93,7 +94,8 @@ std::unique_ptr<Real> String::toReal() const {
     char *end;
 
     real_t x = std::strtod(cStr, &end);
-    if (end[0] != '\0' || cStr[0] == '\0') {
+    // Not a numeral without a digit, although strtod accepts "inf" and "nan"
+    if (end != cStr + value.size() || std::isnan(x) || value.find_first_of("0123456789") == std::string::npos) {
         x = 0.0;
     }
 
-- 
2.43.0


From de81830a1e2c65b7de71760a35a16e8cf86ecece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 27/35] fix: date components out of range are never reduced to
 a valid date

---
 src/nodes/eval/arithmetic.cpp     | 11 ++++++-----
 src/psc/builtinFunctions/date.cpp | 10 +++++-----
 src/psc/types/date.cpp            | 24 ++++++++++++++++--------
 src/psc/types/types.h             |  3 +++
 4 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index b9a3638..65c4fde 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -58,11 +58,12 @@ inline PSC::Date makeDate(const std::string &dateStr) {
         else yearStr += c;
     }
 
-    std::chrono::day day(std::stoul(dayStr));
-    std::chrono::month month(std::stoul(monthStr));
-    std::chrono::year year(std::stoul(yearStr));
-
-    return PSC::Date(std::chrono::year_month_day(year, month, day));
+    // Components too large for strtol are saturated, which is no date either
+    return PSC::Date(PSC::Date::fromComponents(
+        std::strtol(dayStr.c_str(), nullptr, 10),
+        std::strtol(monthStr.c_str(), nullptr, 10),
+        std::strtol(yearStr.c_str(), nullptr, 10)
+    ));
 }
 
 DateNode::DateNode(const Token &token)
diff --git a/src/psc/builtinFunctions/date.cpp b/src/psc/builtinFunctions/date.cpp
index a24dc1b..225056b 100644
--- a/src/psc/builtinFunctions/date.cpp
+++ b/src/psc/builtinFunctions/date.cpp
@@ -90,11 +90,11 @@ void PSC::BuiltinFnSETDATE::run(PSC::Context &ctx) {
     PSC::Variable *yearVar = ctx.getVariable("Year");
     if (yearVar == nullptr || yearVar->type != PSC::DataType::INTEGER) std::abort();
 
-    day day(dayVar->get<PSC::Integer>().value);
-    month month(monthVar->get<PSC::Integer>().value);
-    year year(yearVar->get<PSC::Integer>().value);
-
-    year_month_day ymd(year, month, day);
+    year_month_day ymd = PSC::Date::fromComponents(
+        dayVar->get<PSC::Integer>().value,
+        monthVar->get<PSC::Integer>().value,
+        yearVar->get<PSC::Integer>().value
+    );
     if (!ymd.ok())
         throw PSC::RuntimeError(PSC::errToken, ctx, "Invalid Date!");
 
diff --git a/src/psc/types/date.cpp b/src/psc/types/date.cpp
index 2d55789..0ef6c5d 100644
--- a/src/psc/types/date.cpp
+++ b/src/psc/types/date.cpp
@@ -7,6 +7,21 @@ using namespace PSC;
 Date::Date(std::chrono::year_month_day date)
     : date(date) {}
 
+std::chrono::year_month_day Date::fromComponents(int_t day, int_t month, int_t year) {
+    // std::chrono keeps only the low bits of each component
+    if (day < 1 || day > 31 || month < 1 || month > 12
+        || year < (int) std::chrono::year::min() || year > (int) std::chrono::year::max()
+    ) {
+        return std::chrono::year_month_day();
+    }
+
+    return std::chrono::year_month_day(
+        std::chrono::year((int) year),
+        std::chrono::month((unsigned int) month),
+        std::chrono::day((unsigned int) day)
+    );
+}
+
 std::unique_ptr<Integer> Date::toInteger() const {
     unsigned int day = static_cast<unsigned int>(date.day());
     unsigned int month = static_cast<unsigned int>(date.month());
@@ -52,14 +67,7 @@ bool Date::load(std::istream &in, Context&) {
     in >> year;
     if (in.fail()) return false;
 
-    if (day > 31 || month > 12 || year < (int) std::chrono::year::min() || year > (int) std::chrono::year::max())
-        return false;
-
-    std::chrono::year_month_day loaded{
-        std::chrono::year(year),
-        std::chrono::month(month),
-        std::chrono::day(day)
-    };
+    std::chrono::year_month_day loaded = fromComponents(day, month, year);
     // A declared DATE that was never assigned is stored as 0 0 0
     if (!loaded.ok() && (day != 0 || month != 0 || year != 0)) return false;
 
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index acda61d..ea9a66b 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -244,6 +244,9 @@ namespace PSC {
 
         Date(std::chrono::year_month_day date);
 
+        // Not ok() unless the components form a date
+        static std::chrono::year_month_day fromComponents(int_t day, int_t month, int_t year);
+
         Date(const Date&) = default;
 
         Date &operator=(const Date &other) = default;
-- 
2.43.0


From 48367bccd5bd883cc44d460fa19c3125e39f2fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 28/35] fix: a number literal out of range is a syntax error

---
 src/nodes/eval/arithmetic.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index 65c4fde..7ee76ad 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -2,7 +2,9 @@
 #include "nodes/nodeResult.h"
 #include "pch.h"
 
+#include <cerrno>
 #include <chrono>
+#include <cmath>
 #include <memory>
 #include "psc/error.h"
 #include "nodes/eval/arithmetic.h"
@@ -10,8 +12,16 @@
 #include "psc/types/type_definitions.h"
 #include "psc/types/types.h"
 
+inline PSC::int_t parseInteger(const Token &token) {
+    errno = 0;
+    PSC::int_t value = std::strtol(token.value.c_str(), nullptr, 10);
+    if (errno == ERANGE)
+        throw PSC::SyntaxError(token, "Integer is too large");
+    return value;
+}
+
 IntegerNode::IntegerNode(const Token &token)
-    : Node(token), valueInt(std::stol(token.value))
+    : Node(token), valueInt(parseInteger(token))
 {}
 
 std::unique_ptr<NodeResult> IntegerNode::evaluate(PSC::Context&) {
@@ -19,8 +29,15 @@ std::unique_ptr<NodeResult> IntegerNode::evaluate(PSC::Context&) {
 }
 
 
+inline PSC::real_t parseReal(const Token &token) {
+    PSC::real_t value = std::strtod(token.value.c_str(), nullptr);
+    if (std::isinf(value))
+        throw PSC::SyntaxError(token, "Real number is too large");
+    return value;
+}
+
 RealNode::RealNode(const Token &token)
-    : Node(token), valueReal(std::stod(token.value))
+    : Node(token), valueReal(parseReal(token))
 {}
 
 std::unique_ptr<NodeResult> RealNode::evaluate(PSC::Context&) {
-- 
2.43.0


From 341cae28b6609be5994aa30827034b6a40387bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 29/35] fix: casts of DATE, operands without a value, division
 of the smallest INTEGER by -1 and empty CHAR input do not end the interpreter

---
 src/nodes/cast.cpp              | 4 ++++
 src/nodes/eval/stringcat.cpp    | 2 ++
 src/nodes/io/io.cpp             | 2 +-
 src/nodes/variable/variable.cpp | 4 ++++
 src/parser/parser.cpp           | 2 ++
 src/psc/types/numeric.cpp       | 8 ++++++--
 6 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/nodes/cast.cpp b/src/nodes/cast.cpp
index ca1141f..af8a947 100644
--- a/src/nodes/cast.cpp
+++ b/src/nodes/cast.cpp
@@ -10,9 +10,13 @@ CastNode::CastNode(const Token &token, Node &node, PSC::DataType target)
 std::unique_ptr<NodeResult> CastNode::evaluate(PSC::Context &ctx) {
     auto value = node.evaluate(ctx);
 
+    if (value->type == PSC::DataType::NONE)
+        throw PSC::RuntimeError(token, ctx, "Expected a value for type cast");
     if (!value->data->isPrimitive())
         throw PSC::TypeOperationError(token, ctx, "Cast");
     if (value->type == target) return value;
+    if (value->type == PSC::DataType::DATE && target != PSC::DataType::INTEGER && target != PSC::DataType::STRING)
+        throw PSC::RuntimeError(token, ctx, "DATE can only be cast to INTEGER or STRING");
 
     auto pvalue = static_cast<const PSC::Primitive*>(value->data.get());
 
diff --git a/src/nodes/eval/stringcat.cpp b/src/nodes/eval/stringcat.cpp
index 6e3d971..1de7482 100644
--- a/src/nodes/eval/stringcat.cpp
+++ b/src/nodes/eval/stringcat.cpp
@@ -7,6 +7,8 @@ std::unique_ptr<NodeResult> StringConcatenationNode::evaluate(PSC::Context &ctx)
     auto leftRes = left.evaluate(ctx);
     auto rightRes = right.evaluate(ctx);
 
+    if (leftRes->type == PSC::DataType::NONE || rightRes->type == PSC::DataType::NONE)
+        throw PSC::RuntimeError(token, ctx, "Expected a value for '&' operator");
     if (!leftRes->data->isPrimitive() || !rightRes->data->isPrimitive())
         throw PSC::TypeOperationError(token, ctx, "'&'");
 
diff --git a/src/nodes/io/io.cpp b/src/nodes/io/io.cpp
index 0fd0d29..800b3c0 100644
--- a/src/nodes/io/io.cpp
+++ b/src/nodes/io/io.cpp
@@ -99,7 +99,7 @@ std::unique_ptr<NodeResult> InputNode::evaluate(PSC::Context &ctx) {
             var->get<PSC::Boolean>() = (inputStr.value == "TRUE");
             break;
         case PSC::DataType::CHAR:
-            var->get<PSC::Char>() = inputStr.value.front();
+            var->get<PSC::Char>() = inputStr.value.empty() ? '\0' : inputStr.value.front();
             break;
         case PSC::DataType::STRING:
             var->get<PSC::String>().value = std::move(inputStr.value);
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index 8ef8b33..16d761e 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -46,6 +46,8 @@ ConstDeclareNode::ConstDeclareNode(const Token &token, Node &node, const Token &
 
 std::unique_ptr<NodeResult> ConstDeclareNode::evaluate(PSC::Context &ctx) {
     auto value = node.evaluate(ctx);
+    if (value->type == PSC::DataType::NONE)
+        throw PSC::RuntimeError(token, ctx, "Expected a value for constant '" + identifier.value + "'");
 
     if (ctx.getVariable(identifier.value, false) != nullptr)
         throw PSC::RedeclarationError(token, ctx, identifier.value);
@@ -85,6 +87,8 @@ std::unique_ptr<NodeResult> AssignNode::evaluate(PSC::Context &ctx) {
         assignArray(ctx, e);
         return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
     }
+    if (valueRes->type == PSC::DataType::NONE)
+        throw PSC::RuntimeError(token, ctx, "Expected a value for assignment");
 
     PSC::Variable *var;
     try {
diff --git a/src/parser/parser.cpp b/src/parser/parser.cpp
index 2f67909..185f2f1 100644
--- a/src/parser/parser.cpp
+++ b/src/parser/parser.cpp
@@ -17,6 +17,8 @@ PSC::DataType Parser::getPSCType() {
         return PSC::DataType::CHAR;
     } else if (currentToken->value == "STRING") {
         return PSC::DataType::STRING;
+    } else if (currentToken->value == "DATE") {
+        return PSC::DataType::DATE;
     } else {
         std::abort();
     }
diff --git a/src/psc/types/numeric.cpp b/src/psc/types/numeric.cpp
index cc023a4..573f678 100644
--- a/src/psc/types/numeric.cpp
+++ b/src/psc/types/numeric.cpp
@@ -118,7 +118,9 @@ real_t modReal(real_t x, real_t y) {
 std::unique_ptr<Number> Number::operator%(const Number &other) const {
     int type = mergeType(real, other.real);
     if (type == mergeType(false, false)) { // int, int
-        int_t x = ((Integer*) this)->value % (Integer&) other;
+        int_t y = (Integer&) other;
+        // The quotient of the smallest INTEGER by -1 is not representable
+        int_t x = y == -1 ? 0 : ((Integer*) this)->value % y;
         return std::make_unique<Integer>(x);
     }
 
@@ -142,7 +144,9 @@ std::unique_ptr<Number> Number::operator%(const Number &other) const {
 std::unique_ptr<Number> Number::operator|(const Number &other) const {
     int type = mergeType(real, other.real);
     if (type == mergeType(false, false)) { // int, int
-        int_t x = ((Integer*) this)->value / (Integer&) other;
+        int_t y = (Integer&) other;
+        // The quotient of the smallest INTEGER by -1 is not representable and wraps
+        int_t x = y == -1 ? (int_t) (0 - (unsigned long) ((Integer*) this)->value) : ((Integer*) this)->value / y;
         return std::make_unique<Integer>(x);
     }
     
-- 
2.43.0


From e6ed6df0c66b5d2bd4d1b9c3227c994f6a2a183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:31 +0000
Subject: [PATCH 30/35] fix: the REPL recognises block keywords as whole words
 only, after any indentation

---
 src/launch/repl.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/launch/repl.cpp b/src/launch/repl.cpp
index 6ebc747..d599d8c 100644
--- a/src/launch/repl.cpp
+++ b/src/launch/repl.cpp
@@ -37,7 +37,7 @@ bool startREPL() {
             continue;
         } else if (code == "EXIT") {
             break;
-        } else if (code.starts_with("RUNFILE")) {
+        } else if (code.starts_with("RUNFILE") && (size == 7 || code[7] == ' ' || code[7] == '\t')) {
             if (size < 9) {
                 std::cerr << "Expected filename" << std::endl;
                 continue;
@@ -58,9 +58,14 @@ bool startREPL() {
             continue;
         }
 
+        size_t start = code.find_first_not_of(" \t");
         for (const std::string &keyword : multilineKeywords) {
-            if (code.starts_with(keyword)) {
-                if (keyword == "TYPE" && code.find("=") != std::string::npos) break;
+            if (start == std::string::npos) break;
+            size_t end = start + keyword.size();
+            if (code.compare(start, keyword.size(), keyword) == 0
+                && (end >= size || (!std::isalnum((unsigned char) code[end]) && code[end] != '_'))
+            ) {
+                if (keyword == "TYPE" && code.find("=") < code.find("//")) break;
                 std::string line = " ";
                 while (line.size() > 0) {
                     code += "\n";
-- 
2.43.0


From 42066a39ab141aa2dcca730c116a82bbec4af6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:42 +0000
Subject: [PATCH 31/35] fix: an array too large to be stored is a runtime error

---
 src/nodes/variable/array.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/nodes/variable/array.cpp b/src/nodes/variable/array.cpp
index 389d437..8bd0481 100644
--- a/src/nodes/variable/array.cpp
+++ b/src/nodes/variable/array.cpp
@@ -1,4 +1,6 @@
 #include "pch.h"
+#include <new>
+#include <stdexcept>
 
 #include "psc/error.h"
 #include "nodes/variable/variable.h"
@@ -20,6 +22,7 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
     }
 
     std::vector<PSC::ArrayDimension> dimensions;
+    size_t size = 1;
 
     for (size_t i = 0; i < bounds.size(); i += 2) {
         auto lowerRes = bounds[i]->evaluate(ctx);
@@ -36,6 +39,11 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
         if (upper < lower)
             throw PSC::RuntimeError(bounds[i + 1]->getToken(), ctx, "Array upper bound must be greater than lower bound");
 
+        // Number of values in the dimension and of elements in the array, both of which may be too large for their type
+        size_t dimensionSize = (size_t) upper - (size_t) lower + 1;
+        if (dimensionSize == 0 || __builtin_mul_overflow(size, dimensionSize, &size))
+            throw PSC::RuntimeError(token, ctx, "Array is too large");
+
         dimensions.emplace_back((PSC::int_t) (i / 2), lower, upper);
     }
 
@@ -48,7 +56,13 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
 
         PSC::CallSite callSite(ctx, token);
         auto array = std::make_unique<PSC::Array>(identifier->value, dataType, dimensions);
-        array->init(ctx);
+        try {
+            array->init(ctx);
+        } catch (std::length_error&) {
+            throw PSC::RuntimeError(token, ctx, "Array is too large");
+        } catch (std::bad_alloc&) {
+            throw PSC::RuntimeError(token, ctx, "Not enough memory for array");
+        }
         ctx.addArray(std::move(array));
     }
 
-- 
2.43.0


From 575ca90886996acd61890aa6cb393557a4129219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 32/35] verification hook: execution budget under PSC_VERIF

---
 src/nodes/eval/stringcat.cpp      |  4 ++++
 src/nodes/functions/function.cpp  |  4 ++++
 src/nodes/functions/procedure.cpp |  4 ++++
 src/nodes/variable/array.cpp      |  4 ++++
 src/psc/budget.h                  | 19 +++++++++++++++++++
 src/psc/scope/block.cpp           |  5 +++++
 6 files changed, 40 insertions(+)
 create mode 100644 src/psc/budget.h

diff --git a/src/nodes/eval/stringcat.cpp b/src/nodes/eval/stringcat.cpp
index 1de7482..f758023 100644
--- a/src/nodes/eval/stringcat.cpp
+++ b/src/nodes/eval/stringcat.cpp
@@ -2,6 +2,7 @@
 
 #include "psc/error.h"
 #include "nodes/eval/stringcat.h"
+#include "psc/budget.h"
 
 std::unique_ptr<NodeResult> StringConcatenationNode::evaluate(PSC::Context &ctx) {
     auto leftRes = left.evaluate(ctx);
@@ -14,6 +15,9 @@ std::unique_ptr<NodeResult> StringConcatenationNode::evaluate(PSC::Context &ctx)
 
     auto leftStr = static_cast<const PSC::Primitive*>(leftRes->data.get())->toString();
     auto rightStr = static_cast<const PSC::Primitive*>(rightRes->data.get())->toString();
+#ifdef PSC_VERIF
+    PSC::budget::take(PSC::budget::text, leftStr->value.size() + rightStr->value.size(), token, ctx);
+#endif
 
     auto res = (*leftStr) & (*rightStr);
 
diff --git a/src/nodes/functions/function.cpp b/src/nodes/functions/function.cpp
index 44b1778..5a56208 100644
--- a/src/nodes/functions/function.cpp
+++ b/src/nodes/functions/function.cpp
@@ -5,6 +5,7 @@
 #include "nodes/variable/variable.h"
 #include "nodes/variable/array.h"
 #include "nodes/functions/function.h"
+#include "psc/budget.h"
 
 FunctionNode::FunctionNode(
     const Token &token,
@@ -93,6 +94,9 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
 
     auto functionCtx = std::make_unique<PSC::Context>(&ctx, functionName, true, function->returnType);
     PSC::CallSite callSite(ctx, token);
+#ifdef PSC_VERIF
+    PSC::budget::Depth depth(token, ctx);
+#endif
 
     for (size_t i = 0; i < args.size(); i++) {
         const PSC::Parameter &parameter = function->parameters[i];
diff --git a/src/nodes/functions/procedure.cpp b/src/nodes/functions/procedure.cpp
index 3345186..c4a2e07 100644
--- a/src/nodes/functions/procedure.cpp
+++ b/src/nodes/functions/procedure.cpp
@@ -5,6 +5,7 @@
 #include "nodes/variable/variable.h"
 #include "nodes/variable/array.h"
 #include "nodes/functions/procedure.h"
+#include "psc/budget.h"
 
 ProcedureNode::ProcedureNode(
     const Token &token,
@@ -87,6 +88,9 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
 
     auto procedureCtx = std::make_unique<PSC::Context>(&ctx, procedureName);
     PSC::CallSite callSite(ctx, token);
+#ifdef PSC_VERIF
+    PSC::budget::Depth depth(token, ctx);
+#endif
 
     for (size_t i = 0; i < args.size(); i++) {
         const PSC::Parameter &parameter = procedure->parameters[i];
diff --git a/src/nodes/variable/array.cpp b/src/nodes/variable/array.cpp
index 8bd0481..35b0a86 100644
--- a/src/nodes/variable/array.cpp
+++ b/src/nodes/variable/array.cpp
@@ -5,6 +5,7 @@
 #include "psc/error.h"
 #include "nodes/variable/variable.h"
 #include "nodes/variable/array.h"
+#include "psc/budget.h"
 
 ArrayDeclareNode::ArrayDeclareNode(const Token &token, std::vector<const Token*> &&identifiers, const Token &type, std::vector<Node*> &&bounds)
     : Node(token),
@@ -48,6 +49,9 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
     }
 
     for (auto identifier : identifiers) {
+#ifdef PSC_VERIF
+        PSC::budget::take(PSC::budget::cells, size, token, ctx);
+#endif
         PSC::DataType dataType = ctx.getType(type);
         if (dataType.type == PSC::DataType::NONE)
             throw PSC::TypeNotDefinedError(token, ctx, type.value);
diff --git a/src/psc/budget.h b/src/psc/budget.h
new file mode 100644
index 0000000..de283c3
--- /dev/null
+++ b/src/psc/budget.h
@@ -0,0 +1,19 @@
+#pragma once
+#ifdef PSC_VERIF
+#include "psc/error.h"
+
+// Execution budget of verification builds: exhausting it is an ordinary runtime error
+namespace PSC::budget {
+    inline size_t steps = 200000, depth = 400, cells = 300000, text = 4000000;
+
+    inline void take(size_t &budget, size_t n, const Token &token, const Context &ctx) {
+        if (n > budget) throw RuntimeError(token, ctx, "Execution budget exhausted");
+        budget -= n;
+    }
+
+    struct Depth {
+        Depth(const Token &token, const Context &ctx) {take(depth, 1, token, ctx);}
+        ~Depth() {depth++;}
+    };
+}
+#endif
diff --git a/src/psc/scope/block.cpp b/src/psc/scope/block.cpp
index 50bcc91..f792d1b 100644
--- a/src/psc/scope/block.cpp
+++ b/src/psc/scope/block.cpp
@@ -5,6 +5,7 @@
 #include "nodes/loop/control.h"
 #include "psc/error.h"
 #include "psc/scope/block.h"
+#include "psc/budget.h"
 
 using namespace PSC;
 
@@ -79,6 +80,10 @@ void Block::_runREPL(PSC::Context &ctx) {
 }
 
 void Block::run(PSC::Context &ctx) {
+#ifdef PSC_VERIF
+    static const Token noToken(TokenType::LINE_END, 0, 0);
+    budget::take(budget::steps, nodes.size() + 1, noToken, ctx);
+#endif
     if (REPLMode) _runREPL(ctx);
     else _run(ctx);
 }
-- 
2.43.0


From 5e9090d3a6d96e035896c6b8268458178c819087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:19 +0000
Subject: [PATCH 33/35] fix: errors at the end of the source and in
 unterminated strings name a position in the source

---
 src/lexer/lexer.cpp       | 4 ++++
 src/lexer/symbolLexer.cpp | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lexer/lexer.cpp b/src/lexer/lexer.cpp
index fdcf968..c8ec02d 100644
--- a/src/lexer/lexer.cpp
+++ b/src/lexer/lexer.cpp
@@ -141,6 +141,10 @@ const std::vector<Token*> Lexer::makeTokens() {
         }
         advance();
     }
+    if (column == 0 && tokens.size() > currentTokensIdx) { // the source ends with its last line break
+        line = tokens.back()->line;
+        column = tokens.back()->column;
+    }
     tokens.emplace_back(new Token(TokenType::EXPRESSION_END, line, column));
 
     currentTokens.reserve(tokens.size() - currentTokensIdx + 1);
diff --git a/src/lexer/symbolLexer.cpp b/src/lexer/symbolLexer.cpp
index d8eb384..8c748c7 100644
--- a/src/lexer/symbolLexer.cpp
+++ b/src/lexer/symbolLexer.cpp
@@ -241,6 +241,7 @@ void Lexer::makeChar() {
 }
 
 void Lexer::makeString() {
+    int startLine = line;
     int startColumn = column;
     advance();
 
@@ -258,7 +259,7 @@ void Lexer::makeString() {
     }
 
     if (idx >= expr->size() || currentChar != '"')
-        throw PSC::ExpectedQuotesError(line, column, true);
+        throw PSC::ExpectedQuotesError(startLine, startColumn, true);
     advance();
 
     tokens.emplace_back(new Token(TokenType::STRING, line, startColumn, str));
-- 
2.43.0


From 1dabf6d0e8723a78d298a7538950bbde0dd88c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 34/35] fix: dates with a negative year compared as later than
 every other date

---
 src/psc/types/date.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psc/types/date.cpp b/src/psc/types/date.cpp
index 0ef6c5d..c6e53d4 100644
--- a/src/psc/types/date.cpp
+++ b/src/psc/types/date.cpp
@@ -27,7 +27,8 @@ std::unique_ptr<Integer> Date::toInteger() const {
     unsigned int month = static_cast<unsigned int>(date.month());
     int year = static_cast<int>(date.year());
 
-    int_t cmp = year * 372 + month * 31 + day;
+    // signed arithmetic: the year may be negative
+    int_t cmp = (int_t) year * 372 + (int_t) month * 31 + (int_t) day;
     return std::make_unique<Integer>(cmp);
 }
 
-- 
2.43.0


From 3e9bfd2a441387d375e7187baceedf88c5c18941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 35/35] fix: an '=' at the end of the source was placed one
 column before itself

---
 src/lexer/lexer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lexer/lexer.cpp b/src/lexer/lexer.cpp
index c8ec02d..50a6df7 100644
--- a/src/lexer/lexer.cpp
+++ b/src/lexer/lexer.cpp
@@ -83,12 +83,13 @@ const std::vector<Token*> Lexer::makeTokens() {
         } else if (currentChar == ']') {
             tokens.emplace_back(new Token(TokenType::RSQRBRACKET, line, column));
         } else if (currentChar == '=') {
+            int startColumn = column;
             advance();
             if (idx >= expr->size() || currentChar != '=') {
-                tokens.emplace_back(new Token(TokenType::EQUALS, line, column - 1));
+                tokens.emplace_back(new Token(TokenType::EQUALS, line, startColumn));
                 continue;
             } else {
-                throw PSC::LexerError(line, column - 1, "Invalid token '=='\nIf you want to check for equality, use single '=' instead");
+                throw PSC::LexerError(line, startColumn, "Invalid token '=='\nIf you want to check for equality, use single '=' instead");
             }
         } else if (currentChar == ':') {
             tokens.emplace_back(new Token(TokenType::COLON, line, column));
-- 
2.43.0

