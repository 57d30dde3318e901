From fd2c6d1b7f3d6d09b3f2aa861ff306bef5e69eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:10 +0000
Subject: [PATCH 1/9] fix: keep discriminated context identifiers unique

`a::b`, `a_b` and `a_b_2` led to two definitions of
`expose_context_a_b_2`.
---
 src/expose.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 022342f..5d82611 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -43,7 +43,7 @@
 #include <llvm/ADT/SmallString.h>
 #include <llvm/ADT/SmallVector.h>
 #include <llvm/ADT/StringExtras.h>
-#include <llvm/ADT/StringMap.h>
+#include <llvm/ADT/StringSet.h>
 #include <llvm/ADT/iterator.h>
 #include <llvm/Support/Casting.h>
 #include <llvm/Support/ErrorHandling.h>
@@ -62,15 +62,16 @@ using namespace genpybind;
 namespace {
 
 class DiscriminateIdentifiers {
-  llvm::StringMap<unsigned> discriminators;
+  llvm::StringSet<> used_identifiers;
 
 public:
   std::string discriminate(llvm::StringRef name) {
-    auto it = discriminators.try_emplace(name, 0).first;
-    const unsigned discriminator = ++it->getValue();
     std::string result{name};
-    if (discriminator != 1)
-      result += "_" + llvm::utostr(discriminator);
+    // A discriminated identifier may coincide with one that is already in use
+    // (e.g. for `a::b`, `a_b` and `a_b_2`).
+    for (unsigned discriminator = 2; !used_identifiers.insert(result).second;
+         ++discriminator)
+      result = (name + "_" + llvm::utostr(discriminator)).str();
     return result;
   }
 };
-- 
2.43.0


From c05b6403f4c045bb02583371b186d53385d615ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:10 +0000
Subject: [PATCH 2/9] fix: do not expose operators without Python name

`operator!` and e.g. `int &operator+=(int &, T const &)` were exposed with
an empty name.
---
 src/expose.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 5d82611..a3950c3 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -1173,10 +1173,14 @@ void RecordExposer::emitOperator(llvm::raw_ostream &os,
       lhs_param_type = lhs_param_type->getPointeeType();
     return !ast_context.hasSameUnqualifiedType(lhs_param_type, record_type);
   }();
+  llvm::StringRef python_name =
+      unary ? pythonUnaryOperatorName(kind)
+            : pythonBinaryOperatorName(kind, reverse_parameters);
+  // Skip operators without Python equivalent (e.g. `!`).
+  if (python_name.empty())
+    return;
   os << "context.def(";
-  emitStringLiteral(os,
-                    unary ? pythonUnaryOperatorName(kind)
-                          : pythonBinaryOperatorName(kind, reverse_parameters));
+  emitStringLiteral(os, python_name);
   os << ", ";
   emitOperatorDefinition(os, ast_context, kind, parameter_types,
                          function->getReturnType(), reverse_parameters);
-- 
2.43.0


From b137bc19ee75837514a1b1b25f348d4fd66757d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:10 +0000
Subject: [PATCH 3/9] fix: apply noconvert and required to the named parameter

Preceding `pybind11::args` parameters were not counted, so that the
annotation was applied to a subsequent parameter or dropped.
---
 src/expose.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index a3950c3..9e4134c 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -332,7 +332,6 @@ static void emitParameters(llvm::raw_ostream &os,
   const clang::ASTContext &context = function->getASTContext();
   auto printing_policy = getPrintingPolicyForExposedNames(context);
   AttemptFullQualificationPrinter printer_helper{context, printing_policy};
-  unsigned index = 0;
   const clang::ParmVarDecl *last_kwargs_param = nullptr;
   for (const clang::ParmVarDecl *param : function->parameters()) {
     // `arg()` should not be emitted for `pybind11::args` or `pybind11::kwargs`
@@ -352,6 +351,7 @@ static void emitParameters(llvm::raw_ostream &os,
     os << ", ::pybind11::arg(";
     emitStringLiteral(os, param->getName());
     os << ")";
+    const unsigned index = param->getFunctionScopeIndex();
     if (attrs.noconvert.count(index) != 0)
       os << ".noconvert()";
     if (attrs.required.count(index) != 0)
@@ -361,7 +361,6 @@ static void emitParameters(llvm::raw_ostream &os,
       expr->printPretty(os, &printer_helper, printing_policy, /*Indentation=*/0,
                         /*NewlineSymbol=*/"\n", &context);
     }
-    ++index;
   }
 }
 
-- 
2.43.0


From 7abdb9efee45ded997de049c10cd0254a5640e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:10 +0000
Subject: [PATCH 4/9] fix: do not crash for shift operators on unnamed classes

---
 src/expose.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 9e4134c..bb94849 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -619,7 +619,8 @@ static bool isOstreamOperator(const clang::FunctionDecl *function) {
   assert(function->getNumParams() >= 1);
   if (const clang::CXXRecordDecl *record =
           function->getParamDecl(0)->getType()->getPointeeCXXRecordDecl()) {
-    if (!record->getIdentifier()->isStr("basic_ostream"))
+    const clang::IdentifierInfo *identifier = record->getIdentifier();
+    if (identifier == nullptr || !identifier->isStr("basic_ostream"))
       return false;
     clang::ast_matchers::internal::HasNameMatcher matcher(
         {"::std::basic_ostream"});
-- 
2.43.0


From 9f6daf74da458e4c4cefcc3e048df8f5be6cc2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:26 +0000
Subject: [PATCH 5/9] fix: export values of unannotated unscoped enums by
 default

---
 src/expose.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index bb94849..2f80057 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -1017,9 +1017,8 @@ void EnumExposer::emitIntroducer(llvm::raw_ostream &os,
 }
 
 void EnumExposer::finalizeDefinition(llvm::raw_ostream &os) {
-  if (const auto attrs = annotations.get<EnumDeclAttrs>(enum_decl);
-      attrs.has_value() &&
-      attrs->export_values.value_or(!enum_decl->isScoped())) {
+  const auto attrs = annotations.lookup<EnumDeclAttrs>(enum_decl);
+  if (attrs.export_values.value_or(!enum_decl->isScoped())) {
     os << "context.export_values();\n";
   }
 }
-- 
2.43.0


From 94638d83cff2e758932596ff8b16cb3ecbc6a4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:26 +0000
Subject: [PATCH 6/9] fix: do not count implicit this in keep_alive for static
 methods

---
 src/annotated_decl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/annotated_decl.cpp b/src/annotated_decl.cpp
index 66583bd..fec2b43 100644
--- a/src/annotated_decl.cpp
+++ b/src/annotated_decl.cpp
@@ -627,8 +627,10 @@ bool genpybind::processAnnotation(const clang::NamedDecl *decl,
     return dispatch
         .binary(LiteralValue::Kind::String,
                 [&](const LiteralValue &first, const LiteralValue &second) {
+                  const auto *method =
+                      llvm::dyn_cast<clang::CXXMethodDecl>(function_decl);
                   auto lookup = make_parameter_indices_lookup(
-                      true, llvm::isa<clang::CXXMethodDecl>(function_decl));
+                      true, method != nullptr && !method->isStatic());
                   auto first_idx = lookup(first.getString());
                   auto second_idx = lookup(second.getString());
                   if (!first_idx.has_value()) {
-- 
2.43.0


From a0faa033f7b767306b4c873409d54865ab06d60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:26 +0000
Subject: [PATCH 7/9] fix: order declarations with identical location
 reproducibly

---
 src/sort_decls.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sort_decls.cpp b/src/sort_decls.cpp
index efa536d..0c5509e 100644
--- a/src/sort_decls.cpp
+++ b/src/sort_decls.cpp
@@ -22,5 +22,11 @@ bool IsBeforeInTranslationUnit::operator()(clang::SourceLocation lhs,
 bool IsBeforeInTranslationUnit::operator()(const clang::Decl *lhs,
                                            const clang::Decl *rhs) const {
   // TODO: getBeginLoc? Macros?
-  return operator()(lhs->getLocation(), rhs->getLocation());
+  if (operator()(lhs->getLocation(), rhs->getLocation()))
+    return true;
+  if (operator()(rhs->getLocation(), lhs->getLocation()))
+    return false;
+  // Several declarations can share a location, e.g. implicit members of a class
+  // or specializations of a template.  Their order has to be reproducible.
+  return lhs->getID() < rhs->getID();
 }
-- 
2.43.0


From 62aba9fba0a63ebdcb6bd38728d89e4baea1a7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:22 +0000
Subject: [PATCH 8/9] fix: reject any parameter after keyword arguments

---
 src/expose.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 2f80057..ec15b2d 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -336,6 +336,11 @@ static void emitParameters(llvm::raw_ostream &os,
   for (const clang::ParmVarDecl *param : function->parameters()) {
     // `arg()` should not be emitted for `pybind11::args` or `pybind11::kwargs`
     // parameters.  `kwargs` needs to be the last parameter of the function.
+    if (last_kwargs_param != nullptr) {
+      Diagnostics::report(last_kwargs_param,
+                          Diagnostics::Kind::TrailingParametersError);
+      break;
+    }
     if (llvm::StringRef kind = getPybind11ArgsType(param->getType());
         kind == "kwargs") {
       last_kwargs_param = param;
@@ -343,11 +348,6 @@ static void emitParameters(llvm::raw_ostream &os,
     } else if (!kind.empty()) {
       continue;
     }
-    if (last_kwargs_param != nullptr) {
-      Diagnostics::report(last_kwargs_param,
-                          Diagnostics::Kind::TrailingParametersError);
-      break;
-    }
     os << ", ::pybind11::arg(";
     emitStringLiteral(os, param->getName());
     os << ")";
-- 
2.43.0


From 1f264ec1149244a90d45fe54231e573c804359a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:41 +0000
Subject: [PATCH 9/9] fix: create bases of inlined bases before derived classes

---
 .../genpybind/decl_context_graph_processing.h |  3 +-
 src/decl_context_graph_processing.cpp         | 38 +++++++++++++------
 src/expose.cpp                                |  2 +-
 3 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/include/genpybind/decl_context_graph_processing.h b/include/genpybind/decl_context_graph_processing.h
index 2296bf1..ca5df5e 100644
--- a/include/genpybind/decl_context_graph_processing.h
+++ b/include/genpybind/decl_context_graph_processing.h
@@ -107,11 +107,12 @@ void reportUnreachableVisibleDeclContexts(
 /// before the declaration itself, nested declarations are sorted after their
 /// `parents`.  In addition, exposed base classes (i.e. those that are also
 /// represented in the `graph`) are exposed before derived classes, as required
-/// by pybind11.
+/// by pybind11.  This includes the bases of inlined base classes.
 /// If the dependency graph contains a cycle, an empty sequence is returned and
 /// `cycle` is set to one declaration context on this cycle.
 llvm::SmallVector<const clang::DeclContext *, 0>
 declContextsSortedByDependencies(const DeclContextGraph &graph,
+                                 const AnnotationStorage &annotations,
                                  const EnclosingScopeMap &parents,
                                  const clang::SourceManager &source_manager,
                                  const clang::DeclContext **cycle);
diff --git a/src/decl_context_graph_processing.cpp b/src/decl_context_graph_processing.cpp
index fb48b58..ee71f49 100644
--- a/src/decl_context_graph_processing.cpp
+++ b/src/decl_context_graph_processing.cpp
@@ -442,7 +442,8 @@ lexicographicalTopologicalSort(const GraphType &graph,
 
 llvm::SmallVector<const clang::DeclContext *, 0>
 genpybind::declContextsSortedByDependencies(
-    const DeclContextGraph &graph, const EnclosingScopeMap &parents,
+    const DeclContextGraph &graph, const AnnotationStorage &annotations,
+    const EnclosingScopeMap &parents,
     const clang::SourceManager &source_manager,
     const clang::DeclContext **cycle) {
   auto find_predecessors = [&](const DeclContextNode *node,
@@ -455,18 +456,31 @@ genpybind::declContextsSortedByDependencies(
       assert(parent_node != nullptr && "parent should be in graph");
       add_predecessor(parent_node);
     }
-    // Add all exposed (i.e. part of graph) public bases as dependencies.
-    if (const auto *decl = llvm::dyn_cast<clang::CXXRecordDecl>(decl_context)) {
-      for (const clang::CXXBaseSpecifier &base : decl->bases()) {
-        if (base.getAccessSpecifier() != clang::AS_public)
-          continue;
-        const clang::TagDecl *base_decl = base.getType()->getAsTagDecl();
-        if (const DeclContextNode *base_node =
-                graph.getNode(base_decl->getDefinition())) {
-          assert(base_node != nullptr && "base should be in graph");
-          add_predecessor(base_node);
+    // Add all exposed (i.e. part of graph) public bases as dependencies,
+    // including those of inlined bases, which are emitted in their place.
+    if (const auto *record =
+            llvm::dyn_cast<clang::CXXRecordDecl>(decl_context)) {
+      const auto inlining_policy =
+          RecordInliningPolicy::createFromAnnotations(annotations, record);
+      auto add_bases = [&](const clang::CXXRecordDecl *decl,
+                           auto &&recurse) -> void {
+        for (const clang::CXXBaseSpecifier &base : decl->bases()) {
+          if (base.getAccessSpecifier() != clang::AS_public)
+            continue;
+          const clang::TagDecl *base_decl =
+              base.getType()->getAsTagDecl()->getDefinition();
+          if (const DeclContextNode *base_node = graph.getNode(base_decl)) {
+            assert(base_node != nullptr && "base should be in graph");
+            add_predecessor(base_node);
+          }
+          if (!inlining_policy.shouldInline(base_decl))
+            continue;
+          if (const auto *base_record =
+                  llvm::dyn_cast<clang::CXXRecordDecl>(base_decl))
+            recurse(base_record, recurse);
         }
-      }
+      };
+      add_bases(record, add_bases);
     }
   };
 
diff --git a/src/expose.cpp b/src/expose.cpp
index ec15b2d..3b0a669 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -651,7 +651,7 @@ void TranslationUnitExposer::emitModule(
 
   const clang::DeclContext *cycle = nullptr;
   const auto sorted_contexts = declContextsSortedByDependencies(
-      graph, parents, sema.getSourceManager(), &cycle);
+      graph, annotations, parents, sema.getSourceManager(), &cycle);
   if (cycle != nullptr) {
     // TODO: Report this before any other output, ideally pointing to the
     // typedef name decl for `expose_here` cycles.
-- 
2.43.0

