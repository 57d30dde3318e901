E = "src/expose.cpp"
EDITS = {
"printer-prepend-function": [(E, """    bool should_prepend_qualified_type_to_braced_initializer = [&] {
      if (within_braced_initializer)
        return false;
      if (llvm::isa<clang::InitListExpr>(expr))
        return true;
      if (llvm::isa<clang::CXXTemporaryObjectExpr>(expr))
        return false;
      if (const auto *constr = llvm::dyn_cast<clang::CXXConstructExpr>(expr))
        return constr->isListInitialization();
      return false;
    }();

    if (should_prepend_qualified_type_to_braced_initializer) {""", """    if (shouldPrependType(expr)) {"""),
  (E, """  bool handledStmt(clang::Stmt *stmt, llvm::raw_ostream &os) override {""",
"""  bool shouldPrependType(const clang::Expr *expr) const {
    if (within_braced_initializer)
      return false;
    if (llvm::isa<clang::InitListExpr>(expr))
      return true;
    const auto *constr = llvm::dyn_cast<clang::CXXConstructExpr>(expr);
    return constr != nullptr && !llvm::isa<clang::CXXTemporaryObjectExpr>(constr) &&
           constr->isListInitialization();
  }

  bool handledStmt(clang::Stmt *stmt, llvm::raw_ostream &os) override {""")],
"printer-print-lambda-moved": [(E, """    if (should_prepend_qualified_type_to_braced_initializer) {
      os << clang::TypeName::getFullyQualifiedName(expr->getType(), context,
                                                   printing_policy,
                                                   /*WithGlobalNsPrefix=*/true);
      within_braced_initializer""", """    auto print_fully_qualified_name = [&](clang::QualType qual_type) {
      os << clang::TypeName::getFullyQualifiedName(qual_type, context,
                                                   printing_policy,
                                                   /*WithGlobalNsPrefix=*/true);
    };
    if (should_prepend_qualified_type_to_braced_initializer) {
      print_fully_qualified_name(expr->getType());
      within_braced_initializer"""), (E, """    auto print_fully_qualified_name = [&](clang::QualType qual_type) {
      os << clang::TypeName::getFullyQualifiedName(qual_type, context,
                                                   printing_policy,
                                                   /*WithGlobalNsPrefix=*/true);
    };

    if (const auto *cast = llvm::dyn_cast<clang::CStyleCastExpr>(expr)) {""",
"""    if (const auto *cast = llvm::dyn_cast<clang::CStyleCastExpr>(expr)) {""")],
"printer-saverestore": [(E, """      within_braced_initializer = true;
      print_recursively(expr);
      within_braced_initializer = false;""", """      llvm::SaveAndRestore<bool> guard(within_braced_initializer, true);
      print_recursively(expr);"""), (E, "#include <llvm/Support/raw_ostream.h>", "#include <llvm/Support/SaveAndRestore.h>\n#include <llvm/Support/raw_ostream.h>")],
"printer-exchange": [(E, """      within_braced_initializer = true;
      print_recursively(expr);
      within_braced_initializer = false;""", """      const bool previous = std::exchange(within_braced_initializer, true);
      print_recursively(expr);
      within_braced_initializer = previous;""")],
"printer-funccast": [(E, """      if (cast->getLParenLoc().isValid())
        os << '(';
      print_recursively(cast->getSubExpr());
      if (cast->getLParenLoc().isValid())
        os << ')';
      return true;""", """      const bool has_parens = cast->getLParenLoc().isValid();
      os << (has_parens ? "(" : "");
      print_recursively(cast->getSubExpr());
      os << (has_parens ? ")" : "");
      return true;""")],
"printer-temporary": [(E, """      if (temporary->isStdInitListInitialization())
        /* do nothing; braces are printed by containing expression */;
      else
        os << (temporary->isListInitialization() ? '{' : '(');
""", """      const bool braces_elsewhere = temporary->isStdInitListInitialization();
      const bool list = temporary->isListInitialization();
      if (!braces_elsewhere)
        os << (list ? '{' : '(');
"""), (E, """      if (temporary->isStdInitListInitialization())
        /* do nothing */;
      else
        os << (temporary->isListInitialization() ? '}' : ')');
""", """      if (!braces_elsewhere) {
        if (list)
          os << '}';
        else
          os << ')';
      }
""")],
"printer-temporary-loop": [(E, """      bool comma = false;
      for (const clang::Expr *argument : temporary->arguments()) {
        if (argument->isDefaultArgument())
          break;
        if (comma)
          os << ", ";
        print_recursively(argument);
        comma = true;
      }
""", """      llvm::StringRef separator = "";
      for (const clang::Expr *argument : temporary->arguments()) {
        if (argument->isDefaultArgument())
          break;
        os << separator;
        separator = ", ";
        print_recursively(argument);
      }
""")],
"printer-temporary-index": [(E, """      bool comma = false;
      for (const clang::Expr *argument : temporary->arguments()) {
        if (argument->isDefaultArgument())
          break;
        if (comma)
          os << ", ";
        print_recursively(argument);
        comma = true;
      }
""", """      for (unsigned i = 0; i < temporary->getNumArgs(); ++i) {
        const clang::Expr *argument = temporary->getArg(i);
        if (argument->isDefaultArgument())
          break;
        if (i > 0)
          os << ", ";
        print_recursively(argument);
      }
""")],
"printer-split": [(E, """    if (const auto *decl_ref = llvm::dyn_cast<clang::DeclRefExpr>(expr)) {
      os << "::";
      decl_ref->getFoundDecl()->printNestedNameSpecifier(os, printing_policy);
      if (decl_ref->hasTemplateKeyword())
        os << "template ";
      os << decl_ref->getNameInfo();
      if (decl_ref->hasExplicitTemplateArgs())
        clang::printTemplateArgumentList(os, decl_ref->template_arguments(),
                                         printing_policy);
      return true;
    }
""", """    if (const auto *decl_ref = llvm::dyn_cast<clang::DeclRefExpr>(expr)) {
      printReference(os, decl_ref, decl_ref->getFoundDecl(), decl_ref->getNameInfo());
      return true;
    }
"""), (E, """      os << "::";
      member->getFoundDecl()->printNestedNameSpecifier(os, printing_policy);
      if (member->hasTemplateKeyword())
        os << "template ";
      os << member->getMemberNameInfo();
      if (member->hasExplicitTemplateArgs())
        clang::printTemplateArgumentList(os, member->template_arguments(),
                                         printing_policy);
      return true;""", """      printReference(os, member, member->getFoundDecl().getDecl(), member->getMemberNameInfo());
      return true;"""), (E, """  bool handledStmt(clang::Stmt *stmt, llvm::raw_ostream &os) override {""", """  template <typename T>
  void printReference(llvm::raw_ostream &os, const T *expr, const clang::NamedDecl *found,
                      const clang::DeclarationNameInfo &name) {
    os << "::";
    found->printNestedNameSpecifier(os, printing_policy);
    if (expr->hasTemplateKeyword())
      os << "template ";
    os << name;
    if (expr->hasExplicitTemplateArgs())
      clang::printTemplateArgumentList(os, expr->template_arguments(),
                                       printing_policy);
  }

  bool handledStmt(clang::Stmt *stmt, llvm::raw_ostream &os) override {""")],
"printer-member-suppress": [(E, """      bool suppress_member_access_operator = [&] {
        if (const auto *parent_member = llvm::dyn_cast<clang::MemberExpr>(base))
          if (const auto *field = llvm::dyn_cast<clang::FieldDecl>(
                  parent_member->getMemberDecl()))
            return field->isAnonymousStructOrUnion();
        return false;
      }();

      if (!suppress_member_access_operator)
        os << (member->isArrow() ? "->" : ".");
""", """      const clang::FieldDecl *parent_field = nullptr;
      if (const auto *parent_member = llvm::dyn_cast<clang::MemberExpr>(base))
        parent_field = llvm::dyn_cast<clang::FieldDecl>(parent_member->getMemberDecl());

      if (parent_field == nullptr || !parent_field->isAnonymousStructOrUnion()) {
        if (member->isArrow())
          os << "->";
        else
          os << ".";
      }
""")],
"brief-early": [(E, """  const clang::ASTContext &context = decl->getASTContext();
  if (const clang::RawComment *raw = context.getRawCommentForAnyRedecl(decl)) {
    return raw->getBriefText(context);
  }
  return {};
""", """  const clang::ASTContext &context = decl->getASTContext();
  const clang::RawComment *raw = context.getRawCommentForAnyRedecl(decl);
  return raw == nullptr ? llvm::StringRef() : llvm::StringRef(raw->getBriefText(context));
""")],
"docstring-early": [(E, """  llvm::StringRef result = getBriefText(function);
  if (result.empty())
    if (const clang::FunctionTemplateDecl *primary =
            function->getPrimaryTemplate())
      result = getBriefText(primary);
  return result;
""", """  if (llvm::StringRef own = getBriefText(function); !own.empty())
    return own;
  const clang::FunctionTemplateDecl *primary = function->getPrimaryTemplate();
  if (primary == nullptr)
    return {};
  return getBriefText(primary);
""")],
"argstype": [(E, """  const clang::CXXRecordDecl *record = parameter_type->getAsCXXRecordDecl();
  if (record == nullptr)
    record = parameter_type->getPointeeCXXRecordDecl();
  if (record == nullptr || !matcher.matchesNode(*record))
    return {};
  assert(record->getIdentifier());
  return record->getName();
""", """  const clang::CXXRecordDecl *record = parameter_type->getAsCXXRecordDecl();
  if (!record)
    record = parameter_type->getPointeeCXXRecordDecl();
  if (record && matcher.matchesNode(*record))
    return record->getName();
  return llvm::StringRef();
""")],
"fqn-helper": [(E, """static void emitParameterTypes(llvm::raw_ostream &os,
                               const clang::FunctionDecl *function) {""", """static std::string qualifiedTypeName(clang::QualType type, const clang::ASTContext &context) {
  return clang::TypeName::getFullyQualifiedName(type, context, getPrintingPolicyForExposedNames(context), true);
}

static void emitParameterTypes(llvm::raw_ostream &os,
                               const clang::FunctionDecl *function) {"""),
 (E, """      os << "::pybind11::implicitly_convertible<"
         << clang::TypeName::getFullyQualifiedName(from_qual_type, ast_context,
                                                   printing_policy,
                                                   /*WithGlobalNsPrefix=*/true)
         << ", "
         << clang::TypeName::getFullyQualifiedName(to_qual_type, ast_context,
                                                   printing_policy,
                                                   /*WithGlobalNsPrefix=*/true)
         << ">();\\n";""", """      os << "::pybind11::implicitly_convertible<"
         << qualifiedTypeName(from_qual_type, ast_context) << ", "
         << qualifiedTypeName(to_qual_type, ast_context) << ">();\\n";"""),
 (E, """    os << clang::TypeName::getFullyQualifiedName(parameter_types[type_index],
                                                 ast_context, printing_policy,
                                                 /*WithGlobalNsPrefix=*/true);
    os << ' ' << parameter_names[index];""", """    os << qualifiedTypeName(parameter_types[type_index], ast_context);
    os << ' ' << parameter_names[index];"""),
 (E, """     << clang::TypeName::getFullyQualifiedName(return_type, ast_context,
                                               printing_policy,
                                               /*WithGlobalNsPrefix=*/true)
     << " { return ";""", """     << qualifiedTypeName(return_type, ast_context)
     << " { return ";"""),
 (E, """  auto printing_policy = getPrintingPolicyForExposedNames(ast_context);
  os << "[](";""", """  os << "[](";""")],
"create-switch": [(E, """  if (const auto *named_decl = llvm::dyn_cast<clang::NamedDecl>(decl_context)) {
    if (NamespaceDeclAttrs::supports(named_decl)) {
      const auto *namespace_decl = llvm::cast<clang::NamespaceDecl>(named_decl);
      return std::make_unique<NamespaceExposer>(namespace_decl, annotations);
    }
    if (EnumDeclAttrs::supports(named_decl)) {
      const auto *enum_decl = llvm::cast<clang::EnumDecl>(named_decl);
      return std::make_unique<EnumExposer>(enum_decl, annotations);
    }
    if (RecordDeclAttrs::supports(named_decl)) {
      const auto *record_decl = llvm::cast<clang::CXXRecordDecl>(named_decl);
      return std::make_unique<RecordExposer>(
          record_decl, graph, annotations,
          RecordInliningPolicy::createFromAnnotations(annotations,
                                                      record_decl));
    }
  }
""", """  if (const auto *named_decl = llvm::dyn_cast<clang::NamedDecl>(decl_context)) {
    if (NamespaceDeclAttrs::supports(named_decl))
      return std::make_unique<NamespaceExposer>(llvm::cast<clang::NamespaceDecl>(named_decl), annotations);
    if (RecordDeclAttrs::supports(named_decl)) {
      const auto *record_decl = llvm::cast<clang::CXXRecordDecl>(named_decl);
      RecordInliningPolicy policy =
          RecordInliningPolicy::createFromAnnotations(annotations, record_decl);
      return std::make_unique<RecordExposer>(record_decl, graph, annotations, std::move(policy));
    }
    if (EnumDeclAttrs::supports(named_decl))
      return std::make_unique<EnumExposer>(llvm::cast<clang::EnumDecl>(named_decl), annotations);
  }
""")],
"create-negated": [(E, """  const auto *decl = llvm::cast<clang::Decl>(decl_context);
  if (DeclContextGraph::accepts(decl))
    return std::make_unique<DeclContextExposer>(annotations);

  llvm_unreachable("Unknown declaration context kind.");""", """  const auto *decl = llvm::cast<clang::Decl>(decl_context);
  if (!DeclContextGraph::accepts(decl))
    llvm_unreachable("Unknown declaration context kind.");

  return std::make_unique<DeclContextExposer>(annotations);""")],
"handledecl-positive": [(E, """  if (const auto attrs = annotations.get<NamedDeclAttrs>(decl);
      !attrs.has_value() || !attrs->visible.value_or(default_visibility)) {
    return;
  }

  return handleDeclImpl(os, decl);""", """  const auto attrs = annotations.get<NamedDeclAttrs>(decl);
  if (attrs.has_value() && attrs->visible.value_or(default_visibility))
    handleDeclImpl(os, decl);""")],
"handledecl-split": [(E, """  if (const auto attrs = annotations.get<NamedDeclAttrs>(decl);
      !attrs.has_value() || !attrs->visible.value_or(default_visibility)) {
    return;
  }
""", """  const auto attrs = annotations.get<NamedDeclAttrs>(decl);
  if (!attrs)
    return;
  const bool visible = attrs->visible.has_value() ? *attrs->visible : default_visibility;
  if (!visible)
    return;
""")],
"impl-typedef-extract": [(E, """    if (!named_attrs.visible.has_value())
      return;
    if (typedef_attrs->expose_here)
      return;

    const auto *alias = llvm::cast<clang::TypedefNameDecl>(decl);
    // TODO: Use aliasTarget...?
    const clang::TagDecl *target = alias->getUnderlyingType()->getAsTagDecl();
    if (target == nullptr)
      return;

    os << "context.attr(";
    emitSpelling(os, decl, annotations.lookup<NamedDeclAttrs>(decl));
    os << ") = ::genpybind::getObjectForType<" << getFullyQualifiedName(target)
       << ">();\\n";

    return;""", """    if (named_attrs.visible.has_value() && !typedef_attrs->expose_here)
      emitTypeAlias(os, llvm::cast<clang::TypedefNameDecl>(decl), named_attrs);
    return;"""), (E, """void DeclContextExposer::handleDeclImpl(llvm::raw_ostream &os,
                                        const clang::NamedDecl *decl) {""", """static void emitTypeAlias(llvm::raw_ostream &os, const clang::TypedefNameDecl *alias,
                          const NamedDeclAttrs &named_attrs) {
  const clang::TagDecl *target = alias->getUnderlyingType()->getAsTagDecl();
  if (target == nullptr)
    return;
  os << "context.attr(";
  emitSpelling(os, alias, named_attrs);
  os << ") = ::genpybind::getObjectForType<" << getFullyQualifiedName(target)
     << ">();\\n";
}

void DeclContextExposer::handleDeclImpl(llvm::raw_ostream &os,
                                        const clang::NamedDecl *decl) {""")],
"impl-var-else": [(E, """    if (var_attrs->manual_bindings != nullptr) {
      if (!var_attrs->postamble)
        emitManualBindings(os, ast_context, var_attrs->manual_bindings);
      return;
    }
    // For fields""", """    if (const auto *bindings = var_attrs->manual_bindings) {
      if (var_attrs->postamble)
        return;
      emitManualBindings(os, ast_context, bindings);
      return;
    }
    // For fields""")],
"impl-fn": [(E, """    bool is_call_operator = function->getOverloadedOperator() == clang::OO_Call;
    os << ((method != nullptr && method->isStatic()) ? "context.def_static("
                                                     : "context.def(");
    emitSpelling(os, decl, annotations.lookup<NamedDeclAttrs>(decl),
                 is_call_operator ? "__call__" : "");
""", """    os << "context.def";
    if (method != nullptr && method->isStatic())
      os << "_static";
    os << "(";
    llvm::StringRef fallback;
    if (function->getOverloadedOperator() == clang::OO_Call)
      fallback = "__call__";
    emitSpelling(os, decl, named_attrs, fallback);
""")],
"impl-fn-guard": [(E, """  if (const auto fn_attrs = annotations.get<FunctionDeclAttrs>(decl)) {
    const auto *function = llvm::cast<clang::FunctionDecl>(decl);
    const auto *method = llvm::dyn_cast<clang::CXXMethodDecl>(decl);

    if (function->isDeleted())
      return;

    bool is_call_operator""", """  const auto fn_attrs = annotations.get<FunctionDeclAttrs>(decl);
  if (!fn_attrs.has_value())
    return;
  {
    const auto *function = llvm::cast<clang::FunctionDecl>(decl);
    if (function->isDeleted())
      return;
    const auto *method = llvm::dyn_cast<clang::CXXMethodDecl>(function);

    bool is_call_operator""")],
"impl-method-bool": [(E, """  if (const auto method_attrs = annotations.get<MethodDeclAttrs>(decl)) {
    // Properties are handled separately in `RecordExposer::finalizeDefinition`.
    if (!method_attrs->getter_for.empty() || !method_attrs->setter_for.empty())
      return;
  }
""", """  // Properties are handled separately in `RecordExposer::finalizeDefinition`.
  const auto method_attrs = annotations.get<MethodDeclAttrs>(decl);
  const bool is_property = method_attrs.has_value() &&
                           !(method_attrs->getter_for.empty() && method_attrs->setter_for.empty());
  if (is_property)
    return;
""")],
"def-helper": [(E, """    os << "context.def(::pybind11::init<";
    emitParameterTypes(os, constructor);
    os << ">(), ";
    emitStringLiteral(os, getDocstring(constructor));
    const auto fn_attrs = annotations.lookup<FunctionDeclAttrs>(decl);
    emitParameters(os, constructor, fn_attrs);
    emitPolicies(os, fn_attrs);
    os << ");\\n";
    return;""", """    os << "context.def(::pybind11::init<";
    emitParameterTypes(os, constructor);
    os << ">()";
    emitTail(os, constructor, annotations.lookup<FunctionDeclAttrs>(decl));
    return;"""), (E, """    emitFunctionPointer(os, function);
    os << ", ";
    emitStringLiteral(os, getDocstring(function));
    emitParameters(os, function, *fn_attrs);
    emitPolicies(os, *fn_attrs);
    os << ");\\n";""", """    emitFunctionPointer(os, function);
    emitTail(os, function, *fn_attrs);"""), (E, """static void emitFunctionPointer(llvm::raw_ostream &os,""", """static void emitTail(llvm::raw_ostream &os, const clang::FunctionDecl *function, const FunctionDeclAttrs &attrs) {
  os << ", ";
  emitStringLiteral(os, getDocstring(function));
  emitParameters(os, function, attrs);
  emitPolicies(os, attrs);
  os << ");\\n";
}

static void emitFunctionPointer(llvm::raw_ostream &os,""")],
"ns-nested": [(E, """  if (const auto attrs = annotations.get<NamespaceDeclAttrs>(namespace_decl);
      attrs.has_value() && attrs->module) {
    os << ".def_submodule(";
    emitSpelling(os, namespace_decl,
                 annotations.lookup<NamedDeclAttrs>(namespace_decl));
    os << ")";
  }""", """  const auto attrs = annotations.lookup<NamespaceDeclAttrs>(namespace_decl);
  if (!attrs.module)
    return;
  os << ".def_submodule(";
  emitSpelling(os, namespace_decl,
               annotations.lookup<NamedDeclAttrs>(namespace_decl));
  os << ")";""")],
"doc-helper": [(E, """  if (llvm::StringRef doc = getBriefText(enum_decl); !doc.empty()) {
    os << ", ";
    emitStringLiteral(os, doc);
  }
  if""", """  emitOptionalDoc(os, enum_decl);
  if"""), (E, """  if (llvm::StringRef doc = getBriefText(record_decl); !doc.empty()) {
    os << ", ";
    emitStringLiteral(os, doc);
  }""", """  emitOptionalDoc(os, record_decl);"""), (E, """    if (llvm::StringRef doc = getBriefText(decl); !doc.empty()) {
      os << ", ";
      emitStringLiteral(os, doc);
    }
    os""", """    emitOptionalDoc(os, decl);
    os"""), (E, """static llvm::StringRef getDocstring(""", """static void emitOptionalDoc(llvm::raw_ostream &os, const clang::Decl *decl) {
  const llvm::StringRef text = getBriefText(decl);
  if (text.empty())
    return;
  os << ", ";
  emitStringLiteral(os, text);
}

static llvm::StringRef getDocstring(""")],
"enum-export": [(E, """  if (attrs.export_values.value_or(!enum_decl->isScoped())) {
    os << "context.export_values();\\n";
  }""", """  const bool export_values = attrs.export_values.has_value() ? attrs.export_values.value() : !enum_decl->isScoped();
  if (!export_values)
    return;
  os << "context.export_values();\\n";""")],
"enum-impl-early": [(E, """  if (const auto *enumerator = llvm::dyn_cast<clang::EnumConstantDecl>(decl)) {
    const std::string scope = getFullyQualifiedName(enum_decl);
    os << "context.value(";
    emitSpelling(os, decl, annotations.lookup<NamedDeclAttrs>(decl));
    os << ", " << scope << "::" << enumerator->getName();
    if (llvm::StringRef doc = getBriefText(decl); !doc.empty()) {
      os << ", ";
      emitStringLiteral(os, doc);
    }
    os << ");\\n";
  }""", """  const auto *enumerator = llvm::dyn_cast<clang::EnumConstantDecl>(decl);
  if (enumerator == nullptr)
    return;
  const auto attrs = annotations.lookup<NamedDeclAttrs>(enumerator);
  const llvm::StringRef doc = getBriefText(enumerator);
  os << "context.value(";
  emitSpelling(os, enumerator, attrs);
  os << ", ";
  os << getFullyQualifiedName(enum_decl);
  os << "::";
  os << enumerator->getName();
  if (!doc.empty()) {
    os << ", ";
    emitStringLiteral(os, doc);
  }
  os << ");\\n";""")],
"props-bindings": [(E, """  for (const auto &entry : properties) {
    const std::string &name = entry.first;
    const Property &property = entry.second;
    if (property.getter == nullptr) {
      if (property.setter == nullptr)
        continue;
      Diagnostics::report(property.setter,
                          Diagnostics::Kind::PropertyHasNoGetterError)
          << name;
      continue;
    }
    bool writable = property.setter != nullptr;
    os << (writable ? "context.def_property("
                    : "context.def_property_readonly(");
    emitStringLiteral(os, name);
    os << ", ";
    emitFunctionPointer(os, property.getter);
    if (writable) {
      os << ", ";
      emitFunctionPointer(os, property.setter);
    }
    os << ");\\n";
  }""", """  for (const auto &[name, property] : properties) {
    const auto *getter = property.getter;
    const auto *setter = property.setter;
    if (getter != nullptr) {
      os << "context.def_property";
      if (setter == nullptr)
        os << "_readonly";
      os << "(";
      emitStringLiteral(os, name);
      os << ", ";
      emitFunctionPointer(os, getter);
      if (setter != nullptr) {
        os << ", ";
        emitFunctionPointer(os, setter);
      }
      os << ");\\n";
    } else if (setter != nullptr) {
      Diagnostics::report(setter, Diagnostics::Kind::PropertyHasNoGetterError) << name;
    }
  }""")],
"props-extract": [(E, """    bool writable = property.setter != nullptr;
    os << (writable ? "context.def_property("
                    : "context.def_property_readonly(");
    emitStringLiteral(os, name);
    os << ", ";
    emitFunctionPointer(os, property.getter);
    if (writable) {
      os << ", ";
      emitFunctionPointer(os, property.setter);
    }
    os << ");\\n";
  }""", """    emitProperty(os, name, property.getter, property.setter);
  }"""), (E, """void RecordExposer::emitProperties(llvm::raw_ostream &os) {""", """static void emitProperty(llvm::raw_ostream &os, llvm::StringRef name, const clang::FunctionDecl *getter,
                         const clang::FunctionDecl *setter) {
  os << (setter == nullptr ? "context.def_property_readonly(" : "context.def_property(");
  emitStringLiteral(os, name);
  os << ", ";
  emitFunctionPointer(os, getter);
  if (setter != nullptr) {
    os << ", ";
    emitFunctionPointer(os, setter);
  }
  os << ");\\n";
}

void RecordExposer::emitProperties(llvm::raw_ostream &os) {""")],
"props-iter": [(E, """  for (const auto &entry : properties) {
    const std::string &name = entry.first;
    const Property &property = entry.second;""", """  for (auto it = properties.begin(), end_it = properties.end(); it != end_it; ++it) {
    const std::string &name = it->first;
    const Property &property = it->second;""")],
"op-skip-helper": [(E, """  switch (kind) {
  default:
    break;
  case clang::OO_New:
  case clang::OO_Delete:
  case clang::OO_Array_New:
  case clang::OO_Array_Delete:
  case clang::OO_Equal:
  case clang::OO_Spaceship: // TODO: not implemented yet
  case clang::OO_AmpAmp:
  case clang::OO_PipePipe:
  case clang::OO_PlusPlus:
  case clang::OO_MinusMinus:
  case clang::OO_Comma:
  case clang::OO_ArrowStar:
  case clang::OO_Arrow:
  case clang::OO_Call:
  case clang::OO_Subscript:
    return;
  }
""", """  if (isUnsupportedOperator(kind))
    return;
"""), (E, """void RecordExposer::emitOperator(llvm::raw_ostream &os,""", """static bool isUnsupportedOperator(clang::OverloadedOperatorKind kind) {
  switch (kind) {
  case clang::OO_New:
  case clang::OO_Delete:
  case clang::OO_Array_New:
  case clang::OO_Array_Delete:
  case clang::OO_Equal:
  case clang::OO_Spaceship: // TODO: not implemented yet
  case clang::OO_AmpAmp:
  case clang::OO_PipePipe:
  case clang::OO_PlusPlus:
  case clang::OO_MinusMinus:
  case clang::OO_Comma:
  case clang::OO_ArrowStar:
  case clang::OO_Arrow:
  case clang::OO_Call:
  case clang::OO_Subscript:
    return true;
  default:
    return false;
  }
}

void RecordExposer::emitOperator(llvm::raw_ostream &os,""")],
"op-types-helper": [(E, """  llvm::SmallVector<clang::QualType, 2> parameter_types;
  clang::QualType record_type = ast_context.getTypeDeclType(record_decl);
  if (method != nullptr) {
    // TODO: Consider ref qualifiers.
    if (method->isConst())
      record_type = record_type.withConst();
    parameter_types.push_back(ast_context.getLValueReferenceType(record_type));
  }
  for (const clang::ParmVarDecl *param : function->parameters()) {
    parameter_types.push_back(param->getType());
  }
""", """  const clang::QualType record_type = ast_context.getTypeDeclType(record_decl);
  const llvm::SmallVector<clang::QualType, 2> parameter_types =
      operatorParameterTypes(ast_context, record_type, function);
"""), (E, """void RecordExposer::emitOperator(llvm::raw_ostream &os,""", """static llvm::SmallVector<clang::QualType, 2>
operatorParameterTypes(const clang::ASTContext &ast_context, clang::QualType record_type,
                       const clang::FunctionDecl *function) {
  llvm::SmallVector<clang::QualType, 2> result;
  if (const auto *method = llvm::dyn_cast<clang::CXXMethodDecl>(function)) {
    if (method->isConst())
      record_type = record_type.withConst();
    result.push_back(ast_context.getLValueReferenceType(record_type));
  }
  for (const clang::ParmVarDecl *param : function->parameters())
    result.push_back(param->getType());
  return result;
}

void RecordExposer::emitOperator(llvm::raw_ostream &os,"""), (E, """  const auto *method = llvm::dyn_cast<clang::CXXMethodDecl>(function);

  clang::OverloadedOperatorKind kind""", """
  clang::OverloadedOperatorKind kind""")],
"op-types-order": [(E, """  if (method != nullptr) {
    // TODO: Consider ref qualifiers.
    if (method->isConst())
      record_type = record_type.withConst();
    parameter_types.push_back(ast_context.getLValueReferenceType(record_type));
  }
  for (const clang::ParmVarDecl *param : function->parameters()) {
    parameter_types.push_back(param->getType());
  }
""", """  if (method != nullptr) {
    // TODO: Consider ref qualifiers.
    clang::QualType self_type = method->isConst() ? record_type.withConst() : record_type;
    record_type = self_type;
    parameter_types.emplace_back(ast_context.getLValueReferenceType(self_type));
  }
  for (unsigned i = 0; i != function->getNumParams(); ++i)
    parameter_types.push_back(function->getParamDecl(i)->getType());
""")],
"op-types-transform": [(E, """  for (const clang::ParmVarDecl *param : function->parameters()) {
    parameter_types.push_back(param->getType());
  }

  bool unary""", """  llvm::transform(function->parameters(), std::back_inserter(parameter_types),
                  [](const clang::ParmVarDecl *param) { return param->getType(); });

  bool unary""")],
"op-reverse-getnonref": [(E, """  bool reverse_parameters = [&] {
    clang::QualType lhs_param_type = parameter_types.front();
    if (lhs_param_type->isReferenceType())
      lhs_param_type = lhs_param_type->getPointeeType();
    return !ast_context.hasSameUnqualifiedType(lhs_param_type, record_type);
  }();
""", """  clang::QualType lhs_param_type = parameter_types[0];
  if (lhs_param_type->isReferenceType())
    lhs_param_type = lhs_param_type->getPointeeType();
  const bool reverse_parameters =
      !ast_context.hasSameUnqualifiedType(lhs_param_type, record_type);
""")],
"op-name-if": [(E, """  llvm::StringRef python_name =
      unary ? pythonUnaryOperatorName(kind)
            : pythonBinaryOperatorName(kind, reverse_parameters);
  // Skip operators without Python equivalent (e.g. `!`).
  if (python_name.empty())
    return;
""", """  llvm::StringRef python_name;
  if (unary)
    python_name = pythonUnaryOperatorName(kind);
  else
    python_name = pythonBinaryOperatorName(kind, reverse_parameters);
  // Skip operators without Python equivalent (e.g. `!`).
  if (python_name.empty())
    return;
""")],
"op-unary-switch": [(E, """  if (unary && (kind == clang::OO_Star || kind == clang::OO_Amp))
    return;
""", """  if (unary) {
    if (kind == clang::OO_Star)
      return;
    if (kind == clang::OO_Amp)
      return;
  }
""")],
"opdef-for": [(E, """  bool comma = false;
  std::size_t parameter_count = parameter_types.size();
  for (auto index : llvm::seq<std::size_t>(0, parameter_count)) {
    std::size_t type_index =
        reverse_parameters ? (parameter_count - 1 - index) : index;
    if (comma)
      os << ", ";""", """  const std::size_t parameter_count = parameter_types.size();
  for (std::size_t index = 0; index < parameter_count; ++index) {
    std::size_t type_index = index;
    if (reverse_parameters)
      type_index = parameter_count - 1 - index;
    if (index != 0)
      os << ", ";"""), (E, """    os << ' ' << parameter_names[index];
    comma = true;
  }
""", """    os << ' ' << parameter_names[index];
  }
""")],
"opdef-lambda-name": [(E, """  os << "[](";
  bool comma = false;
  std::size_t parameter_count""", """  auto type_name = [&](clang::QualType type) {
    return clang::TypeName::getFullyQualifiedName(type, ast_context, printing_policy,
                                                  /*WithGlobalNsPrefix=*/true);
  };
  os << "[](";
  bool comma = false;
  std::size_t parameter_count"""), (E, """    os << clang::TypeName::getFullyQualifiedName(parameter_types[type_index],
                                                 ast_context, printing_policy,
                                                 /*WithGlobalNsPrefix=*/true);
    os << ' ' << parameter_names[index];""", """    os << type_name(parameter_types[type_index]) << ' ' << parameter_names[index];"""),
 (E, """     << clang::TypeName::getFullyQualifiedName(return_type, ast_context,
                                               printing_policy,
                                               /*WithGlobalNsPrefix=*/true)
     << " { return ";""", """     << type_name(return_type) << " { return ";""")],
"opdef-expr": [(E, """  if (unary) {
    os << getOperatorSpelling(kind) << parameter_names[0];
  } else {
    std::size_t offset = reverse_parameters ? 1 : 0;
    os << parameter_names[0 + offset] << ' ' << getOperatorSpelling(kind) << ' '
       << parameter_names[1 - offset];
  }
""", """  const char *spelling = getOperatorSpelling(kind);
  if (!unary) {
    llvm::StringRef left = parameter_names[0];
    llvm::StringRef right = parameter_names[1];
    if (reverse_parameters)
      std::swap(left, right);
    os << left << ' ' << spelling << ' ' << right;
  } else {
    os << spelling << parameter_names[0];
  }
""")],
"opdef-literals": [(E, """  if (unary) {
    os << getOperatorSpelling(kind) << parameter_names[0];
  } else {
    std::size_t offset = reverse_parameters ? 1 : 0;
    os << parameter_names[0 + offset] << ' ' << getOperatorSpelling(kind) << ' '
       << parameter_names[1 - offset];
  }
""", """  if (unary)
    os << getOperatorSpelling(kind) << "lhs";
  else if (reverse_parameters)
    os << "rhs " << getOperatorSpelling(kind) << " lhs";
  else
    os << "lhs " << getOperatorSpelling(kind) << " rhs";
""")],
"type-bases-member": [(E, """  auto maybe_emit_bases = [&](const clang::CXXRecordDecl *decl,
                              auto &&recurse) -> void {
    for (const clang::CXXBaseSpecifier &base : decl->bases()) {
      const clang::TagDecl *base_decl =
          base.getType()->getAsTagDecl()->getDefinition();
      if (base.getAccessSpecifier() != clang::AS_public ||
          inlining_policy.shouldHide(base_decl))
        continue;
      if (inlining_policy.shouldInline(base_decl)) {
        if (const auto *rd = llvm::dyn_cast<clang::CXXRecordDecl>(base_decl))
          recurse(rd, recurse);
      } else if (graph.getNode(base_decl) != nullptr) {
        os << ", " << getFullyQualifiedName(base_decl);
      }
    }
  };
  maybe_emit_bases(record_decl, maybe_emit_bases);
""", """  emitBases(os, record_decl, graph, inlining_policy);
"""), (E, """void RecordExposer::emitType(llvm::raw_ostream &os) {""", """static void emitBases(llvm::raw_ostream &os, const clang::CXXRecordDecl *decl,
                      const DeclContextGraph &graph, const RecordInliningPolicy &inlining_policy) {
  for (const clang::CXXBaseSpecifier &base : decl->bases()) {
    const clang::TagDecl *base_decl =
        base.getType()->getAsTagDecl()->getDefinition();
    if (base.getAccessSpecifier() != clang::AS_public ||
        inlining_policy.shouldHide(base_decl))
      continue;
    if (inlining_policy.shouldInline(base_decl)) {
      if (const auto *rd = llvm::dyn_cast<clang::CXXRecordDecl>(base_decl))
        emitBases(os, rd, graph, inlining_policy);
    } else if (graph.getNode(base_decl) != nullptr) {
      os << ", " << getFullyQualifiedName(base_decl);
    }
  }
}

void RecordExposer::emitType(llvm::raw_ostream &os) {""")],
"type-bases-flow": [(E, """      if (base.getAccessSpecifier() != clang::AS_public ||
          inlining_policy.shouldHide(base_decl))
        continue;
      if (inlining_policy.shouldInline(base_decl)) {
        if (const auto *rd = llvm::dyn_cast<clang::CXXRecordDecl>(base_decl))
          recurse(rd, recurse);
      } else if (graph.getNode(base_decl) != nullptr) {
        os << ", " << getFullyQualifiedName(base_decl);
      }""", """      if (base.getAccessSpecifier() != clang::AS_public)
        continue;
      if (inlining_policy.shouldHide(base_decl))
        continue;
      if (!inlining_policy.shouldInline(base_decl)) {
        if (graph.getNode(base_decl) == nullptr)
          continue;
        os << ", " << getFullyQualifiedName(base_decl);
        continue;
      }
      if (const auto *rd = llvm::dyn_cast<clang::CXXRecordDecl>(base_decl))
        recurse(rd, recurse);""")],
"type-bases-collect": [(E, """  auto maybe_emit_bases = [&](const clang::CXXRecordDecl *decl,
                              auto &&recurse) -> void {
    for (const clang::CXXBaseSpecifier &base : decl->bases()) {
      const clang::TagDecl *base_decl =
          base.getType()->getAsTagDecl()->getDefinition();
      if (base.getAccessSpecifier() != clang::AS_public ||
          inlining_policy.shouldHide(base_decl))
        continue;
      if (inlining_policy.shouldInline(base_decl)) {
        if (const auto *rd = llvm::dyn_cast<clang::CXXRecordDecl>(base_decl))
          recurse(rd, recurse);
      } else if (graph.getNode(base_decl) != nullptr) {
        os << ", " << getFullyQualifiedName(base_decl);
      }
    }
  };
  maybe_emit_bases(record_decl, maybe_emit_bases);
""", """  std::function<void(const clang::CXXRecordDecl *)> maybe_emit_bases =
      [&](const clang::CXXRecordDecl *decl) {
    for (const clang::CXXBaseSpecifier &base : decl->bases()) {
      const clang::TagDecl *base_decl =
          base.getType()->getAsTagDecl()->getDefinition();
      if (base.getAccessSpecifier() != clang::AS_public ||
          inlining_policy.shouldHide(base_decl))
        continue;
      if (inlining_policy.shouldInline(base_decl)) {
        if (const auto *rd = llvm::dyn_cast<clang::CXXRecordDecl>(base_decl))
          maybe_emit_bases(rd);
      } else if (graph.getNode(base_decl) != nullptr) {
        os << ", " << getFullyQualifiedName(base_decl);
      }
    }
  };
  maybe_emit_bases(record_decl);
"""), (E, "#include <iterator>", "#include <functional>\n#include <iterator>")],
"type-holder": [(E, """  if (const auto attrs = annotations.get<RecordDeclAttrs>(record_decl);
      attrs.has_value() && !attrs->holder_type.empty()) {
    os << ", " << attrs->holder_type;
  }

  os << ">";""", """  const std::string holder_type = annotations.lookup<RecordDeclAttrs>(record_decl).holder_type;
  if (!holder_type.empty())
    os << ", " << holder_type;

  os << ">";""")],
"rec-ctor-extract": [(E, """    if (attrs->implicit_conversion) {
      clang::QualType from_qual_type = constructor->getParamDecl(0)->getType();
      clang::QualType to_qual_type = ast_context.getTypeDeclType(record_decl);
      os << "::pybind11::implicitly_convertible<"
         << clang::TypeName::getFullyQualifiedName(from_qual_type, ast_context,
                                                   printing_policy,
                                                   /*WithGlobalNsPrefix=*/true)
         << ", "
         << clang::TypeName::getFullyQualifiedName(to_qual_type, ast_context,
                                                   printing_policy,
                                                   /*WithGlobalNsPrefix=*/true)
         << ">();\\n";
    }
""", """    if (attrs->implicit_conversion) {
      const std::string from = clang::TypeName::getFullyQualifiedName(
          constructor->getParamDecl(0)->getType(), ast_context, printing_policy, true);
      os << "::pybind11::implicitly_convertible<" << from << ", "
         << getFullyQualifiedName(record_decl) << ">();\\n";
    }
""")],
"rec-ctor-cond": [(E, """    if (constructor->isMoveConstructor() || constructor->isDeleted() ||
        record_decl->isAbstract())
      return;
""", """    if (record_decl->isAbstract())
      return;
    if (constructor->isDeleted() || constructor->isMoveConstructor())
      return;
""")],
"rec-op-if": [(E, """    switch (function->getOverloadedOperator()) {
    case clang::OO_None:
    case clang::OO_Call:
      // Regular functions and call operators are not represented as
      // `AnnotatedOperatorDecl`s and are handled by `DeclContextExposer`.
      llvm_unreachable("Handled elsewhere.");
      break;
    case clang::OO_LessLess:
      if (isOstreamOperator(function)) {
        // ostream operators are only exposed when opted in via
        // `expose_as(__str__)` or similar.
        if (const auto attrs = annotations.get<NamedDeclAttrs>(decl);
            attrs.has_value() && !attrs->spelling.empty()) {
          os << "context.def(";
          emitStringLiteral(os, attrs->spelling);
          os << ", ::genpybind::string_from_lshift<"
             << getFullyQualifiedName(record_decl) << ">);\\n";
        }
        return;
      }
      [[gnu::fallthrough]];
    default:
      emitOperator(os, function);
      return;
    }
""", """    const clang::OverloadedOperatorKind kind = function->getOverloadedOperator();
    assert(kind != clang::OO_None && kind != clang::OO_Call);
    if (kind == clang::OO_LessLess && isOstreamOperator(function)) {
      const auto attrs = annotations.lookup<NamedDeclAttrs>(decl);
      if (attrs.spelling.empty())
        return;
      os << "context.def(";
      emitStringLiteral(os, attrs.spelling);
      os << ", ::genpybind::string_from_lshift<"
         << getFullyQualifiedName(record_decl) << ">);\\n";
      return;
    }
    emitOperator(os, function);
    return;
""")],
"rec-op-if2": [(E, """    switch (function->getOverloadedOperator()) {
    case clang::OO_None:
    case clang::OO_Call:
      // Regular functions and call operators are not represented as
      // `AnnotatedOperatorDecl`s and are handled by `DeclContextExposer`.
      llvm_unreachable("Handled elsewhere.");
      break;
    case clang::OO_LessLess:
      if (isOstreamOperator(function)) {""", """    switch (function->getOverloadedOperator()) {
    case clang::OO_None:
    case clang::OO_Call:
      llvm_unreachable("Handled elsewhere.");
    case clang::OO_LessLess:
      if (bool is_ostream = isOstreamOperator(function); is_ostream) {""")],
"rec-props-helper": [(E, """      for (auto const &name : method_attrs->getter_for) {
        const clang::CXXMethodDecl *previous =
            std::exchange(properties[name].getter, method);
        if (previous != nullptr) {
          Diagnostics::report(decl,
                              Diagnostics::Kind::PropertyAlreadyDefinedError)
              << name << 0U;
          Diagnostics::report(previous, clang::diag::note_previous_definition);
        }
      }
      for (auto const &name : method_attrs->setter_for) {
        const clang::CXXMethodDecl *previous =
            std::exchange(properties[name].setter, method);
        if (previous != nullptr) {
          Diagnostics::report(decl,
                              Diagnostics::Kind::PropertyAlreadyDefinedError)
              << name << 1U;
          Diagnostics::report(previous, clang::diag::note_previous_definition);
        }
      }
      return;""", """      auto remember = [&](const std::string &name, const clang::CXXMethodDecl *&slot, unsigned which) {
        const clang::CXXMethodDecl *previous = slot;
        slot = method;
        if (previous == nullptr)
          return;
        Diagnostics::report(decl, Diagnostics::Kind::PropertyAlreadyDefinedError) << name << which;
        Diagnostics::report(previous, clang::diag::note_previous_definition);
      };
      for (auto const &name : method_attrs->getter_for)
        remember(name, properties[name].getter, 0U);
      for (auto const &name : method_attrs->setter_for)
        remember(name, properties[name].setter, 1U);
      return;""")],
"rec-props-member-ptr": [(E, """      for (auto const &name : method_attrs->getter_for) {
        const clang::CXXMethodDecl *previous =
            std::exchange(properties[name].getter, method);
        if (previous != nullptr) {""", """      for (auto const &name : method_attrs->getter_for) {
        Property &property = properties[name];
        const clang::CXXMethodDecl *previous = property.getter;
        property.getter = method;
        if (previous != nullptr) {""")],
"rec-props-guard": [(E, """    const auto *method = llvm::cast<clang::CXXMethodDecl>(decl);
    if (!method_attrs->getter_for.empty() ||
        !method_attrs->setter_for.empty()) {
      for""", """    const auto *method = llvm::cast<clang::CXXMethodDecl>(decl);
    const bool is_property = !method_attrs->getter_for.empty() || !method_attrs->setter_for.empty();
    if (is_property) {
      for""")],
"rec-field": [(E, """    clang::QualType type = llvm::cast<clang::ValueDecl>(decl)->getType();
    bool readonly = type.isConstQualified() || var_attrs->readonly;
    os << (readonly ? "context.def_readonly" : "context.def_readwrite");
    os << (llvm::isa<clang::VarDecl>(decl) ? "_static(" : "(");
""", """    const bool readonly = var_attrs->readonly ||
                          llvm::cast<clang::ValueDecl>(decl)->getType().isConstQualified();
    os << "context.def_" << (readonly ? "readonly" : "readwrite");
    if (llvm::isa<clang::VarDecl>(decl))
      os << "_static";
    os << '(';
""")],
"rec-reorder": [(E, """  // If the method should be turned into a property, remember this for later.
  if (const auto method_attrs""", """  const auto named = annotations.lookup<NamedDeclAttrs>(decl);
  // If the method should be turned into a property, remember this for later.
  if (const auto method_attrs"""), (E, """    os << (llvm::isa<clang::VarDecl>(decl) ? "_static(" : "(");
    emitSpelling(os, decl, annotations.lookup<NamedDeclAttrs>(decl));""", """    os << (llvm::isa<clang::VarDecl>(decl) ? "_static(" : "(");
    emitSpelling(os, decl, named);""")],
"rec-split-methods": [(E, """  if (const auto var_attrs = annotations.get<FieldOrVarDeclAttrs>(decl)) {
    if (var_attrs->manual_bindings != nullptr) {
      assert(!var_attrs->postamble && "postamble only allowed in global scope");
      emitManualBindings(os, ast_context, var_attrs->manual_bindings);
      return;
    }
    clang::QualType type = llvm::cast<clang::ValueDecl>(decl)->getType();
    bool readonly = type.isConstQualified() || var_attrs->readonly;
    os << (readonly ? "context.def_readonly" : "context.def_readwrite");
    os << (llvm::isa<clang::VarDecl>(decl) ? "_static(" : "(");
    emitSpelling(os, decl, annotations.lookup<NamedDeclAttrs>(decl));
    os << ", &::";
    decl->printQualifiedName(os, printing_policy);
    os << ");\\n";
    return;
  }
""", """  if (const auto var_attrs = annotations.get<FieldOrVarDeclAttrs>(decl)) {
    emitMemberVariable(os, decl, *var_attrs, annotations.lookup<NamedDeclAttrs>(decl));
    return;
  }
"""), (E, """void RecordExposer::handleDeclImpl(llvm::raw_ostream &os,""", """static void emitMemberVariable(llvm::raw_ostream &os, const clang::NamedDecl *decl,
                               const FieldOrVarDeclAttrs &var_attrs, const NamedDeclAttrs &named_attrs) {
  const clang::ASTContext &ast_context = decl->getASTContext();
  if (var_attrs.manual_bindings != nullptr) {
    assert(!var_attrs.postamble && "postamble only allowed in global scope");
    emitManualBindings(os, ast_context, var_attrs.manual_bindings);
    return;
  }
  clang::QualType type = llvm::cast<clang::ValueDecl>(decl)->getType();
  bool readonly = type.isConstQualified() || var_attrs.readonly;
  os << (readonly ? "context.def_readonly" : "context.def_readwrite");
  os << (llvm::isa<clang::VarDecl>(decl) ? "_static(" : "(");
  emitSpelling(os, decl, named_attrs);
  os << ", &::";
  decl->printQualifiedName(os, getPrintingPolicyForExposedNames(ast_context));
  os << ");\\n";
}

void RecordExposer::handleDeclImpl(llvm::raw_ostream &os,""")],
"post-extract": [(E, """  { // Emit 'postamble' manual bindings.
    const clang::DeclContext *decl_context = graph.getRoot()->getDeclContext();
    for (clang::DeclContext::specific_decl_iterator<clang::VarDecl>
             it(decl_context->decls_begin()),
         end_it(decl_context->decls_end());
         it != end_it; ++it) {
      const auto attrs = annotations.lookup<FieldOrVarDeclAttrs>(*it);
      if (!attrs.postamble || attrs.manual_bindings == nullptr)
        continue;
      const clang::ASTContext &ast_context = it->getASTContext();
      main_stream << "\\n";
      emitManualBindings(main_stream, ast_context, attrs.manual_bindings);
    }
  }
""", """  emitPostamble(main_stream, graph, annotations);
"""), (E, """void TranslationUnitExposer::emitModule(""", """static void emitPostamble(llvm::raw_ostream &os, const DeclContextGraph &graph,
                          const AnnotationStorage &annotations) {
  const clang::DeclContext *decl_context = graph.getRoot()->getDeclContext();
  for (clang::DeclContext::specific_decl_iterator<clang::VarDecl>
           it(decl_context->decls_begin()),
       end_it(decl_context->decls_end());
       it != end_it; ++it) {
    const auto attrs = annotations.lookup<FieldOrVarDeclAttrs>(*it);
    if (attrs.postamble && attrs.manual_bindings != nullptr) {
      os << "\\n";
      emitManualBindings(os, it->getASTContext(), attrs.manual_bindings);
    }
  }
}

void TranslationUnitExposer::emitModule(""")],
"post-decls": [(E, """    for (clang::DeclContext::specific_decl_iterator<clang::VarDecl>
             it(decl_context->decls_begin()),
         end_it(decl_context->decls_end());
         it != end_it; ++it) {
      const auto attrs = annotations.lookup<FieldOrVarDeclAttrs>(*it);
      if (!attrs.postamble || attrs.manual_bindings == nullptr)
        continue;
      const clang::ASTContext &ast_context = it->getASTContext();""", """    for (const clang::Decl *decl : decl_context->decls()) {
      const auto *var = llvm::dyn_cast<clang::VarDecl>(decl);
      if (var == nullptr)
        continue;
      const auto attrs = annotations.lookup<FieldOrVarDeclAttrs>(var);
      if (!attrs.postamble || attrs.manual_bindings == nullptr)
        continue;
      const clang::ASTContext &ast_context = var->getASTContext();""")],
"module-name-helper": [(E, """      llvm::SmallString<128> name("context");
      if (auto const *type_decl =
              llvm::dyn_cast<clang::TypeDecl>(decl_context)) {
        name += getFullyQualifiedName(type_decl);
      } else if (auto const *ns_decl =
                     llvm::dyn_cast<clang::NamedDecl>(decl_context)) {
        name.push_back('_');
        name += ns_decl->getQualifiedNameAsString();
      }
      makeValidIdentifier(name);
""", """      llvm::SmallString<128> name = identifierForContext(decl_context);
"""), (E, """void TranslationUnitExposer::emitModule(""", """static llvm::SmallString<128> identifierForContext(const clang::DeclContext *decl_context) {
  llvm::SmallString<128> name("context");
  if (auto const *type_decl =
          llvm::dyn_cast<clang::TypeDecl>(decl_context)) {
    name += getFullyQualifiedName(type_decl);
  } else if (auto const *ns_decl =
                 llvm::dyn_cast<clang::NamedDecl>(decl_context)) {
    name.push_back('_');
    name += ns_decl->getQualifiedNameAsString();
  }
  makeValidIdentifier(name);
  return name;
}

void TranslationUnitExposer::emitModule(""")],
"module-name-append": [(E, """        name.push_back('_');
        name += ns_decl->getQualifiedNameAsString();""", """        name += "_" + ns_decl->getQualifiedNameAsString();""")],
"module-stream-index": [(E, """  unsigned index = 0;
  for (const auto &item : worklist) {
    // Distribute chunks of consecutive exposers to the different streams.
    llvm::raw_ostream &os =
        *ostreams[index++ * ostreams.size() / worklist.size()];""", """  for (std::size_t index = 0; index < worklist.size(); ++index) {
    const auto &item = worklist[index];
    // Distribute chunks of consecutive exposers to the different streams.
    const std::size_t stream_index = index * ostreams.size() / worklist.size();
    llvm::raw_ostream &os = *ostreams[stream_index];""")],
"module-handle-loop": [(E, """      if (const auto *tpl =
              llvm::dyn_cast<clang::FunctionTemplateDecl>(proposed_decl)) {
        llvm::for_each(tpl->specializations(), handle_decl);
      } else {
        handle_decl(proposed_decl);
      }
    }

    item""", """      const auto *tpl = llvm::dyn_cast<clang::FunctionTemplateDecl>(proposed_decl);
      if (tpl == nullptr) {
        handle_decl(proposed_decl);
        continue;
      }
      for (const clang::FunctionDecl *specialization : tpl->specializations())
        handle_decl(specialization);
    }

    item""")],
"module-decls-insert": [(E, """      std::vector<const clang::NamedDecl *> associated_decls =
          collectOperatorDeclsViaArgumentDependentLookup(sema, record);
      llvm::copy(associated_decls, std::back_inserter(decls));""", """      const auto associated_decls =
          collectOperatorDeclsViaArgumentDependentLookup(sema, record);
      decls.insert(decls.end(), associated_decls.begin(), associated_decls.end());""")],
"module-decls-append": [(E, """      std::vector<const clang::NamedDecl *> associated_decls =
          collectOperatorDeclsViaArgumentDependentLookup(sema, record);
      llvm::copy(associated_decls, std::back_inserter(decls));""", """      for (const clang::NamedDecl *associated :
           collectOperatorDeclsViaArgumentDependentLookup(sema, record))
        decls.push_back(associated);""")],
"module-split": [(E, """  // Emit declarations for `expose_` functions
  for (const auto &item : worklist) {
    emit_expose_declarator(main_stream, item);
    main_stream << ";\\n";
  }

  main_stream << '\\n';
""", """  auto emit_declaration = [&](llvm::raw_ostream &os, const WorklistItem &item) {
    emit_expose_declarator(os, item);
    os << ";\\n";
  };

  // Emit declarations for `expose_` functions
  for (const WorklistItem &item : worklist)
    emit_declaration(main_stream, item);

  main_stream << "\\n";
"""), (E, """    if (&os != &main_stream) {
      emit_expose_declarator(os, item);
      os << ";\\n";
    }
    emit_expose_declarator(os, item);""", """    if (std::addressof(os) != std::addressof(main_stream))
      emit_declaration(os, item);
    emit_expose_declarator(os, item);""")],
"adl-hastype-helper": [(E, """  auto has_type_of_record = [&](const clang::ParmVarDecl *param) -> bool {
    clang::QualType param_type = param->getType();
    if (param_type->isReferenceType())
      param_type = param_type->getPointeeType();
    return ast_context.hasSameUnqualifiedType(param_type, record_type);
  };
  auto handle_decl = [&](clang::NamedDecl *decl) {
    const auto *function = llvm::cast<clang::FunctionDecl>(decl);
    if (llvm::any_of(function->parameters(), has_type_of_record))
      result.push_back(decl);
  };
""", """  auto handle_decl = [&](clang::NamedDecl *decl) {
    const auto *function = llvm::cast<clang::FunctionDecl>(decl);
    for (const clang::ParmVarDecl *param : function->parameters()) {
      clang::QualType param_type = param->getType();
      if (param_type->isReferenceType())
        param_type = param_type->getPointeeType();
      if (ast_context.hasSameUnqualifiedType(param_type, record_type)) {
        result.push_back(decl);
        break;
      }
    }
  };
""")],
"adl-array": [(E, """  for (clang::OverloadedOperatorKind op_kind : {
           clang::OO_Plus,""", """  static constexpr clang::OverloadedOperatorKind operator_kinds[] = {
           clang::OO_Plus,"""), (E, """           clang::OO_Spaceship,
       }) {""", """           clang::OO_Spaceship,
  };
  for (clang::OverloadedOperatorKind op_kind : operator_kinds) {""")],
"emit-literal-chain": [(E, """  os << '"';
  os.write_escaped(text);
  os << '"';""", """  os << "\\"";
  os.write_escaped(text) << "\\"";""")],
"policy-ternary": [(E, """  if (!attrs.return_value_policy.empty())
    os << ", pybind11::return_value_policy::" << attrs.return_value_policy;
  for (const auto &item : attrs.keep_alive) {
    os << ", pybind11::keep_alive<" << item.first << ", " << item.second
       << ">()";
  }""", """  const std::string &policy = attrs.return_value_policy;
  if (policy.size() != 0) {
    os << ", pybind11::return_value_policy::";
    os << policy;
  }
  for (const auto &[nurse, patient] : attrs.keep_alive)
    os << ", pybind11::keep_alive<" << nurse << ", " << patient << ">()";""")],
"fnptr-split": [(E, """  if (const clang::TemplateArgumentList *args =
          function->getTemplateSpecializationArgs()) {
    clang::printTemplateArgumentList(os, args->asArray(), policy);
  }
  if (function->getType()->castAs<clang::FunctionType>()->isConst())
    os << ", ::pybind11::const_";
  os << ")";""", """  const clang::TemplateArgumentList *args = function->getTemplateSpecializationArgs();
  if (args != nullptr)
    clang::printTemplateArgumentList(os, args->asArray(), policy);
  const auto *function_type = function->getType()->castAs<clang::FunctionType>();
  os << (function_type->isConst() ? ", ::pybind11::const_)" : ")");""")],
}
