E = "src/expose.cpp"
EDITS = {
"noop": [(E, "  const EnclosingScopeMap parents = findEnclosingScopes(graph, annotations);", "  (void)0;\n  do { } while (false);\n  if (false) { }\n  int unused_local = 3; (void)unused_local;\n  const EnclosingScopeMap parents = findEnclosingScopes(graph, annotations);"),
   (E, "  os << \"(void)context;\\n\";", "  for (;false;) {}\n  static_cast<void>(0);\n  os << \"(void)context;\\n\";\n  ;")],
"spelling-ifs": [(E, """  emitStringLiteral(
      os, !attrs.spelling.empty()
              ? attrs.spelling
              : (!fallback.empty() ? fallback.str() : getSpelling(decl)));""",
"""  if (!attrs.spelling.empty()) {
    emitStringLiteral(os, attrs.spelling);
    return;
  }
  if (fallback.empty())
    emitStringLiteral(os, getSpelling(decl));
  else
    emitStringLiteral(os, fallback);""")],
"spelling-var": [(E, """  emitStringLiteral(
      os, !attrs.spelling.empty()
              ? attrs.spelling
              : (!fallback.empty() ? fallback.str() : getSpelling(decl)));""",
"""  std::string text = attrs.spelling;
  if (text.empty())
    text = fallback.str();
  if (text.empty())
    text = getSpelling(decl);
  emitStringLiteral(os, text);""")],
"paramtypes-index": [(E, """  bool comma = false;
  for (const clang::ParmVarDecl *param : function->parameters()) {
    if (comma)
      os << ", ";
    os << clang::TypeName::getFullyQualifiedName(param->getOriginalType(),
                                                 context, policy,
                                                 /*WithGlobalNsPrefix=*/true);
    comma = true;
  }""", """  for (unsigned i = 0, n = function->getNumParams(); i != n; ++i) {
    const clang::ParmVarDecl *param = function->getParamDecl(i);
    if (i != 0)
      os << ", ";
    os << clang::TypeName::getFullyQualifiedName(param->getOriginalType(),
                                                 context, policy,
                                                 /*WithGlobalNsPrefix=*/true);
  }""")],
"paramtypes-interleave": [(E, """  bool comma = false;
  for (const clang::ParmVarDecl *param : function->parameters()) {
    if (comma)
      os << ", ";
    os << clang::TypeName::getFullyQualifiedName(param->getOriginalType(),
                                                 context, policy,
                                                 /*WithGlobalNsPrefix=*/true);
    comma = true;
  }""", """  llvm::interleaveComma(function->parameters(), os, [&](const clang::ParmVarDecl *param) {
    os << clang::TypeName::getFullyQualifiedName(param->getOriginalType(),
                                                 context, policy,
                                                 /*WithGlobalNsPrefix=*/true);
  });""")],
"paramtypes-sep": [(E, """  bool comma = false;
  for (const clang::ParmVarDecl *param : function->parameters()) {
    if (comma)
      os << ", ";
    os << clang::TypeName::getFullyQualifiedName(param->getOriginalType(),
                                                 context, policy,
                                                 /*WithGlobalNsPrefix=*/true);
    comma = true;
  }""", """  const char *separator = "";
  for (const clang::ParmVarDecl *param : function->parameters()) {
    os << separator;
    separator = ", ";
    const clang::QualType type = param->getOriginalType();
    os << clang::TypeName::getFullyQualifiedName(type, context, policy, true);
  }""")],
"paramtypes-listsep": [(E, """  bool comma = false;
  for (const clang::ParmVarDecl *param : function->parameters()) {
    if (comma)
      os << ", ";
    os << clang::TypeName::getFullyQualifiedName(param->getOriginalType(),
                                                 context, policy,
                                                 /*WithGlobalNsPrefix=*/true);
    comma = true;
  }""", """  llvm::ListSeparator separator;
  for (const clang::ParmVarDecl *param : function->parameters()) {
    os << separator;
    os << clang::TypeName::getFullyQualifiedName(param->getOriginalType(),
                                                 context, policy,
                                                 /*WithGlobalNsPrefix=*/true);
  }""")],
"params-helper": [(E, "static void emitParameters(llvm::raw_ostream &os,", """static void emitParameterAnnotations(llvm::raw_ostream &os, const FunctionDeclAttrs &attrs, unsigned index) {
  if (attrs.noconvert.count(index) != 0)
    os << ".noconvert()";
  if (attrs.required.count(index) != 0)
    os << ".none(false)";
}

static void emitParameters(llvm::raw_ostream &os,"""), (E, """    const unsigned index = param->getFunctionScopeIndex();
    if (attrs.noconvert.count(index) != 0)
      os << ".noconvert()";
    if (attrs.required.count(index) != 0)
      os << ".none(false)";
""", """    emitParameterAnnotations(os, attrs, param->getFunctionScopeIndex());
""")],
"params-continue": [(E, """    if (llvm::StringRef kind = getPybind11ArgsType(param->getType());
        kind == "kwargs") {
      last_kwargs_param = param;
      continue;
    } else if (!kind.empty()) {
      continue;
    }
""", """    const llvm::StringRef kind = getPybind11ArgsType(param->getType());
    if (!kind.empty()) {
      if (kind == "kwargs")
        last_kwargs_param = param;
      continue;
    }
""")],
"params-contains": [(E, "attrs.noconvert.count(index) != 0", "attrs.noconvert.contains(index)"), (E, "attrs.required.count(index) != 0", "attrs.required.count(index)")],
"params-index": [(E, """  for (const clang::ParmVarDecl *param : function->parameters()) {
    // `arg()` should""", """  for (unsigned i = 0; i < function->getNumParams(); ++i) {
    const clang::ParmVarDecl *param = function->getParamDecl(i);
    // `arg()` should""")],
"params-iter": [(E, """  for (const clang::ParmVarDecl *param : function->parameters()) {
    // `arg()` should""", """  for (auto it = function->param_begin(), end = function->param_end(); it != end; ++it) {
    const clang::ParmVarDecl *param = *it;
    // `arg()` should""")],
"params-return": [(E, """                          Diagnostics::Kind::TrailingParametersError);
      break;""", """                          Diagnostics::Kind::TrailingParametersError);
      return;""")],
"policies": [(E, """  for (const auto &item : attrs.keep_alive) {
    os << ", pybind11::keep_alive<" << item.first << ", " << item.second
       << ">()";
  }""", """  for (const auto &[nurse, patient] : attrs.keep_alive)
    os << ", pybind11::keep_alive<" << nurse << ", " << patient << ">()";""")],
"policies2": [(E, """  for (const auto &item : attrs.keep_alive) {
    os << ", pybind11::keep_alive<" << item.first << ", " << item.second
       << ">()";
  }""", """  for (std::size_t i = 0; i < attrs.keep_alive.size(); ++i) {
    const auto &item = attrs.keep_alive[i];
    os << ", pybind11::keep_alive<";
    os << item.first;
    os << ", ";
    os << item.second;
    os << ">()";
  }"""), (E, """  if (!attrs.return_value_policy.empty())
    os << ", pybind11::return_value_policy::" << attrs.return_value_policy;
""", """  const auto &policy = attrs.return_value_policy;
  if (policy.size() != 0) {
    os << ", pybind11::return_value_policy::";
    os << policy;
  }
""")],
"policies3": [(E, """  for (const auto &item : attrs.keep_alive) {
    os << ", pybind11::keep_alive<" << item.first << ", " << item.second
       << ">()";
  }""", """  llvm::for_each(attrs.keep_alive, [&os](const auto &item) {
    os << ", pybind11::keep_alive<" << item.first << ", " << item.second
       << ">()";
  });"""), (E, "static void emitPolicies(llvm::raw_ostream &os,\n", "static void emitCallPolicies(llvm::raw_ostream &os,\n"), (E, "emitPolicies(os, *fn_attrs);", "emitCallPolicies(os, *fn_attrs);"), (E, "emitPolicies(os, fn_attrs);", "emitCallPolicies(os, fn_attrs);")],
"fnptr": [(E, """  if (const clang::TemplateArgumentList *args =
          function->getTemplateSpecializationArgs()) {
    clang::printTemplateArgumentList(os, args->asArray(), policy);
  }
  if (function->getType()->castAs<clang::FunctionType>()->isConst())
    os << ", ::pybind11::const_";""", """  const clang::TemplateArgumentList *args =
          function->getTemplateSpecializationArgs();
  if (args != nullptr)
    clang::printTemplateArgumentList(os, args->asArray(), policy);
  const bool is_const = function->getType()->castAs<clang::FunctionType>()->isConst();
  os << (is_const ? ", ::pybind11::const_" : "");""")],
"manual": [(E, """  bool needs_context = param->isUsed() || param->isReferenced();
  if (needs_context)
    os << "[](auto &" << param->getName() << ") ";
""", """  bool needs_context = false;
  if (param->isUsed())
    needs_context = true;
  else if (param->isReferenced())
    needs_context = true;
  if (needs_context)
    os << "[](auto &" << param->getName() << ") ";
""")],
"adl-loop": [(E, """    if (llvm::any_of(function->parameters(), has_type_of_record))
      result.push_back(decl);
""", """    for (const clang::ParmVarDecl *param : function->parameters()) {
      if (has_type_of_record(param)) {
        result.push_back(decl);
        break;
      }
    }
"""), (E, """      llvm::for_each(tpl->specializations(), handle_decl);
    } else {
      handle_decl(decl);
    }
  }

  return result;""", """      for (clang::FunctionDecl *specialization : tpl->specializations())
        handle_decl(specialization);
      continue;
    }
    handle_decl(decl);
  }

  return result;""")],
"opname-if": [(E, """  switch (kind) {
  case clang::OO_Plus:
    return "__pos__";
  case clang::OO_Minus:
    return "__neg__";
  case clang::OO_Tilde:
    return "__invert__";
  default:
    return {};
  }
""", """  if (kind == clang::OO_Plus)
    return "__pos__";
  if (kind == clang::OO_Tilde)
    return "__invert__";
  return kind == clang::OO_Minus ? llvm::StringRef("__neg__") : llvm::StringRef();
""")],
"ostream": [(E, """  if (llvm::isa<clang::CXXMethodDecl>(function) ||
      function->getOverloadedOperator() != clang::OO_LessLess)
    return false;
  assert(function->getNumParams() >= 1);
  if (const clang::CXXRecordDecl *record =
          function->getParamDecl(0)->getType()->getPointeeCXXRecordDecl()) {
    const clang::IdentifierInfo *identifier = record->getIdentifier();
    if (identifier == nullptr || !identifier->isStr("basic_ostream"))
      return false;
    clang::ast_matchers::internal::HasNameMatcher matcher(
        {"::std::basic_ostream"});
    return matcher.matchesNode(*record);
  }
  return false;""", """  if (function->getOverloadedOperator() != clang::OO_LessLess)
    return false;
  if (llvm::isa<clang::CXXMethodDecl>(function))
    return false;
  const clang::CXXRecordDecl *record =
          function->getParamDecl(0)->getType()->getPointeeCXXRecordDecl();
  if (record == nullptr)
    return false;
  const clang::IdentifierInfo *identifier = record->getIdentifier();
  if (!identifier || !identifier->isStr("basic_ostream"))
    return false;
  clang::ast_matchers::internal::HasNameMatcher matcher(
        {"::std::basic_ostream"});
  return matcher.matchesNode(*record);""")],
"discr-while": [(E, """    std::string result{name};
    // A discriminated identifier may coincide with one that is already in use
    // (e.g. for `a::b`, `a_b` and `a_b_2`).
    for (unsigned discriminator = 2; !used_identifiers.insert(result).second;
         ++discriminator)
      result = (name + "_" + llvm::utostr(discriminator)).str();
    return result;""", """    std::string result = name.str();
    unsigned discriminator = 2;
    while (!used_identifiers.insert(result).second) {
      result = (name + "_" + llvm::utostr(discriminator)).str();
      ++discriminator;
    }
    return result;""")],
"emitmodule-helpers": [(E, """  auto emit_expose_declarator = [](llvm::raw_ostream &os,
                                   const WorklistItem &item) {
    os << "void expose_" << item.identifier << "(";
    item.exposer->emitParameter(os);
    os << ")";
  };
""", """  auto emit_expose_declarator = [](llvm::raw_ostream &stream,
                                   const WorklistItem &entry) -> void {
    stream << "void expose_";
    stream << entry.identifier;
    stream << '(';
    entry.exposer->emitParameter(stream);
    stream << ')';
  };
"""), (E, """  // Emit calls to `expose_` functions
  for (const auto &item : worklist) {
    main_stream << "expose_" << item.identifier << "(" << item.identifier
                << ");\\n";
  }
""", """  // Emit calls to `expose_` functions
  for (std::size_t i = 0; i < worklist.size(); ++i)
    main_stream << "expose_" << worklist[i].identifier << "(" << worklist[i].identifier
                << ");\\n";
""")],
"emitmodule-ident": [(E, """      llvm::SmallString<128> name("context");
      if (auto const *type_decl =
              llvm::dyn_cast<clang::TypeDecl>(decl_context)) {
        name += getFullyQualifiedName(type_decl);
      } else if (auto const *ns_decl =
                     llvm::dyn_cast<clang::NamedDecl>(decl_context)) {
        name.push_back('_');
        name += ns_decl->getQualifiedNameAsString();
      }
      makeValidIdentifier(name);
""", """      const llvm::SmallString<128> name = getContextName(decl_context);
"""), (E, "void TranslationUnitExposer::emitModule(\n", """static llvm::SmallString<128> getContextName(const clang::DeclContext *decl_context) {
  llvm::SmallString<128> name("context");
  if (auto const *type_decl = llvm::dyn_cast<clang::TypeDecl>(decl_context)) {
    name += getFullyQualifiedName(type_decl);
  } else if (auto const *ns_decl = llvm::dyn_cast<clang::NamedDecl>(decl_context)) {
    name += '_';
    name += ns_decl->getQualifiedNameAsString();
  }
  makeValidIdentifier(name);
  return name;
}

void TranslationUnitExposer::emitModule(
""")],
"emitmodule-vis": [(E, """    bool default_visibility = [&] {
      auto it = visibilities.find(item.decl_context);
      return it != visibilities.end() ? it->getSecond() : false;
    }();
""", """    const bool default_visibility = visibilities.lookup(item.decl_context);
""")],
"emitmodule-vis2": [(E, """    bool default_visibility = [&] {
      auto it = visibilities.find(item.decl_context);
      return it != visibilities.end() ? it->getSecond() : false;
    }();
""", """    bool default_visibility = false;
    if (auto it = visibilities.find(item.decl_context); it != visibilities.end())
      default_visibility = it->second;
""")],
"emitmodule-insert": [(E, """      llvm::copy(associated_decls, std::back_inserter(decls));
""", """      decls.insert(decls.end(), associated_decls.begin(), associated_decls.end());
""")],
"emitmodule-insert2": [(E, """      llvm::copy(associated_decls, std::back_inserter(decls));
""", """      for (const clang::NamedDecl *associated_decl : associated_decls)
        decls.push_back(associated_decl);
"""), (E, """        llvm::for_each(tpl->specializations(), handle_decl);
      } else {
        handle_decl(proposed_decl);
      }
    }
""", """        for (const clang::FunctionDecl *specialization : tpl->specializations())
          handle_decl(specialization);
        continue;
      }
      handle_decl(proposed_decl);
    }
""")],
"emitmodule-index": [(E, """  unsigned index = 0;
  for (const auto &item : worklist) {
    // Distribute chunks of consecutive exposers to the different streams.
    llvm::raw_ostream &os =
        *ostreams[index++ * ostreams.size() / worklist.size()];
""", """  for (std::size_t index = 0; index < worklist.size(); ++index) {
    const WorklistItem &item = worklist[index];
    // Distribute chunks of consecutive exposers to the different streams.
    llvm::raw_ostream &os =
        *ostreams[index * ostreams.size() / worklist.size()];
""")],
"emitmodule-enumerate": [(E, """  unsigned index = 0;
  for (const auto &item : worklist) {
    // Distribute chunks of consecutive exposers to the different streams.
    llvm::raw_ostream &os =
        *ostreams[index++ * ostreams.size() / worklist.size()];
""", """  unsigned index = 0;
  for (const auto &item : worklist) {
    const std::size_t stream_index = index * ostreams.size() / worklist.size();
    ++index;
    llvm::raw_ostream &os = *ostreams[stream_index];
""")],
"emitmodule-extract": [(E, """  { // Emit 'postamble' manual bindings.
    const clang::DeclContext *decl_context = graph.getRoot()->getDeclContext();
    for (clang::DeclContext::specific_decl_iterator<clang::VarDecl>
             it(decl_context->decls_begin()),
         end_it(decl_context->decls_end());
         it != end_it; ++it) {
      const auto attrs = annotations.lookup<FieldOrVarDeclAttrs>(*it);
      if (!attrs.postamble || attrs.manual_bindings == nullptr)
        continue;
      const clang::ASTContext &ast_context = it->getASTContext();
      main_stream << "\\n";
      emitManualBindings(main_stream, ast_context, attrs.manual_bindings);
    }
  }
""", """  emitPostamble(main_stream, graph, annotations);
"""), (E, "void TranslationUnitExposer::emitModule(\n", """static void emitPostamble(llvm::raw_ostream &os, const DeclContextGraph &graph, const AnnotationStorage &annotations) {
    const clang::DeclContext *decl_context = graph.getRoot()->getDeclContext();
    for (clang::DeclContext::specific_decl_iterator<clang::VarDecl>
             it(decl_context->decls_begin()),
         end_it(decl_context->decls_end());
         it != end_it; ++it) {
      const auto attrs = annotations.lookup<FieldOrVarDeclAttrs>(*it);
      if (attrs.postamble && attrs.manual_bindings != nullptr) {
        os << "\\n";
        emitManualBindings(os, it->getASTContext(), attrs.manual_bindings);
      }
    }
}

void TranslationUnitExposer::emitModule(
""")],
"emitmodule-decls-extract": [(E, """    std::vector<const clang::NamedDecl *> decls =
        collectVisibleDeclsFromDeclContext(sema, item.decl_context,
                                           item.exposer->inliningPolicy());
    llvm::sort(decls, IsBeforeInTranslationUnit(sema.getSourceManager()));

    // Inject operators from a record's associated namespace (found via ADL),
    // as these need to be exposed as methods of the record.  Only user-defined
    // operators that can be called without conversions are considered.
    if (const auto *record =
            llvm::dyn_cast<clang::CXXRecordDecl>(item.decl_context)) {
      std::vector<const clang::NamedDecl *> associated_decls =
          collectOperatorDeclsViaArgumentDependentLookup(sema, record);
      llvm::copy(associated_decls, std::back_inserter(decls));
    }

    for (const clang::NamedDecl *proposed_decl : decls) {""", """    for (const clang::NamedDecl *proposed_decl : collectDeclsToExpose(sema, item.decl_context, *item.exposer)) {"""),
 (E, "void TranslationUnitExposer::emitModule(\n", """static std::vector<const clang::NamedDecl *> collectDeclsToExpose(clang::Sema &sema, const clang::DeclContext *decl_context, const DeclContextExposer &exposer) {
    std::vector<const clang::NamedDecl *> decls =
        collectVisibleDeclsFromDeclContext(sema, decl_context, exposer.inliningPolicy());
    llvm::sort(decls, IsBeforeInTranslationUnit(sema.getSourceManager()));
    if (const auto *record = llvm::dyn_cast<clang::CXXRecordDecl>(decl_context)) {
      std::vector<const clang::NamedDecl *> associated_decls =
          collectOperatorDeclsViaArgumentDependentLookup(sema, record);
      llvm::copy(associated_decls, std::back_inserter(decls));
    }
    return decls;
}

void TranslationUnitExposer::emitModule(
""")],
}
