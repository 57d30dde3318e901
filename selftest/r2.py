A = "src/annotated_decl.cpp"
H = "include/genpybind/annotated_decl.h"
EDITS = {
"has-loop": [(A, """  return llvm::any_of(
      decl->specific_attrs<clang::AnnotateAttr>(), [&](const auto *attr) {
        llvm::StringRef annotation_text = attr->getAnnotation();
        if (!annotation_text.starts_with(k_lozenge))
          return false;
        if (allow_empty)
          return true;
        return !annotation_text.drop_front(k_lozenge.size()).ltrim().empty();
      });""", """  for (const auto *attr : decl->specific_attrs<clang::AnnotateAttr>()) {
    llvm::StringRef annotation_text = attr->getAnnotation();
    if (!annotation_text.starts_with(k_lozenge))
      continue;
    if (allow_empty || !annotation_text.drop_front(k_lozenge.size()).ltrim().empty())
      return true;
  }
  return false;""")],
"has-consume": [(A, """        if (!annotation_text.starts_with(k_lozenge))
          return false;
        if (allow_empty)
          return true;
        return !annotation_text.drop_front(k_lozenge.size()).ltrim().empty();
""", """        if (!annotation_text.consume_front(k_lozenge))
          return false;
        return allow_empty || !annotation_text.ltrim().empty();
""")],
"has-helper": [(A, """bool genpybind::hasAnnotations(const clang::Decl *decl, bool allow_empty) {
  return llvm::any_of(
      decl->specific_attrs<clang::AnnotateAttr>(), [&](const auto *attr) {
        llvm::StringRef annotation_text = attr->getAnnotation();
        if (!annotation_text.starts_with(k_lozenge))
          return false;
        if (allow_empty)
          return true;
        return !annotation_text.drop_front(k_lozenge.size()).ltrim().empty();
      });
""", """static bool isRelevant(llvm::StringRef annotation_text, bool allow_empty) {
  if (!annotation_text.starts_with(k_lozenge))
    return false;
  const bool is_empty =
      annotation_text.drop_front(k_lozenge.size()).ltrim().empty();
  return allow_empty ? true : !is_empty;
}

bool genpybind::hasAnnotations(const clang::Decl *decl, bool allow_empty) {
  auto attrs = decl->specific_attrs<clang::AnnotateAttr>();
  return llvm::any_of(attrs, [allow_empty](const clang::AnnotateAttr *attr) {
    return isRelevant(attr->getAnnotation(), allow_empty);
  });
""")],
"parse-if": [(A, """    if (!annotation_text.consume_front(k_lozenge))
      continue;
    handleAllErrors(Parser::parseAnnotations(annotation_text, annotations),
                    [attr, decl](const Parser::Error &error) {
                      clang::ASTContext &context = decl->getASTContext();
                      const clang::SourceLocation loc =
                          context.getSourceManager().getExpansionLoc(
                              attr->getLocation());
                      error.report(loc, context.getDiagnostics());
                    });
""", """    if (annotation_text.consume_front(k_lozenge)) {
      llvm::Error result = Parser::parseAnnotations(annotation_text, annotations);
      handleAllErrors(std::move(result), [&](const Parser::Error &error) {
        clang::ASTContext &context = decl->getASTContext();
        const clang::SourceManager &source_manager = context.getSourceManager();
        error.report(source_manager.getExpansionLoc(attr->getLocation()),
                     context.getDiagnostics());
      });
    }
""")],
"parse-helper": [(A, """    handleAllErrors(Parser::parseAnnotations(annotation_text, annotations),
                    [attr, decl](const Parser::Error &error) {
                      clang::ASTContext &context = decl->getASTContext();
                      const clang::SourceLocation loc =
                          context.getSourceManager().getExpansionLoc(
                              attr->getLocation());
                      error.report(loc, context.getDiagnostics());
                    });
""", """    handleAllErrors(Parser::parseAnnotations(annotation_text, annotations),
                    [attr, decl](const Parser::Error &error) {
                      reportParserError(decl, attr, error);
                    });
"""), (A, "static Parser::Annotations parseAnnotations(", """static void reportParserError(const clang::Decl *decl,
                              const clang::AnnotateAttr *attr,
                              const Parser::Error &error) {
  clang::ASTContext &context = decl->getASTContext();
  const clang::SourceLocation loc =
      context.getSourceManager().getExpansionLoc(attr->getLocation());
  error.report(loc, context.getDiagnostics());
}

static Parser::Annotations parseAnnotations(""")],
"friendly-table": [(A, """  if (NamespaceDeclAttrs::supports(decl))
    return "namespace";
  if (EnumDeclAttrs::supports(decl))
    return "enum";
  if (RecordDeclAttrs::supports(decl))
    return "class";
""", """  if (RecordDeclAttrs::supports(decl))
    return "class";
  if (EnumDeclAttrs::supports(decl))
    return "enum";
  if (NamespaceDeclAttrs::supports(decl))
    return "namespace";
""")],
"friendly-else": [(A, """  if (MethodDeclAttrs::supports(decl))
    return "method";
  if (ConstructorDeclAttrs::supports(decl))
    return "constructor";
  if (FunctionDeclAttrs::supports(decl))
    return "free function";
  assert(NamedDeclAttrs::supports(decl));
  return "named declaration";
""", """  if (FunctionDeclAttrs::supports(decl)) {
    if (ConstructorDeclAttrs::supports(decl))
      return "constructor";
    return MethodDeclAttrs::supports(decl) ? "method" : "free function";
  }
  assert(NamedDeclAttrs::supports(decl));
  return "named declaration";
""")],
"report-generic": [(A, """  Diagnostics::report(decl, Diagnostics::Kind::AnnotationWrongArgumentTypeError)
      << toString(kind) << toString(value);
""", """  auto builder = Diagnostics::report(
      decl, Diagnostics::Kind::AnnotationWrongArgumentTypeError);
  builder << toString(kind);
  builder << toString(value);
""")],
"checkargs-loop": [(A, """    auto it = llvm::find_if_not(
        arguments, [&](const LiteralValue &value) { return value.isa(kind); });
    if (it != arguments.end()) {
      last_kind_mismatch = &*it;
      return false;
    }
    return true;
""", """    for (const LiteralValue &value : arguments) {
      if (!value.isa(kind)) {
        last_kind_mismatch = &value;
        return false;
      }
    }
    return true;
""")],
"checkargs-inverted": [(A, """    auto it = llvm::find_if_not(
        arguments, [&](const LiteralValue &value) { return value.isa(kind); });
    if (it != arguments.end()) {
      last_kind_mismatch = &*it;
      return false;
    }
    return true;
""", """    const auto *it = llvm::find_if(
        arguments, [kind](const LiteralValue &value) { return !value.isa(kind); });
    if (it == arguments.end())
      return true;
    last_kind_mismatch = it;
    return false;
""")],
"checkmatch-early": [(A, """    if (state == State::Unmatched) {
      if (last_kind_mismatch != nullptr) {
        reportWrongArgumentTypeError(decl, annotation_kind,
                                     *last_kind_mismatch);
      } else {
        reportWrongNumberOfArgumentsError(decl, annotation_kind);
      }
    }
    return state == State::Matched;
""", """    if (state == State::Matched)
      return true;
    if (state == State::Invalid)
      return false;
    if (!last_kind_mismatch)
      reportWrongNumberOfArgumentsError(decl, annotation_kind);
    else
      reportWrongArgumentTypeError(decl, annotation_kind, *last_kind_mismatch);
    return false;
""")],
"checkmatch-switch": [(A, """    if (state == State::Unmatched) {
      if (last_kind_mismatch != nullptr) {
        reportWrongArgumentTypeError(decl, annotation_kind,
                                     *last_kind_mismatch);
      } else {
        reportWrongNumberOfArgumentsError(decl, annotation_kind);
      }
    }
    return state == State::Matched;
""", """    switch (state) {
    case State::Matched:
      return true;
    case State::Invalid:
      break;
    case State::Unmatched:
      if (last_kind_mismatch == nullptr) {
        reportWrongNumberOfArgumentsError(decl, annotation_kind);
        break;
      }
      reportWrongArgumentTypeError(decl, annotation_kind, *last_kind_mismatch);
      break;
    }
    return false;
""")],
"unary-helper": [(A, """    if (state == State::Unmatched && arguments.size() == 1 &&
        checkArgKinds(kind)) {
      process(arguments.front());
      state = State::Matched;
    }
    return *this;
""", """    if (canProcess(1, kind)) {
      process(arguments[0]);
      state = State::Matched;
    }
    return *this;
"""), (A, """    if (state == State::Unmatched && arguments.size() == 2 &&
        checkArgKinds(kind)) {
      auto it = arguments.begin();
      process(*it, *std::next(it));
""", """    if (canProcess(2, kind)) {
      process(arguments[0], arguments[1]);
"""), (A, """public:
  ArgumentsDispatcher(""", """  bool canProcess(std::size_t num_arguments, LiteralValue::Kind kind) {
    return state == State::Unmatched && arguments.size() == num_arguments &&
           checkArgKinds(kind);
  }

public:
  ArgumentsDispatcher(""")],
"unary-early": [(A, """    if (state == State::Unmatched && arguments.size() == 1 &&
        checkArgKinds(kind)) {
      process(arguments.front());
      state = State::Matched;
    }
    return *this;
""", """    if (state != State::Unmatched || arguments.size() != 1)
      return *this;
    if (!checkArgKinds(kind))
      return *this;
    process(arguments.front());
    state = State::Matched;
    return *this;
""")],
"variadic-transform": [(A, """      for (const LiteralValue &value : arguments)
        results.push_back(transform(value));
      if (process(std::move(results)))
        state = State::Matched;
""", """      llvm::transform(arguments, std::back_inserter(results), transform);
      const bool success = process(std::move(results));
      state = success ? State::Matched : state;
""")],
"named-if": [(A, """                 llvm::StringRef text = value.getString();
                 if (isValidIdentifier(text)) {
                   attrs.spelling = text.str();
                 } else {
                   Diagnostics::report(
                       decl, Diagnostics::Kind::AnnotationInvalidSpellingError)
                       << toString(AnnotationKind::ExposeAs) << text;
                 }
""", """                 set_spelling(AnnotationKind::ExposeAs, value);
"""), (A, """          llvm::StringRef text = value.getString();
          if (isValidIdentifier(text)) {
            attrs.spelling = text.str();
          } else {
            Diagnostics::report(
                decl, Diagnostics::Kind::AnnotationInvalidSpellingError)
                << toString(AnnotationKind::Module) << text;
          }
""", """          set_spelling(AnnotationKind::Module, value);
"""), (A, """  ArgumentsDispatcher dispatch(decl, annotation);

  switch (annotation.getKind().value()) {
  default:
    return false;

  case AnnotationKind::Hidden:
""", """  ArgumentsDispatcher dispatch(decl, annotation);

  auto set_spelling = [&](AnnotationKind kind, const LiteralValue &value) {
    llvm::StringRef text = value.getString();
    if (!isValidIdentifier(text)) {
      Diagnostics::report(decl, Diagnostics::Kind::AnnotationInvalidSpellingError)
          << toString(kind) << text;
      return;
    }
    attrs.spelling = text.str();
  };

  switch (annotation.getKind().value()) {
  default:
    return false;

  case AnnotationKind::Hidden:
""")],
"named-static-helper": [(A, """                 llvm::StringRef text = value.getString();
                 if (isValidIdentifier(text)) {
                   attrs.spelling = text.str();
                 } else {
                   Diagnostics::report(
                       decl, Diagnostics::Kind::AnnotationInvalidSpellingError)
                       << toString(AnnotationKind::ExposeAs) << text;
                 }
""", """                 assignSpelling(decl, AnnotationKind::ExposeAs, value.getString(), attrs.spelling);
"""), (A, """bool genpybind::processAnnotation(const clang::NamedDecl *decl,
                                  const Annotation &annotation,
                                  NamedDeclAttrs &attrs) {
""", """static void assignSpelling(const clang::NamedDecl *decl, AnnotationKind kind,
                           const std::string &text, std::string &spelling) {
  if (!isValidIdentifier(text)) {
    Diagnostics::report(decl, Diagnostics::Kind::AnnotationInvalidSpellingError)
        << toString(kind) << text;
    return;
  }
  spelling = text;
}

bool genpybind::processAnnotation(const clang::NamedDecl *decl,
                                  const Annotation &annotation,
                                  NamedDeclAttrs &attrs) {
""")],
"named-order": [(A, """  case AnnotationKind::Hidden:
    return dispatch.nullary([&] { attrs.visible = false; }).checkMatch();

""", ""), (A, """  case AnnotationKind::Module:
    dispatch.ensure([&] { return llvm::isa<clang::NamespaceDecl>(decl); })
""", """  case AnnotationKind::Hidden:
    dispatch.nullary([&] { attrs.visible = false; });
    return dispatch.checkMatch();

  case AnnotationKind::Module:
    dispatch.ensure([&] { return llvm::isa<clang::NamespaceDecl>(decl); })
""")],
"named-ifchain": [(A, """  switch (annotation.getKind().value()) {
  default:
    return false;

  case AnnotationKind::Encourage:
    return dispatch.nullary([&] { attrs.encourage = true; })
        .onMatch(check_for_conflict)
        .checkMatch();

  case AnnotationKind::ExposeHere:
    return dispatch.nullary([&] { attrs.expose_here = true; })
        .onMatch(check_for_conflict)
        .checkMatch();
  }
""", """  const auto kind = annotation.getKind().value();
  if (kind == AnnotationKind::Encourage)
    return dispatch.nullary([&] { attrs.encourage = true; })
        .onMatch(check_for_conflict)
        .checkMatch();
  if (kind == AnnotationKind::ExposeHere)
    return dispatch.nullary([&] { attrs.expose_here = true; })
        .onMatch(check_for_conflict)
        .checkMatch();
  return false;
""")],
"spelling-early": [(A, """  if (!name.isIdentifier())
    makeValidIdentifier(result);

  if (const auto *tpl_decl =
          llvm::dyn_cast<clang::ClassTemplateSpecializationDecl>(decl)) {
    const clang::TemplateArgumentList &args = tpl_decl->getTemplateArgs();
    clang::printTemplateArgumentList(os, args.asArray(), policy);
    makeValidIdentifier(result);
  }

  return result.str().str();
""", """  if (!name.isIdentifier())
    makeValidIdentifier(result);

  const auto *tpl_decl =
      llvm::dyn_cast<clang::ClassTemplateSpecializationDecl>(decl);
  if (tpl_decl == nullptr)
    return std::string(result.str());
  clang::printTemplateArgumentList(os, tpl_decl->getTemplateArgs().asArray(),
                                   policy);
  makeValidIdentifier(result);
  return std::string(result.str());
""")],
"bool-helper": [(A, """    return dispatch.nullary([&]() { attrs.arithmetic = true; })
        .unary(LiteralValue::Kind::Boolean,
               [&](const LiteralValue &value) {
                 attrs.arithmetic = value.getBoolean();
               })
        .checkMatch();
""", """    return dispatch.flag(attrs.arithmetic).checkMatch();
"""), (A, """    return dispatch.nullary([&]() { attrs.export_values = true; })
        .unary(LiteralValue::Kind::Boolean,
               [&](const LiteralValue &value) {
                 attrs.export_values = value.getBoolean();
               })
        .checkMatch();
""", """    return dispatch.flag(attrs.export_values).checkMatch();
"""), (A, """    return dispatch.nullary([&] { attrs.readonly = true; })
        .unary(LiteralValue::Kind::Boolean,
               [&](const LiteralValue &value) {
                 attrs.readonly = value.getBoolean();
               })
        .checkMatch();
""", """    return dispatch.flag(attrs.readonly).checkMatch();
"""), (A, """  /// Registers a processing function for calls with two arguments.
""", """  template <class T> ArgumentsDispatcher &flag(T &target) {
    return nullary([&] { target = true; })
        .unary(LiteralValue::Kind::Boolean, [&](const LiteralValue &value) {
          target = value.getBoolean();
        });
  }

  /// Registers a processing function for calls with two arguments.
""")],
"bool-static-helper": [(A, """    return dispatch.nullary([&]() { attrs.dynamic_attr = true; })
        .unary(LiteralValue::Kind::Boolean,
               [&](const LiteralValue &value) {
                 attrs.dynamic_attr = value.getBoolean();
               })
        .checkMatch();
""", """    return processFlag(dispatch, attrs.dynamic_attr);
"""), (A, """bool RecordDeclAttrs::supports(""", """static bool processFlag(ArgumentsDispatcher &dispatch, bool &flag) {
  return dispatch.nullary([&]() { flag = true; })
      .unary(LiteralValue::Kind::Boolean,
             [&](const LiteralValue &value) { flag = value.getBoolean(); })
      .checkMatch();
}

bool RecordDeclAttrs::supports(""")],
"hidebase-continue": [(A, """                const clang::TagDecl *base_decl =
                    base.getType()->getAsTagDecl()->getDefinition();
                if (names.empty() || matcher.matchesNode(*base_decl)) {
                  attrs.hide_base.insert(base_decl);
                  found_match = true;
                }
""", """                const clang::TagDecl *base_decl =
                    base.getType()->getAsTagDecl()->getDefinition();
                if (!names.empty() && !matcher.matchesNode(*base_decl))
                  continue;
                found_match = true;
                attrs.hide_base.insert(base_decl);
""")],
"hidebase-report-helper": [(A, """              if (!found_match) {
                Diagnostics::report(
                    decl,
                    Diagnostics::Kind::AnnotationContainsUnknownBaseTypeWarning)
                    << toString(annotation.getKind().value());
              }
              return true;
            })
        .checkMatch();

  case AnnotationKind::HolderType:
""", """              if (!found_match)
                report_unknown_base();
              return true;
            })
        .checkMatch();

  case AnnotationKind::HolderType:
"""), (A, """  const auto *record_decl = llvm::cast<clang::CXXRecordDecl>(decl);

  switch""", """  const auto *record_decl = llvm::cast<clang::CXXRecordDecl>(decl);

  const auto report_unknown_base = [&] {
    Diagnostics::report(
        decl, Diagnostics::Kind::AnnotationContainsUnknownBaseTypeWarning)
        << toString(annotation.getKind().value());
  };

  switch""")],
"typedef-supports": [(A, """  if (const auto *alias_decl = llvm::dyn_cast<clang::TypedefNameDecl>(decl)) {
    const clang::TagDecl *target_decl = aliasTarget(alias_decl);
    if (target_decl == nullptr && hasAnnotations(decl)) {
      Diagnostics::report(decl, Diagnostics::Kind::UnsupportedAliasTargetError);
    }
  }
  return llvm::isa<clang::TypedefNameDecl>(decl);
""", """  const auto *alias_decl = llvm::dyn_cast<clang::TypedefNameDecl>(decl);
  if (alias_decl == nullptr)
    return false;
  if (aliasTarget(alias_decl) == nullptr && hasAnnotations(decl))
    Diagnostics::report(decl, Diagnostics::Kind::UnsupportedAliasTargetError);
  return true;
""")],
"propagate": [(A, """    target_attrs.spelling =
        attrs.spelling.empty() ? getSpelling(decl) : attrs.spelling;

    // As the `visible` annotatation is implicit if there is at least one other
    // annotation, its computed value also has to be propagated, as it's
    // possible that there is no explicit annotation.
    processAnnotation(
        target_decl,
        Annotation(AnnotationKind::Visible,
                   {attrs.visible.has_value()
                        ? LiteralValue::createBoolean(*attrs.visible)
                        : LiteralValue::createDefault()}),
        target_attrs);
""", """    target_attrs.spelling = attrs.spelling;
    if (target_attrs.spelling.empty())
      target_attrs.spelling = getSpelling(decl);

    LiteralValue visibility = LiteralValue::createDefault();
    if (attrs.visible)
      visibility = LiteralValue::createBoolean(attrs.visible.value());
    const Annotation annotation(AnnotationKind::Visible, {visibility});
    processAnnotation(target_decl, annotation, target_attrs);
""")],
"aliastarget": [(A, """  if (const clang::TagDecl *target_decl =
          decl->getUnderlyingType()->getAsTagDecl())
    return target_decl->getDefinition();
  return nullptr;
""", """  const clang::QualType underlying = decl->getUnderlyingType();
  const clang::TagDecl *target_decl = underlying->getAsTagDecl();
  return target_decl != nullptr ? target_decl->getDefinition() : nullptr;
""")],
"fn-supports": [(A, """  return llvm::isa<clang::FunctionDecl>(decl) &&
         !llvm::isa<clang::CXXDeductionGuideDecl>(decl) &&
         !llvm::isa<clang::CXXDestructorDecl>(decl);
""", """  if (llvm::isa<clang::CXXDestructorDecl, clang::CXXDeductionGuideDecl>(decl))
    return false;
  return llvm::isa<clang::FunctionDecl>(decl);
""")],
"params-index": [(A, """      auto it = llvm::find(names, name);
      if (it == names.end())
        return std::nullopt;

      return static_cast<unsigned>(std::distance(names.begin(), it));
""", """      for (unsigned index = 0; index < names.size(); ++index) {
        if (names[index] == name)
          return index;
      }
      return std::nullopt;
""")],
"params-nested": [(A, """                  if (!first_idx.has_value()) {
                    report_invalid_argument(first.getString());
                    return;
                  }
                  if (!second_idx.has_value()) {
                    report_invalid_argument(second.getString());
                    return;
                  }

                  attrs.keep_alive.emplace_back(*first_idx, *second_idx);
""", """                  if (!first_idx) {
                    report_invalid_argument(first.getString());
                  } else if (!second_idx) {
                    report_invalid_argument(second.getString());
                  } else {
                    attrs.keep_alive.push_back({*first_idx, *second_idx});
                  }
""")],
"noconvert-helper": [(A, """                    auto lookup = make_parameter_indices_lookup(false, false);
                    auto idx = lookup(value.getString());
                    if (!idx.has_value()) {
                      report_invalid_argument(value.getString());
                      return;
                    }
                    attrs.noconvert.insert(*idx);
""", """                    insert_parameter_index(value, attrs.noconvert);
"""), (A, """                    auto lookup = make_parameter_indices_lookup(false, false);
                    auto idx = lookup(value.getString());
                    if (!idx.has_value()) {
                      report_invalid_argument(value.getString());
                      return;
                    }
                    attrs.required.insert(*idx);
""", """                    insert_parameter_index(value, attrs.required);
"""), (A, """        << toString(annotation.getKind().value()) << arg;
  };
""", """        << toString(annotation.getKind().value()) << arg;
  };

  auto insert_parameter_index = [&](const LiteralValue &value, auto &target) {
    auto lookup = make_parameter_indices_lookup(false, false);
    const std::string name = value.getString();
    if (auto idx = lookup(name))
      target.insert(*idx);
    else
      report_invalid_argument(name);
  };
""")],
"op-supports": [(A, """  if (const auto *function = llvm::dyn_cast<clang::FunctionDecl>(decl)) {
    return (function->isOverloadedOperator() &&
            function->getOverloadedOperator() != clang::OO_Call);
  }
  return false;
""", """  const auto *function = llvm::dyn_cast<clang::FunctionDecl>(decl);
  return function != nullptr && function->isOverloadedOperator() &&
         function->getOverloadedOperator() != clang::OO_Call;
""")],
"method-supports": [(A, """  return llvm::isa<clang::CXXMethodDecl>(decl) &&
         FunctionDeclAttrs::supports(decl) &&
         !llvm::isa<clang::CXXConstructorDecl>(decl) &&
         !OperatorDeclAttrs::supports(decl) &&
         !ConversionFunctionDeclAttrs::supports(decl);
""", """  if (!llvm::isa<clang::CXXMethodDecl>(decl))
    return false;
  if (ConstructorDeclAttrs::supports(decl) || ConversionFunctionDeclAttrs::supports(decl))
    return false;
  return FunctionDeclAttrs::supports(decl) && !OperatorDeclAttrs::supports(decl);
""")],
"getter-valid": [(A, """          if (function_decl->getMinRequiredArguments() != 0 ||
              function_decl->getReturnType()->isVoidType()) {
            report_invalid_signature();
            return false;
          }
          return true;
""", """          const bool is_valid =
              function_decl->getMinRequiredArguments() == 0 &&
              !function_decl->getReturnType()->isVoidType();
          if (!is_valid)
            report_invalid_signature();
          return is_valid;
""")],
"getter-loop": [(A, """                    if (identifiers.empty())
                      return false;
                    attrs.getter_for.insert(identifiers.begin(),
                                            identifiers.end());
                    return true;
""", """                    for (const std::string &identifier : identifiers)
                      attrs.getter_for.insert(identifier);
                    return !identifiers.empty();
""")],
"collect-swap": [(A, """    if (!isValidIdentifier(identifier)) {
      Diagnostics::report(decl,
                          Diagnostics::Kind::AnnotationInvalidSpellingError)
          << toString(annotation.getKind().value()) << identifier;
      return {};
    }
    return identifier.str();
""", """    if (isValidIdentifier(identifier))
      return identifier.str();
    Diagnostics::report(decl, Diagnostics::Kind::AnnotationInvalidSpellingError)
        << toString(annotation.getKind().value()) << identifier;
    return std::string();
""")],
"field-supports": [(A, """  return llvm::isa<clang::FieldDecl>(decl) || llvm::isa<clang::VarDecl>(decl);
""", """  return llvm::isa<clang::FieldDecl, clang::VarDecl>(decl);
""")],
"manual-function": [(A, """  const auto *manual_bindings_expr = [&]() -> const clang::LambdaExpr * {
    const auto *var = llvm::dyn_cast<clang::VarDecl>(decl);
    if (var == nullptr || !var->hasInit())
      return nullptr;

    const clang::Expr *init = var->getInit()->IgnoreImpCasts();
    const auto *lambda = llvm::dyn_cast<clang::LambdaExpr>(init);

    if (lambda == nullptr || !lambda->hasExplicitParameters())
      return nullptr;

    const clang::CXXMethodDecl *method = lambda->getCallOperator();
    if (method->getNumParams() != 1)
      return nullptr;
    const clang::ParmVarDecl *param = method->getParamDecl(0);
    clang::QualType param_type = param->getType();
    if (!param_type->isLValueReferenceType() ||
        param_type.getNonReferenceType()->isUndeducedAutoType())
      return nullptr;

    return lambda;
  }();
""", """  const clang::LambdaExpr *manual_bindings_expr = findManualBindings(decl);
"""), (A, """bool genpybind::processAnnotation(const clang::NamedDecl *decl,
                                  const Annotation &annotation,
                                  FieldOrVarDeclAttrs &attrs) {
""", """static bool isSuitableParameter(const clang::ParmVarDecl *param) {
  clang::QualType param_type = param->getType();
  return param_type->isLValueReferenceType() &&
         !param_type.getNonReferenceType()->isUndeducedAutoType();
}

static const clang::LambdaExpr *
findManualBindings(const clang::NamedDecl *decl) {
  const auto *var = llvm::dyn_cast<clang::VarDecl>(decl);
  if (var == nullptr || !var->hasInit())
    return nullptr;

  const auto *lambda =
      llvm::dyn_cast<clang::LambdaExpr>(var->getInit()->IgnoreImpCasts());
  if (lambda == nullptr || !lambda->hasExplicitParameters())
    return nullptr;

  const clang::CXXMethodDecl *method = lambda->getCallOperator();
  if (method->getNumParams() == 1 &&
      isSuitableParameter(method->getParamDecl(0)))
    return lambda;
  return nullptr;
}

bool genpybind::processAnnotation(const clang::NamedDecl *decl,
                                  const Annotation &annotation,
                                  FieldOrVarDeclAttrs &attrs) {
""")],
"insert-order": [(A, """  if (LookupContextCollector::shouldSkip(decl)) {
    Diagnostics::report(decl, Diagnostics::Kind::InvalidAssumptionWarning)
        << "annotations are only parsed during initial pass";
    decl->dump();
    return;
  }

  if (has(decl))
    return;

""", """  if (LookupContextCollector::shouldSkip(decl)) {
    reportLateInsertion(decl);
    return;
  }
  const bool already_present = has(decl);
  if (already_present)
    return;

"""), (A, """void AnnotationStorage::insert(""", """static void reportLateInsertion(const clang::NamedDecl *decl) {
  Diagnostics::report(decl, Diagnostics::Kind::InvalidAssumptionWarning)
      << "annotations are only parsed during initial pass";
  decl->dump();
}

void AnnotationStorage::insert(""")],
"insert-loop": [(A, """    bool handled = llvm::any_of(
        handlers, [&](const auto &handler) { return handler(annotation); });
    if (!trap.hasErrorOccurred() && !handled) {
      reportInvalidAnnotationError(decl, annotation);
    }
""", """    bool handled = false;
    for (const auto &handler : handlers) {
      if (handler(annotation)) {
        handled = true;
        break;
      }
    }
    if (handled || trap.hasErrorOccurred())
      continue;
    reportInvalidAnnotationError(decl, annotation);
""")],
"insert-inline-var": [(A, """  clang::DiagnosticsEngine &diag = decl->getASTContext().getDiagnostics();
  const Parser::Annotations annotations = parseAnnotations(decl);
  for (const Annotation &annotation : annotations) {
    clang::DiagnosticErrorTrap trap{diag};
""", """  for (const Annotation &annotation : parseAnnotations(decl)) {
    clang::DiagnosticErrorTrap trap(decl->getASTContext().getDiagnostics());
""")],
"insert-visible": [(A, """  if (!llvm::isa<clang::NamespaceDecl>(decl) &&
      hasAnnotations(decl, /*allow_empty=*/false)) {
    std::get<Map<NamedDeclAttrs>>(attrs_by_decl)[decl].visible = true;
  }
""", """  const bool is_namespace = llvm::isa<clang::NamespaceDecl>(decl);
  if (!is_namespace && hasAnnotations(decl, false)) {
    auto &map = std::get<Map<NamedDeclAttrs>>(attrs_by_decl);
    NamedDeclAttrs &attrs = map[decl];
    attrs.visible = true;
  }
""")],
"get-ternary": [(H, """    if (auto it = map.find(decl); it != map.end()) {
      return it->second;
    }
    return std::nullopt;
""", """    const auto it = map.find(decl);
    if (it == map.end())
      return std::nullopt;
    return it->second;
""")],
"lookup-valueor": [(H, """    if (auto attrs = get<T>(decl)) {
      return *attrs;
    }
    return T();
""", """    return get<T>(decl).value_or(T());
""")],
"update-ref": [(H, """    op(std::get<Map<T>>(attrs_by_decl)[decl]);
""", """    auto &map = std::get<Map<T>>(attrs_by_decl);
    T &attrs = map[decl];
    op(attrs);
""")],
"has-count": [(H, """    return std::get<Map<NamedDeclAttrs>>(attrs_by_decl).contains(decl);
""", """    const auto &map = std::get<Map<NamedDeclAttrs>>(attrs_by_decl);
    return map.find(decl) != map.end();
""")],
"struct-order": [(H, """  bool readonly = false;
  const clang::LambdaExpr *manual_bindings = nullptr;
  bool postamble = false;
""", """  const clang::LambdaExpr *manual_bindings = nullptr;
  bool postamble = false;
  bool readonly = false;
""")],
}
