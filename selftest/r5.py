T, V, P = "src/tool.cpp", "src/visible_decls.cpp", "src/pragmas.cpp"
IT, ID, D, L, LH, IG = ("src/instantiate_annotated_templates.cpp", "src/instantiate_default_arguments.cpp", "src/diagnostics.cpp",
    "src/lookup_context_collector.cpp", "include/genpybind/lookup_context_collector.h", "src/inspect_graph.cpp")
EDITS = {
"t-abs": [(T, '''    if (arg != "-" && !llvm::sys::path::is_absolute(arg))
      return opt.error("path has to be absolute!");
    value = arg.str();
    return false;''', '''    const bool is_stdout = arg == "-";
    if (is_stdout || llvm::sys::path::is_absolute(arg)) {
      value = arg.str();
      return false;
    }
    return opt.error("path has to be absolute!");''')],
"t-abs2": [(T, '''    value = arg.str();
    return false;''', '''    value = std::string(arg);
    return false;''')],
"t-title": [(T, '''  switch (stage) {
  case InspectGraphStage::Visibility:
    return "Declaration context graph (unpruned) with visibility of all nodes:";
  case InspectGraphStage::Pruned:
    return "Declaration context graph after pruning:";
  }
  llvm_unreachable("Unknown inspection point.");''', '''  if (stage == InspectGraphStage::Visibility)
    return "Declaration context graph (unpruned) with visibility of all nodes:";
  assert(stage == InspectGraphStage::Pruned);
  return "Declaration context graph after pruning:";''')],
"t-inspect": [(T, '''  if (llvm::is_contained(g_dump_graph, stage)) {
    printGraph(llvm::errs(), &graph, visibilities, annotations,
               graphTitle(stage));
    if (graph.size() == 1)
      llvm::errs() << "<no children>\\n";
  }''', '''  if (!llvm::is_contained(g_dump_graph, stage))
    return;
  llvm::raw_ostream &os = llvm::errs();
  printGraph(os, &graph, visibilities, annotations, graphTitle(stage));
  const bool has_no_children = graph.size() == 1;
  if (has_no_children)
    os << "<no children>\\n";''')],
"t-quote-sep": [(T, '''  bool first = true;
  for (llvm::StringRef arg : arguments) {
    if (!first) {
      os << ' ';
    } else {
      first = false;
    }
''', '''  llvm::StringRef separator = "";
  for (llvm::StringRef arg : arguments) {
    os << separator;
    separator = " ";
''')],
"t-quote-first": [(T, '''    if (!first) {
      os << ' ';
    } else {
      first = false;
    }
''', '''    if (!first)
      os << ' ';
    first = false;
''')],
"t-quote-cont": [(T, '''    if (arg.contains(' ')) {
      os << '"';
      os.write_escaped(arg);
      os << '"';
    } else {
      os << arg;
    }
''', '''    if (!arg.contains(' ')) {
      os << arg;
      continue;
    }
    os << '"';
    os.write_escaped(arg) << '"';
''')],
"t-module": [(T, '''    if (g_module_name.empty()) {
      llvm::SmallString<128> name = llvm::sys::path::stem(main_file);
      makeValidIdentifier(name);
      g_module_name = name.str().str();
    }
''', '''    setDefaultModuleName(main_file);
'''), (T, '''class GenpybindASTConsumer : public clang::SemaConsumer {''', '''void setDefaultModuleName(llvm::StringRef main_file) {
  if (!g_module_name.empty())
    return;
  llvm::SmallString<128> name = llvm::sys::path::stem(main_file);
  makeValidIdentifier(name);
  g_module_name = std::string(name.str());
}

class GenpybindASTConsumer : public clang::SemaConsumer {''')],
"t-mainfile": [(T, '''    const llvm::StringRef main_file = [&] {
      clang::OptionalFileEntryRef main_file =
          source_manager.getFileEntryRefForID(source_manager.getMainFileID());
      assert(main_file != nullptr);
      return main_file->getName();
    }();
''', '''    const clang::OptionalFileEntryRef main_entry =
        source_manager.getFileEntryRefForID(source_manager.getMainFileID());
    assert(main_entry != nullptr);
    const llvm::StringRef main_file = main_entry->getName();
''')],
"t-mainfile-fn": [(T, '''    const llvm::StringRef main_file = [&] {
      clang::OptionalFileEntryRef main_file =
          source_manager.getFileEntryRefForID(source_manager.getMainFileID());
      assert(main_file != nullptr);
      return main_file->getName();
    }();
''', '''    const llvm::StringRef main_file = mainFileName(source_manager);
'''), (T, '''  void HandleTranslationUnit(clang::ASTContext &context) override {
    if (g_dump_ast)''', '''  static llvm::StringRef
  mainFileName(const clang::SourceManager &source_manager) {
    auto entry =
        source_manager.getFileEntryRefForID(source_manager.getMainFileID());
    assert(entry != nullptr);
    return entry->getName();
  }

  void HandleTranslationUnit(clang::ASTContext &context) override {
    if (g_dump_ast)''')],
"t-graph": [(T, '''    auto graph = builder.buildGraph();
    if (!graph.has_value())
      return;
''', '''    std::optional<DeclContextGraph> graph = builder.buildGraph();
    if (!graph)
      return;
'''), (T, '''    graph = pruneGraph(*graph, contexts_with_visible_decls, visibilities);
''', '''    graph.emplace(
        pruneGraph(*graph, contexts_with_visible_decls, visibilities));
''')],
"t-cycles": [(T, '''    if (reportExposeHereCycles(*graph, reachableDeclContexts(visibilities),
                               builder.getRelocatedDecls(), source_manager))
      return;
''', '''    const auto reachable = reachableDeclContexts(visibilities);
    const bool has_cycles = reportExposeHereCycles(
        *graph, reachable, builder.getRelocatedDecls(), source_manager);
    if (has_cycles)
      return;
''')],
"t-outputs": [(T, '''    std::vector<std::unique_ptr<llvm::raw_pwrite_stream>> output_streams;
    for (llvm::StringRef output_path : g_output_files) {
      bool binary = false;
      bool remove_file_on_signal = true; // not thread-safe
      bool use_temporary = true;
      bool create_missing_directories = false;
      auto stream =
          compiler.createOutputFile(output_path, binary, remove_file_on_signal,
                                    use_temporary, create_missing_directories);
      if (stream == nullptr)
        return;
      output_streams.push_back(std::move(stream));
    }
''', '''    std::vector<std::unique_ptr<llvm::raw_pwrite_stream>> output_streams;
    output_streams.reserve(g_output_files.size());
    for (const std::string &output_path : g_output_files) {
      std::unique_ptr<llvm::raw_pwrite_stream> stream =
          compiler.createOutputFile(output_path, /*Binary=*/false,
                                    /*RemoveFileOnSignal=*/true,
                                    /*UseTemporary=*/true,
                                    /*CreateMissingDirectories=*/false);
      if (!stream)
        return;
      output_streams.emplace_back(std::move(stream));
    }
''')],
"t-includes-fn": [(T, '''    std::string includes;
    {
      llvm::raw_string_ostream stream(includes);
      stream << "#include \\"" << main_file << "\\"\\n"
             << "#include <genpybind/binding-helpers.h>\\n"
             << "#include <pybind11/pybind11.h>\\n";

      if (pragma_handler != nullptr) {
        for (const std::string &include : pragma_handler->getIncludes()) {
          stream << "#include " << include << '\\n';
        }
      }
      stream << '\\n';
    }
''', '''    const std::string includes = getIncludeDirectives(main_file);
'''), (T, '''  void HandleTranslationUnit(clang::ASTContext &context) override {
    if (g_dump_ast)''', '''  std::string getIncludeDirectives(llvm::StringRef main_file) const {
    std::string includes;
    llvm::raw_string_ostream stream(includes);
    stream << "#include \\"" << main_file << "\\"\\n";
    stream << "#include <genpybind/binding-helpers.h>\\n";
    stream << "#include <pybind11/pybind11.h>\\n";
    if (pragma_handler != nullptr)
      for (const auto &include : pragma_handler->getIncludes())
        stream << "#include " << include << "\\n";
    stream << "\\n";
    return stream.str();
  }

  void HandleTranslationUnit(clang::ASTContext &context) override {
    if (g_dump_ast)''')],
"t-includes-concat": [(T, '''      llvm::raw_string_ostream stream(includes);
      stream << "#include \\"" << main_file << "\\"\\n"
             << "#include <genpybind/binding-helpers.h>\\n"
             << "#include <pybind11/pybind11.h>\\n";

      if (pragma_handler != nullptr) {
        for (const std::string &include : pragma_handler->getIncludes()) {
          stream << "#include " << include << '\\n';
        }
      }
      stream << '\\n';
''', '''      includes.append("#include \\"");
      includes += main_file.str();
      includes += "\\"\\n#include <genpybind/binding-helpers.h>\\n"
                  "#include <pybind11/pybind11.h>\\n";
      if (pragma_handler != nullptr) {
        for (const std::string &include : pragma_handler->getIncludes())
          includes += "#include " + include + "\\n";
      }
      includes.push_back('\\n');
''')],
"t-streams": [(T, '''    std::vector<llvm::raw_ostream *> streams;
    for (const auto &stream : output_streams) {
      (*stream) << includes;
      streams.push_back(stream.get());
    }
''', '''    std::vector<llvm::raw_ostream *> streams;
    streams.reserve(output_streams.size());
    for (auto &output_stream : output_streams) {
      llvm::raw_ostream &os = *output_stream;
      os << includes;
      streams.push_back(&os);
    }
''')],
"t-streams-index": [(T, '''    for (const auto &stream : output_streams) {
      (*stream) << includes;
      streams.push_back(stream.get());
    }
''', '''    for (std::size_t idx = 0; idx < output_streams.size(); ++idx) {
      *output_streams[idx] << includes;
      streams.push_back(output_streams[idx].get());
    }
''')],
"t-erase": [(T, '''    return !g_keep_output_files &&
           getCompilerInstance().getDiagnostics().hasErrorOccurred();''', '''    if (g_keep_output_files)
      return false;
    const clang::DiagnosticsEngine &diagnostics =
        getCompilerInstance().getDiagnostics();
    return diagnostics.hasErrorOccurred();''')],
"t-consumers": [(T, '''    consumers.push_back(
        std::make_unique<InstantiateAnnotatedTemplatesASTConsumer>());
    consumers.push_back(
        std::make_unique<InstantiateDefaultArgumentsASTConsumer>());
    consumers.push_back(std::make_unique<GenpybindASTConsumer>(
        getCompilerInstance(), pragma_genpybind_handler.get()));
''', '''    auto genpybind_consumer = std::make_unique<GenpybindASTConsumer>(
        getCompilerInstance(), pragma_genpybind_handler.get());
    consumers.reserve(3);
    consumers.emplace_back(
        std::make_unique<InstantiateAnnotatedTemplatesASTConsumer>());
    consumers.emplace_back(
        std::make_unique<InstantiateDefaultArgumentsASTConsumer>());
    consumers.emplace_back(std::move(genpybind_consumer));
''')],
"t-begin": [(T, '''    pragma_genpybind_handler =
        std::make_unique<genpybind::PragmaGenpybindHandler>();
    clang::Preprocessor &preproc = compiler.getPreprocessor();
    preproc.AddPragmaHandler(pragma_genpybind_handler.get());
    return true;''', '''    auto handler = std::make_unique<genpybind::PragmaGenpybindHandler>();
    compiler.getPreprocessor().AddPragmaHandler(handler.get());
    pragma_genpybind_handler = std::move(handler);
    return true;''')],
"t-end": [(T, '''    clang::Preprocessor &preproc = getCompilerInstance().getPreprocessor();
    preproc.RemovePragmaHandler(pragma_genpybind_handler.get());
    pragma_genpybind_handler.reset();''', '''    getCompilerInstance().getPreprocessor().RemovePragmaHandler(
        pragma_genpybind_handler.get());
    pragma_genpybind_handler = nullptr;''')],
"t-clang": [(T, '''    if (llvm::ErrorOr<std::string> path = llvm::sys::findProgramByName(name)) {
      llvm::SmallString<128> resolved;
      if (llvm::sys::fs::real_path(*path, resolved)) {
        // Failed to resolve path.
        resolved = *path;
      }
      return resolved.str().str();
    }
''', '''    llvm::ErrorOr<std::string> path = llvm::sys::findProgramByName(name);
    if (!path)
      continue;
    llvm::SmallString<128> resolved;
    const std::error_code error = llvm::sys::fs::real_path(*path, resolved);
    if (error)
      resolved = path.get();
    return std::string(resolved.str());
''')],
"t-resource": [(T, '''  if (clang_path.empty())
    return {};

  return clang::driver::Driver::GetResourcesPath(clang_path,
                                                 CLANG_RESOURCE_DIR);''', '''  if (!clang_path.empty())
    return clang::driver::Driver::GetResourcesPath(clang_path,
                                                   CLANG_RESOURCE_DIR);
  return "";''')],
"t-adj-insert": [(T, '''    CommandLineArguments result;
    result.reserve(arguments.size() + 1);
    auto positional_it = llvm::find(arguments, "--");
    std::copy(arguments.begin(), positional_it, std::back_inserter(result));
    std::string resource_dir = findResourceDir();
    if (!resource_dir.empty())
      result.push_back("-resource-dir=" + resource_dir);
    std::copy(positional_it, arguments.end(), std::back_inserter(result));
    return result;''', '''    auto positional_it = llvm::find(arguments, "--");
    CommandLineArguments result(arguments.begin(), positional_it);
    const std::string resource_dir = findResourceDir();
    if (!resource_dir.empty())
      result.push_back("-resource-dir=" + resource_dir);
    result.insert(result.end(), positional_it, arguments.end());
    return result;''')],
"t-adj-any": [(T, '''    for (llvm::StringRef arg : arguments) {
      if (arg.consume_front("-resource-dir") && (arg.empty() || arg[0] == '='))
        return arguments;
    }
''', '''    const bool is_specified =
        llvm::any_of(arguments, [](llvm::StringRef arg) {
          return arg.consume_front("-resource-dir") &&
                 (arg.empty() || arg[0] == '=');
        });
    if (is_specified)
      return arguments;
''')],
"t-adj-starts": [(T, '''      if (arg.consume_front("-resource-dir") && (arg.empty() || arg[0] == '='))
        return arguments;''', '''      if (arg == "-resource-dir" || arg.starts_with("-resource-dir="))
        return arguments;''')],
"t-cpp17-while": [(T, '''    for (; idx < end; ++idx) {
      llvm::StringRef arg = arguments[idx];

      if (arg == "--") {
        break;
      }
''', '''    for (; idx < end && arguments[idx] != "--"; ++idx) {
      llvm::StringRef arg = arguments[idx];
''')],
"t-cpp17-rest": [(T, '''    for (; idx < end; ++idx) {
      result.push_back(arguments[idx]);
    }

    return result;''', '''    while (idx < end)
      result.push_back(arguments[idx++]);

    return result;''')],
"t-cpp17-std": [(T, '''      result.push_back(llvm::Twine("-std=")
                           .concat(language_standard_prefix)
                           .concat("++17")
                           .str());''', '''      result.push_back(("-std=" + language_standard_prefix + "++17").str());''')],
"t-cpp17-std2": [(T, '''    if (!uses_later_standard)
      result.push_back(llvm::Twine("-std=")
                           .concat(language_standard_prefix)
                           .concat("++17")
                           .str());''', '''    if (!uses_later_standard) {
      std::string standard = "-std=";
      standard += language_standard_prefix;
      standard += "++17";
      result.push_back(standard);
    }''')],
"t-main-exit": [(T, '''  const int exit_code = tool.run(factory.get());
  return expect_failure ? static_cast<int>(exit_code == 0) : exit_code;''', '''  const int exit_code = tool.run(factory.get());
  if (!expect_failure)
    return exit_code;
  return exit_code == 0 ? 1 : 0;''')],
"t-main-verbose": [(T, '''      for (const CompileCommand &command : compile_commands) {
        llvm::errs() << "Analyzing file " << command.Filename
                     << " from within directory " << command.Directory
                     << " using command " << command.Heuristic << "\\n  ";
        emitQuotedArguments(llvm::errs(), command.CommandLine);
        llvm::errs() << "\\n";
      }
''', '''      for (const auto &command : compilations.getCompileCommands(abs_path)) {
        llvm::raw_ostream &os = llvm::errs();
        os << "Analyzing file " << command.Filename;
        os << " from within directory " << command.Directory;
        os << " using command " << command.Heuristic << "\\n  ";
        emitQuotedArguments(os, command.CommandLine);
        os << '\\n';
      }
'''), (T, '''      std::vector<CompileCommand> compile_commands =
          compilations.getCompileCommands(abs_path);

''', '')],
"t-main-adjust": [(T, '''  tool.appendArgumentsAdjuster(getClangStripOutputAdjuster());
  tool.appendArgumentsAdjuster(getClangStripDependencyFileAdjuster());
  tool.appendArgumentsAdjuster(getClangSyntaxOnlyAdjuster());
  tool.appendArgumentsAdjuster(getDefaultResourceDirAdjuster());
  tool.appendArgumentsAdjuster(getCpp17OrLaterAdjuster());
  tool.appendArgumentsAdjuster(getInsertArgumentAdjuster("-Wno-everything"));
  tool.appendArgumentsAdjuster(getInsertArgumentAdjuster("-D__GENPYBIND__"));
''', '''  addAdjusters(tool);
'''), (T, '''void printVersion(llvm::raw_ostream &os) {''', '''void addAdjusters(clang::tooling::ClangTool &tool) {
  using namespace clang::tooling;
  tool.appendArgumentsAdjuster(getClangStripOutputAdjuster());
  tool.appendArgumentsAdjuster(getClangStripDependencyFileAdjuster());
  tool.appendArgumentsAdjuster(getClangSyntaxOnlyAdjuster());
  tool.appendArgumentsAdjuster(getDefaultResourceDirAdjuster());
  tool.appendArgumentsAdjuster(getCpp17OrLaterAdjuster());
  for (const char *argument : {"-Wno-everything", "-D__GENPYBIND__"})
    tool.appendArgumentsAdjuster(getInsertArgumentAdjuster(argument));
}

void printVersion(llvm::raw_ostream &os) {''')],
# visible_decls
"v-ctor": [(V, '''    if (const auto *tpl = llvm::dyn_cast<clang::FunctionTemplateDecl>(decl))
      decl = tpl->getTemplatedDecl();
    return llvm::isa<clang::CXXConstructorDecl>(decl);''', '''    const auto *tpl = llvm::dyn_cast<clang::FunctionTemplateDecl>(decl);
    return llvm::isa<clang::CXXConstructorDecl>(
        tpl != nullptr ? tpl->getTemplatedDecl() : decl);''')],
"v-inline": [(V, '''    if (!inlining_policy.has_value() || isConstructor(proposed_decl) ||
        llvm::isa<clang::CXXDestructorDecl>(proposed_decl))
      return false;

    const auto *parent_decl =
        llvm::dyn_cast<clang::CXXRecordDecl>(proposed_decl->getDeclContext());
    if (parent_decl == nullptr)
      return false;

    return inlining_policy->shouldInline(parent_decl);''', '''    if (!inlining_policy)
      return false;
    if (llvm::isa<clang::CXXDestructorDecl>(proposed_decl))
      return false;
    if (isConstructor(proposed_decl))
      return false;

    const clang::DeclContext *parent = proposed_decl->getDeclContext();
    if (const auto *parent_decl = llvm::dyn_cast<clang::CXXRecordDecl>(parent))
      return inlining_policy->shouldInline(parent_decl);
    return false;''')],
"v-found": [(V, '''    bool is_visible_in_scope = hiding == nullptr;
    bool is_accessible = proposed_decl->getAccess() == clang::AS_public ||
                         proposed_decl->getAccess() == clang::AS_none;
    if (!is_visible_in_scope || !is_accessible)
      return;

    if (in_base_class && !shouldInlineDecl(proposed_decl))
      return;
''', '''    if (hiding != nullptr)
      return;

    switch (proposed_decl->getAccess()) {
    case clang::AS_public:
    case clang::AS_none:
      break;
    case clang::AS_protected:
    case clang::AS_private:
      return;
    }

    const bool is_candidate =
        !in_base_class || shouldInlineDecl(proposed_decl);
    if (!is_candidate)
      return;
''')],
"v-found-tail": [(V, '''    if (DeclContextGraph::accepts(proposed_decl))
      return;

    if (!proposed_decl->getLocation().isValid())
      return;

    decls.push_back(proposed_decl);''', '''    const bool has_location = proposed_decl->getLocation().isValid();
    if (has_location && !DeclContextGraph::accepts(proposed_decl))
      decls.emplace_back(proposed_decl);''')],
"v-found-shadow": [(V, '''    if (const auto *using_decl =
            llvm::dyn_cast<clang::UsingShadowDecl>(proposed_decl)) {
      proposed_decl = using_decl->getTargetDecl();
    }

    if (DeclContextGraph::accepts(proposed_decl))
      return;

    if (!proposed_decl->getLocation().isValid())
      return;

    decls.push_back(proposed_decl);''', '''    clang::NamedDecl *target = proposed_decl;
    if (auto *using_decl = llvm::dyn_cast<clang::UsingShadowDecl>(target))
      target = using_decl->getTargetDecl();

    if (DeclContextGraph::accepts(target) || target->getLocation().isInvalid())
      return;

    decls.push_back(target);''')],
"v-policy": [(V, '''    const clang::TagDecl *decl = remaining.back();
    remaining.pop_back();
    if (const auto attrs''', '''    const clang::TagDecl *decl = remaining.pop_back_val();
    if (const auto attrs''')],
"v-policy2": [(V, '''        auto result = inline_candidates.insert(base);
        if (result.second)
          remaining.push_back(base);
''', '''        if (inline_candidates.insert(base).second)
          remaining.push_back(base);
''')],
"v-policy3": [(V, '''    if (const auto attrs = annotations.get<RecordDeclAttrs>(decl)) {
      hidden_bases.insert(attrs->hide_base.begin(), attrs->hide_base.end());
      for (const clang::TagDecl *base : attrs->inline_base) {
        auto result = inline_candidates.insert(base);
        if (result.second)
          remaining.push_back(base);
      }
    }
''', '''    const auto attrs = annotations.get<RecordDeclAttrs>(decl);
    if (!attrs)
      continue;
    for (const clang::TagDecl *base : attrs->hide_base)
      hidden_bases.insert(base);
    for (const clang::TagDecl *base : attrs->inline_base) {
      const bool is_new = inline_candidates.insert(base).second;
      if (!is_new)
        continue;
      remaining.push_back(base);
    }
''')],
"v-policy-ctor": [(V, '''    base_decl = base_decl->getDefinition();
    if (inline_candidates.count(base_decl) == 0)
      return false;

    clang::CXXBasePaths paths;
    record_decl->isDerivedFrom(base_decl, paths);
    return llvm::any_of(paths, is_valid_path);
  };
''', '''    base_decl = base_decl->getDefinition();
    if (!inline_candidates.contains(base_decl))
      return false;

    clang::CXXBasePaths paths;
    record_decl->isDerivedFrom(base_decl, paths);
    for (const clang::CXXBasePath &path : paths) {
      if (is_valid_path(path))
        return true;
    }
    return false;
  };
''')],
"v-policy-ctor2": [(V, '''    return path.Access == clang::AS_public &&
           !llvm::any_of(path, is_hidden_base);''', '''    if (path.Access != clang::AS_public)
      return false;
    return llvm::none_of(path, is_hidden_base);''')],
"v-policy-hidden": [(V, '''    const auto *base_decl = element.Base->getType()->getAsCXXRecordDecl();
    base_decl = base_decl->getDefinition();
    return hidden_bases.count(base_decl) != 0;''', '''    const clang::CXXRecordDecl *base_decl =
        element.Base->getType()->getAsCXXRecordDecl()->getDefinition();
    return hidden_bases.contains(base_decl);''')],
"v-policy-inline": [(V, '''    if (should_inline(base_decl))
      inline_bases.insert(base_decl);
    return true; // continue visiting other bases''', '''    if (!should_inline(base_decl))
      return true;
    inline_bases.insert(base_decl);
    return true;''')],
"v-should": [(V, '''  decl = decl->getDefinition();
  return inline_bases.count(decl) != 0;''', '''  const clang::TagDecl *definition = decl->getDefinition();
  return inline_bases.contains(definition);''')],
"v-collect": [(V, '''  bool include_global_scope = llvm::dyn_cast<clang::Decl>(decl_context) ==
                              sema.getASTContext().getTranslationUnitDecl();
  sema.LookupVisibleDecls(const_cast<clang::DeclContext *>(decl_context),''', '''  const clang::Decl *translation_unit =
      sema.getASTContext().getTranslationUnitDecl();
  const bool include_global_scope =
      llvm::cast<clang::Decl>(decl_context) == translation_unit;
  auto *lookup_context = const_cast<clang::DeclContext *>(decl_context);
  sema.LookupVisibleDecls(lookup_context,''')],
# pragmas
"p-token-fn": [(P, '''  clang::Token hash_token{};
  hash_token.startToken();
  hash_token.setLocation(introducer.Loc);
  hash_token.setFlag(clang::Token::StartOfLine);
  hash_token.setKind(clang::tok::hash);

''', '''  clang::Token hash_token = makeHashToken(introducer.Loc);

'''), (P, '''PragmaGenpybindHandler::PragmaGenpybindHandler() : PragmaHandler("genpybind") {}
''', '''PragmaGenpybindHandler::PragmaGenpybindHandler() : PragmaHandler("genpybind") {}

static clang::Token makeHashToken(clang::SourceLocation loc) {
  clang::Token token{};
  token.startToken();
  token.setLocation(loc);
  token.setFlag(clang::Token::StartOfLine);
  token.setKind(clang::tok::hash);
  return token;
}
''')],
"p-order": [(P, '''  hash_token.setFlag(clang::Token::StartOfLine);
  hash_token.setKind(clang::tok::hash);
''', '''  hash_token.setKind(clang::tok::hash);
  hash_token.setFlag(clang::Token::StartOfLine);
''')],
"p-lex": [(P, '''  if (lexer.LexFromRawLexer(token) || lexer.LexFromRawLexer(directive_token) ||
      !directive_token.isAnyIdentifier()) {
    preproc.Diag(handler_name_token.getEndLoc(),
                 clang::diag::err_pp_invalid_directive)
        << 0;
    return;
  }
''', '''  const bool reached_end = lexer.LexFromRawLexer(token) ||
                           lexer.LexFromRawLexer(directive_token);
  if (reached_end || !directive_token.isAnyIdentifier()) {
    preproc.Diag(handler_name_token.getEndLoc(),
                 clang::diag::err_pp_invalid_directive)
        << 0;
    return;
  }
''')],
"p-include": [(P, '''  if (directive_token.getRawIdentifier() == "include") {
    lexer.LexIncludeFilename(token);
    if (!token.isOneOf(clang::tok::string_literal, clang::tok::header_name)) {
      preproc.Diag(token.getLocation(), clang::diag::err_pp_expects_filename);
      return;
    }
    std::string argument = preproc.getSpelling(token);
    if (argument.empty()) {
      preproc.Diag(token.getLocation(), clang::diag::err_pp_empty_filename);
      return;
    }
    includes.push_back(argument);
  } else {
    preproc.Diag(directive_token.getLocation(),
                 clang::diag::err_pp_invalid_directive)
        << 0;
    return;
  }
''', '''  if (directive_token.getRawIdentifier() != "include") {
    preproc.Diag(directive_token.getLocation(),
                 clang::diag::err_pp_invalid_directive)
        << 0;
    return;
  }

  lexer.LexIncludeFilename(token);
  if (token.isNot(clang::tok::string_literal) &&
      token.isNot(clang::tok::header_name)) {
    preproc.Diag(token.getLocation(), clang::diag::err_pp_expects_filename);
    return;
  }
  std::string argument = preproc.getSpelling(token);
  if (argument.empty()) {
    preproc.Diag(token.getLocation(), clang::diag::err_pp_empty_filename);
    return;
  }
  includes.push_back(std::move(argument));
''')],
"p-tail": [(P, '''  if (lexer.LexFromRawLexer(token))
    return;
  if (!token.isOneOf(clang::tok::eof, clang::tok::eod)) {
    preproc.Diag(token.getLocation(), clang::diag::err_pp_expected_eol);
    return;
  }
''', '''  if (!lexer.LexFromRawLexer(token) &&
      !token.isOneOf(clang::tok::eof, clang::tok::eod))
    preproc.Diag(token.getLocation(), clang::diag::err_pp_expected_eol);
''')],
"p-invalid-fn": [(P, '''  if (directive_token.getRawIdentifier() == "include") {''', '''  const auto is_include = [&] {
    return directive_token.getRawIdentifier() == "include";
  };
  if (is_include()) {''')],
"p-loc": [(P, '''  std::pair<clang::FileID, unsigned> begin_loc =
      source_manager.getDecomposedLoc(handler_name_token.getLocation());
  bool buffer_invalid = false;
  llvm::StringRef buffer =
      source_manager.getBufferData(begin_loc.first, &buffer_invalid);
  assert(!buffer_invalid);
  if (buffer_invalid)
    return;

  clang::Lexer lexer(source_manager.getLocForStartOfFile(begin_loc.first),
                     preproc.getLangOpts(), buffer.begin(),
                     buffer.data() + begin_loc.second, buffer.end());''', '''  const auto [file_id, offset] =
      source_manager.getDecomposedLoc(handler_name_token.getLocation());
  bool buffer_invalid = false;
  llvm::StringRef buffer =
      source_manager.getBufferData(file_id, &buffer_invalid);
  assert(!buffer_invalid);
  if (buffer_invalid)
    return;

  clang::Lexer lexer(source_manager.getLocForStartOfFile(file_id),
                     preproc.getLangOpts(), buffer.begin(),
                     buffer.begin() + offset, buffer.end());''')],
# instantiate
"i-loop": [(IT, '''  while (!pending.empty()) {
    clang::ClassTemplateSpecializationDecl *specialization = pending.front();
    assert(specialization != nullptr);
    pending.pop();
''', '''  for (; !pending.empty();) {
    auto *specialization = pending.front();
    pending.pop();
    assert(specialization != nullptr);
''')],
"i-done": [(IT, '''    done.insert(specialization);
    instantiateSpecialization(specialization);

    TraverseDecl''', '''    if (true) {
      done.insert(specialization);
      instantiateSpecialization(specialization);
    }

    TraverseDecl''')],
"i-tsk": [(IT, '''  if (prev_tsk != clang::TSK_Undeclared &&
      prev_tsk != clang::TSK_ImplicitInstantiation &&
      prev_tsk != clang::TSK_ExplicitInstantiationDeclaration)
    return;
''', '''  switch (prev_tsk) {
  case clang::TSK_Undeclared:
  case clang::TSK_ImplicitInstantiation:
  case clang::TSK_ExplicitInstantiationDeclaration:
    break;
  default:
    return;
  }
''')],
"i-move": [(IT, '''  if (prev_tsk == clang::TSK_Undeclared ||
      prev_tsk == clang::TSK_ImplicitInstantiation) {
    clang::ClassTemplateDecl *class_template =
        specialization->getSpecializedTemplate();
''', '''  const bool is_part_of_context =
      prev_tsk != clang::TSK_Undeclared &&
      prev_tsk != clang::TSK_ImplicitInstantiation;
  if (!is_part_of_context) {
    clang::ClassTemplateDecl *class_template =
        specialization->getSpecializedTemplate();
''')],
"i-visit": [(IT, '''  if (hasAnnotations(decl)) {
    clang::QualType qual_type = decl->getUnderlyingType();
    if (auto *specialization =
            llvm::dyn_cast_or_null<clang::ClassTemplateSpecializationDecl>(
                qual_type->getAsTagDecl()))
      if (done.count(specialization) == 0)
        pending.push(specialization);
  }
  return true;
''', '''  if (!hasAnnotations(decl))
    return true;
  clang::TagDecl *target = decl->getUnderlyingType()->getAsTagDecl();
  auto *specialization =
      llvm::dyn_cast_if_present<clang::ClassTemplateSpecializationDecl>(target);
  if (specialization != nullptr && !done.contains(specialization))
    pending.push(specialization);
  return true;
''')],
"i-visit2": [(IT, '''  if (done.count(decl) == 0 && hasAnnotations(decl))
    pending.push(decl);
  return true;''', '''  const bool is_done = done.count(decl) != 0;
  if (hasAnnotations(decl) && !is_done)
    pending.push(decl);
  return true;''')],
"d-parm": [(ID, '''  if (decl->hasUnparsedDefaultArg() || !decl->hasUninstantiatedDefaultArg())
    return true;

  auto *function = llvm::dyn_cast<clang::FunctionDecl>(decl->getDeclContext());
  if (function == nullptr || function->isInvalidDecl())
    return true;

  // If the specialization is incomplete, there is no point in continuing.
  if (function->getTemplateSpecializationKind() == clang::TSK_Undeclared)
    return true;

  sema->InstantiateDefaultArgument(clang::SourceLocation(), function, decl);

  return true;''', '''  if (!decl->hasUnparsedDefaultArg() && decl->hasUninstantiatedDefaultArg()) {
    clang::DeclContext *parent = decl->getDeclContext();
    auto *function = llvm::dyn_cast<clang::FunctionDecl>(parent);
    const bool is_usable =
        function != nullptr && !function->isInvalidDecl() &&
        function->getTemplateSpecializationKind() != clang::TSK_Undeclared;
    if (is_usable)
      sema->InstantiateDefaultArgument(clang::SourceLocation{}, function,
                                       decl);
  }
  return true;''')],
# diagnostics
"g-name": [(D, '''  if (const auto *named_decl = llvm::dyn_cast<clang::NamedDecl>(decl))
    return named_decl->getQualifiedNameAsString();

  return "";''', '''  const auto *named_decl = llvm::dyn_cast<clang::NamedDecl>(decl);
  if (named_decl == nullptr)
    return {};
  return named_decl->getQualifiedNameAsString();''')],
"g-name2": [(D, '''    const clang::ASTContext &context = type_decl->getASTContext();
    const clang::QualType qual_type = context.getTypeDeclType(type_decl);
    return clang::TypeName::getFullyQualifiedName(qual_type, context,
                                                  context.getPrintingPolicy());''', '''    const auto &context = decl->getASTContext();
    return clang::TypeName::getFullyQualifiedName(
        context.getTypeDeclType(type_decl), context,
        context.getPrintingPolicy());''')],
"g-report": [(D, '''  clang::DiagnosticsEngine &engine = decl->getASTContext().getDiagnostics();
  return engine.Report(decl->getLocation(), diag_id) << decl->getSourceRange();''', '''  auto &engine = decl->getASTContext().getDiagnostics();
  clang::DiagnosticBuilder builder =
      engine.Report(decl->getLocation(), diag_id);
  builder << decl->getSourceRange();
  return builder;''')],
"g-order": [(D, '''  case Kind::AlreadyExposedElsewhereError:
    return engine.getCustomDiagID(clang::DiagnosticsEngine::Error,
                                  "'%0' has already been exposed elsewhere");
  case Kind::AnnotationContainsUnknownBaseTypeWarning:
    return engine.getCustomDiagID(clang::DiagnosticsEngine::Warning,
                                  "Unknown base type in '%0' annotation");
''', '''  case Kind::AnnotationContainsUnknownBaseTypeWarning:
    return engine.getCustomDiagID(clang::DiagnosticsEngine::Warning,
                                  "Unknown base type in '%0' annotation");
  case Kind::AlreadyExposedElsewhereError: {
    const auto level = clang::DiagnosticsEngine::Error;
    return engine.getCustomDiagID(level,
                                  "'%0' has already been exposed elsewhere");
  }
''')],
# collector
"c-warn": [(L, '''  clang::QualType qual_type = decl->getUnderlyingType();
  if (qual_type.hasQualifiers())
    Diagnostics::report''', '''  if (!decl->getUnderlyingType().hasQualifiers())
    return;
  Diagnostics::report''')],
"c-first": [(L, '''  const auto inserted = first_decls.try_emplace(
      llvm::dyn_cast<clang::NamedDecl>(decl->getCanonicalDecl()), decl);
  if (inserted.second) {
    return;
  }
  const clang::NamedDecl *first_decl = inserted.first->second;
  if (!annotations.equal(decl, first_decl)) {
''', '''  const auto *canonical =
      llvm::dyn_cast<clang::NamedDecl>(decl->getCanonicalDecl());
  const auto [it, is_new] = first_decls.try_emplace(canonical, decl);
  if (is_new)
    return;
  const clang::NamedDecl *first_decl = it->second;
  if (!annotations.equal(decl, first_decl)) {
''')],
"c-first2": [(L, '''  const auto inserted = first_decls.try_emplace(
      llvm::dyn_cast<clang::NamedDecl>(decl->getCanonicalDecl()), decl);
  if (inserted.second) {
    return;
  }
  const clang::NamedDecl *first_decl = inserted.first->second;
  if (!annotations.equal(decl, first_decl)) {
    Diagnostics::report(
        decl, Diagnostics::Kind::AnnotationsNeedToMatchFirstDeclError);
    Diagnostics::report(first_decl, clang::diag::note_declared_at);
  }
''', '''  const auto *canonical =
      llvm::dyn_cast<clang::NamedDecl>(decl->getCanonicalDecl());
  auto it = first_decls.find(canonical);
  if (it == first_decls.end()) {
    first_decls.insert({canonical, decl});
    return;
  }
  const clang::NamedDecl *first_decl = it->second;
  if (annotations.equal(decl, first_decl))
    return;
  Diagnostics::report(decl,
                      Diagnostics::Kind::AnnotationsNeedToMatchFirstDeclError);
  Diagnostics::report(first_decl, clang::diag::note_declared_at);
''')],
"c-skip": [(LH, '''    return decl != nullptr &&
           (decl->isStdNamespace() || decl->getName().starts_with("__"));''', '''    if (decl == nullptr)
      return false;
    return decl->getName().starts_with("__") || decl->isStdNamespace();''')],
"c-visit": [(LH, '''    if (shouldSkip(llvm::dyn_cast<clang::TagDecl>(decl)) ||
        decl->getDeclContext()->isDependentContext() || !hasAnnotations(decl))
      return true;
    annotations.insert(decl);
    return true;''', '''    const auto *tag_decl = llvm::dyn_cast<clang::TagDecl>(decl);
    const bool is_dependent = decl->getDeclContext()->isDependentContext();
    if (!shouldSkip(tag_decl) && !is_dependent && hasAnnotations(decl))
      annotations.insert(decl);
    return true;''')],
"c-traverse": [(LH, '''    auto before_traversing = annotations.size();
    bool result = RecursiveASTVisitor::TraverseNamespaceDecl(decl);
    bool saw_annotated_decls = annotations.size() != before_traversing;
    if (saw_annotated_decls) {''', '''    const auto before = annotations.size();
    const bool result = RecursiveASTVisitor::TraverseNamespaceDecl(decl);
    if (before != annotations.size()) {''')],
"c-tag": [(LH, '''  bool VisitTagDecl(const clang::TagDecl *decl) {
    if (shouldSkip(decl))
      return true;
    lookup_contexts.push_back(decl);
    return true;''', '''  bool VisitTagDecl(const clang::TagDecl *decl) {
    if (!shouldSkip(decl))
      lookup_contexts.push_back(decl);
    return true;''')],
# inspect
"n-label": [(IG, '''        const std::string spelling = !attrs->spelling.empty()
                                         ? attrs->spelling
                                         : getSpelling(named_decl);
        if (spelling != named_decl->getName()) {
          result.append(" as '");
          result.append(spelling);
          result.push_back('\\'');
        }''', '''        std::string spelling = attrs->spelling;
        if (spelling.empty())
          spelling = getSpelling(named_decl);
        if (named_decl->getName() != spelling)
          result += " as '" + spelling + "'";''')],
"n-desc": [(IG, '''    if (const auto attrs = graph.annotations.get<NamedDeclAttrs>(named_decl))
      return attrs->spelling;
    return "";''', '''    const auto attrs = graph.annotations.get<NamedDeclAttrs>(named_decl);
    return attrs ? attrs->spelling : std::string();''')],
"n-root": [(IG, '''      if (node != graph->getRoot())
        printNodeDescription(node);
      for (NodeRef child : *node) {
        printNode(child);
      }''', '''      const bool is_root = node == graph->getRoot();
      if (!is_root)
        printNodeDescription(node);
      std::for_each(node->begin(), node->end(),
                    [this](NodeRef child) { printNode(child); });''')],
}
