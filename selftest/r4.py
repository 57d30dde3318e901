B = "src/decl_context_graph_builder.cpp"
G = "src/decl_context_graph_processing.cpp"
C = "src/lookup_context_collector.cpp"
I = "src/inspect_graph.cpp"
D = "src/decl_context_graph.cpp"
CH = "include/genpybind/lookup_context_collector.h"
DH = "include/genpybind/decl_context_graph.h"
EDITS = {
"find-for": [(B, """  while (decl_context != nullptr && !decl_context->isLookupContext())
    decl_context = decl_context->getParent();
  return llvm::dyn_cast_or_null<clang::Decl>(decl_context);""", """  for (; decl_context != nullptr; decl_context = decl_context->getParent()) {
    if (decl_context->isLookupContext())
      return llvm::cast<clang::Decl>(decl_context);
  }
  return nullptr;""")],
"find-recursive": [(B, """  while (decl_context != nullptr && !decl_context->isLookupContext())
    decl_context = decl_context->getParent();
  return llvm::dyn_cast_or_null<clang::Decl>(decl_context);""", """  const clang::DeclContext *current = decl_context;
  while (true) {
    if (current == nullptr)
      return nullptr;
    if (current->isLookupContext())
      break;
    current = current->getParent();
  }
  return llvm::dyn_cast<clang::Decl>(current);""")],
"expose-here-binding": [(B, """  auto inserted = relocated_decls.try_emplace(target_decl, decl);
  if (!inserted.second) {
    Diagnostics::report(decl, Diagnostics::Kind::AlreadyExposedElsewhereError)
        << target_decl->getNameAsString();
    Diagnostics::report(inserted.first->getSecond(),
                        Diagnostics::Kind::PreviouslyExposedHereNote)
        << target_decl->getNameAsString();
    return false;
  }

  graph.getOrInsertNode(parent)->addChild(graph.getOrInsertNode(target_decl));
  return true;""", """  auto [it, is_new] = relocated_decls.try_emplace(target_decl, decl);
  if (is_new) {
    DeclContextNode *parent_node = graph.getOrInsertNode(parent);
    DeclContextNode *node = graph.getOrInsertNode(target_decl);
    parent_node->addChild(node);
    return true;
  }

  const std::string name = target_decl->getNameAsString();
  Diagnostics::report(decl, Diagnostics::Kind::AlreadyExposedElsewhereError)
      << name;
  Diagnostics::report(it->second, Diagnostics::Kind::PreviouslyExposedHereNote)
      << name;
  return false;""")],
"expose-here-find": [(B, """  auto inserted = relocated_decls.try_emplace(target_decl, decl);
  if (!inserted.second) {""", """  auto existing = relocated_decls.find(target_decl);
  if (existing != relocated_decls.end()) {"""), (B, """    Diagnostics::report(inserted.first->getSecond(),
                        Diagnostics::Kind::PreviouslyExposedHereNote)
        << target_decl->getNameAsString();
    return false;
  }
""", """    Diagnostics::report(existing->getSecond(),
                        Diagnostics::Kind::PreviouslyExposedHereNote)
        << target_decl->getNameAsString();
    return false;
  }
  relocated_decls[target_decl] = decl;
""")],
"expose-here-report-helper": [(B, """bool DeclContextGraphBuilder::addEdgeForExposeHereAlias(""", """static void reportNamed(const clang::NamedDecl *where, Diagnostics::Kind kind,
                        const clang::TagDecl *what) {
  Diagnostics::report(where, kind) << what->getNameAsString();
}

bool DeclContextGraphBuilder::addEdgeForExposeHereAlias("""), (B, """    Diagnostics::report(decl, Diagnostics::Kind::AlreadyExposedElsewhereError)
        << target_decl->getNameAsString();
    Diagnostics::report(inserted.first->getSecond(),
                        Diagnostics::Kind::PreviouslyExposedHereNote)
        << target_decl->getNameAsString();
""", """    reportNamed(decl, Diagnostics::Kind::AlreadyExposedElsewhereError,
                target_decl);
    reportNamed(inserted.first->getSecond(),
                Diagnostics::Kind::PreviouslyExposedHereNote, target_decl);
""")],
"build-split": [(B, """std::optional<DeclContextGraph> DeclContextGraphBuilder::buildGraph() {""", """static void encourageTarget(AnnotationStorage &annotations,
                            const clang::TagDecl *target_decl) {
  annotations.update<NamedDeclAttrs>(
      target_decl, [](auto &attrs) { attrs.visible = true; });
}

std::optional<DeclContextGraph> DeclContextGraphBuilder::buildGraph() {"""), (B, """      annotations.update<NamedDeclAttrs>(
          target_decl, [](auto &target_attrs) { target_attrs.visible = true; });
""", """      encourageTarget(annotations, target_decl);
""")],
"build-nested": [(B, """    if (!attrs->encourage && !attrs->expose_here)
      continue;
""", """    const bool encourage = attrs->encourage;
    const bool expose_here = attrs->expose_here;
    if (!(encourage || expose_here))
      continue;
"""), (B, """    if (attrs->encourage)
      annotations.update""", """    if (encourage)
      annotations.update"""), (B, """    if (attrs->expose_here && addEdgeForExposeHereAlias(alias_decl))
      propagateAnnotations(annotations, alias_decl);""", """    if (expose_here) {
      if (addEdgeForExposeHereAlias(alias_decl))
        propagateAnnotations(annotations, alias_decl);
    }""")],
"build-contains": [(B, """    const auto *decl = llvm::dyn_cast<clang::Decl>(decl_context);
    // Do not add original parent-child-edge to graph if decl has been moved.
    if (relocated_decls.count(decl) != 0)
      continue;
    // Expose declarations below their semantic parent.
    const clang::Decl *parent = findLookupContextDecl(decl->getDeclContext());
    graph.getOrInsertNode(parent)->addChild(graph.getOrInsertNode(decl));
""", """    const auto *decl = llvm::cast<clang::Decl>(decl_context);
    if (!relocated_decls.contains(decl)) {
      auto *parent_node =
          graph.getOrInsertNode(findLookupContextDecl(decl->getDeclContext()));
      parent_node->addChild(graph.getOrInsertNode(decl));
    }
""")],
"build-find": [(B, """    if (relocated_decls.count(decl) != 0)
      continue;""", """    if (relocated_decls.find(decl) != relocated_decls.end())
      continue;""")],
"build-addchild-helper": [(B, """  graph.getOrInsertNode(parent)->addChild(graph.getOrInsertNode(target_decl));
  return true;""", """  addEdge(graph, parent, target_decl);
  return true;"""), (B, """    graph.getOrInsertNode(parent)->addChild(graph.getOrInsertNode(decl));
""", """    addEdge(graph, parent, decl);
"""), (B, """bool DeclContextGraphBuilder::addEdgeForExposeHereAlias(""", """static void addEdge(DeclContextGraph &graph, const clang::Decl *parent,
                    const clang::Decl *child) {
  graph.getOrInsertNode(parent)->addChild(graph.getOrInsertNode(child));
}

bool DeclContextGraphBuilder::addEdgeForExposeHereAlias(""")],
"build-trap-helper": [(B, """  if (trap.hasErrorOccurred())
    return std::nullopt;

  for (const clang::TypedefNameDecl""", """  const bool had_errors = trap.hasErrorOccurred();
  if (had_errors)
    return {};

  for (const clang::TypedefNameDecl""")],
"build-lambda-phases": [(B, """  for (const clang::DeclContext *decl_context : visitor.lookup_contexts) {
    const auto *decl = llvm::dyn_cast<clang::Decl>(decl_context);
    // Do not add original parent-child-edge to graph if decl has been moved.
    if (relocated_decls.count(decl) != 0)
      continue;
    // Expose declarations below their semantic parent.
    const clang::Decl *parent = findLookupContextDecl(decl->getDeclContext());
    graph.getOrInsertNode(parent)->addChild(graph.getOrInsertNode(decl));
  }
""", """  auto add_to_graph = [this](const clang::DeclContext *decl_context) {
    const auto *decl = llvm::dyn_cast<clang::Decl>(decl_context);
    if (relocated_decls.count(decl) != 0)
      return;
    const clang::Decl *parent = findLookupContextDecl(decl->getDeclContext());
    graph.getOrInsertNode(parent)->addChild(graph.getOrInsertNode(decl));
  };
  std::for_each(visitor.lookup_contexts.begin(), visitor.lookup_contexts.end(),
                add_to_graph);
""")],
"parent-cond": [(G, """  if (it.getPathLength() < 2) {
    return nullptr;
  }
  const DeclContextNode *parent = it.getPath(it.getPathLength() - 2);
  assert(parent != nullptr);
  return parent;""", """  const unsigned length = it.getPathLength();
  return length >= 2 ? it.getPath(length - 2) : nullptr;""")],
"enclosing-if-else": [(G, """    if (is_transparent(parent->getDecl())) {
      parent_context = result.lookup(parent_context);
      assert(parent_context != nullptr &&
             "parent should have already been processed");
    }

    result[it->getDeclContext()] = parent_context;""", """    const bool transparent = is_transparent(parent->getDecl());
    const clang::DeclContext *scope =
        transparent ? result.lookup(parent_context) : parent_context;
    result.try_emplace(it->getDeclContext(), scope);""")],
"enclosing-helper": [(G, """    auto is_transparent = [&](const clang::Decl *decl) -> bool {
      const auto *named_decl = llvm::dyn_cast<clang::NamedDecl>(decl);
      if (const auto attrs = annotations.get<NamespaceDeclAttrs>(named_decl))
        return !attrs->module;
      return false;
    };

    if (is_transparent(parent->getDecl())) {""", """    if (isTransparent(annotations, parent->getDecl())) {"""), (G, """EnclosingScopeMap
genpybind::findEnclosingScopes(""", """static bool isTransparent(const AnnotationStorage &annotations,
                          const clang::Decl *decl) {
  const auto attrs = annotations.get<NamespaceDeclAttrs>(
      llvm::dyn_cast<clang::NamedDecl>(decl));
  return attrs.has_value() && !attrs->module;
}

EnclosingScopeMap
genpybind::findEnclosingScopes(""")],
"enclosing-range": [(G, """    if (parent == nullptr) {
      // The root node has no parent.
      result[it->getDeclContext()] = nullptr;
      continue;
    }

    const clang::DeclContext *parent_context = parent->getDeclContext();
""", """    const clang::DeclContext *const context = it->getDeclContext();
    if (!parent) {
      result.insert({context, nullptr});
      continue;
    }

    const auto *parent_context = parent->getDeclContext();
""")],
"visibility-if": [(G, """    switch (decl->getAccess()) {
    case clang::AS_protected:
    case clang::AS_private:
      is_visible = false;
      break;
    case clang::AS_public:
    case clang::AS_none:
      // Do nothing.
      break;
    }
""", """    const clang::AccessSpecifier access = decl->getAccess();
    if (access == clang::AS_protected || access == clang::AS_private)
      is_visible = false;
""")],
"visibility-lookup": [(G, """      auto it = result.find(parent_context);
      assert(it != result.end() &&
             "visibility of parent should have already been updated");
      is_visible = it->getSecond();
""", """      is_visible = result.lookup(parent_context);
""")],
"visibility-value": [(G, """    if (const auto attrs = annotations.get<NamedDeclAttrs>(named_decl))
      is_visible = attrs->visible.value_or(is_visible);

    result[decl_context] = is_visible;""", """    const auto attrs = annotations.get<NamedDeclAttrs>(named_decl);
    if (attrs.has_value() && attrs->visible.has_value())
      is_visible = *attrs->visible;

    result[decl_context] = is_visible;""")],
"visibility-early": [(G, """    // Retrieve value from annotations, if specified explicitly.
    const auto *named_decl = llvm::dyn_cast<clang::NamedDecl>(decl);
    if (const auto attrs = annotations.get<NamedDeclAttrs>(named_decl))
      is_visible = attrs->visible.value_or(is_visible);

    result[decl_context] = is_visible;""", """    // Retrieve value from annotations, if specified explicitly.
    const auto *named_decl = llvm::dyn_cast<clang::NamedDecl>(decl);
    if (const auto attrs = annotations.get<NamedDeclAttrs>(named_decl);
        attrs && attrs->visible) {
      result[decl_context] = attrs->visible.value();
      continue;
    }
    result[decl_context] = is_visible;""")],
"visibility-default-helper": [(G, """    bool is_visible = false;
    if (const DeclContextNode *parent = getParentNode(it)) {
      const clang::DeclContext *parent_context = parent->getDeclContext();
      auto it = result.find(parent_context);
      assert(it != result.end() &&
             "visibility of parent should have already been updated");
      is_visible = it->getSecond();
    }
""", """    bool is_visible = defaultVisibility(result, getParentNode(it));
"""), (G, """EffectiveVisibilityMap
genpybind::deriveEffectiveVisibility(""", """static bool defaultVisibility(const EffectiveVisibilityMap &visibilities,
                              const DeclContextNode *parent) {
  if (parent == nullptr)
    return false;
  auto it = visibilities.find(parent->getDeclContext());
  assert(it != visibilities.end());
  return it->second;
}

EffectiveVisibilityMap
genpybind::deriveEffectiveVisibility(""")],
"reachable-binding": [(G, """  for (const auto &pair : visibilities) {
    result.insert(pair.getFirst());
  }
  return result;""", """  for (const auto &[context, visible] : visibilities) {
    (void)visible;
    result.insert(context);
  }
  return result;""")],
"cycles-nested": [(G, """    const DeclContextNode *node = pair.getSecond().get();
    const clang::Decl *decl = node->getDecl();
    if (reachable_contexts.count(node->getDeclContext()) != 0)
      continue;
    // While all unreachable nodes are attached to one of the cycles, reporting
    // is only done on the type alias declarations.
    auto it = relocated_decls.find(decl);
    if (it == relocated_decls.end())
      continue;
    cycle_introducing_alias_decls.push_back(it->getSecond());
""", """    const DeclContextNode &node = *pair.getSecond();
    if (!reachable_contexts.contains(node.getDeclContext())) {
      if (const clang::TypedefNameDecl *alias =
              relocated_decls.lookup(node.getDecl()))
        cycle_introducing_alias_decls.push_back(alias);
    }
""")],
"cycles-early": [(G, """  llvm::sort(cycle_introducing_alias_decls,
             IsBeforeInTranslationUnit(source_manager));
  for (const auto *alias_decl : cycle_introducing_alias_decls)
    Diagnostics::report(alias_decl, Diagnostics::Kind::ExposeHereCycleError);

  return !cycle_introducing_alias_decls.empty();""", """  if (cycle_introducing_alias_decls.empty())
    return false;

  llvm::sort(cycle_introducing_alias_decls,
             IsBeforeInTranslationUnit(source_manager));
  for (const auto *alias_decl : cycle_introducing_alias_decls)
    Diagnostics::report(alias_decl, Diagnostics::Kind::ExposeHereCycleError);
  return true;""")],
"cycles-stdsort": [(G, """  llvm::sort(cycle_introducing_alias_decls,
             IsBeforeInTranslationUnit(source_manager));
  for (const auto *alias_decl : cycle_introducing_alias_decls)
    Diagnostics::report(alias_decl, Diagnostics::Kind::ExposeHereCycleError);
""", """  const IsBeforeInTranslationUnit is_before(source_manager);
  std::sort(cycle_introducing_alias_decls.begin(),
            cycle_introducing_alias_decls.end(), is_before);
  llvm::for_each(cycle_introducing_alias_decls, [](const auto *alias_decl) {
    Diagnostics::report(alias_decl, Diagnostics::Kind::ExposeHereCycleError);
  });
""")],
"visible-hidden-tag": [(G, """    if (!llvm::isa<clang::TagDecl>(context))
      return false;
    const auto visible = visibilities.find(context);
    assert(visible != visibilities.end() &&
           "visibility should be known for all nodes");
    return !visible->getSecond();
  };""", """    return llvm::isa<clang::TagDecl>(context) && !visibilities.lookup(context);
  };""")],
"visible-child-loop": [(G, """    return llvm::any_of(*node, [&](const DeclContextNode *child) {
      const clang::DeclContext *context = child->getDeclContext();
      // Hidden tag declarations conceal the entire corresponding sub-tree.
      return result.count(context) != 0 && !is_hidden_tag_decl(context);
    });
  };""", """    for (const DeclContextNode *child : *node) {
      const clang::DeclContext *context = child->getDeclContext();
      if (is_hidden_tag_decl(context))
        continue;
      if (result.contains(context))
        return true;
    }
    return false;
  };""")],
"visible-child-anyof": [(G, """    for (const DeclContextNode *child : *node) {
      const auto visible = visibilities.find(child->getDeclContext());
      assert(visible != visibilities.end() &&
             "visibility should be known for all nodes");
      if (llvm::isa<clang::TagDecl>(child->getDecl()) && visible->getSecond())
        return true;
    }
""", """    const bool has_visible_tag =
        std::any_of(node->begin(), node->end(), [&](const auto *child) {
          const auto visible = visibilities.find(child->getDeclContext());
          return llvm::isa<clang::TagDecl>(child->getDecl()) &&
                 visible->getSecond();
        });
    if (has_visible_tag)
      return true;
""")],
"visible-inline-given": [(G, """      if (const auto attrs = annotations.get<NamedDeclAttrs>(decl);
          attrs.has_value() && attrs->visible.has_value()) {
        return *attrs->visible;
      }
      // An unannotated declaration in a "visible" context should be preserved.
      return default_visibility;""", """      const auto attrs = annotations.get<NamedDeclAttrs>(decl);
      if (!attrs.has_value())
        return default_visibility;
      return attrs->visible.value_or(default_visibility);""")],
"visible-decls-loop": [(G, """    return llvm::any_of(decls, [&](const clang::NamedDecl *decl) {
      // Nested declaration contexts that are represented in the graph are taken
      // into account above.
      assert(!DeclContextGraph::accepts(decl));

      // Do not visit implicit declarations, as these cannot have been annotated
      // explicitly by the user.
      if (decl->isImplicit())
        return false;

      return is_visible_given_default_visibility(decl);
    });""", """    for (const clang::NamedDecl *decl : decls) {
      assert(!DeclContextGraph::accepts(decl));
      if (!decl->isImplicit() && is_visible_given_default_visibility(decl))
        return true;
    }
    return false;""")],
"visible-order": [(G, """    if (is_parent_of_context_with_visible_named_decls(node) ||
        contains_visible_named_decls(node))
      result.insert(context);""", """    const bool keep = is_parent_of_context_with_visible_named_decls(node) ||
                      contains_visible_named_decls(node);
    if (!keep)
      continue;
    result.insert(context);""")],
"hide-contains": [(G, """      return attrs.has_value() && !attrs->only_expose_in.empty() &&
             !llvm::any_of(attrs->only_expose_in, [&](llvm::StringRef name) {
               return name == module_name;
             });""", """      if (!attrs.has_value() || attrs->only_expose_in.empty())
        return false;
      return llvm::none_of(attrs->only_expose_in, [&](llvm::StringRef name) {
        return name == module_name;
      });""")],
"hide-is-contained": [(G, """             !llvm::any_of(attrs->only_expose_in, [&](llvm::StringRef name) {
               return name == module_name;
             });""", """             !llvm::is_contained(attrs->only_expose_in, module_name);""")],
"hide-flow": [(G, """    if (!visited.isDominated()) {
      if (!is_namespace_for_different_module())
        continue;
      visited.setDominator(*it);
    }
""", """    const bool dominated = visited.isDominated();
    if (!dominated && !is_namespace_for_different_module())
      continue;
    if (!dominated)
      visited.setDominator(*it);
""")],
"prune-if": [(G, """    const bool should_be_preserved =
        llvm::isa<clang::TagDecl>(decl)
            ? visible->getSecond()
            : contexts_with_visible_decls.count(context) != 0;
""", """    bool should_be_preserved = contexts_with_visible_decls.contains(context);
    if (llvm::isa<clang::TagDecl>(decl))
      should_be_preserved = visible->second;
""")],
"prune-branch": [(G, """    if (!should_be_preserved) {
      it.skipChildren(); // increments the iterator
      continue;
    }

    if (const DeclContextNode *parent = getParentNode(it)) {
      auto *new_node = pruned.getOrInsertNode(decl);
      const clang::Decl *parent_decl = parent->getDecl();
      auto *new_parent = pruned.getOrInsertNode(parent_decl);
      new_parent->addChild(new_node);
    }
    ++it;""", """    if (should_be_preserved) {
      const DeclContextNode *parent = getParentNode(it);
      if (parent != nullptr)
        pruned.getOrInsertNode(parent->getDecl())
            ->addChild(pruned.getOrInsertNode(decl));
      ++it;
    } else {
      it.skipChildren();
    }""")],
"unreachable-flow": [(G, """    const auto *decl = llvm::dyn_cast<clang::NamedDecl>(context);
    if (decl == nullptr || graph.getNode(decl) != nullptr)
      continue;

    // Emit warning on the `expose_here` alias, if the declaration was moved.
    auto it = relocated_decls.find(decl);
    if (it != relocated_decls.end())
      decl = it->getSecond();

    unreachable_decls.push_back(decl);""", """    const auto *decl = llvm::dyn_cast<clang::NamedDecl>(context);
    if (decl == nullptr)
      continue;
    const bool is_reachable = graph.getNode(decl) != nullptr;
    if (is_reachable)
      continue;

    // Emit warning on the `expose_here` alias, if the declaration was moved.
    auto it = relocated_decls.find(decl);
    const bool moved = it != relocated_decls.end();
    unreachable_decls.push_back(moved ? it->second : decl);""")],
"topo-contains": [(G, """    find_predecessors(node, add_predecessor);
    if (num_predecessors[node] == 0)
      ready.push(node);
  }
""", """    find_predecessors(node, add_predecessor);
    const bool is_ready = num_predecessors[node] == 0;
    if (is_ready)
      ready.push(node);
  }
""")],
"topo-order": [(G, """    NodeRef node = ready.top();
    ready.pop();

    auto node_successors""", """    NodeRef node = ready.top();
    ready.pop();
    result.push_back(node);

    auto node_successors"""), (G, """      successors.erase(node_successors);
    }

    result.push_back(node);
  }
""", """      successors.erase(node_successors);
    }
  }
""")],
"topo-decrement": [(G, """        if (--num_predecessors[other] == 0)
          ready.push(other);""", """        int &remaining = num_predecessors[other];
        remaining -= 1;
        if (remaining == 0)
          ready.push(other);""")],
"sorted-transform": [(G, """  for (const DeclContextNode *node : nodes)
    result.push_back(node->getDeclContext());
  return result;""", """  llvm::transform(
      nodes, std::back_inserter(result),
      [](const DeclContextNode *node) { return node->getDeclContext(); });
  return result;""")],
"sorted-bases-if": [(G, """          if (base.getAccessSpecifier() != clang::AS_public)
            continue;
          const clang::TagDecl *base_decl =
              base.getType()->getAsTagDecl()->getDefinition();
          if (const DeclContextNode *base_node = graph.getNode(base_decl)) {
            assert(base_node != nullptr && "base should be in graph");
            add_predecessor(base_node);
          }
""", """          const bool is_public =
              base.getAccessSpecifier() == clang::AS_public;
          if (!is_public)
            continue;
          const clang::TagDecl *base_decl =
              base.getType()->getAsTagDecl()->getDefinition();
          const DeclContextNode *base_node = graph.getNode(base_decl);
          if (base_node != nullptr)
            add_predecessor(base_node);
""")],
"sorted-cycle": [(G, """  bool cycle_detected = nodes.size() != graph.size();
  if (cycle_detected) {
    assert(!nodes.empty());
    if (cycle != nullptr)
      *cycle = nodes.back()->getDeclContext();
    nodes.clear();
  }
  llvm::SmallVector<const clang::DeclContext *, 0> result;
  result.reserve(graph.size());
""", """  llvm::SmallVector<const clang::DeclContext *, 0> result;
  if (nodes.size() != graph.size()) {
    assert(!nodes.empty());
    if (cycle != nullptr)
      *cycle = nodes.back()->getDeclContext();
    return result;
  }
  result.reserve(graph.size());
""")],
"sorted-compare": [(G, """  auto nodes = lexicographicalTopologicalSort(
      &graph, find_predecessors,
      [&](const DeclContextNode *lhs, const DeclContextNode *rhs) {
        // Note: Larger elements are sorted earlier, thus the arguments are
        // swapped here.
        return is_before(rhs->getDecl(), lhs->getDecl());
      });
""", """  auto comes_later = [&](const DeclContextNode *lhs,
                         const DeclContextNode *rhs) {
    return is_before(rhs->getDecl(), lhs->getDecl());
  };
  auto nodes =
      lexicographicalTopologicalSort(&graph, find_predecessors, comes_later);
""")],
"qualifiers-early": [(C, """  clang::QualType qual_type = decl->getUnderlyingType();
  if (qual_type.hasQualifiers())
    Diagnostics::report(decl,
                        Diagnostics::Kind::IgnoringQualifiersOnAliasWarning);""", """  if (!decl->getUnderlyingType().hasQualifiers())
    return;
  Diagnostics::report(decl,
                      Diagnostics::Kind::IgnoringQualifiersOnAliasWarning);""")],
"match-binding": [(C, """  const auto inserted = first_decls.try_emplace(
      llvm::dyn_cast<clang::NamedDecl>(decl->getCanonicalDecl()), decl);
  if (inserted.second) {
    return;
  }
  const clang::NamedDecl *first_decl = inserted.first->second;
  if (!annotations.equal(decl, first_decl)) {""", """  const auto *canonical_decl =
      llvm::dyn_cast<clang::NamedDecl>(decl->getCanonicalDecl());
  const auto [it, is_first] = first_decls.insert({canonical_decl, decl});
  const clang::NamedDecl *first_decl = it->second;
  if (!is_first && !annotations.equal(decl, first_decl)) {""")],
"match-lookup": [(C, """  const auto inserted = first_decls.try_emplace(
      llvm::dyn_cast<clang::NamedDecl>(decl->getCanonicalDecl()), decl);
  if (inserted.second) {
    return;
  }
  const clang::NamedDecl *first_decl = inserted.first->second;
""", """  const auto *key = llvm::dyn_cast<clang::NamedDecl>(decl->getCanonicalDecl());
  auto it = first_decls.find(key);
  if (it == first_decls.end()) {
    first_decls[key] = decl;
    return;
  }
  const clang::NamedDecl *first_decl = it->second;
""")],
"label-plus": [(I, """      result.append(" '");
      result.append(getNameForDisplay(decl));
      result.push_back('\\'');
""", """      result += " '" + getNameForDisplay(decl) + "'";
""")],
"label-spelling": [(I, """        const std::string spelling = !attrs->spelling.empty()
                                         ? attrs->spelling
                                         : getSpelling(named_decl);
""", """        std::string spelling = attrs->spelling;
        if (spelling.empty())
          spelling = getSpelling(named_decl);
""")],
"node-cond": [(D, """  auto it = nodes.find(decl);
  if (it != nodes.end())
    return it->second.get();
  return nullptr;""", """  const auto it = nodes.find(decl);
  return it == nodes.end() ? nullptr : it->second.get();""")],
"node-insert": [(D, """  std::unique_ptr<DeclContextNode> &node_slot = nodes[decl];
  if (!node_slot)
    node_slot = std::make_unique<DeclContextNode>(decl);
  return node_slot.get();""", """  auto &slot = nodes[decl];
  if (slot == nullptr)
    slot.reset(new DeclContextNode(decl));
  return slot.get();""")],
"node-early": [(D, """  std::unique_ptr<DeclContextNode> &node_slot = nodes[decl];
  if (!node_slot)
    node_slot = std::make_unique<DeclContextNode>(decl);
  return node_slot.get();""", """  if (DeclContextNode *existing = getNode(decl))
    return existing;
  auto node = std::make_unique<DeclContextNode>(decl);
  DeclContextNode *result = node.get();
  nodes[decl] = std::move(node);
  return result;""")],
"accepts": [(D, """  const auto *ctx = llvm::dyn_cast_or_null<clang::DeclContext>(declaration);
  return ctx != nullptr && ctx->isLookupContext();""", """  if (declaration == nullptr)
    return false;
  const auto *context = llvm::dyn_cast<clang::DeclContext>(declaration);
  if (context == nullptr)
    return false;
  return context->isLookupContext();""")],
"skip-split": [(CH, """    return decl != nullptr &&
           (!decl->isCompleteDefinition() || decl->isDependentType());""", """    if (decl == nullptr)
      return false;
    if (!decl->isCompleteDefinition())
      return true;
    return decl->isDependentType();""")],
"skip-ns": [(CH, """    return decl != nullptr &&
           (decl->isStdNamespace() || decl->getName().starts_with("__"));""", """    if (decl == nullptr)
      return false;
    const llvm::StringRef name = decl->getName();
    return name.starts_with("__") || decl->isStdNamespace();""")],
"visit-named": [(CH, """    if (shouldSkip(llvm::dyn_cast<clang::TagDecl>(decl)) ||
        decl->getDeclContext()->isDependentContext() || !hasAnnotations(decl))
      return true;
    annotations.insert(decl);
    return true;""", """    const bool relevant = !shouldSkip(llvm::dyn_cast<clang::TagDecl>(decl)) &&
                          !decl->getDeclContext()->isDependentContext() &&
                          hasAnnotations(decl);
    if (relevant)
      annotations.insert(decl);
    return true;""")],
"visit-alias": [(CH, """    if (!hasAnnotations(decl) || decl->getDeclContext()->isDependentContext())
      return true;
    warnIfAliasHasQualifiers(decl);
    aliases.push_back(decl);
    return true;""", """    if (hasAnnotations(decl) && !decl->getDeclContext()->isDependentContext()) {
      aliases.push_back(decl);
      warnIfAliasHasQualifiers(decl);
    }
    return true;""")],
"traverse-ns": [(CH, """    auto before_traversing = annotations.size();
    bool result = RecursiveASTVisitor::TraverseNamespaceDecl(decl);
    bool saw_annotated_decls = annotations.size() != before_traversing;
    if (saw_annotated_decls) {""", """    const auto before = annotations.size();
    const bool result = RecursiveASTVisitor::TraverseNamespaceDecl(decl);
    if (annotations.size() != before) {""")],
"visit-context-helper": [(CH, """  bool VisitNamespaceDecl(const clang::NamespaceDecl *decl) {
    if (shouldSkip(decl))
      return true;
    lookup_contexts.push_back(decl);
    return true;
  }

  bool VisitTagDecl(const clang::TagDecl *decl) {
    if (shouldSkip(decl))
      return true;
    lookup_contexts.push_back(decl);
    return true;
  }""", """  template <typename ContextDecl>
  void collectLookupContext(const ContextDecl *decl) {
    if (!shouldSkip(decl))
      lookup_contexts.push_back(decl);
  }

  bool VisitNamespaceDecl(const clang::NamespaceDecl *decl) {
    collectLookupContext(decl);
    return true;
  }

  bool VisitTagDecl(const clang::TagDecl *decl) {
    collectLookupContext(decl);
    return true;
  }""")],
}
