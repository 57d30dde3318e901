"""The properties, where they are anchored, and the units (functions) whose
guarded effects decide them.

A unit pattern is a regular expression on the qualified name (the prefix
`genpybind::` may be left out).  `name@text` additionally requires `text` in
the mangled name (to tell overloads apart).  `name ~ regex` attributes a
difference in a unit with several responsibilities only if the expression
occurs in the deciding conditions or in the differing effects."""
import re


class P:
    def __init__(self, id, title, statement, over, text, why, files, mech, units, rules=(), note="", observe=()):
        self.id, self.title, self.statement = id, title, statement
        self.over, self.text, self.why = over, text, why
        self.files, self.mech, self.units, self.rules = files, mech, units, rules
        self.note, self.observe = note, list(observe)
        self.pats = []
        self.also(units)

    def also(self, units):
        for u in units:
            u, _, flt = u.partition(" ~ ")
            q, _, key = u.partition("@")
            self.pats.append((re.compile(r"(genpybind::)?(\(anonymous namespace\)::)?(" + q + r")$"), key, re.compile(flt) if flt else None))

    def matches(self, q, key):
        """[filter or None] of the patterns that select the unit."""
        return [f for r, k, f in self.pats if r.match(q) and k in key]


A = "src/annotated_decl.cpp"
E = "src/expose.cpp"
G = "src/decl_context_graph_processing.cpp"
B = "src/decl_context_graph_builder.cpp"
V = "src/visible_decls.cpp"
TOOL = "src/tool.cpp"
PARSER = "src/annotations/parser.cpp"
LIT = "src/annotations/literal_value.cpp"

ANN_CORE = [r"AnnotationStorage::.*", "hasAnnotations", "parseAnnotations"]
DISPATCH = [r"ArgumentsDispatcher::.*"]
EMIT_LIT = ["emitStringLiteral", "emitSpelling", "getSpelling"]
TU = r"GenpybindASTConsumer::HandleTranslationUnit"
MOD = r"TranslationUnitExposer::emitModule"
REC = r"RecordExposer::handleDeclImpl"
DCI = r"DeclContextExposer::handleDeclImpl"

ALL = []


def prop(*a, **k):
    ALL.append(P(*a, **k))


PROGRAMS = "Every C++ header clang accepts, with every placement and combination of annotations."

prop("P01", "Opt-in visibility with inheritance from the enclosing scope",
     "A declaration appears in the generated bindings if and only if it is effectively visible: its own explicit setting decides, any "
     "other annotation implies visible, and otherwise the setting of the enclosing scope is inherited, starting from hidden at the top level. "
     "Namespaces are not made visible by other annotations, type aliases never inherit, protected and private scopes reset the inherited "
     "default to hidden, and a hidden class conceals everything nested in it.",
     ["programs"], PROGRAMS + " In particular every nesting of namespaces, classes, aliases and relocated declarations.",
     "Visibility is a function of the whole chain of enclosing declarations and their annotations; the integration tests sample a few dozen chains.",
     [G, E, A, B, TOOL],
     [("effective visibility of every scope, parents first", G + ":deriveEffectiveVisibility"),
      ("implied visibility of annotated declarations", A + ":AnnotationStorage::insert"),
      ("per-declaration test before anything is emitted", E + ":DeclContextExposer::handleDecl"),
      ("pruning of scopes without visible content", G + ":declContextsWithVisibleNamedDecls, pruneGraph")],
     ["deriveEffectiveVisibility", r"DeclContextExposer::handleDecl", DCI + r" ~ TypedefNameDeclAttrs|visible", MOD + r" ~ visib|handleDecl|annotations",
      "declContextsWithVisibleNamedDecls", "pruneGraph", "getParentNode", "processAnnotation@_14NamedDeclAttrs", "propagateAnnotations",
      r"DeclContextGraphBuilder::buildGraph", TU + r" ~ visib|prune|deriveEff", r"NamedDeclAttrs::.*", r"GraphTraits::.*", "llvm::GraphTraits::.*",
      r"DeclContextNode::.*", r"DeclContextGraph::.*", r"LookupContextCollector::.*", r"reachableDeclContexts"] + ANN_CORE)

prop("P02", "Only accessible, reachable declarations are collected",
     "Members that are private or protected, hidden by another declaration of the same name, deleted, or only declared in a base class that is "
     "not inlined are never referenced by the generated code. Declarations brought in by a using-declaration are exposed as their target, "
     "and public declarations that can be named in the scope are not lost.",
     ["programs"], "Every class hierarchy, access specifier, using-declaration and name-hiding relation.",
     "The set of declarations found is the result of name lookup over arbitrary hierarchies; tests contain a handful of them and generated code that refers to an inaccessible member fails only when compiled.",
     [V, E],
     [("filter applied to every declaration found by lookup", V + ":ExposableDeclConsumer::FoundDecl"),
      ("bases that are inlined or hidden", V + ":RecordInliningPolicy"),
      ("deleted functions", E + ":handleDeclImpl")],
     [r"ExposableDeclConsumer::.*", r"collectVisibleDeclsFromDeclContext", r"RecordInliningPolicy::.*", MOD + r" ~ collectVisible|specializations|decls|handleDecl",
      r"RecordExposer::inliningPolicy", r"DeclContextExposer::inliningPolicy", r"DeclContextExposer::create", DCI + r" ~ isDeleted", REC + r" ~ isDeleted|isMoveConstructor|isAbstract",
      r"DeclContextGraph::accepts"])

prop("P03", "Annotation text is parsed completely and exactly",
     "For every annotation text the parser either yields exactly the listed annotations with their literal arguments in order, or reports one error that "
     "points at the offending token; it never skips, truncates or invents text. Identifiers, quoted strings with escapes, unsigned numbers that fit, the "
     "boolean, default and empty literals are told apart the same way in every position.",
     ["inputs"], "All annotation strings, including unterminated literals, numbers out of range, stray tokens and every placement of commas and parentheses.",
     "The language of annotation strings is infinite; the unit tests list about a hundred of them.",
     [PARSER, LIT, "src/annotations/annotation.cpp", "include/genpybind/annotations/parser.h", "include/genpybind/annotations/annotations.def"],
     [("tokenizer", PARSER + ":Parser::Tokenizer"), ("recursive descent parser", PARSER + ":Parser::parseAnnotations"),
      ("error reporting", PARSER + ":Parser::Error::report")],
     [r"annotations::Parser::.*", r"isIdentifierStart", r"isIdentifierContinue", r"getCustomDiagID@Parser", r"annotations::AnnotationKind::.*", r"annotations::Annotation::.*",
      r"annotations::toString.*", r"annotations::LiteralValue::(create|set|get|is).*", "parseAnnotations", "hasAnnotations"])

prop("P04", "Literal values keep their kind and content through every copy",
     "A literal value always reports exactly the kind and content it was last given, after any sequence of copies, moves, assignments, "
     "self-assignments and changes of kind. Two values compare equal exactly if kind and content agree, and text is printed so that it denotes the same value.",
     ["histories", "inputs"], "Every sequence of construction, copy, move, assignment and mutation, over all kinds.",
     "The value is a hand-written tagged union with manual construction and destruction; tests exercise single transitions only.",
     [LIT, "include/genpybind/annotations/literal_value.h"],
     [("tagged union", LIT + ":LiteralValue")],
     [r"annotations::LiteralValue::.*", r"annotations::toString.*", r"annotations::PrintTo", r"annotations::operator[!=]=.*"])

prop("P05", "Annotations are accepted only where and with the arguments they allow",
     "Each annotation takes effect only on the kinds of declarations it is meant for and only with the number and type of arguments it is defined for; names given as "
     "spelling must be valid identifiers. Every other use is reported as an error and none is silently ignored or applied.",
     ["programs", "inputs"], "Every pairing of an annotation with a kind of declaration and every list of argument literals.",
     "About thirty annotations times ten kinds of declarations times all argument lists; the tests cover selected pairs.",
     [A, "include/genpybind/annotated_decl.h", "src/string_utils.cpp", "src/diagnostics.cpp"],
     [("per-kind handlers", A + ":processAnnotation"), ("argument matching", A + ":ArgumentsDispatcher"), ("unhandled annotations", A + ":AnnotationStorage::insert")],
     [r"processAnnotation", r"[A-Za-z]*Attrs::supports", "isValidIdentifier", "friendlyName", r"report[A-Z].*Error", r"Diagnostics::report", "getCustomDiagID", "aliasTarget",
      r"[A-Za-z]*Attrs::\(ctor\)", r"annotations::AnnotationKind::.*"] + DISPATCH + ANN_CORE)

prop("P06", "Errors never end in success or leave output behind",
     "Whenever any problem classified as an error is found, in the input, the annotations or the structure of the bindings, the tool exits with a failure status and leaves no "
     "output file behind, unless keeping it was requested. Without errors it exits successfully and every requested output file is written; warnings never change the result.",
     ["programs", "fault_sequences"], "Every input, every kind of diagnostic and every point at which it is found, including output that cannot be created.",
     "There are twenty kinds of own diagnostics and all of clang's, raised at many points of the pipeline; tests check the message of some of them.",
     [TOOL, "src/diagnostics.cpp", B, G, E],
     [("severity of every diagnostic", "src/diagnostics.cpp:getCustomDiagID"), ("early exits", TOOL + ":GenpybindASTConsumer::HandleTranslationUnit"),
      ("removal of output", TOOL + ":GenpybindAction::shouldEraseOutputFiles"), ("exit status", TOOL + ":main")],
     [r"Diagnostics::report", "getCustomDiagID", TU + r" ~ createOutputFile|has_value|report|output|buildGraph|stream", r"GenpybindAction::.*", "main", r"DeclContextGraphBuilder::buildGraph",
      "reportExposeHereCycles", MOD + r" ~ report|Cycle|Error", r"RecordExposer::emitProperties ~ report|Error", REC + r" ~ report|Error", "emitParameters ~ report|Error", r"report[A-Z].*Error",
      r"LookupContextCollector::errorIf.*", r"DeclContextGraphBuilder::addEdge.*", r"annotations::Parser::Error::.*", "parseAnnotations", "OutputFilenameParser::.*",
      r"PragmaGenpybindHandler::HandlePragma ~ Diag", "processAnnotation ~ report|Error", r"[A-Za-z]*Attrs::supports ~ report|Error", "AnnotationStorage::insert ~ report|Error|trap"])

prop("P07", "Output is deterministic and follows declaration order",
     "Running the tool twice on the same input produces identical output and identical diagnostics in the same order. Within a scope, bindings are emitted in the order of declaration, "
     "and scopes, manual bindings and diagnostics follow source order wherever dependencies allow; nothing depends on addresses or hash order.",
     ["programs", "configurations"], "Every input and every memory layout of the process.",
     "A run of the tests sees one memory layout; an order that depends on pointer values shows up only in some runs and on larger inputs.",
     ["src/sort_decls.cpp", E, G, "include/genpybind/annotated_decl.h", "include/genpybind/decl_context_graph.h"],
     [("source order with tie-break", "src/sort_decls.cpp:IsBeforeInTranslationUnit"), ("sorting before emission", E + ":TranslationUnitExposer::emitModule"),
      ("ready queue ordered by source position", G + ":lexicographicalTopologicalSort")],
     [r"IsBeforeInTranslationUnit::.*", MOD + r" ~ sort|IsBefore|decls|loop|postamble", "declContextsSortedByDependencies", "reportExposeHereCycles", "reportUnreachableVisibleDeclContexts",
      r"RecordExposer::emitProperties", r"RecordInliningPolicy::.*", "emitPolicies", r"DeclContextNode::.*", r"DeclContextGraph::.*", r"DiscriminateIdentifiers::.*",
      r"PragmaGenpybindHandler::getIncludes"],
     rules=("unordered-iteration", "ordered-fields"))

prop("P08", "Parameter options reach exactly the named parameter",
     "Every function, method and constructor is bound with one argument description per parameter, in order, carrying the parameter's name and its default value if it has one. "
     "Options that forbid conversion or None apply to exactly the parameters named in the annotation, variadic Python argument parameters get no description, and keyword "
     "arguments have to come last.",
     ["programs"], "Every signature and every list of parameter names in annotations.",
     "Association is by position over arbitrary signatures (static, member, constructor, variadic); tests name a first or second parameter of a few signatures.",
     [E, A], [("argument descriptions", E + ":emitParameters"), ("parameter lookup by name", A + ":processAnnotation(FunctionDeclAttrs)"),
              ("instantiation of default arguments", "src/instantiate_default_arguments.cpp")],
     ["emitParameters", "getPybind11ArgsType", "processAnnotation@_17FunctionDeclAttrs", r"InstantiateDefaultArgumentsASTConsumer::.*", DCI + r" ~ emitParameters|FunctionDeclAttrs|def",
      REC + r" ~ emitParameters|pybind11::init", r"FunctionDeclAttrs::.*", "emitStringLiteral"] + DISPATCH)

prop("P09", "Lifetime and return policies refer to the right objects",
     "A lifetime annotation names two of return value, instance and parameters and is emitted with the positions pybind11 assigns to them: the return value is zero, the instance of non-static members and constructors is one, "
     "parameters follow. Names that do not exist are errors, and the return value policy is passed on verbatim; both are emitted for every bound function that has them.",
     ["programs"], "Every function, static or not, every pair of names and every number of such annotations.",
     "The positions depend on the kind of function; the tests cover one method, one function and one constructor.",
     [A, E], [("name to position", A + ":processAnnotation(FunctionDeclAttrs)"), ("emission", E + ":emitPolicies")],
     ["emitPolicies", "processAnnotation@_17FunctionDeclAttrs", DCI + r" ~ emitPolicies|FunctionDeclAttrs", REC + r" ~ emitPolicies|pybind11::init", r"FunctionDeclAttrs::.*"] + DISPATCH)

prop("P10", "Operators map to the matching Python special methods",
     "Each overloaded operator with a Python counterpart is bound under exactly that special method, reflected when the class is only the right operand, and the wrapper evaluates the operator with its operands "
     "in the original order. Operators without counterpart are not bound, unary and binary forms are told apart, stream output is bound only on request, and operators found in associated namespaces are bound only if they take the class itself.",
     ["programs"], "Every overloadable operator, as member or free function, unary or binary, with the class as left or right operand.",
     "About forty operators times member or free times operand position; tests check many of the names but not each combination and operand order.",
     [E], [("name tables", E + ":pythonUnaryOperatorName, pythonBinaryOperatorName"), ("emission", E + ":RecordExposer::emitOperator, emitOperatorDefinition"),
           ("free operators", E + ":collectOperatorDeclsViaArgumentDependentLookup"), ("stream output", E + ":isOstreamOperator")],
     ["pythonUnaryOperatorName", "pythonBinaryOperatorName", r"RecordExposer::emitOperator.*", "isOstreamOperator", "collectOperatorDeclsViaArgumentDependentLookup",
      REC + r" ~ Operator|OO_|string_from_lshift", MOD + r" ~ ArgumentDependentLookup", "OperatorDeclAttrs::supports", "MethodDeclAttrs::supports", "string_from_lshift"])

prop("P11", "Every emitted name is a valid, unique identifier and text is escaped",
     "Names of generated variables and functions are valid C++ identifiers and different scopes never share one; Python names are the chosen spelling or one derived from the C++ name with all invalid characters replaced. "
     "Text taken from the input (spellings, documentation, parameter names) only appears inside properly escaped string literals.",
     ["programs", "inputs"], "Every qualified name, template argument list, comment text and pair of scopes whose names coincide after replacement.",
     "Collisions and special characters arise from combinations of names; tests contain a few.",
     [E, A, "src/string_utils.cpp", TOOL], [("replacement of invalid characters", "src/string_utils.cpp:makeValidIdentifier"), ("unique identifiers", E + ":DiscriminateIdentifiers"),
                                      ("escaping", E + ":emitStringLiteral")],
     ["makeValidIdentifier", "isValidIdentifier", r"DiscriminateIdentifiers::.*", "emitStringLiteral", "emitSpelling", "getSpelling", MOD + r" ~ identifier|discriminate|makeValid|Identifier",
      TU + r" ~ makeValid|g_module_name|stem", "getFullyQualifiedName", "propagateAnnotations", "processAnnotation@_14NamedDeclAttrs", r"isIdentifier(Start|Continue)",
      r".*Exposer::emitIntroducer", r"RecordExposer::emitProperties"])

prop("P12", "Relocated types are exposed exactly once, at the requested place",
     "A type named by an alias with a relocation annotation is exposed in the scope of that alias, under the alias's name and visibility, and no longer at its original place. "
     "Relocating one type twice and relocations that contain each other are errors; a plain visible alias only becomes an attribute that refers to its target, and an encouraging alias makes its target visible in place.",
     ["programs"], "Every set of aliases and targets, including templates, nested types and chains of relocations.",
     "The outcome depends on the whole graph of aliases; tests sample small ones.",
     [B, A, E, G], [("edges for relocated types", B + ":DeclContextGraphBuilder"), ("propagation of name and visibility", A + ":propagateAnnotations"),
                    ("alias attributes", E + ":DeclContextExposer::handleDeclImpl"), ("cycles", G + ":reportExposeHereCycles")],
     [r"DeclContextGraphBuilder::.*", "findLookupContextDecl", "propagateAnnotations", DCI + r" ~ Typedef|alias|getObjectForType", "reportExposeHereCycles", "reachableDeclContexts", "aliasTarget",
      "processAnnotation@_20TypedefNameDeclAttrs", "TypedefNameDeclAttrs::.*", r"LookupContextCollector::.*", TU + r" ~ Cycle|buildGraph|Relocated", r"DeclContextGraph::.*", r"DeclContextNode::.*",
      "getObjectForType"] + ANN_CORE)

prop("P13", "Scopes are created after everything they depend on",
     "In the generated module every scope object is created exactly once, after its enclosing scope and after all exposed public base classes, and is attached to the nearest enclosing class, submodule or module. "
     "Transparent namespaces do not appear, submodules do, and circular dependencies are reported instead of producing incomplete output.",
     ["programs"], "Every nesting of namespaces, submodules and classes and every inheritance graph.",
     "Ordering is a topological sort over arbitrary graphs; a wrong order fails at import time of the generated module only for particular inputs.",
     [G, E], [("enclosing scopes", G + ":findEnclosingScopes"), ("dependency order", G + ":declContextsSortedByDependencies"), ("introducers", E + ":emitIntroducer")],
     ["findEnclosingScopes", "getParentNode", "declContextsSortedByDependencies", MOD + r" ~ parent|sorted|Introducer|cycle|Sorted|identifier", r".*Exposer::emitIntroducer", r"DeclContextExposer::create",
      r"DeclContextNode::.*", r"DeclContextGraph::.*", r"(llvm::)?GraphTraits::.*", "processAnnotation@_18NamespaceDeclAttrs", "NamespaceDeclAttrs::supports", r"(llvm::)?GraphTraits::.*"])

prop("P14", "Visible declarations that cannot be exposed are reported, not lost",
     "A class is part of the bindings only if it is effectively visible and a namespace only if something visible remains inside it; a scope that is left out takes everything below it along, and every scope that is kept has all its ancestors kept. "
     "Visible declarations that end up in a scope that is not exposed produce a warning naming that scope.",
     ["programs"], "Every tree of scopes with any assignment of visibilities.",
     "Pruning depends on the whole subtree below and the path above each scope; tests sample some trees.",
     [G, TOOL], [("visible content", G + ":declContextsWithVisibleNamedDecls"), ("pruning", G + ":pruneGraph"), ("warning", G + ":reportUnreachableVisibleDeclContexts")],
     ["declContextsWithVisibleNamedDecls", "pruneGraph", "getParentNode", "reportUnreachableVisibleDeclContexts", TU + r" ~ prune|Unreachable|Visible", "getNameForDisplay", r"DeclContextGraph::.*", r"DeclContextNode::.*",
      r"(llvm::)?GraphTraits::.*", "getCustomDiagID ~ Unreachable"])

prop("P15", "Namespaces restricted to other modules contribute nothing",
     "A namespace that is restricted to certain modules contributes, together with everything nested in it at any depth, nothing to the bindings of any other module, and is unaffected in the modules it names. "
     "Siblings visited before or after such a namespace are unaffected; the module name is the one given or derived from the input file.",
     ["programs", "configurations"], "Every tree of namespaces with any restrictions and every module name.",
     "The restriction is tracked during a traversal; leaking into siblings or missing deep descendants needs particular trees.",
     [G, TOOL, A], [("traversal with dominating namespace", G + ":hideNamespacesBasedOnExposeInAnnotation"), ("module name", TOOL + ":HandleTranslationUnit")],
     ["hideNamespacesBasedOnExposeInAnnotation", r"(hideNamespacesBasedOnExposeInAnnotation::)?TrackVisitedAndDominator::.*", TU + r" ~ hideNamespaces|g_module_name|stem", "processAnnotation@_18NamespaceDeclAttrs", "makeValidIdentifier",
      "pruneGraph", "NamespaceDeclAttrs::.*"] + DISPATCH)

prop("P16", "Split output is complete and consistent",
     "For any number of output files, every scope's binding function is declared and called exactly once in the module definition, which is emitted once in the first file, and is defined exactly once in exactly one file. "
     "Every file starts with the same includes, scopes are distributed over the files in consecutive, balanced chunks, and the parts together contain what a single file would.",
     ["programs", "configurations"], "Every number of scopes and output files, including more files than scopes.",
     "The distribution is arithmetic over two unbounded counts; tests use two or three combinations.",
     [E, TOOL], [("module emission", E + ":TranslationUnitExposer::emitModule"), ("streams and prologue", TOOL + ":HandleTranslationUnit")],
     [MOD, TU + r" ~ output|include|stream|Stream", r".*Exposer::emitParameter", r"DiscriminateIdentifiers::.*", "main ~ output", "OutputFilenameParser::.*"])

prop("P17", "Reopened namespaces carry consistent annotations",
     "If a namespace is opened several times and contains annotated declarations, its annotations have to agree with those of its first such occurrence, and disagreement is an error that names both. "
     "Occurrences without annotated content and implementation namespaces are never checked, and each namespace is exposed once however often it is opened.",
     ["programs"], "Every sequence of namespace openings with any annotations and contents.",
     "The comparison covers all annotation fields over arbitrary sequences of reopenings; tests use single pairs.",
     ["src/lookup_context_collector.cpp", "include/genpybind/lookup_context_collector.h", A, E],
     [("comparison with the first declaration", "src/lookup_context_collector.cpp:errorIfAnnotationsDoNotMatchFirstDecl"), ("field-wise equality", "include/genpybind/annotated_decl.h:operator=="),
      ("one exposer per namespace", E + ":emitModule")],
     [r"LookupContextCollector::.*", r"AnnotationStorage::(equal|size|has|get|lookup|insert).*", r"operator==", MOD + r" ~ covered_namespaces|getCanonicalDecl"])

prop("P18", "Enumerations expose all enumerators and honour their options",
     "A visible enumeration is bound with its qualified type, its name and documentation, and one entry per visible enumerator that refers to that enumerator. "
     "Values are exported to the enclosing scope by default exactly for unscoped enumerations, unless the annotation says otherwise, and arithmetic is enabled exactly on request.",
     ["programs"], "Every enumeration, scoped or not, annotated or not, with any option values.",
     "Options combine with scopedness and with the presence of any annotation; tests cover some combinations.",
     [E, A], [("emission", E + ":EnumExposer"), ("options", A + ":processAnnotation(EnumDeclAttrs)")],
     [r"EnumExposer::.*", "processAnnotation@_13EnumDeclAttrs", "EnumDeclAttrs::.*", "emitSpelling", "getBriefText"] + DISPATCH)

prop("P19", "Classes list exactly their exposed public bases and options",
     "A class is bound with its qualified type, followed by each exposed, public base class that is neither hidden nor inlined, including such bases of inlined bases, and then its holder type if one was given; dynamic attributes are enabled exactly on request. "
     "Members of inlined bases, reachable through public inheritance that passes no hidden base, are bound as if they were members of the class; hiding or inlining without names applies to all bases and unknown names are warned about.",
     ["programs"], "Every inheritance graph, access specifier and combination of hide and inline annotations on every level.",
     "The result depends on all paths through the inheritance graph; tests sample few.",
     [E, V, A], [("template arguments", E + ":RecordExposer::emitType"), ("inlining policy", V + ":RecordInliningPolicy"), ("options", A + ":processAnnotation(RecordDeclAttrs)")],
     [r"RecordExposer::(emitType|emitIntroducer|emitParameter|inliningPolicy|\(ctor\))", r"RecordInliningPolicy::.*", "processAnnotation@_15RecordDeclAttrs", "RecordDeclAttrs::.*", r"ExposableDeclConsumer::shouldInlineDecl",
      r"ExposableDeclConsumer::FoundDecl ~ base|shouldInline|inlin", "getFullyQualifiedName", "DeclContextExposer::create", "getBriefText"] + DISPATCH)

prop("P20", "Variables are bound read-only or writable as declared",
     "A constant member, or one annotated as read-only, is bound read-only and every other one writable, as static exactly if it belongs to the class rather than the instance, and under its own address. "
     "Variables outside of classes become attributes holding their value.",
     ["programs"], "Every field, static member and namespace-scope variable of any type and annotation.",
     "Constness, staticness and annotation combine; a writable binding of a read-only member is accepted by the tests that only read it.",
     [E, A], [("members", E + ":RecordExposer::handleDeclImpl"), ("other variables", E + ":DeclContextExposer::handleDeclImpl"), ("options", A + ":processAnnotation(FieldOrVarDeclAttrs)")],
     [REC + r" ~ FieldOrVar|def_read|readonly", DCI + r" ~ FieldOrVar|context.attr", "processAnnotation@_19FieldOrVarDeclAttrs", "FieldOrVarDeclAttrs::.*", "emitSpelling"] + DISPATCH)

prop("P21", "Properties combine the right accessors",
     "For each property name the bindings contain one property that uses exactly the annotated getter and, if there is one, the annotated setter, and is read-only otherwise; accessors are not bound as methods as well. "
     "A second getter or setter for the same name, a setter without getter and accessors with unsuitable signatures are errors.",
     ["programs"], "Every set of accessor annotations on the methods of a class, including several names per method.",
     "Accessors are collected across the whole class before emission; tests contain a few properties.",
     [E, A], [("collection", E + ":RecordExposer::handleDeclImpl"), ("emission", E + ":RecordExposer::emitProperties"), ("signatures", A + ":processAnnotation(MethodDeclAttrs)")],
     [r"RecordExposer::(emitProperties|finalizeDefinition)", REC + r" ~ MethodDeclAttrs|propert|getter|setter", DCI + r" ~ MethodDeclAttrs|getter|setter", "processAnnotation@_15MethodDeclAttrs",
      "MethodDeclAttrs::.*", "emitFunctionPointer", "getCustomDiagID ~ Property"] + DISPATCH)

prop("P22", "Constructors are bound only when they can be called",
     "Every visible constructor of a class that can be instantiated is bound with its exact parameter types, documentation, argument descriptions and policies; constructors of abstract classes, deleted ones and move constructors are not. "
     "An implicit conversion is registered exactly for constructors annotated so, from the single parameter's type to the class, and the annotation is an error on anything but a converting constructor with one parameter.",
     ["programs"], "Every class, abstract or not, with every kind of constructor, including inherited and implicit ones.",
     "Binding a constructor that cannot be called fails only when the generated code is compiled, for inputs the tests do not contain.",
     [E, A, V], [("emission", E + ":RecordExposer::handleDeclImpl"), ("signature check", A + ":processAnnotation(ConstructorDeclAttrs)")],
     [REC + r" ~ Constructor|pybind11::init|implicitly", "processAnnotation@_20ConstructorDeclAttrs", "ConstructorDeclAttrs::.*", "emitParameterTypes", r"ExposableDeclConsumer::(isConstructor|shouldInlineDecl)",
      "getDocstring", "emitParameters", "emitPolicies"] + DISPATCH)

prop("P23", "Functions are bound by their exact signature",
     "Each visible function, member function or template specialization that is not deleted is bound under its name, as a static function exactly for static members, through a cast to its exact parameter types and constness, with its template arguments and its documentation. "
     "Call operators are bound as callable objects, and overloads are kept apart.",
     ["programs"], "Every function signature, template specialization, overload set and comment.",
     "The cast has to reproduce arbitrary parameter types; a wrong one selects another overload or fails to compile only for particular signatures.",
     [E], [("emission", E + ":DeclContextExposer::handleDeclImpl"), ("function pointer", E + ":emitFunctionPointer"), ("parameter types", E + ":emitParameterTypes")],
     [DCI + r" ~ FunctionDeclAttrs|context.def|isStatic|__call__", "emitFunctionPointer", "emitParameterTypes", "getDocstring", "getBriefText", "getPrintingPolicyForExposedNames", "FunctionDeclAttrs::supports",
      "MethodDeclAttrs::supports", "ConversionFunctionDeclAttrs::supports", "OperatorDeclAttrs::supports", MOD + r" ~ specializations|handle_decl|handleDecl", r"DeclContextExposer::(emitIntroducer|emitParameter|finalizeDefinition|create)",
      REC + r" ~ DeclContextExposer::handleDeclImpl", "emitSpelling"])

prop("P24", "Types, names and default values are written fully qualified",
     "Type names, function names and the names and types inside default values that the tool prints itself are qualified from the global namespace, including template arguments and braced initializers, so that they denote the same entity in the generated file. "
     "All parts of a printed default expression are kept, in order.",
     ["programs"], "Every type and every default argument expression.",
     "Expressions are printed by cases over clang's expression classes; tests contain a dozen expressions.",
     [E], [("default values", E + ":AttemptFullQualificationPrinter"), ("types", E + ":getFullyQualifiedName"), ("printing policy", E + ":getPrintingPolicyForExposedNames")],
     [r"AttemptFullQualificationPrinter::.*", "getFullyQualifiedName", "getPrintingPolicyForExposedNames", "emitParameterTypes", "emitFunctionPointer", r"RecordExposer::emitOperatorDefinition", r"EnumExposer::(emitType|handleDeclImpl)",
      r"RecordExposer::emitType", REC + r" ~ getFullyQualifiedName|printQualifiedName", DCI + r" ~ getFullyQualifiedName|printQualifiedName", "emitParameters ~ printPretty|Default"],
     note="Decides which names and sub-expressions are printed, in which order and through which printing policy; that clang's own printer preserves meaning is trusted.")

prop("P25", "Manual bindings are emitted once, in order, at the right place",
     "Each block of manual binding code is emitted exactly once: inside the binding function of its scope in declaration order, or, if marked as postamble at global scope, after all generated bindings. "
     "Its body is emitted unchanged with access to the scope's object whenever it uses it; blocks inside hidden classes are not emitted, and the markers are errors on anything that is not such a block.",
     ["programs"], "Every set and placement of manual blocks.",
     "Placement depends on scope, order and markers; tests contain three blocks.",
     [E, A, "public/genpybind/genpybind.h"], [("emission", E + ":emitManualBindings"), ("postamble", E + ":TranslationUnitExposer::emitModule"), ("recognition", A + ":processAnnotation(FieldOrVarDeclAttrs)")],
     ["emitManualBindings", MOD + r" ~ postamble|manual_bindings|emitManual", REC + r" ~ manual_bindings|emitManual", DCI + r" ~ manual_bindings|emitManual|postamble", "processAnnotation@_19FieldOrVarDeclAttrs", "FieldOrVarDeclAttrs::.*"] + DISPATCH)

prop("P26", "Extra includes are passed on exactly and checked",
     "Every include requested by pragma is processed during analysis and appears in each output file, with its original spelling and delimiters, in order and after the standard ones. "
     "Malformed pragmas are errors and add nothing.",
     ["inputs"], "Every pragma text.", "Pragma text is arbitrary; tests cover a few spellings.",
     ["src/pragmas.cpp", TOOL], [("pragma handler", "src/pragmas.cpp:PragmaGenpybindHandler"), ("prologue", TOOL + ":HandleTranslationUnit")],
     [r"PragmaGenpybindHandler::.*", TU + r" ~ include|getIncludes|pragma", r"GenpybindAction::.*"])

prop("P27", "Annotated template instantiations are complete before exposure",
     "Every class template specialization that is annotated, or is the target of an annotated alias, is fully instantiated with all members before bindings are generated, including those only found inside other instantiations; each is instantiated once. "
     "Explicit specializations and already instantiated ones are left as they are, and default arguments of exposed functions are instantiated.",
     ["programs"], "Every set of templates, aliases and instantiations, including ones that trigger further instantiations.",
     "Discovery is a fixpoint over instantiations; tests contain two levels.",
     ["src/instantiate_annotated_templates.cpp", "src/instantiate_default_arguments.cpp", TOOL], [("worklist", "src/instantiate_annotated_templates.cpp"), ("default arguments", "src/instantiate_default_arguments.cpp"), ("order of passes", TOOL + ":CreateASTConsumer")],
     [r"InstantiateAnnotatedTemplatesASTConsumer::.*", r"InstantiateDefaultArgumentsASTConsumer::.*", r"GenpybindAction::CreateASTConsumer", r"GenpybindASTConsumer::(InitializeSema|ForgetSema|\(ctor\))", "hasAnnotations",
      r"LookupContextCollector::should.*"])

prop("P28", "Input is always analysed as C++17 or later with the annotations enabled",
     "Whatever the compilation command says, the input is parsed as C++ of standard 17 or a later one given explicitly, keeping its dialect, with annotation support enabled, a resource directory if one can be found and none was given, and all other arguments unchanged and in order. "
     "The input's name, the module name and the output files default as documented.",
     ["configurations"], "Every compilation command and every combination of options.",
     "Command lines are arbitrary sequences of arguments; tests run a few of them.",
     [TOOL], [("language standard", TOOL + ":getCpp17OrLaterAdjuster"), ("resource directory", TOOL + ":getDefaultResourceDirAdjuster"), ("option handling", TOOL + ":main")],
     ["getCpp17OrLaterAdjuster", "getDefaultResourceDirAdjuster", "findClangExecutable", "findResourceDir", "main", TU + r" ~ g_module_name|stem|main_file", "OutputFilenameParser::.*", r"GenpybindAction::.*"])

prop("P29", "Annotation macros vanish in normal builds and carry exact text in analysis",
     "Without the analysis define, annotating a declaration has no effect on the program and manual blocks disappear. With it, every annotation becomes one attribute that carries the marker and the exact argument text, and every manual block becomes one uniquely named declaration "
     "that holds the given code and is marked as manual.",
     ["programs"], "Every declaration and every argument text.",
     "Macros apply to arbitrary token sequences (commas, strings, nested macros); tests always analyse with the define set.",
     ["public/genpybind/genpybind.h", A], [("macros", "public/genpybind/genpybind.h"), ("marker", A + ":hasAnnotations")],
     ["hasAnnotations", "parseAnnotations"], rules=("macros",))

prop("P30", "Runtime helpers of generated code behave as promised",
     "The helper used for type aliases returns the registered Python type of the requested C++ type, and warns and yields None without raising if there is none; the helper used for stream output returns exactly what the stream operator writes.",
     ["programs", "configurations"], "Every C++ type, registered or not, and every stream operator.",
     "Helpers are templates instantiated for arbitrary types; tests instantiate them for two or three.",
     ["public/genpybind/binding-helpers.h"], [("alias targets", "public/genpybind/binding-helpers.h:getObjectForType"), ("stream output", "public/genpybind/binding-helpers.h:string_from_lshift")],
     ["getObjectForType", "string_from_lshift"])

prop("P31", "Graph inspection shows the real state and changes nothing",
     "Printing the scope graph shows every scope with its kind, name, effective visibility and nesting, at the requested stage, and nothing else; asking for it changes neither the bindings nor the exit status.",
     ["programs", "configurations"], "Every input and inspection stage.",
     "The tests compare a few printed graphs.",
     ["src/inspect_graph.cpp", TOOL], [("printer", "src/inspect_graph.cpp"), ("stages", TOOL + ":inspectGraph")],
     [r"GraphPrinter::.*", r"DeclContextGraphWithAnnotations::.*", r"(llvm::)?DOTGraphTraits::.*", "printGraph", "viewGraph", "inspectGraph", "graphTitle", "getInspectGraphValues", "getNameForDisplay", TU + r" ~ inspectGraph|g_dump_graph|g_inspect|errs\(\)|printGraph|viewGraph", r"(llvm::)?GraphTraits::.*"])

NA = [
    P("N01", "Bindings behave like the C++ interface at run time",
      "Calling a bound function from Python has the effect and result of the corresponding C++ call, including conversions, ownership and exceptions.",
      ["programs", "histories"], "Every header, every call sequence from Python.",
      "Depends on pybind11, the user's code and the Python runtime.", [E, "public/genpybind/binding-helpers.h"], [("generated code", E)], [],
      note="The behaviour is that of compiled generated code inside pybind11 and CPython on user-supplied classes; it is no property of this repository's source that a static analysis of it can decide (the structural part, what is emitted for what, is P01-P30)."),
    P("N02", "Generated code compiles for every accepted header",
      "If the tool succeeds, the generated files compile and link against the annotated header and pybind11.",
      ["programs"], "Every header accepted by clang.",
      "Quantifies over all C++ programs and their overload resolution.", [E], [("emission", E)], [],
      note="Needs the semantics of C++ overload resolution, type printing in clang and pybind11's templates for arbitrary programs (the README documents that qualification is incomplete); only the listed structural parts are decided."),
    P("N03", "Pretty-printed default expressions preserve their meaning",
      "A default value printed into the bindings evaluates to the same value as in the header.",
      ["programs"], "Every default argument expression.",
      "Depends on clang's statement printer for all expression kinds.", [E], [("printer helper", E + ":AttemptFullQualificationPrinter")], [],
      note="Most of the printing is done by clang's StmtPrinter, outside this repository, and the README lists incomplete qualification as a known shortcoming; P24 decides the part implemented here."),
]
for _p in ALL:
    if _p.id in ("P06", "P15", "P16", "P28", "P31"):
        _p.rules = _p.rules + ("options",)
# functions that take part in a property beside those it is anchored in
ALSO = {
    "P01": [r"DeclContextExposer::create", REC + r" ~ visible", "hideNamespacesBasedOnExposeInAnnotation", r"EnumExposer::handleDeclImpl"],
    "P02": [r"DeclContextExposer::handleDecl", "collectOperatorDeclsViaArgumentDependentLookup", "declContextsWithVisibleNamedDecls", REC + r" ~ getAccess|AS_public", DCI + r" ~ getAccess|AS_public"],
    "P06": ["reportUnreachableVisibleDeclContexts", DCI + r" ~ report|Error", "emitPolicies ~ report|Error", r"RecordExposer::emitOperator(Definition)? ~ report|Error",
            "emitManualBindings ~ report|Error", "findResourceDir", "getDefaultResourceDirAdjuster"],
    "P07": [r"LookupContextCollector::.*", r"EnumExposer::handleDeclImpl", "collectOperatorDeclsViaArgumentDependentLookup", r"ExposableDeclConsumer::.*", "collectVisibleDeclsFromDeclContext",
            r"RecordExposer::emitType", r"DeclContextGraphBuilder::.*", "emitManualBindings", TU + r" ~ sort|loop|include", r"(llvm::)?GraphTraits::.*", "emitParameters", "pruneGraph"],
    "P08": [r"EnumExposer::handleDeclImpl ~ arg", r"RecordExposer::emitOperatorDefinition ~ arg", "getDocstring"],
    "P09": [r"ExposableDeclConsumer::isConstructor", r"RecordExposer::emitOperatorDefinition ~ emitPolicies"],
    "P10": [r"ExposableDeclConsumer::FoundDecl", DCI + r" ~ Operator|OO_", "emitFunctionPointer"],
    "P11": ["getDocstring", "getBriefText", r"EnumExposer::handleDeclImpl", DCI + r" ~ emitSpelling|emitStringLiteral|getSpelling|spelling", REC + r" ~ emitSpelling|emitStringLiteral|getSpelling|spelling",
            "emitParameters ~ emitStringLiteral|arg", r"RecordExposer::emitOperator(Definition)?"],
    "P12": [r"DeclContextExposer::create", "findEnclosingScopes", "deriveEffectiveVisibility", MOD + r" ~ parent|alias|Typedef"],
    "P13": [r"DeclContextExposer::create", r"RecordExposer::emitType", "pruneGraph", r"RecordInliningPolicy::.*", r"IsBeforeInTranslationUnit::.*", DCI + r" ~ parent|getObjectForType"],
    "P14": ["hideNamespacesBasedOnExposeInAnnotation", "deriveEffectiveVisibility", "reachableDeclContexts", r"DeclContextGraphBuilder::.*", r"Diagnostics::report"],
    "P15": ["declContextsWithVisibleNamedDecls", "propagateAnnotations", r"NamespaceDeclAttrs::.*", MOD + r" ~ only_expose_in|visib", r"(llvm::)?GraphTraits::.*"],
    "P16": [r"GenpybindAction::.*", r"DeclContextExposer::create", r"NamespaceExposer::.*"],
    "P17": [r"AnnotationStorage::.*", r"NamespaceDeclAttrs::.*", "propagateAnnotations", "processAnnotation@_18NamespaceDeclAttrs"],
    "P18": [r"DeclContextExposer::create", r"EnumDeclAttrs::.*", "emitStringLiteral", "getFullyQualifiedName"],
    "P19": ["declContextsSortedByDependencies", r"DeclContextGraph::getNode", r"RecordDeclAttrs::.*", "collectVisibleDeclsFromDeclContext", "pruneGraph"],
    "P20": ["getDocstring", "getBriefText", "emitStringLiteral", "getFullyQualifiedName", r"ExposableDeclConsumer::FoundDecl"],
    "P21": ["emitSpelling", "emitStringLiteral", r"ExposableDeclConsumer::FoundDecl ~ shadow|hidden|base", "getDocstring", r"DeclContextExposer::create"],
    "P22": [r"ExposableDeclConsumer::.*", r"DeclContextExposer::create", r"FunctionDeclAttrs::supports", "collectVisibleDeclsFromDeclContext"],
    "P23": ["emitParameters", "emitPolicies", "collectVisibleDeclsFromDeclContext", r"ExposableDeclConsumer::.*", "getFullyQualifiedName", "processAnnotation@_17FunctionDeclAttrs"],
    "P24": [r"RecordExposer::emit(Operator.*|Introducer|Type)", "emitManualBindings", r"DeclContextExposer::emitIntroducer", r"NamespaceExposer::emitIntroducer", r"EnumExposer::emitIntroducer"],
    "P25": [r"[A-Za-z]*Exposer::finalizeDefinition", r"DeclContextExposer::handleDecl", r"IsBeforeInTranslationUnit::.*", "pruneGraph", "declContextsWithVisibleNamedDecls"],
    "P26": [r"main ~ pragma|include", "emitStringLiteral"],
    "P27": [r"LookupContextCollector::.*", TU + r" ~ instantiat|sema|Sema|errors_since|hasErrorOccurred", "findLookupContextDecl", "aliasTarget", MOD + r" ~ specializations"],
    "P28": ["emitQuotedArguments", "printVersion", "makeValidIdentifier"],
    "P31": ["main ~ inspect", r"DeclContextGraph::.*", r"DeclContextNode::.*"],
}
for _p in ALL:
    _p.also(ALSO.get(_p.id, []))

BY_ID = {p.id: p for p in ALL}
