"""Planted bugs: (id, property, file, old, new, header/demo, needs, what)."""
B = []
PRE = r'''#!/bin/bash
# Run with cwd = repository root after the build.
set -u
ROOT=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
TOOL=$ROOT/_build/genpybind-tool
PYINC=$(python3 -c "import sysconfig; print(sysconfig.get_paths()['include'])")
fail() { echo "FAIL: $*"; [ -f "$T/log" ] && cat "$T/log"; [ -f "$T/out.cpp" ] && cat "$T/out.cpp"; exit 1; }
# gen FILE [tool options]: result in $T/out.cpp, messages in $T/log, status in $rc
gen() { local f=$1; shift; rm -f "$T/out.cpp"
  "$TOOL" "$T/$f" -o "$T/out.cpp" "$@" -- -xc++ -std=c++17 -I"$ROOT/public" -I"$PYINC" >"$T/log" 2>&1; rc=$?; }
ok() { [ "$rc" = 0 ] || fail "tool reported failure"; }
has() { grep -qF -- "$1" "$T/out.cpp" || fail "missing: $1"; }
no() { if grep -qF -- "$1" "$T/out.cpp"; then fail "unexpected: $1"; fi; }
loghas() { grep -qF -- "$1" "$T/log" || fail "message missing: $1"; }
lognot() { if grep -qF -- "$1" "$T/log"; then fail "unexpected message: $1"; fi; }
cat >"$T/in.h" <<'HDR'
#include <genpybind/genpybind.h>
@H@
HDR
@D@
exit 0
'''
def bug(id, prop, file, old, new, header, demo, needs, what, count=1):
    B.append(dict(id=id, prop=prop, edits=[(file, old, new, count)], demo=PRE.replace('@H@', header.strip()).replace('@D@', demo.strip()), needs=needs, what=what))

E='src/expose.cpp'; A='src/annotated_decl.cpp'; G='src/decl_context_graph_processing.cpp'; GB='src/decl_context_graph_builder.cpp'
V='src/visible_decls.cpp'; TL='src/tool.cpp'; PA='src/annotations/parser.cpp'; LV='src/annotations/literal_value.cpp'
LC='src/lookup_context_collector.cpp'; LH='include/genpybind/lookup_context_collector.h'; S='src/string_utils.cpp'; IT='src/instantiate_annotated_templates.cpp'

bug('b01-protected-scope-inherits', 'P01', G, '''    case clang::AS_protected:
    case clang::AS_private:
      is_visible = false;
      break;
    case clang::AS_public:
    case clang::AS_none:''', '''    case clang::AS_private:
      is_visible = false;
      break;
    case clang::AS_protected:
    case clang::AS_public:
    case clang::AS_none:''', '''
struct GENPYBIND(visible) Outer {
  int a = 0;
protected:
  struct Nested { int b = 0; };
};
''', '''gen in.h; ok; has 'context.def_readwrite("a"'; no Nested''',
 'a class nested in the protected section of a visible class',
 'Protected nested classes inherit the visibility of the enclosing class and are exposed.')

bug('b02-inline-namespace-visible', 'P01', A, '''  if (!llvm::isa<clang::NamespaceDecl>(decl) &&
      hasAnnotations(decl, /*allow_empty=*/false)) {''', '''  const auto *ns = llvm::dyn_cast<clang::NamespaceDecl>(decl);
  if ((ns == nullptr || ns->isInline()) &&
      hasAnnotations(decl, /*allow_empty=*/false)) {''', '''
inline namespace GENPYBIND(module(sub)) v1 {
  void hidden_function();
  void shown() GENPYBIND(visible);
}
''', '''gen in.h; ok; has '"shown"'; no hidden_function''',
 'an inline namespace with an annotation other than visible',
 'Annotated inline namespaces become visible implicitly, which exposes everything inside.')

bug('b03-access-after-using', 'P02', V, '''    bool is_accessible = proposed_decl->getAccess() == clang::AS_public ||
                         proposed_decl->getAccess() == clang::AS_none;
    if (!is_visible_in_scope || !is_accessible)
      return;

    if (in_base_class && !shouldInlineDecl(proposed_decl))
      return;

    if (const auto *using_decl =
            llvm::dyn_cast<clang::UsingShadowDecl>(proposed_decl)) {
      proposed_decl = using_decl->getTargetDecl();
    }
''', '''    if (!is_visible_in_scope)
      return;

    if (in_base_class && !shouldInlineDecl(proposed_decl))
      return;

    if (const auto *using_decl =
            llvm::dyn_cast<clang::UsingShadowDecl>(proposed_decl)) {
      proposed_decl = using_decl->getTargetDecl();
    }

    bool is_accessible = proposed_decl->getAccess() == clang::AS_public ||
                         proposed_decl->getAccess() == clang::AS_none;
    if (!is_accessible)
      return;
''', '''
struct Base { void one(); void two(); };
class GENPYBIND(visible) Derived : Base {
  using Base::one;
public:
  using Base::two;
};
''', '''gen in.h; ok; has '"two"'; no '"one"' ''',
 'a private using-declaration that names a public member of a base class',
 'Access is judged by the target of a using-declaration instead of the using-declaration itself.')

bug('b04-number-base', 'P03', PA, '''result.text.getAsInteger(10, value)''', '''result.text.getAsInteger(0, value)''', '''
void f() GENPYBIND(visible(010));
''', '''gen in.h; [ "$rc" != 0 ] || fail accepted; loghas "'visible' annotation: 10"''',
 'a number with a leading zero as argument',
 'Numbers with a leading zero are read as octal.')

bug('b05-escaped-backslash', 'P03', PA, '''      escape_next_char = !escape_next_char;
      continue;''', '''      escape_next_char = text[pos] == '\\\\';
      continue;''', r'''
void f() __attribute__((annotate("◊expose_as(\"a\\\\\"), hidden")));
''', '''gen in.h; [ "$rc" != 0 ] || fail accepted; loghas "Invalid spelling in 'expose_as' annotation"; lognot "Invalid token"''',
 'a string literal that ends in an escaped backslash',
 'The quote after an escaped backslash no longer ends the string; the rest of the annotation is swallowed.')

bug('b06-keyword-case', 'P03', PA, '''.Case("true", LiteralValue::createBoolean(true))''', '''.CaseLower("true", LiteralValue::createBoolean(true))''', '''
void f() GENPYBIND(expose_as(True));
''', '''gen in.h; ok; has 'context.def("True"' ''',
 'the identifier True as argument',
 'Identifiers that differ from the boolean literal in case are read as the boolean literal.')

LVD = r'''
cat >"$T/t.cpp" <<'SRC'
#include "genpybind/annotations/literal_value.h"
#include <cstdio>
#include <utility>
using genpybind::annotations::LiteralValue;
int main() {
@P@
  return 0;
}
SRC
CXX=$(command -v g++); $CXX -g -std=c++20 -fsanitize=address -fno-rtti -I"$ROOT/include" -isystem "$(llvm-config-18 --includedir 2>/dev/null || echo /usr/lib/llvm-18/include)" "$T/t.cpp" "$ROOT/src/annotations/literal_value.cpp" -L/usr/lib/llvm-18/lib -lLLVM-18 -o "$T/t" >"$T/log" 2>&1 || { cat "$T/log"; echo "cannot build"; exit 1; }
ASAN_OPTIONS=detect_leaks=0 "$T/t" >"$T/log" 2>&1 || fail "program failed"
'''
bug('b07-move-into-other-kind', 'P04', LV, '''    if (!isString()) {
      kind = Kind::String;
      string = nullptr;
    }
    std::swap(string, other.string);
''', '''    kind = Kind::String;
    std::swap(string, other.string);
''', '', LVD.replace('@P@', '''
  LiteralValue v = LiteralValue::createUnsigned(42);
  { LiteralValue s = LiteralValue::createString("abc"); v = std::move(s); }
  if (!v.isString() || v.getString() != "abc") return 1;'''),
 'move assignment of a string to a value that holds a number',
 'The moved-from value keeps a bit pattern of another kind as its string and frees it.')

bug('b08-unsigned-compared-as-bool', 'P04', LV, '''  case Kind::Unsigned:
    return getUnsigned() == other.getUnsigned();
  case Kind::Boolean:
    return getBoolean() == other.getBoolean();
''', '''  case Kind::Unsigned:
  case Kind::Boolean:
    return boolean == other.boolean;
''', '', LVD.replace('@P@', '''
  if (LiteralValue::createUnsigned(0) == LiteralValue::createUnsigned(65536)) return 1;
  if (!(LiteralValue::createUnsigned(7) == LiteralValue::createUnsigned(7))) return 2;'''),
 'two numbers that agree in their lowest byte only',
 'Numbers are compared by their lowest byte.')

bug('b09-variadic-accepts-none', 'P05', A, '''    if (state == State::Unmatched && !arguments.empty() &&
        checkArgKinds(kind)) {
      for (const LiteralValue &value : arguments)''', '''    if (state == State::Unmatched && checkArgKinds(kind)) {
      for (const LiteralValue &value : arguments)''', '''
void f(int a) GENPYBIND(noconvert());
''', '''gen in.h; [ "$rc" != 0 ] || fail accepted; loghas "Wrong number of arguments for 'noconvert'" ''',
 'an annotation that needs names, used without arguments',
 'noconvert(), required() and only_expose_in() without arguments are silently accepted.')

bug('b10-erase-uncompilable', 'P06', TL, '''getCompilerInstance().getDiagnostics().hasErrorOccurred();''', '''getCompilerInstance().getDiagnostics().hasUncompilableErrorOccurred();''', '''
struct GENPYBIND(visible) X {
  int get() const GENPYBIND(getter_for(a));
  int get2() const GENPYBIND(getter_for(a));
};
''', '''gen in.h; [ "$rc" != 0 ] || fail accepted; [ ! -e "$T/out.cpp" ] || fail "output left behind"''',
 'an error reported by the tool itself after output has started',
 'Errors raised by the tool do not remove the output files.')

bug('b11-unreachable-unsorted', 'P07', G, '''  llvm::sort(unreachable_decls, IsBeforeInTranslationUnit(source_manager));
''', '', '\n'.join('struct H%d { void f() GENPYBIND(visible); };' % i for i in range(40)), '''
gen in.h; ok
grep -o "context 'H[0-9]*'" "$T/log" | tr -dc '0-9\\n' >"$T/a"; sort -n "$T/a" >"$T/b"
[ "$(wc -l <"$T/a")" = 40 ] || fail "warnings missing"; cmp -s "$T/a" "$T/b" || fail "order"''',
 'several scopes that are reported as unreachable',
 'Warnings are issued in the order of a hash table of pointers.')

bug('b12-inherited-default', 'P08', E, '''    if (const clang::Expr *expr = param->getDefaultArg()) {''', '''    if (const clang::Expr *expr = param->hasInheritedDefaultArg()
                                      ? nullptr
                                      : param->getDefaultArg()) {''', '''
void f(int a, int b = 7);
void f(int a, int b) GENPYBIND(visible);
''', '''gen in.h; ok; has '::pybind11::arg("b") = 7' ''',
 'a function that is declared again without repeating its default argument',
 'Default values given on an earlier declaration are dropped.')

bug('b13-unnamed-shift', 'P09', A, '''      parameter_names.push_back(param->getName());
''', '''      if (!param->getName().empty())
        parameter_names.push_back(param->getName());
''', '''
struct GENPYBIND(visible) X {
  void link(int, X *other) GENPYBIND(keep_alive(this, other));
};
''', '''gen in.h; ok; has 'pybind11::keep_alive<1, 3>()' ''',
 'an unnamed parameter before the one that is named in the annotation',
 'Unnamed parameters are not counted, the policy refers to an earlier argument.')

bug('b14-rvalue-operand', 'P10', E, '''    if (lhs_param_type->isReferenceType())
      lhs_param_type = lhs_param_type->getPointeeType();
    return''', '''    if (lhs_param_type->isLValueReferenceType())
      lhs_param_type = lhs_param_type->getPointeeType();
    return''', '''
struct GENPYBIND(visible) X {
  friend X operator-(X &&lhs, int rhs) GENPYBIND(visible);
};
''', '''gen in.h; ok; has '"__sub__"'; no '"__rsub__"' ''',
 'an operator whose left operand is taken by rvalue reference',
 'The operator is taken to be reflected, operands are exchanged.')

bug('b15-dollar', 'P05', S, '''clang::isValidAsciiIdentifier(name)''', '''clang::isValidAsciiIdentifier(name, /*AllowDollar=*/true)''', '''
void f() GENPYBIND(expose_as("a$b"));
''', '''gen in.h; [ "$rc" != 0 ] || fail accepted; loghas "Invalid spelling in 'expose_as'"''',
 'a spelling with a dollar sign',
 'Spellings that are not valid identifiers are accepted.')

bug('b16-alias-default-visibility', 'P12', A, '''        Annotation(AnnotationKind::Visible,
                   {attrs.visible.has_value()
                        ? LiteralValue::createBoolean(*attrs.visible)
                        : LiteralValue::createDefault()}),''', '''        Annotation(AnnotationKind::Visible,
                   {LiteralValue::createBoolean(attrs.visible.value_or(true))}),''', '''
struct Target { int a = 0; };
struct GENPYBIND(visible) Other { int b = 0; };
namespace ns { using Alias GENPYBIND(expose_here, visible(default)) = Target; }
''', '''gen in.h; ok; has Other; no Alias; no Target''',
 'a relocating alias whose visibility is reset to default, in a hidden scope',
 'The relocated type is exposed although its new place is hidden.')

bug('b17-unbalanced', 'P16', E, '''        *ostreams[index++ * ostreams.size() / worklist.size()];''', '''        *ostreams[index++ /
                  ((worklist.size() + ostreams.size() - 1) / ostreams.size())];''', '''
struct GENPYBIND(visible) A {}; struct GENPYBIND(visible) B {}; struct GENPYBIND(visible) C {};
''', '''
"$TOOL" "$T/in.h" -o "$T/o1.cpp" -o "$T/o2.cpp" -o "$T/o3.cpp" -- -xc++ -std=c++17 -I"$ROOT/public" >"$T/log" 2>&1 || fail tool
for i in 1 2 3; do grep -q '^void expose_.* {$' "$T/o$i.cpp" || fail "file $i has no scope"; done''',
 'more scopes than files, but not a multiple (four scopes, three files)',
 'Chunks are not balanced: the last file stays empty.')

bug('b18-namespace-equal', 'P17', 'include/genpybind/annotated_decl.h', '''  friend bool operator==(NamespaceDeclAttrs const &,
                         NamespaceDeclAttrs const &) = default;''', '''  friend bool operator==(NamespaceDeclAttrs const &lhs,
                         NamespaceDeclAttrs const &rhs) {
    return lhs.module == rhs.module &&
           lhs.only_expose_in.size() == rhs.only_expose_in.size();
  }''', '''
namespace GENPYBIND(only_expose_in(one)) ns { void f() GENPYBIND(visible); }
namespace GENPYBIND(only_expose_in(two)) ns { void g() GENPYBIND(visible); }
''', '''gen in.h; [ "$rc" != 0 ] || fail accepted; loghas "need to match those of the first declaration"''',
 'a namespace that is opened twice with the same number of different module names',
 'Restrictions of reopened namespaces are compared by their number only.')

bug('b19-arithmetic-false', 'P18', A, '''                 attrs.arithmetic = value.getBoolean();''', '''                 attrs.arithmetic |= value.getBoolean();''', '''
enum GENPYBIND(arithmetic, arithmetic(false)) E { a, b };
''', '''gen in.h; ok; has '"E"'; no arithmetic''',
 'arithmetic switched off again by a later annotation',
 'Arithmetic stays enabled although the last annotation disables it.')

bug('b20-protected-path', 'P19', V, '''    return path.Access == clang::AS_public &&''', '''    return path.Access != clang::AS_private &&''', '''
struct Base { void inherited(); };
struct GENPYBIND(visible, inline_base(Base)) Derived : protected Base { void own(); };
''', '''gen in.h; ok; has '"own"'; no '"inherited"' ''',
 'a protected base class that is named for inlining',
 'Members of protected bases are bound.')

bug('b21-typedef-const', 'P20', E, '''    bool readonly = type.isConstQualified() || var_attrs->readonly;''', '''    bool readonly = type.isLocalConstQualified() || var_attrs->readonly;''', '''
using constant = const int;
struct GENPYBIND(visible) X { constant value = 1; const int other = 2; };
''', '''gen in.h; ok; has 'def_readonly("value"'; has 'def_readonly("other"' ''',
 'a member whose type is a const alias',
 'Constness behind a type alias is not seen, the member is bound writable.')

bug('b22-duplicate-setter-inlined', 'P21', E, '''            std::exchange(properties[name].setter, method);
        if (previous != nullptr) {''', '''            std::exchange(properties[name].setter, method);
        if (previous != nullptr &&
            previous->getParent() == method->getParent()) {''', '''
struct Base { void set_a(int) GENPYBIND(setter_for(value)); };
struct GENPYBIND(visible, inline_base(Base)) X : Base {
  int get() const GENPYBIND(getter_for(value));
  void set_b(int) GENPYBIND(setter_for(value));
};
''', '''gen in.h; [ "$rc" != 0 ] || fail accepted; loghas "setter already defined for 'value'"''',
 'two setters for one property, one of them from an inlined base',
 'The second setter silently replaces the first.')

bug('b23-implicit-two-params', 'P22', A, '''          if (constructor->getNumParams() != 1 ||''', '''          if (constructor->getMinRequiredArguments() != 1 ||''', '''
struct GENPYBIND(visible) X { X(int a, int b = 1) GENPYBIND(implicit_conversion); };
''', '''gen in.h; [ "$rc" != 0 ] || fail accepted; loghas "non-converting constructor"''',
 'a constructor with one required and one optional parameter',
 'The annotation is accepted for constructors with more than one parameter.')

bug('b24-doc-redecl', 'P23', E, '''context.getRawCommentForAnyRedecl(decl)''', '''context.getRawCommentForDeclNoCache(decl)''', '''
/// Text on the first declaration.
void f();
void f() GENPYBIND(visible);
''', '''gen in.h; ok; has 'Text on the first declaration' ''',
 'documentation that is only on an earlier declaration',
 'Documentation of earlier declarations is lost.')

bug('b25-braces-sticky', 'P24', E, '''      within_braced_initializer = true;
      print_recursively(expr);
      within_braced_initializer = false;
''', '''      within_braced_initializer = true;
      print_recursively(expr);
''', '''
namespace ns { struct P { int a; int b; }; }
void f(ns::P a = {1, 2}, ns::P b = {3, 4}) GENPYBIND(visible);
''', '''gen in.h; ok; has '"a") = ::ns::P{1, 2}'; has '"b") = ::ns::P{3, 4}' ''',
 'two braced default values in one function',
 'Only the first braced default value is written with its type.')

bug('b26-unevaluated-parent', 'P25', E, '''  bool needs_context = param->isUsed() || param->isReferenced();''', '''  bool needs_context = param->isUsed();''', '''
template <typename T> void helper();
struct GENPYBIND(visible) X {
  GENPYBIND_MANUAL({ ::helper<decltype(parent)>(); })
};
''', '''gen in.h; ok; has '[](auto &parent)' ''',
 'a manual block that names the parent only in an unevaluated operand',
 'The parent is not available in the emitted block.')

bug('b27-include-angle', 'P26', 'src/pragmas.cpp', '''    includes.push_back(argument);''', '''    if (includes.empty() || includes.back() != argument)
      includes.insert(includes.end() - (includes.size() > 2 ? 1 : 0), argument);''', '''
#pragma genpybind include <a.h>
#pragma genpybind include "b.h"
#pragma genpybind include <c.h>
#pragma genpybind include "d.h"
''', '''for f in a b c d; do : >"$T/$f.h"; done
"$TOOL" "$T/in.h" -o "$T/out.cpp" -- -xc++ -std=c++17 -I"$ROOT/public" -I"$T" >"$T/log" 2>&1 || fail tool
[ "$(grep -E '^#include .[a-d].h' "$T/out.cpp" | tr -dc 'abcd')" = aabbccdd ] || [ "$(grep -oE '^#include .[a-d]\\.h' "$T/out.cpp" | sed 's/.*include .\\(.\\).*/\\1/' | tr -d '\\n')" = abcd ] || fail order''',
 'more than three include pragmas', 'Includes are emitted out of order.')

bug('b28-explicit-declaration', 'P27', IT, '''      prev_tsk != clang::TSK_ImplicitInstantiation &&
      prev_tsk != clang::TSK_ExplicitInstantiationDeclaration)
    return;''', '''      prev_tsk != clang::TSK_ImplicitInstantiation)
    return;''', '''
template <typename T> struct Tpl { T twice(T x = T{1}) { return x + x; } auto deduced() { return T{}; } };
extern template struct Tpl<int>;
using Alias GENPYBIND(expose_here) = Tpl<int>;
''', '''gen in.h; ok; has '"deduced"'; "$TOOL" "$T/in.h" --dump-ast -o - -- -xc++ -std=c++17 -I"$ROOT/public" >"$T/log" 2>&1
sed -n "/ClassTemplateSpecializationDecl.*Tpl definition/,\\$p" "$T/log" | grep -q 'twice .int (int).*instantiated_from' || fail none
sed -n "/ClassTemplateSpecializationDecl.*Tpl definition/,\\$p" "$T/log" | grep -A8 'deduced' | grep -q CompoundStmt || fail "members not instantiated"''',
 'an alias of an instantiation that has an explicit instantiation declaration',
 'Its members are not instantiated.')

bug('b29-dialect', 'P28', TL, '''        language_standard_prefix = parts.first;
        uses_later_standard = parts.second.starts_with("2");
        if (!uses_later_standard)
          continue;
''', '''        uses_later_standard = parts.second.starts_with("2");
        if (!uses_later_standard)
          continue;
        language_standard_prefix = parts.first;
''', '''
void f() GENPYBIND(visible);
''', '''"$TOOL" "$T/in.h" --verbose -o "$T/out.cpp" -- -xc++ -std=gnu++14 -I"$ROOT/public" >"$T/log" 2>&1 || fail tool
loghas '-std=gnu++17' ''',
 'an older standard in its GNU dialect', 'The dialect is lost when the standard is raised.')

bug('b30-manual-line', 'P29', 'public/genpybind/genpybind.h', '''  GENPYBIND__PRIVATE_CONCAT__(x, __COUNTER__)''', '''  GENPYBIND__PRIVATE_CONCAT__(x, __LINE__)''', '''
GENPYBIND_MANUAL({ parent.attr("a") = 1; }) GENPYBIND_MANUAL({ parent.attr("b") = 2; })
''', '''gen in.h; ok; has '"a"'; has '"b"' ''',
 'two manual blocks on the same line (e.g. from one macro)', 'Names of manual blocks collide.')

bug('b31-nul', 'P30', 'public/genpybind/binding-helpers.h', '''  return os.str();''', '''  return os.str().c_str();''', '', r'''
cat >"$T/t.cpp" <<'SRC'
#include <genpybind/binding-helpers.h>
#include <ostream>
struct X { friend std::ostream &operator<<(std::ostream &os, const X &) { os.write("a\0b", 3); return os; } };
int main() { return genpybind::string_from_lshift(X{}) == std::string("a\0b", 3) ? 0 : 1; }
SRC
g++ -std=c++17 -I"$ROOT/public" -I"$PYINC" "$T/t.cpp" -o "$T/t" $(python3-config --embed --ldflags 2>/dev/null) >"$T/log" 2>&1 || { cat "$T/log"; echo cannot build; exit 1; }
"$T/t" || fail "text cut"
''', 'output with an embedded NUL character', 'Text after a NUL character is cut.')

bug('b32-inspect-late', 'P31', TL, '''    inspectGraph(*graph, annotations, visibilities, g_module_name,
                 InspectGraphStage::Visibility);

    auto contexts_with_visible_decls = declContextsWithVisibleNamedDecls(
        *sema, &*graph, annotations, visibilities);

    hideNamespacesBasedOnExposeInAnnotation(*graph, annotations,
                                            contexts_with_visible_decls,
                                            visibilities, g_module_name);
''', '''    auto contexts_with_visible_decls = declContextsWithVisibleNamedDecls(
        *sema, &*graph, annotations, visibilities);

    hideNamespacesBasedOnExposeInAnnotation(*graph, annotations,
                                            contexts_with_visible_decls,
                                            visibilities, g_module_name);

    inspectGraph(*graph, annotations, visibilities, g_module_name,
                 InspectGraphStage::Visibility);
''', '''
namespace GENPYBIND(visible, only_expose_in(other)) ns { struct X {}; }
''', '''gen in.h --dump-graph=visibility; ok
grep -A1 "'ns'" "$T/log" | grep -q visible || fail "namespace not shown as visible"''',
 'inspection of a namespace restricted to another module', 'The first stage shows the state after restricting namespaces.')

bug('b33-module-prefix', 'P15', G, '''               return name == module_name;''', '''               return module_name.starts_with(name);''', '''
namespace GENPYBIND(visible, only_expose_in(foo)) ns { void leaked(); }
void shown() GENPYBIND(visible);
''', '''gen in.h --module-name=foobar; ok; has '"shown"'; no leaked; gen in.h --module-name=foo; ok; has leaked''',
 'a module whose name starts with the name of the restricted module', 'Restricted declarations leak into it.')

bug('b34-enum-keeps-namespace', 'P14', G, '''      if (llvm::isa<clang::TagDecl>(child->getDecl()) && visible->getSecond())
        return true;''', '''      if (llvm::isa<clang::CXXRecordDecl>(child->getDecl()) &&
          visible->getSecond())
        return true;''', '''
namespace ns { enum class GENPYBIND(visible) E { }; }
''', '''gen in.h; ok; has '"E"' ''',
 'a namespace whose only visible content is an enumeration without enumerators',
 'The enumeration is silently left out.')

bug('b35-relocated-no-warning', 'P14', G, '''    auto it = relocated_decls.find(decl);
    if (it != relocated_decls.end())
      decl = it->getSecond();
''', '''    auto it = relocated_decls.find(decl);
    if (it != relocated_decls.end()) {
      if (it->getSecond()->getAccess() != clang::AS_none)
        continue;
      decl = it->getSecond();
    }
''', '''
struct Target { void f() GENPYBIND(visible); };
struct Hidden { using Alias GENPYBIND(expose_here) = Target; };
''', '''gen in.h; ok; loghas "Alias"; loghas "contains 'visible' declarations but is not exposed"''',
 'a type relocated into a class that is not exposed', 'No warning is issued for it.')

bug('b36-private-base-of-inlined', 'P19', E, '''      if (base.getAccessSpecifier() != clang::AS_public ||
          inlining_policy.shouldHide(base_decl))
        continue;''', '''      if (inlining_policy.shouldHide(base_decl) ||
          (decl == record_decl &&
           base.getAccessSpecifier() != clang::AS_public))
        continue;''', '''
struct GENPYBIND(visible) Root {};
struct Mid : private Root { int a = 0; };
struct GENPYBIND(visible, inline_base(Mid)) Top : Mid { int b = 0; };
''', '''gen in.h; ok; has '::pybind11::class_<::Top>(' ''',
 'an inlined base with a private, exposed base', 'A class that is not a public base is listed as base.')

bug('b37-ns-annotation-first-wins', 'P17', LC, '''  if (!annotations.equal(decl, first_decl)) {''', '''  if (hasAnnotations(decl) && !annotations.equal(decl, first_decl)) {''', '''
namespace GENPYBIND(visible) ns { void f(); }
namespace ns { void g() GENPYBIND(visible); }
''', '''gen in.h; [ "$rc" != 0 ] || fail accepted; loghas "need to match those of the first declaration"''',
 'a namespace reopened without annotations', 'The disagreement is not reported.')

bug('b38-submodule-name', 'P11', E, '''              : (!fallback.empty() ? fallback.str() : getSpelling(decl)));''', '''              : (!fallback.empty() ? fallback.str() : decl->getNameAsString()));''', '''
struct GENPYBIND(visible) X { operator bool() const GENPYBIND(visible); };
''', '''gen in.h; ok; has 'context.def("operator_bool"' ''',
 'a declaration without plain identifier', 'Python names contain characters that are not valid.')

bug('b39-final-order', 'P25', E, '''      if (!var_attrs->postamble)
        emitManualBindings(os, ast_context, var_attrs->manual_bindings);
      return;''', '''      if (!var_attrs->postamble || !named_attrs.spelling.empty())
        emitManualBindings(os, ast_context, var_attrs->manual_bindings);
      return;''', '''
static constexpr auto block GENPYBIND(manual, postamble, expose_as(block)) = [](auto &parent) { parent.attr("x") = 1; };
''', '''gen in.h; ok; [ "$(grep -c 'attr("x")' "$T/out.cpp")" = 1 ] || fail "emitted more than once"''',
 'a postamble block with a spelling', 'The block is emitted twice.')

bug('b40-transparent-parent', 'P13', G, '''    if (is_transparent(parent->getDecl())) {
      parent_context = result.lookup(parent_context);''', '''    if (is_transparent(parent->getDecl())) {
      parent_context = it->getDecl()->getDeclContext()->getRedeclContext();
      if (is_transparent(llvm::cast<clang::Decl>(parent_context)))
        parent_context = result.lookup(parent->getDeclContext());''', '''
struct GENPYBIND(visible) Holder { struct Inner; };
struct Holder::Inner { int a = 0; };
namespace ns { using Moved GENPYBIND(expose_here) = Holder::Inner; }
''', '''gen in.h; ok; grep -q 'class_<::Holder::Inner>(context, "Moved")' "$T/out.cpp" || grep -q 'class_<::Holder::Inner>(context_ns, "Moved")' "$T/out.cpp" || fail "wrong place"''',
 'a nested class relocated into a transparent namespace', 'It is attached to its original class.')
