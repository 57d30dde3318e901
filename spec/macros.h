#include <genpybind/genpybind.h>
#define WITNESS_NAME(...) from_macro
namespace witness {
namespace inner GENPYBIND(module(sub), visible) { int value; }
struct GENPYBIND(visible) A {
  A() = default;
  GENPYBIND(expose_as("a,b\"c\\\n"), keep_alive(this, x))
  void f(int x);
  int GENPYBIND(getter_for(value, "other"), return_value_policy(reference_internal)) g() const;
  int field GENPYBIND(readonly(true), hidden);
  GENPYBIND_MANUAL({ parent.def("x", [] { int a = 1, b = 2; return a + b; }); }) GENPYBIND_MANUAL({
    using type = GENPYBIND_PARENT_TYPE;
    parent.def_readonly("field", &type::field);
  })
};
enum class GENPYBIND(arithmetic(false),   export_values (default)) E { one GENPYBIND(expose_as(WITNESS_NAME(1, 2))), two };
using Alias GENPYBIND(expose_here) = A;
typedef A Old GENPYBIND();
template <typename T> struct GENPYBIND(inline_base("*"), holder_type("std::shared_ptr<A>")) G : T {};
extern template struct G<A>;
int GENPYBIND("\x41\t'", 'c', -1, +2, 0x10, ) v = 0;
#line 1
GENPYBIND_MANUAL({ parent.attr("a") = 1, parent.attr("b") = 2; })
#line 1
GENPYBIND_MANUAL({ parent.attr("c") = 3; })
GENPYBIND(postamble)
GENPYBIND_MANUAL({ (void)parent; })
} // namespace witness
