// Specification of the annotation macros: what every use has to expand to.
#pragma once
#include <type_traits>
#ifdef __GENPYBIND__
#define SPEC_CAT2(x, y) x##y
#define SPEC_CAT(x, y) SPEC_CAT2(x, y)
#define SPEC_TEXT(...) #__VA_ARGS__
#define GENPYBIND(...) __attribute__((annotate("◊" SPEC_TEXT(__VA_ARGS__))))
#define GENPYBIND_MANUAL(...)                                                  \
  static constexpr auto GENPYBIND(manual)                                      \
      SPEC_CAT(genpybind_, __COUNTER__) = [](auto &parent) __VA_ARGS__;
#define GENPYBIND_PARENT_TYPE                                                  \
  typename std::remove_reference_t<decltype(parent)>::type
#else
#define GENPYBIND(...)
#define GENPYBIND_MANUAL(...)
#endif
