// Instantiates the run-time helpers of generated code for opaque types, so
// that their bodies are available as type-checked syntax trees.
#include <genpybind/binding-helpers.h>

namespace witness {
struct Subject {};
std::ostream &operator<<(std::ostream &os, const Subject &subject);
enum class Choice { a, b };
std::ostream &operator<<(std::ostream &os, Choice choice);

::pybind11::object object() { return ::genpybind::getObjectForType<Subject>(); }
::std::string text(const Subject &subject) { return ::genpybind::string_from_lshift(subject); }
::std::string text_of_value(const Choice &choice) { return ::genpybind::string_from_lshift(choice); }
} // namespace witness
