// Stand-in for Emscripten's binding header: registrations are compiled and ignored.
#pragma once
#include <string>
namespace emscripten {
struct allow_raw_pointers {};
template <class... B> struct base {};
template <class T, class... X> struct class_ {
    explicit class_(const char*) {}
    template <class... A, class... O> const class_& constructor(O...) const { return *this; }
    template <class R, class... A, class... O> const class_& constructor(R (*)(A...), O...) const { return *this; }
    template <class F, class... O> const class_& function(const char*, F, O...) const { return *this; }
    template <class S, class F, class... O> const class_& function(const char*, F, O...) const { return *this; }
    template <class F, class... O> const class_& class_function(const char*, F, O...) const { return *this; }
    template <class F, class... O> const class_& property(const char*, F, O...) const { return *this; }
};
template <class F, class... O> void function(const char*, F, O...) {}
template <class T> struct register_vector { explicit register_vector(const char*) {} };
template <class T> struct value_object { explicit value_object(const char*) {} template <class F> value_object& field(const char*, F) { return *this; } };
}  // namespace emscripten
#define EMSCRIPTEN_BINDINGS(name) [[maybe_unused]] static void emscripten_bindings_##name()
