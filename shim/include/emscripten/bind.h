// Just enough of Emscripten's bind.h to compile the JavaScript wrapper: the bindings are compiled, and not used.
#pragma once
namespace emscripten {
template <class T>
struct class_ {
    explicit class_(const char*) {}
    template <class... A>
    class_& constructor() {
        return *this;
    }
    template <class F>
    class_& function(const char*, F) {
        return *this;
    }
};
}  // namespace emscripten
#define EMSCRIPTEN_BINDINGS(name) [[maybe_unused]] static void emscripten_bindings_##name()
