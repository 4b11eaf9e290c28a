// C19 as a coverage-guided target: any bytes; those that are no UTF-8 or are out of bounds are left out.
#include "robust.hpp"

extern "C" int LLVMFuzzerTestOneInput(const unsigned char* data, std::size_t size) {
    std::string text(reinterpret_cast<const char*>(data), size);
    if (!robust::utf8(text) || !robust::bounded(text)) {
        return -1;
    }
    try {
        robust::check(text);
    } catch (const pbt::Failure& f) {
        std::fprintf(stderr, "%s\n", f.message.c_str());
        std::abort();
    }
    return 0;
}
