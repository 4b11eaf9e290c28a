// Other locales than "C". check.py has them made with localedef and names their directory.
#pragma once

#include <clocale>
#include <cstdlib>

#include "pbt.hpp"

namespace locales {

// Decimal commas, digits in groups, 8-bit and multibyte characters, Turkish letters, an Arabic decimal separator.
inline const std::vector<std::string> names = { "de_DE.UTF-8", "de_DE.ISO-8859-1", "tr_TR.UTF-8", "tr_TR.ISO-8859-9", "en_US.UTF-8",
    "ps_AF.UTF-8", "el_GR.ISO-8859-7", "ru_RU.KOI8-R", "ja_JP.EUC-JP", "fr_FR.UTF-8" };

inline void find() {
    if (const char* dir = std::getenv("VERIF_LOCALES")) {
        setenv("LOCPATH", dir, 1);
    }
    for (auto& n : names) {
        if (!std::setlocale(LC_ALL, n.c_str())) {
            std::cerr << "no locale " << n << "\n";
            std::exit(3);
        }
    }
    std::setlocale(LC_ALL, "C");
    if (!std::setlocale(LC_ALL, "de_DE.UTF-8") || std::strtod("1,5", nullptr) != 1.5) {
        std::cerr << "the locales are not what they should be\n";
        std::exit(3);
    }
    std::setlocale(LC_ALL, "C");
}

struct Choice {
    std::string name;
    int category = LC_ALL;
    std::string show;
};
inline Choice choice(pbt::Src& s) {
    Choice c;
    c.name = s.pick(names);
    c.show = c.name;
    switch (s.weighted({ 4, 1, 1 })) {
        case 1: c.category = LC_NUMERIC; c.show += " for numbers"; break;
        case 2: c.category = LC_CTYPE; c.show += " for characters"; break;
        default: break;
    }
    return c;
}
// What f returns in that locale, which the environment names, too. The locale is "C" before and after.
template <class F>
auto in(const Choice& c, F f) {
    struct Back {
        ~Back() {
            std::setlocale(LC_ALL, "C");
            for (const char* v : { "LC_ALL", "LC_NUMERIC", "LC_CTYPE" }) {
                unsetenv(v);
            }
        }
    } back;
    std::setlocale(c.category, c.name.c_str());
    setenv(c.category == LC_ALL ? "LC_ALL" : c.category == LC_NUMERIC ? "LC_NUMERIC" : "LC_CTYPE", c.name.c_str(), 1);
    const std::string set = std::setlocale(LC_ALL, nullptr);
    auto r = f();
    const std::string left = std::setlocale(LC_ALL, nullptr);
    PBT_CHECK(left == set, "the locale of the process was " << set << " and is now " << left);
    return r;
}

}  // namespace locales
