// Dump helpers used by the sources that treegen.py generates.
#pragma once

#include <ostream>
#include <sstream>
#include <string>

namespace treegen_dump {

inline void ind(std::ostream& out, int indent) {
    for (int i = 0; i < indent; ++i) {
        out << "  ";
    }
}

template <class T>
void prim(std::ostream& out, int indent, const char* name, const char* type, const T& value) {
    std::ostringstream oss{};
    oss << value;
    auto text = oss.str();
    if (auto last = text.find_last_not_of(" \n\r\t"); last != std::string::npos) {
        text.erase(last + 1);
    }
    ind(out, indent);
    out << name << ": ";
    if (text.find('\n') == std::string::npos) {
        out << text << "\n";
        return;
    }
    out << type << "<<\n";
    std::istringstream iss{ text };
    for (std::string line; std::getline(iss, line);) {
        ind(out, indent + 1);
        out << line << "\n";
    }
    ind(out, indent);
    out << ">>\n";
}

template <class T>
void one(std::ostream& out, int indent, const char* name, const T& value, bool optional) {
    ind(out, indent);
    out << name << ": ";
    if (value.empty()) {
        out << (optional ? "-" : "!MISSING") << "\n";
        return;
    }
    out << "<\n";
    ind(out, indent + 1);
    value->dump(out, indent + 1);
    ind(out, indent);
    out << ">\n";
}

template <class T>
void link(std::ostream& out, int indent, const char* name, const T& value, bool optional) {
    ind(out, indent);
    out << name << " --> ";
    if (value.empty()) {
        out << (optional ? "-" : "!MISSING") << "\n";
        return;
    }
    out << "<\n";
    ind(out, indent + 1);
    value->dump(out, indent + 1);
    ind(out, indent);
    out << ">\n";
}

template <class T>
void any(std::ostream& out, int indent, const char* name, const T& value, bool optional) {
    ind(out, indent);
    out << name << ": ";
    if (value.empty()) {
        out << (optional ? "[]" : "!MISSING") << "\n";
        return;
    }
    out << "[\n";
    for (const auto& x : value) {
        ind(out, indent + 1);
        if (x.empty()) {
            out << "!NULL\n";
        } else {
            x->dump(out, indent + 1);
        }
    }
    ind(out, indent);
    out << "]\n";
}

template <class T>
void json_prim(std::ostream& out, const T& value) {
    std::ostringstream oss{};
    oss << value;
    out << '"';
    for (unsigned char c : oss.str()) {
        static const char* hex = "0123456789ABCDEF";
        if (c == '"' || c == '\\') {
            out << '\\' << static_cast<char>(c);
        } else if (c < 0x20) {
            out << "\\u00" << hex[c >> 4] << hex[c & 15];
        } else {
            out << static_cast<char>(c);
        }
    }
    out << '"';
}

template <class T>
void json_one(std::ostream& out, const T& value, const char* missing) {
    if (value.empty()) {
        out << '"' << missing << '"';
    } else {
        value->dump_json(out);
    }
}

template <class T>
void json_any(std::ostream& out, const T& value) {
    out << '[';
    bool first = true;
    for (const auto& x : value) {
        if (!first) {
            out << ',';
        }
        first = false;
        if (x.empty()) {
            out << "\"!NULL\"";
        } else {
            x->dump_json(out);
        }
    }
    out << ']';
}

}  // namespace treegen_dump
