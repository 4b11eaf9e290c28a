// Stand-in for tree-gen's tree-cbor.hpp (tree-gen is not installable offline).
// A small, complete CBOR subset: ints, floats, bool, null, text, binary, definite and indefinite arrays and maps.
#pragma once

#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace tree {
using signed_size_t = std::make_signed_t<std::size_t>;
}

namespace tree::cbor {

class ArrayReader;
class MapReader;

class Reader {
public:
    enum class Kind { INT, FLOAT, BOOL, NUL, TEXT, BINARY, ARRAY, MAP };

private:
    Kind kind_ = Kind::NUL;
    std::int64_t int_ = 0;
    double float_ = 0.0;
    bool bool_ = false;
    std::string bytes_;
    std::shared_ptr<std::vector<Reader>> array_;
    std::shared_ptr<std::map<std::string, Reader>> map_;

    static std::uint8_t take(const std::string& d, std::size_t& p) {
        if (p >= d.size()) {
            throw std::runtime_error("invalid CBOR: read past end");
        }
        return static_cast<std::uint8_t>(d[p++]);
    }
    static std::uint64_t take_n(const std::string& d, std::size_t& p, int n) {
        std::uint64_t v = 0;
        while (n--) {
            v = (v << 8) | take(d, p);
        }
        return v;
    }
    static std::uint64_t argument(const std::string& d, std::size_t& p, std::uint8_t info) {
        if (info < 24) {
            return info;
        }
        switch (info) {
            case 24: return take_n(d, p, 1);
            case 25: return take_n(d, p, 2);
            case 26: return take_n(d, p, 4);
            case 27: return take_n(d, p, 8);
            default: throw std::runtime_error("invalid CBOR: unsupported additional information");
        }
    }
    static bool at_break(const std::string& d, std::size_t p) {
        return p < d.size() && static_cast<std::uint8_t>(d[p]) == 0xFF;
    }

    void parse(const std::string& d, std::size_t& p, int depth) {
        if (depth > 10000) {
            throw std::runtime_error("invalid CBOR: nesting too deep");
        }
        const auto head = take(d, p);
        const int major = head >> 5;
        const std::uint8_t info = head & 31;
        switch (major) {
            case 0: {
                auto v = argument(d, p, info);
                if (v > 0x7FFFFFFFFFFFFFFFull) {
                    throw std::runtime_error("CBOR integer out of range");
                }
                kind_ = Kind::INT;
                int_ = static_cast<std::int64_t>(v);
                break;
            }
            case 1: {
                auto v = argument(d, p, info);
                if (v > 0x7FFFFFFFFFFFFFFFull) {
                    throw std::runtime_error("CBOR integer out of range");
                }
                kind_ = Kind::INT;
                int_ = -1 - static_cast<std::int64_t>(v);
                break;
            }
            case 2:
            case 3: {
                auto n = argument(d, p, info);
                if (n > d.size() - p) {
                    throw std::runtime_error("invalid CBOR: string read past end");
                }
                kind_ = major == 2 ? Kind::BINARY : Kind::TEXT;
                bytes_ = d.substr(p, n);
                p += n;
                break;
            }
            case 4: {
                kind_ = Kind::ARRAY;
                array_ = std::make_shared<std::vector<Reader>>();
                if (info == 31) {
                    while (!at_break(d, p)) {
                        array_->emplace_back();
                        array_->back().parse(d, p, depth + 1);
                    }
                    ++p;
                } else {
                    for (auto n = argument(d, p, info); n > 0; --n) {
                        array_->emplace_back();
                        array_->back().parse(d, p, depth + 1);
                    }
                }
                break;
            }
            case 5: {
                kind_ = Kind::MAP;
                map_ = std::make_shared<std::map<std::string, Reader>>();
                auto one = [&] {
                    Reader key;
                    key.parse(d, p, depth + 1);
                    Reader value;
                    value.parse(d, p, depth + 1);
                    map_->insert_or_assign(key.as_string(), std::move(value));
                };
                if (info == 31) {
                    while (!at_break(d, p)) {
                        one();
                    }
                    ++p;
                } else {
                    for (auto n = argument(d, p, info); n > 0; --n) {
                        one();
                    }
                }
                break;
            }
            case 7: {
                if (info == 20 || info == 21) {
                    kind_ = Kind::BOOL;
                    bool_ = info == 21;
                } else if (info == 22) {
                    kind_ = Kind::NUL;
                } else if (info == 27) {
                    auto bits = take_n(d, p, 8);
                    kind_ = Kind::FLOAT;
                    std::memcpy(&float_, &bits, 8);
                } else {
                    throw std::runtime_error("invalid CBOR: unsupported simple value");
                }
                break;
            }
            default: throw std::runtime_error("invalid CBOR: unsupported major type");
        }
    }

    void expect(Kind kind, const char* what) const {
        if (kind_ != kind) {
            throw std::runtime_error(std::string("unexpected CBOR structure: expected ") + what);
        }
    }

public:
    Reader() = default;
    explicit Reader(const std::string& data) {
        std::size_t p = 0;
        parse(data, p, 0);
        if (p != data.size()) {
            throw std::runtime_error("invalid CBOR: garbage at end of outermost structure");
        }
    }

    [[nodiscard]] Kind kind() const { return kind_; }
    [[nodiscard]] bool as_bool() const {
        expect(Kind::BOOL, "boolean");
        return bool_;
    }
    [[nodiscard]] std::int64_t as_int() const {
        expect(Kind::INT, "integer");
        return int_;
    }
    [[nodiscard]] double as_float() const {
        expect(Kind::FLOAT, "float");
        return float_;
    }
    [[nodiscard]] std::string as_string() const {
        expect(Kind::TEXT, "string");
        return bytes_;
    }
    [[nodiscard]] std::string as_binary() const {
        expect(Kind::BINARY, "binary string");
        return bytes_;
    }
    [[nodiscard]] ArrayReader as_array() const;
    [[nodiscard]] MapReader as_map() const;
};

class ArrayReader {
    std::shared_ptr<std::vector<Reader>> data_;

public:
    explicit ArrayReader(std::shared_ptr<std::vector<Reader>> data)
    : data_{ std::move(data) } {}
    [[nodiscard]] const Reader& at(std::size_t i) const { return data_->at(i); }
    [[nodiscard]] std::size_t size() const { return data_->size(); }
    [[nodiscard]] auto begin() const { return data_->cbegin(); }
    [[nodiscard]] auto end() const { return data_->cend(); }
};

class MapReader {
    std::shared_ptr<std::map<std::string, Reader>> data_;

public:
    explicit MapReader(std::shared_ptr<std::map<std::string, Reader>> data)
    : data_{ std::move(data) } {}
    [[nodiscard]] const Reader& at(const std::string& key) const {
        auto it = data_->find(key);
        if (it == data_->end()) {
            throw std::out_of_range("CBOR map has no key '" + key + "'");
        }
        return it->second;
    }
    [[nodiscard]] std::size_t count(const std::string& key) const { return data_->count(key); }
    [[nodiscard]] std::size_t size() const { return data_->size(); }
    [[nodiscard]] auto begin() const { return data_->cbegin(); }
    [[nodiscard]] auto end() const { return data_->cend(); }
};

inline ArrayReader Reader::as_array() const {
    expect(Kind::ARRAY, "array");
    return ArrayReader{ array_ };
}
inline MapReader Reader::as_map() const {
    expect(Kind::MAP, "map");
    return MapReader{ map_ };
}

namespace detail {
inline void head(std::ostream& os, int major, std::uint64_t v) {
    auto put = [&os](std::uint64_t x) { os.put(static_cast<char>(static_cast<unsigned char>(x))); };
    if (v < 24) {
        put((major << 5) | v);
    } else {
        int n = v <= 0xFF ? 1 : v <= 0xFFFF ? 2 : v <= 0xFFFFFFFFull ? 4 : 8;
        put((major << 5) | (n == 1 ? 24 : n == 2 ? 25 : n == 4 ? 26 : 27));
        for (int i = n - 1; i >= 0; --i) {
            put((v >> (8 * i)) & 0xFF);
        }
    }
}
}  // namespace detail

class ArrayWriter;
class MapWriter;

// Common part of the array and map writers. A structure must be closed before its parent is written to again.
class StructureWriter {
protected:
    std::ostream* os_;
    bool open_ = true;

    explicit StructureWriter(std::ostream& os)
    : os_{ &os } {}
    StructureWriter(const StructureWriter&) = delete;
    StructureWriter& operator=(const StructureWriter&) = delete;
    StructureWriter(StructureWriter&& o) noexcept
    : os_{ o.os_ }
    , open_{ o.open_ } {
        o.open_ = false;
    }
    StructureWriter& operator=(StructureWriter&&) = delete;

    void w_null() { os_->put('\xF6'); }
    void w_bool(bool v) { os_->put(v ? '\xF5' : '\xF4'); }
    void w_int(std::int64_t v) {
        if (v >= 0) {
            detail::head(*os_, 0, static_cast<std::uint64_t>(v));
        } else {
            detail::head(*os_, 1, static_cast<std::uint64_t>(-(v + 1)));
        }
    }
    void w_float(double v) {
        std::uint64_t bits{};
        std::memcpy(&bits, &v, 8);
        os_->put('\xFB');
        for (int i = 7; i >= 0; --i) {
            os_->put(static_cast<char>(static_cast<unsigned char>((bits >> (8 * i)) & 0xFF)));
        }
    }
    void w_string(const std::string& v) {
        detail::head(*os_, 3, v.size());
        os_->write(v.data(), static_cast<std::streamsize>(v.size()));
    }
    void w_binary(const std::string& v) {
        detail::head(*os_, 2, v.size());
        os_->write(v.data(), static_cast<std::streamsize>(v.size()));
    }

public:
    ~StructureWriter() { close(); }
    void close() {
        if (open_) {
            os_->put('\xFF');
            open_ = false;
        }
    }
};

class ArrayWriter : public StructureWriter {
public:
    explicit ArrayWriter(std::ostream& os)
    : StructureWriter{ os } {
        os.put('\x9F');
    }
    ArrayWriter(ArrayWriter&&) noexcept = default;
    void append_null() { w_null(); }
    void append_bool(bool v) { w_bool(v); }
    void append_int(std::int64_t v) { w_int(v); }
    void append_float(double v) { w_float(v); }
    void append_string(const std::string& v) { w_string(v); }
    void append_binary(const std::string& v) { w_binary(v); }
    ArrayWriter append_array();
    MapWriter append_map();
};

class MapWriter : public StructureWriter {
public:
    explicit MapWriter(std::ostream& os)
    : StructureWriter{ os } {
        os.put('\xBF');
    }
    MapWriter(MapWriter&&) noexcept = default;
    void append_null(const std::string& k) { w_string(k), w_null(); }
    void append_bool(const std::string& k, bool v) { w_string(k), w_bool(v); }
    void append_int(const std::string& k, std::int64_t v) { w_string(k), w_int(v); }
    void append_float(const std::string& k, double v) { w_string(k), w_float(v); }
    void append_string(const std::string& k, const std::string& v) { w_string(k), w_string(v); }
    void append_binary(const std::string& k, const std::string& v) { w_string(k), w_binary(v); }
    ArrayWriter append_array(const std::string& k) {
        w_string(k);
        return ArrayWriter{ *os_ };
    }
    MapWriter append_map(const std::string& k) {
        w_string(k);
        return MapWriter{ *os_ };
    }
};

inline ArrayWriter ArrayWriter::append_array() {
    return ArrayWriter{ *os_ };
}
inline MapWriter ArrayWriter::append_map() {
    return MapWriter{ *os_ };
}

class Writer {
    std::ostream& os_;

public:
    explicit Writer(std::ostream& os)
    : os_{ os } {}
    MapWriter start() { return MapWriter{ os_ }; }
};

}  // namespace tree::cbor
