// Stand-in for tree-gen's tree-base.hpp: Base, Maybe, One, Any, Many, OptLink, Link, (de)serialize, well-formedness.
#pragma once

#include <cassert>
#include <algorithm>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <iterator>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

#include "tree-annotatable.hpp"
#include "tree-cbor.hpp"

namespace tree::base {

class NotWellFormed : public std::runtime_error {
public:
    explicit NotWellFormed(const std::string& msg)
    : std::runtime_error("Tree is not well-formed: " + msg) {}
};

// Sequence numbers for all nodes owned by a tree.
class PointerMap {
    std::unordered_map<const void*, std::size_t> map_;
    bool enable_exceptions_ = true;

public:
    void add(const void* ptr, const char* what) {
        if (!map_.emplace(ptr, map_.size()).second) {
            throw NotWellFormed(std::string("duplicate node found: ") + what);
        }
    }
    [[nodiscard]] bool contains(const void* ptr) const { return map_.count(ptr) > 0; }
    [[nodiscard]] std::size_t get(const void* ptr, const char* what) const {
        auto it = map_.find(ptr);
        if (it == map_.end()) {
            throw NotWellFormed(std::string("link to node not found in tree: ") + what);
        }
        return it->second;
    }
};

// Used while deserializing: sequence number -> node, and links to be resolved at the end.
class Base;

class IdentifierMap {
    std::unordered_map<std::int64_t, std::shared_ptr<Base>> nodes_;
    std::vector<std::pair<std::int64_t, std::function<void(const std::shared_ptr<Base>&)>>> links_;

public:
    void add_node(std::int64_t id, std::shared_ptr<Base> ptr) {
        if (!nodes_.emplace(id, std::move(ptr)).second) {
            throw std::runtime_error("duplicate node in serialized tree");
        }
    }
    void add_link(std::int64_t id, std::function<void(const std::shared_ptr<Base>&)> set) {
        links_.emplace_back(id, std::move(set));
    }
    void restore_links() const {
        for (const auto& [id, set] : links_) {
            auto it = nodes_.find(id);
            if (it == nodes_.end()) {
                throw std::runtime_error("link to unknown node in serialized tree");
            }
            set(it->second);
        }
    }
};

class Completable {
public:
    Completable() = default;
    Completable(const Completable&) = default;
    Completable(Completable&&) = default;
    Completable& operator=(const Completable&) = default;
    Completable& operator=(Completable&&) = default;
    virtual ~Completable() = default;
    virtual void find_reachable(PointerMap&) const {}
    virtual void check_complete(const PointerMap&) const {}
    void check_well_formed() const {
        PointerMap map{};
        find_reachable(map);
        check_complete(map);
    }
    [[nodiscard]] bool is_well_formed() const {
        try {
            check_well_formed();
            return true;
        } catch (const NotWellFormed&) {
            return false;
        }
    }
};

class Base : public annotatable::Annotatable, public Completable {
public:
    // Overridden by every generated node.
    virtual void serialize(cbor::MapWriter&, const PointerMap&) const {
        throw std::runtime_error("node cannot be serialized");
    }
};

template <class T>
class One;

template <class T>
class Maybe : public Completable {
protected:
    std::shared_ptr<T> val_;

    template <class S>
    static std::shared_ptr<T> convert(const std::shared_ptr<S>& ptr) {
        if (!ptr) {
            return {};
        }
        if constexpr (std::is_convertible_v<S*, T*>) {
            return ptr;
        } else {
            auto ret = std::dynamic_pointer_cast<T>(ptr);
            if (!ret) {
                throw std::runtime_error("tree node has an unexpected type");
            }
            return ret;
        }
    }

public:
    Maybe() = default;
    Maybe(const Maybe&) = default;
    Maybe(Maybe&&) noexcept = default;
    Maybe& operator=(const Maybe&) = default;
    Maybe& operator=(Maybe&&) noexcept = default;
    template <class S>
    Maybe(const std::shared_ptr<S>& ptr)
    : val_{ convert(ptr) } {}
    template <class S>
    Maybe(const Maybe<S>& other)
    : val_{ convert(other.get_ptr()) } {}

    template <class S>
    void set(const Maybe<S>& other) { val_ = convert(other.get_ptr()); }
    template <class S>
    void set(const std::shared_ptr<S>& ptr) { val_ = convert(ptr); }
    template <class S = T, typename... Args>
    void emplace(Args&&... args) { val_ = std::make_shared<S>(std::forward<Args>(args)...); }
    template <class S>
    void set_raw(S* ob) { val_ = std::shared_ptr<S>(ob); }
    void reset() { val_.reset(); }
    [[nodiscard]] bool empty() const { return !val_; }
    [[nodiscard]] std::size_t size() const { return val_ ? 1 : 0; }
    [[nodiscard]] std::shared_ptr<T> get_ptr() const { return val_; }
    [[nodiscard]] T& deref() const {
        if (!val_) {
            throw std::out_of_range("dereferencing empty Maybe/One object");
        }
        return *val_;
    }
    T& operator*() const { return deref(); }
    T* operator->() const { return &deref(); }

    template <class S>
    [[nodiscard]] std::shared_ptr<S> as() const {
        return std::dynamic_pointer_cast<S>(val_);
    }

    [[nodiscard]] bool equals(const Maybe& rhs) const {
        if (empty() || rhs.empty()) {
            return empty() && rhs.empty();
        }
        return *val_ == *rhs.val_;
    }
    bool operator==(const Maybe& rhs) const { return equals(rhs); }
    bool operator!=(const Maybe& rhs) const { return !equals(rhs); }

    void find_reachable(PointerMap& map) const override {
        if (val_) {
            map.add(static_cast<const void*>(static_cast<const Completable*>(val_.get())), "node");
            val_->find_reachable(map);
        }
    }
    void check_complete(const PointerMap& map) const override {
        if (val_) {
            val_->check_complete(map);
        }
    }

    [[nodiscard]] One<T> clone() const;
    [[nodiscard]] One<T> copy() const;

    virtual const char* edge_type() const { return "?"; }
    void serialize(cbor::MapWriter& map, const PointerMap& ids) const {
        map.append_string("@T", edge_type());
        if (!val_) {
            map.append_null("@t");
        } else {
            map.append_int("@i",
                static_cast<std::int64_t>(
                    ids.get(static_cast<const void*>(static_cast<const Completable*>(val_.get())), "node")));
            val_->serialize(map, ids);
        }
    }
    void deserialize(const cbor::MapReader& map, IdentifierMap& ids) {
        if (map.at("@T").as_string() != edge_type()) {
            throw std::runtime_error("schema validation failed: unexpected edge type");
        }
        if (map.at("@t").kind() == cbor::Reader::Kind::NUL) {
            val_.reset();
            return;
        }
        val_ = convert(T::deserialize_node(map, ids));
        ids.add_node(map.at("@i").as_int(), std::shared_ptr<Base>(val_));
    }
};

template <class T>
class One : public Maybe<T> {
public:
    One() = default;
    One(const One&) = default;
    One(One&&) noexcept = default;
    One& operator=(const One&) = default;
    One& operator=(One&&) noexcept = default;
    template <class S>
    One(const std::shared_ptr<S>& ptr)
    : Maybe<T>{ ptr } {}
    template <class S>
    One(const Maybe<S>& other)
    : Maybe<T>{ other } {}
    template <class S>
    One(const One<S>& other)
    : Maybe<T>{ static_cast<const Maybe<S>&>(other) } {}

    void check_complete(const PointerMap& map) const override {
        if (this->empty()) {
            throw NotWellFormed("'One' edge is empty");
        }
        Maybe<T>::check_complete(map);
    }
    const char* edge_type() const override { return "1"; }
};

template <class T>
One<T> Maybe<T>::clone() const {
    return val_ ? One<T>{ val_->clone() } : One<T>{};
}
template <class T>
One<T> Maybe<T>::copy() const {
    return val_ ? One<T>{ val_->copy() } : One<T>{};
}

template <class T>
class Any : public Completable {
protected:
    std::vector<One<T>> vec_;

public:
    Any() = default;
    Any(std::initializer_list<One<T>> list)
    : vec_{ list } {}
    Any(const Any&) = default;
    Any(Any&&) noexcept = default;
    Any& operator=(const Any&) = default;
    Any& operator=(Any&&) noexcept = default;
    template <class S>
        requires(!std::is_same_v<S, T>)
    Any(const Any<S>& other) {
        extend(other);
    }

    [[nodiscard]] std::vector<One<T>>& get_vec() { return vec_; }
    [[nodiscard]] const std::vector<One<T>>& get_vec() const { return vec_; }
    template <class S>
    Any& add(const Maybe<S>& ob, signed_size_t pos = -1) {
        if (ob.empty()) {
            return *this;
        }
        if (pos < 0 || static_cast<std::size_t>(pos) >= vec_.size()) {
            vec_.emplace_back(ob.get_ptr());
        } else {
            vec_.insert(vec_.begin() + pos, One<T>{ ob.get_ptr() });
        }
        return *this;
    }
    template <class S>
    Any& extend(const Any<S>& other) {
        for (const auto& x : other.get_vec()) {
            vec_.emplace_back(x.get_ptr());
        }
        return *this;
    }
    template <class S = T, typename... Args>
    Any& emplace(Args&&... args) {
        vec_.emplace_back(std::make_shared<S>(std::forward<Args>(args)...));
        return *this;
    }
    Any& remove(signed_size_t pos = -1) {
        if (!vec_.empty()) {
            vec_.erase(pos < 0 || static_cast<std::size_t>(pos) >= vec_.size() ? vec_.end() - 1 : vec_.begin() + pos);
        }
        return *this;
    }
    [[nodiscard]] Any copy() const {
        Any ret{};
        for (const auto& x : vec_) {
            ret.add(x.copy());
        }
        return ret;
    }
    void reset() { vec_.clear(); }
    [[nodiscard]] bool empty() const { return vec_.empty(); }
    [[nodiscard]] std::size_t size() const { return vec_.size(); }
    One<T>& at(std::size_t i) { return vec_.at(i); }
    const One<T>& at(std::size_t i) const { return vec_.at(i); }
    One<T>& operator[](std::size_t i) { return vec_.at(i); }
    const One<T>& operator[](std::size_t i) const { return vec_.at(i); }
    One<T>& front() { return vec_.at(0); }
    One<T>& back() { return vec_.at(vec_.size() - 1); }
    const One<T>& front() const { return vec_.at(0); }
    const One<T>& back() const { return vec_.at(vec_.size() - 1); }
    auto begin() { return vec_.begin(); }
    auto end() { return vec_.end(); }
    auto begin() const { return vec_.begin(); }
    auto end() const { return vec_.end(); }
    auto cbegin() const { return vec_.cbegin(); }
    auto cend() const { return vec_.cend(); }
    auto rbegin() { return vec_.rbegin(); }
    auto rend() { return vec_.rend(); }
    auto rbegin() const { return vec_.rbegin(); }
    auto rend() const { return vec_.rend(); }
    template <class S>
    Any& add_raw(S* ob, signed_size_t pos = -1) {
        return add(Maybe<T>{ std::shared_ptr<S>(ob) }, pos);
    }

    [[nodiscard]] bool equals(const Any& rhs) const {
        return std::equal(vec_.begin(), vec_.end(), rhs.vec_.begin(), rhs.vec_.end(), [](const auto& l, const auto& r) {
            return l.equals(r);
        });
    }
    bool operator==(const Any& rhs) const { return equals(rhs); }
    bool operator!=(const Any& rhs) const { return !equals(rhs); }

    void find_reachable(PointerMap& map) const override {
        for (const auto& x : vec_) {
            x.find_reachable(map);
        }
    }
    void check_complete(const PointerMap& map) const override {
        for (const auto& x : vec_) {
            x.check_complete(map);
        }
    }
    template <class C>
    [[nodiscard]] C clone_as() const {
        C ret{};
        for (const auto& x : vec_) {
            ret.add(x.clone());
        }
        return ret;
    }
    [[nodiscard]] Any clone() const { return clone_as<Any>(); }

    virtual const char* edge_type() const { return "*"; }
    void serialize(cbor::MapWriter& map, const PointerMap& ids) const {
        map.append_string("@T", edge_type());
        auto array = map.append_array("@d");
        for (const auto& x : vec_) {
            auto element = array.append_map();
            x.serialize(element, ids);
            element.close();
        }
        array.close();
    }
    void deserialize(const cbor::MapReader& map, IdentifierMap& ids) {
        if (map.at("@T").as_string() != edge_type()) {
            throw std::runtime_error("schema validation failed: unexpected edge type");
        }
        vec_.clear();
        for (const auto& element : map.at("@d").as_array()) {
            vec_.emplace_back();
            vec_.back().deserialize(element.as_map(), ids);
        }
    }
};

template <class T>
class Many : public Any<T> {
public:
    using Any<T>::Any;
    Many() = default;
    Many(const Many&) = default;
    Many(Many&&) noexcept = default;
    Many& operator=(const Many&) = default;
    Many& operator=(Many&&) noexcept = default;
    Many(const Any<T>& other) { this->extend(other); }
    void check_complete(const PointerMap& map) const override {
        if (this->empty()) {
            throw NotWellFormed("'Many' edge is empty");
        }
        Any<T>::check_complete(map);
    }
    [[nodiscard]] Many clone() const { return this->template clone_as<Many>(); }
    const char* edge_type() const override { return "+"; }
};

template <class T>
class OptLink : public Completable {
protected:
    std::weak_ptr<T> val_;
    // T may be incomplete (forward declared) where links are declared; the conversion to Completable happens where the
    // link is set, which needs a complete type.
    const void* key_ = nullptr;

public:
    OptLink() = default;
    OptLink(const OptLink&) = default;
    OptLink(OptLink&&) noexcept = default;
    OptLink& operator=(const OptLink&) = default;
    OptLink& operator=(OptLink&&) noexcept = default;
    template <class S>
    OptLink(const Maybe<S>& other) {
        set(other.get_ptr());
    }
    template <class S>
    void set(const std::shared_ptr<S>& ptr) {
        std::shared_ptr<T> p = std::static_pointer_cast<T>(ptr);
        val_ = p;
        key_ = static_cast<const Completable*>(p.get());
    }
    void reset() {
        val_.reset();
        key_ = nullptr;
    }
    [[nodiscard]] bool empty() const { return val_.expired(); }
    [[nodiscard]] std::shared_ptr<T> get_ptr() const { return val_.lock(); }
    [[nodiscard]] T& deref() const {
        auto p = val_.lock();
        if (!p) {
            throw std::out_of_range("dereferencing empty or expired (Opt)Link object");
        }
        return *p;
    }
    T& operator*() const { return deref(); }
    T* operator->() const { return &deref(); }
    [[nodiscard]] bool equals(const OptLink& rhs) const { return get_ptr() == rhs.get_ptr(); }
    bool operator==(const OptLink& rhs) const { return equals(rhs); }

    void check_complete(const PointerMap& map) const override {
        if (!empty()) {
            (void)map.get(key_, "link target");
        }
    }
    virtual const char* edge_type() const { return "@"; }
    void serialize(cbor::MapWriter& map, const PointerMap& ids) const {
        map.append_string("@T", edge_type());
        if (empty()) {
            map.append_null("@l");
        } else {
            map.append_int("@l", static_cast<std::int64_t>(ids.get(key_, "link target")));
        }
    }
    void deserialize(const cbor::MapReader& map, IdentifierMap& ids) {
        if (map.at("@T").as_string() != edge_type()) {
            throw std::runtime_error("schema validation failed: unexpected edge type");
        }
        reset();
        if (map.at("@l").kind() != cbor::Reader::Kind::NUL) {
            ids.add_link(map.at("@l").as_int(),
                [this](const std::shared_ptr<Base>& ptr) {
                    auto p = std::dynamic_pointer_cast<T>(ptr);
                    if (!p) {
                        throw std::runtime_error("link to node of unexpected type in serialized tree");
                    }
                    set(p);
                });
        }
    }
};

template <class T>
class Link : public OptLink<T> {
public:
    using OptLink<T>::OptLink;
    Link() = default;
    Link(const Link&) = default;
    Link(Link&&) noexcept = default;
    Link& operator=(const Link&) = default;
    Link& operator=(Link&&) noexcept = default;
    void check_complete(const PointerMap& map) const override {
        if (this->empty()) {
            throw NotWellFormed("'Link' edge is empty");
        }
        OptLink<T>::check_complete(map);
    }
    const char* edge_type() const override { return "$"; }
};

template <class T>
One<T> make(T&& ob) {
    return One<T>(std::make_shared<T>(std::forward<T>(ob)));
}

template <class T>
std::string serialize(const Maybe<T>& tree) {
    PointerMap ids{};
    tree.find_reachable(ids);
    std::ostringstream oss{};
    cbor::Writer writer{ oss };
    auto map = writer.start();
    // The root edge is always written as a Maybe.
    static_cast<const Maybe<T>&>(Maybe<T>{ tree.get_ptr() }).serialize(map, ids);
    map.close();
    return oss.str();
}

template <class T>
Maybe<T> deserialize(const std::string& cbor) {
    cbor::Reader reader{ cbor };
    IdentifierMap ids{};
    Maybe<T> tree{};
    tree.deserialize(reader.as_map(), ids);
    ids.restore_links();
    return tree;
}

}  // namespace tree::base
