// Stand-in for tree-gen's tree-annotatable.hpp: objects that carry at most one annotation object per C++ type.
#pragma once

#include <any>
#include <memory>
#include <typeindex>
#include <unordered_map>
#include <utility>

#include "tree-cbor.hpp"

namespace tree::annotatable {

class Annotatable {
    std::unordered_map<std::type_index, std::shared_ptr<void>> annotations_;

public:
    Annotatable() = default;
    virtual ~Annotatable() = default;
    Annotatable(const Annotatable&) = default;
    Annotatable(Annotatable&&) = default;
    Annotatable& operator=(const Annotatable&) = default;
    Annotatable& operator=(Annotatable&&) = default;

    template <typename T>
    void set_annotation(const T& ob) {
        annotations_[std::type_index(typeid(T))] = std::make_shared<T>(ob);
    }
    template <typename T>
    void set_annotation(T&& ob)
        requires(!std::is_lvalue_reference_v<T> && !std::is_const_v<T>)
    {
        annotations_[std::type_index(typeid(T))] = std::make_shared<T>(std::move(ob));
    }
    template <typename T>
    [[nodiscard]] bool has_annotation() const {
        return annotations_.count(std::type_index(typeid(T))) > 0;
    }
    template <typename T>
    [[nodiscard]] T* get_annotation_ptr() {
        auto it = annotations_.find(std::type_index(typeid(T)));
        return it == annotations_.end() ? nullptr : static_cast<T*>(it->second.get());
    }
    template <typename T>
    [[nodiscard]] const T* get_annotation_ptr() const {
        auto it = annotations_.find(std::type_index(typeid(T)));
        return it == annotations_.end() ? nullptr : static_cast<const T*>(it->second.get());
    }
    template <typename T>
    [[nodiscard]] T& get_annotation() {
        if (auto ptr = get_annotation_ptr<T>()) {
            return *ptr;
        }
        throw std::runtime_error("object does not have an annotation of this type");
    }
    template <typename T>
    [[nodiscard]] const T& get_annotation() const {
        if (auto ptr = get_annotation_ptr<T>()) {
            return *ptr;
        }
        throw std::runtime_error("object does not have an annotation of this type");
    }
    template <typename T>
    void erase_annotation() {
        annotations_.erase(std::type_index(typeid(T)));
    }
    // Copies the annotation of type T, or erases it when the source has none.
    template <typename T>
    void copy_annotation(const Annotatable& src) {
        if (auto ptr = src.get_annotation_ptr<T>()) {
            set_annotation<T>(T(*ptr));
        } else {
            erase_annotation<T>();
        }
    }
};

}  // namespace tree::annotatable
