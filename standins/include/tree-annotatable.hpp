// Stand-in for tree-gen's support library (not available offline): annotations attached to tree nodes.
// Behaves like a plain type-indexed map of shared values; every operation has the strong guarantee.
#pragma once
#include <map>
#include <memory>
#include <stdexcept>
#include <typeindex>
#include <type_traits>
#include <utility>

namespace tree::annotatable {

class Annotatable {
    std::map<std::type_index, std::shared_ptr<void>> notes_;

public:
    Annotatable() = default;
    Annotatable(const Annotatable&) = default;
    Annotatable(Annotatable&&) = default;
    Annotatable& operator=(const Annotatable&) = default;
    Annotatable& operator=(Annotatable&&) = default;
    virtual ~Annotatable() = default;

    template <class T> void set_annotation(const T& ob) { notes_[typeid(T)] = std::make_shared<T>(ob); }
    template <class T, typename = std::enable_if_t<!std::is_lvalue_reference_v<T>>>
    void set_annotation(T&& ob) { notes_[typeid(T)] = std::make_shared<std::remove_cvref_t<T>>(std::move(ob)); }
    template <class T> bool has_annotation() const { return notes_.count(typeid(T)) != 0; }
    template <class T> T* get_annotation_ptr() {
        auto it = notes_.find(typeid(T));
        return it == notes_.end() ? nullptr : static_cast<T*>(it->second.get());
    }
    template <class T> const T* get_annotation_ptr() const {
        auto it = notes_.find(typeid(T));
        return it == notes_.end() ? nullptr : static_cast<const T*>(it->second.get());
    }
    template <class T> T& get_annotation() { if (auto p = get_annotation_ptr<T>()) return *p; throw std::runtime_error("object does not have an annotation of this type"); }
    template <class T> const T& get_annotation() const { if (auto p = get_annotation_ptr<T>()) return *p; throw std::runtime_error("object does not have an annotation of this type"); }
    template <class T> void erase_annotation() { notes_.erase(typeid(T)); }
    template <class T> void copy_annotation(const Annotatable& src) {
        if (auto it = src.notes_.find(typeid(T)); it != src.notes_.end()) notes_[typeid(T)] = it->second; else notes_.erase(typeid(T));
    }
    void copy_annotations(const Annotatable& src) { for (auto& n : src.notes_) notes_[n.first] = n.second; }
};

}  // namespace tree::annotatable
