// Stand-in for tree-gen's support library (not available offline): edges of the trees used by libqasm.
// Every operation gives the strong exception guarantee; copies share nodes, as in the original.
#pragma once
#include <cstddef>
#include <initializer_list>
#include <memory>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include "tree-annotatable.hpp"
#include "tree-cbor.hpp"

namespace tree {

using signed_size_t = std::make_signed_t<std::size_t>;

namespace base {

class NotWellFormed : public std::runtime_error {
public:
    explicit NotWellFormed(const std::string& m) : std::runtime_error("not well-formed: " + m) {}
};

class PointerMap {
    std::unordered_map<const void*, size_t> map_;
public:
    size_t add_raw(const void* p, const char* what) {
        if (!map_.emplace(p, map_.size()).second) throw NotWellFormed(std::string("duplicate node of type ") + what);
        return map_.size() - 1;
    }
    bool has(const void* p) const { return map_.count(p) != 0; }
    size_t get_raw(const void* p) const {
        auto it = map_.find(p);
        if (it == map_.end()) throw NotWellFormed("link to unreachable node");
        return it->second;
    }
};

class Completable {
public:
    Completable() = default;
    Completable(const Completable&) = default;
    Completable(Completable&&) noexcept = default;
    Completable& operator=(const Completable&) = default;
    Completable& operator=(Completable&&) noexcept = default;
    virtual ~Completable() = default;
    virtual void find_reachable(PointerMap&) const {}
    virtual void check_complete(const PointerMap&) const {}
    bool is_complete() const { try { PointerMap m; check_complete(m); return true; } catch (NotWellFormed&) { return false; } }
    void check_well_formed() const { PointerMap m; find_reachable(m); check_complete(m); }
    bool is_well_formed() const { try { check_well_formed(); return true; } catch (NotWellFormed&) { return false; } }
};

class Base : public annotatable::Annotatable, public Completable {
public:
    virtual void serialize(cbor::MapWriter& map, const PointerMap&) const { map.append_null("@t"); }
};

template <class T> class Maybe : public Completable {
protected:
    std::shared_ptr<T> val;
public:
    Maybe() = default;
    Maybe(const Maybe&) = default;
    Maybe(Maybe&&) noexcept = default;
    Maybe& operator=(const Maybe&) = default;
    Maybe& operator=(Maybe&&) noexcept = default;
    template <class S> explicit Maybe(const std::shared_ptr<S>& v) : val(std::static_pointer_cast<T>(v)) {}
    template <class S> explicit Maybe(std::shared_ptr<S>&& v) : val(std::static_pointer_cast<T>(std::move(v))) {}
    template <class S> Maybe(const Maybe<S>& v) : val(std::static_pointer_cast<T>(v.get_ptr())) {}
    template <class S> Maybe& operator=(const Maybe<S>& v) { val = std::static_pointer_cast<T>(v.get_ptr()); return *this; }
    template <class S> Maybe& operator=(const std::shared_ptr<S>& v) { val = std::static_pointer_cast<T>(v); return *this; }
    template <class S> void set(const Maybe<S>& v) { val = std::static_pointer_cast<T>(v.get_ptr()); }
    template <class S> void set(const std::shared_ptr<S>& v) { val = std::static_pointer_cast<T>(v); }
    void reset() { val.reset(); }
    bool empty() const { return !val; }
    explicit operator bool() const { return static_cast<bool>(val); }
    T& operator*() const { return deref(); }
    T* operator->() const { return &deref(); }
    T& deref() const { if (!val) throw std::runtime_error("dereferencing empty Maybe/One object"); return *val; }
    template <class S> Maybe<S> as() const { return Maybe<S>(std::dynamic_pointer_cast<S>(val)); }
    std::shared_ptr<T>& get_ptr() { return val; }
    const std::shared_ptr<T>& get_ptr() const { return val; }
    template <class S> bool equals(const Maybe<S>& o) const {
        if (!val || !o.get_ptr()) return !val && !o.get_ptr();
        if constexpr (requires { val->equals(*o.get_ptr()); }) return val->equals(*o.get_ptr()); else return *val == *o.get_ptr();
    }
    template <class S> bool operator==(const Maybe<S>& o) const { return val.get() == o.get_ptr().get(); }
    template <class S> bool operator!=(const Maybe<S>& o) const { return val.get() != o.get_ptr().get(); }
    template <class S> bool operator<(const Maybe<S>& o) const { return val.get() < o.get_ptr().get(); }
    void find_reachable(PointerMap& m) const override { if (val) { m.add_raw(static_cast<const void*>(val.get()), typeid(T).name()); if constexpr (std::is_base_of_v<Completable, T>) val->find_reachable(m); } }
    void check_complete(const PointerMap& m) const override { if (val) { if constexpr (std::is_base_of_v<Completable, T>) val->check_complete(m); } }
    Maybe copy() const { return val ? Maybe(val->copy()) : Maybe(); }
    Maybe clone() const { return val ? Maybe(val->clone()) : Maybe(); }
};

template <class T> class One : public Maybe<T> {
public:
    One() = default;
    One(const One&) = default;
    One(One&&) noexcept = default;
    One& operator=(const One&) = default;
    One& operator=(One&&) noexcept = default;
    template <class S> explicit One(const std::shared_ptr<S>& v) : Maybe<T>(v) {}
    template <class S> explicit One(std::shared_ptr<S>&& v) : Maybe<T>(std::move(v)) {}
    template <class S> One(const Maybe<S>& v) : Maybe<T>(v) {}
    template <class S> One& operator=(const Maybe<S>& v) { Maybe<T>::operator=(v); return *this; }
    template <class S> One& operator=(const std::shared_ptr<S>& v) { Maybe<T>::operator=(v); return *this; }
    void check_complete(const PointerMap& m) const override {
        if (!this->val) throw NotWellFormed(std::string("'One' edge of type ") + typeid(T).name() + " is empty");
        Maybe<T>::check_complete(m);
    }
    One copy() const { return One(Maybe<T>::copy()); }
    One clone() const { return One(Maybe<T>::clone()); }
};

template <class T> class Any : public Completable {
protected:
    std::vector<One<T>> vec;
public:
    using value_type = One<T>;
    Any() = default;
    Any(std::initializer_list<One<T>> l) : vec(l) {}
    Any(const Any&) = default;
    Any(Any&&) noexcept = default;
    Any& operator=(const Any&) = default;
    Any& operator=(Any&&) noexcept = default;
    template <class S> Any& add(const Maybe<S>& ob, signed_size_t pos = -1) {
        if (ob.empty()) return *this;
        One<T> v(ob);
        if (pos < 0 || static_cast<size_t>(pos) >= vec.size()) vec.push_back(std::move(v)); else vec.insert(vec.begin() + pos, std::move(v));
        return *this;
    }
    template <class S, class... A> Any& emplace(A... args) { vec.push_back(One<T>(std::make_shared<S>(args...))); return *this; }
    template <class S> Any& extend(const Any<S>& o) {
        std::vector<One<T>> n(vec);
        n.reserve(vec.size() + o.size());
        for (const auto& e : o) n.push_back(One<T>(e));
        vec.swap(n);
        return *this;
    }
    void remove(signed_size_t pos = -1) { if (vec.empty()) return; if (pos < 0 || static_cast<size_t>(pos) >= vec.size()) vec.pop_back(); else vec.erase(vec.begin() + pos); }
    void reset() { vec.clear(); }
    bool empty() const { return vec.empty(); }
    size_t size() const { return vec.size(); }
    One<T>& operator[](size_t i) { return vec[i]; }
    const One<T>& operator[](size_t i) const { return vec[i]; }
    One<T>& at(size_t i) { return vec.at(i); }
    const One<T>& at(size_t i) const { return vec.at(i); }
    One<T>& front() { return vec.front(); }
    const One<T>& front() const { return vec.front(); }
    One<T>& back() { return vec.back(); }
    const One<T>& back() const { return vec.back(); }
    auto begin() { return vec.begin(); }
    auto begin() const { return vec.begin(); }
    auto end() { return vec.end(); }
    auto end() const { return vec.end(); }
    auto rbegin() { return vec.rbegin(); }
    auto rbegin() const { return vec.rbegin(); }
    auto rend() { return vec.rend(); }
    auto rend() const { return vec.rend(); }
    std::vector<One<T>>& get_vec() { return vec; }
    const std::vector<One<T>>& get_vec() const { return vec; }
    bool equals(const Any& o) const {
        if (vec.size() != o.vec.size()) return false;
        for (size_t i = 0; i < vec.size(); ++i) if (!vec[i].equals(o.vec[i])) return false;
        return true;
    }
    bool operator==(const Any& o) const { return vec == o.vec; }
    void find_reachable(PointerMap& m) const override { for (auto& e : vec) e.find_reachable(m); }
    void check_complete(const PointerMap& m) const override { for (auto& e : vec) e.check_complete(m); }
    Any copy() const { Any r; r.vec.reserve(vec.size()); for (auto& e : vec) r.vec.push_back(e.copy()); return r; }
    Any clone() const { Any r; r.vec.reserve(vec.size()); for (auto& e : vec) r.vec.push_back(e.clone()); return r; }
};

template <class T> class Many : public Any<T> {
public:
    using Any<T>::Any;
    Many() = default;
    Many(const Any<T>& o) : Any<T>(o) {}
    void check_complete(const PointerMap& m) const override {
        if (this->vec.empty()) throw NotWellFormed(std::string("'Many' edge of type ") + typeid(T).name() + " is empty");
        Any<T>::check_complete(m);
    }
    Many copy() const { return Many(Any<T>::copy()); }
    Many clone() const { return Many(Any<T>::clone()); }
};

template <class T> class OptLink : public Completable {
protected:
    std::weak_ptr<T> val;
public:
    OptLink() = default;
    OptLink(const OptLink&) = default;
    OptLink(OptLink&&) noexcept = default;
    OptLink& operator=(const OptLink&) = default;
    OptLink& operator=(OptLink&&) noexcept = default;
    template <class S> OptLink(const Maybe<S>& v) : val(std::static_pointer_cast<T>(v.get_ptr())) {}
    template <class S> OptLink(const OptLink<S>& v) : val(std::static_pointer_cast<T>(v.get_ptr())) {}
    bool empty() const { return val.expired(); }
    explicit operator bool() const { return !empty(); }
    std::shared_ptr<T> get_ptr() const { return val.lock(); }
    T& deref() { auto p = val.lock(); if (!p) throw std::runtime_error("dereferencing empty or expired (Opt)Link object"); return *p; }
    const T& deref() const { auto p = val.lock(); if (!p) throw std::runtime_error("dereferencing empty or expired (Opt)Link object"); return *p; }
    T& operator*() { return deref(); }
    const T& operator*() const { return deref(); }
    T* operator->() { return &deref(); }
    const T* operator->() const { return &deref(); }
    bool equals(const OptLink& o) const { return get_ptr() == o.get_ptr(); }
    bool operator==(const OptLink& o) const { return get_ptr() == o.get_ptr(); }
    void check_complete(const PointerMap& m) const override { if (auto p = val.lock()) m.get_raw(static_cast<const void*>(p.get())); }
};
template <class T> class Link : public OptLink<T> {
public:
    using OptLink<T>::OptLink;
    Link() = default;
    void check_complete(const PointerMap& m) const override {
        auto p = this->val.lock();
        if (!p) throw NotWellFormed(std::string("'Link' edge of type ") + typeid(T).name() + " is empty");
        m.get_raw(static_cast<const void*>(p.get()));
    }
};

template <class T> std::ostream& operator<<(std::ostream& os, const Maybe<T>& o) { return o.empty() ? os << "NULL" : os << *o; }

template <class T> std::string serialize(const Maybe<T>& tree) {
    PointerMap m;
    tree.find_reachable(m);
    std::string out;
    cbor::MapWriter w(out);
    if (tree.empty()) w.append_null("@t"); else tree->serialize(w, m);
    w.close();
    return out;
}
template <class T> One<T> deserialize(const std::string& text) {
    return One<T>(T::deserialize(cbor::Reader::parse(text).as_map()));
}

}  // namespace base
}  // namespace tree
