// A stand-in for cpp-btree's btree_multimap (not installed here): the same interface, a
// sorted vector inside. Any change invalidates all iterators, as in a B-tree; using an
// invalidated one is an error. Equal keys stay in the order of their insertion.
#ifndef H_BTREE_MAP
#define H_BTREE_MAP
#include <utility>
#include <vector>
#include <iterator>
#include "sym.h"
namespace btree {
template <class K, class V>
class btree_multimap {
   public:
    using key_type = K;
    using mapped_type = V;
    using value_type = std::pair<const K, V>;
    template <class T>
    struct iter {
        using iterator_category = std::bidirectional_iterator_tag;
        using value_type = T;
        using difference_type = long;
        using pointer = T*;
        using reference = T&;
        const btree_multimap* m = nullptr;
        size_t at = 0;
        unsigned long gen = 0;
        void ok() const { CHECKM(m != nullptr && gen == m->gen_, "a B-tree iterator is used only while it is valid"); }
        T& operator*() const { ok(); CHECKM(at < m->v_.size(), "the end of a B-tree is not dereferenced"); return *m->v_[at]; }
        T* operator->() const { return &**this; }
        iter& operator++() { ok(); CHECKM(at < m->v_.size(), "no step beyond the end of a B-tree"); ++at; return *this; }
        iter& operator--() { ok(); CHECKM(at > 0, "no step before the beginning of a B-tree"); --at; return *this; }
        iter operator++(int) { iter r = *this; ++*this; return r; }
        iter operator--(int) { iter r = *this; --*this; return r; }
        template <class U> bool operator==(const iter<U>& b) const { return m == b.m && at == b.at; }
        template <class U> bool operator!=(const iter<U>& b) const { return !(*this == b); }
        operator iter<const T>() const { return {m, at, gen}; }
    };
    using iterator = iter<value_type>;
    using const_iterator = iter<const value_type>;
    btree_multimap() = default;
    btree_multimap(const btree_multimap& b) { for (auto* x : b.v_) v_.push_back(new value_type(*x)); }
    btree_multimap& operator=(const btree_multimap& b) { if (this != &b) { clear(); for (auto* x : b.v_) v_.push_back(new value_type(*x)); } return *this; }
    ~btree_multimap() { clear(); }
    iterator begin() { return {this, 0, gen_}; }
    iterator end() { return {this, v_.size(), gen_}; }
    const_iterator begin() const { return {this, 0, gen_}; }
    const_iterator end() const { return {this, v_.size(), gen_}; }
    bool empty() const { return v_.empty(); }
    size_t size() const { return v_.size(); }
    iterator lower_bound(const K& k) { return {this, lower(k), gen_}; }
    iterator upper_bound(const K& k) { return {this, upper(k), gen_}; }
    const_iterator lower_bound(const K& k) const { return {this, lower(k), gen_}; }
    const_iterator upper_bound(const K& k) const { return {this, upper(k), gen_}; }
    std::pair<iterator, iterator> equal_range(const K& k) { return {lower_bound(k), upper_bound(k)}; }
    iterator find(const K& k) { size_t i = lower(k); return i < v_.size() && !sym_istrue(k < v_[i]->first) ? iterator{this, i, gen_} : end(); }
    size_t count(const K& k) const { return upper(k) - lower(k); }
    iterator insert(const value_type& x) {
        value_type* n = new value_type(x);
        size_t i = upper(n->first);
        v_.insert(v_.begin() + i, n);
        ++gen_;
        return {this, i, gen_};
    }
    iterator insert(iterator, const value_type& x) { return insert(x); }
    template <class... A> iterator emplace(A&&... a) { return insert(value_type(std::forward<A>(a)...)); }
    iterator erase(const iterator& i) { i.ok(); *i; return drop(i.at, i.at + 1), iterator{this, i.at, gen_}; }
    int erase(const iterator& from, const iterator& till) {
        from.ok(); till.ok();
        CHECKM(from.m == this && till.m == this && from.at <= till.at, "a B-tree erases its own ranges");
        int n = (int)(till.at - from.at);
        drop(from.at, till.at);
        return n;
    }
    int erase(const K& k) { size_t a = lower(k), b = upper(k); drop(a, b); return (int)(b - a); }
    void clear() { if (!v_.empty()) drop(0, v_.size()); ++gen_; }
    void swap(btree_multimap& b) { v_.swap(b.v_); ++gen_; ++b.gen_; }

   private:
    std::vector<value_type*> v_;
    unsigned long gen_ = 1;
    size_t lower(const K& k) const { size_t i = 0; while (i < v_.size() && sym_istrue(v_[i]->first < k)) ++i; return i; }
    size_t upper(const K& k) const { size_t i = 0; while (i < v_.size() && !sym_istrue(k < v_[i]->first)) ++i; return i; }
    void drop(size_t a, size_t b) { for (size_t i = a; i < b; ++i) delete v_[i]; v_.erase(v_.begin() + a, v_.begin() + b); ++gen_; }
};
}  // namespace btree
#endif
