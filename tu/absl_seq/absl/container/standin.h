// Stand-ins for the Abseil containers (a dependency): sorted and unsorted vectors with the same meaning.
#pragma once
#include <functional>
#include <utility>
#include <vector>
namespace absl {
template <class K, class V> class btree_map {
  std::vector<std::pair<K, V>> v_;
 public:
  using key_type = K; using mapped_type = V; using value_type = std::pair<K, V>;
  using iterator = typename std::vector<value_type>::iterator; using const_iterator = typename std::vector<value_type>::const_iterator;
  iterator begin() { return v_.begin(); } iterator end() { return v_.end(); }
  const_iterator begin() const { return v_.begin(); } const_iterator end() const { return v_.end(); }
  bool empty() const { return v_.empty(); } size_t size() const { return v_.size(); } void clear() { v_.clear(); }
  iterator lower_bound(const K& k) { auto i = begin(); while (i != end() && std::less<K>()(i->first, k)) ++i; return i; }
  iterator find(const K& k) { auto i = begin(); while (i != end() && !(i->first == k)) ++i; return i; }
  const_iterator find(const K& k) const { auto i = begin(); while (i != end() && !(i->first == k)) ++i; return i; }
  size_t count(const K& k) const { return find(k) != end(); }
  V& operator[](const K& k) { auto i = find(k); if (i == end()) i = v_.insert(lower_bound(k), value_type(k, V())); return i->second; }
  void erase(iterator i) { v_.erase(i); }
  size_t erase(const K& k) { auto i = find(k); if (i == end()) return 0; v_.erase(i); return 1; }
};
template <class K> class flat_hash_set {
 protected:
  std::vector<K> v_;
 public:
  using value_type = K; using iterator = typename std::vector<K>::iterator; using const_iterator = typename std::vector<K>::const_iterator;
  iterator begin() { return v_.begin(); } iterator end() { return v_.end(); }
  const_iterator begin() const { return v_.begin(); } const_iterator end() const { return v_.end(); }
  bool empty() const { return v_.empty(); } size_t size() const { return v_.size(); } void clear() { v_.clear(); } void reserve(size_t) {}
  iterator find(const K& k) { auto i = begin(); while (i != end() && !(*i == k)) ++i; return i; }
  const_iterator find(const K& k) const { auto i = begin(); while (i != end() && !(*i == k)) ++i; return i; }
  size_t count(const K& k) const { return find(k) != end(); }
  bool contains(const K& k) const { return find(k) != end(); }
  void insert(const K& k) { if (!count(k)) v_.push_back(k); }
  template <class I> void insert(I a, I b) { for (; a != b; ++a) insert(*a); }
  void erase(iterator i) { v_.erase(i); }
  size_t erase(const K& k) { auto i = find(k); if (i == end()) return 0; v_.erase(i); return 1; }
};
template <class K> class btree_set : public flat_hash_set<K> {
 public:
  void insert(const K& k) { if (this->count(k)) return; auto i = this->begin(); while (i != this->end() && std::less<K>()(*i, k)) ++i; this->v_.insert(i, k); }
};
}  // namespace absl
