// One function per operation of the vector, for the analysis (never run)
#include "uvector.h"
#include <initializer_list>
#include <memory>
#include <new>
#include <utility>

typedef double T;
typedef aocommon::UVector<T> V;
typedef const T *It;

namespace witness {
// an allocator of which the properties are the opposite of those of the standard one
struct Own {
  typedef T value_type;
  typedef std::true_type propagate_on_container_copy_assignment;
  typedef std::false_type propagate_on_container_move_assignment;
  typedef std::true_type propagate_on_container_swap;
  typedef std::false_type is_always_equal;
  T *allocate(size_t);
  void deallocate(T *, size_t);
};
int equal_(const Own &a, const Own &b);
inline bool operator==(const Own &a, const Own &b) { return equal_(a, b) != 0; }
inline bool operator!=(const Own &a, const Own &b) { return equal_(a, b) == 0; }
typedef aocommon::UVector<T, Own> VO;
typedef aocommon::UVector<long> VL;
void ctor_whole(VL *v, long n, long x) { new (v) VL(n, x); }
void assign_whole(VL &v, long n, long x) { v.assign(n, x); }
void push_back_whole(VL &v, long n, long x) { v.push_back(n, x); }
long *insert_whole(VL &v, const long *p, long n, long x) { return v.insert(p, n, x); }
void own_move_assign(VO &v, VO &w) { v = std::move(w); }
void own_swap(VO &v, VO &w) { v.swap(w); }
void ctor_none(V *v) { new (v) V(); }
void ctor_n(V *v, size_t n) { new (v) V(n); }
void ctor_n_val(V *v, size_t n, const T &x) { new (v) V(n, x); }
void ctor_range(V *v, It a, It b) { new (v) V(a, b); }
void ctor_copy(V *v, const V &w) { new (v) V(w); }
void ctor_copy_alloc(V *v, const V &w, const std::allocator<T> &a) { new (v) V(w, a); }
void ctor_move(V *v, V &w) { new (v) V(std::move(w)); }
void ctor_move_alloc(V *v, V &w, const std::allocator<T> &a) { new (v) V(std::move(w), a); }
void dtor(V &v) { v.~V(); }
void copy_assign(V &v, const V &w) { v = w; }
void move_assign(V &v, V &w) { v = std::move(w); }
T *begin_(V &v) { return v.begin(); }
const T *cbegin_(const V &v) { return v.cbegin(); }
const T *begin_const(const V &v) { return v.begin(); }
T *end_(V &v) { return v.end(); }
const T *cend_(const V &v) { return v.cend(); }
const T *end_const(const V &v) { return v.end(); }
T *data_(V &v) { return v.data(); }
const T *data_const(const V &v) { return v.data(); }
T *front_(V &v) { return &v.front(); }
const T *front_const(const V &v) { return &v.front(); }
T *back_(V &v) { return &v.back(); }
const T *back_const(const V &v) { return &v.back(); }
size_t size_(const V &v) { return v.size(); }
size_t capacity_(const V &v) { return v.capacity(); }
bool empty_(const V &v) { return v.empty(); }
T *index_(V &v, size_t i) { return &v[i]; }
const T *index_const(const V &v, size_t i) { return &v[i]; }
T *at_(V &v, size_t i) { return &v.at(i); }
const T *at_const(const V &v, size_t i) { return &v.at(i); }
void resize(V &v, size_t n) { v.resize(n); }
void resize_val(V &v, size_t n, const T &x) { v.resize(n, x); }
void reserve(V &v, size_t n) { v.reserve(n); }
void shrink(V &v) { v.shrink_to_fit(); }
void assign_range(V &v, It a, It b) { v.assign(a, b); }
void assign_n_val(V &v, size_t n, const T &x) { v.assign(n, x); }
void push_back(V &v, const T &x) { v.push_back(x); }
void push_back_move(V &v, T &x) { v.push_back(std::move(x)); }
void push_back_n(V &v, size_t n, const T &x) { v.push_back(n, x); }
void push_back_range(V &v, It a, It b) { v.push_back(a, b); }
void push_back_none(V &v, size_t n) { v.push_back_uninitialized(n); }
void emplace_back(V &v, const T &x) { v.emplace_back(x); }
void pop_back(V &v) { v.pop_back(); }
T *insert(V &v, It p, const T &x) { return v.insert(p, x); }
T *insert_move(V &v, It p, T &x) { return v.insert(p, std::move(x)); }
T *insert_n(V &v, It p, size_t n, const T &x) { return v.insert(p, n, x); }
T *insert_range(V &v, It p, It a, It b) { return v.insert(p, a, b); }
T *insert_none(V &v, It p, size_t n) { return v.insert_uninitialized(p, n); }
T *emplace(V &v, It p, const T &x) { return v.emplace(p, x); }
T *erase(V &v, It p) { return v.erase(p); }
T *erase_range(V &v, It p, It q) { return v.erase(p, q); }
void clear(V &v) { v.clear(); }
void swap_(V &v, V &w) { v.swap(w); }
void swap_free(V &v, V &w) { swap(v, w); }
void ctor_list(V *v, std::initializer_list<T> l) { new (v) V(l); }
void assign_list(V &v, std::initializer_list<T> l) { v.assign(l); }
void push_back_list(V &v, std::initializer_list<T> l) { v.push_back(l); }
T *insert_list(V &v, It p, std::initializer_list<T> l) { return v.insert(p, l); }
}  // namespace witness
