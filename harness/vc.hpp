// Specification vocabulary shared by the prover build (VC_PROVE) and the native replay build.
#ifndef VC_HPP
#define VC_HPP
#include <cstddef>
#include <new>
#include <utility>
#include <type_traits>
#include <memory>

#ifdef VC_PROVE
extern "C" {
void vc_obj(const void*, std::size_t) noexcept;
void vc_assume(bool) noexcept;
void vc_assert(bool, const char*) noexcept;
void vc_unreachable(const char*) noexcept;
void vc_pre_live(const void*, std::size_t) noexcept;
void vc_pre_raw(const void*, std::size_t) noexcept;
void vc_pre_block(const void*, std::size_t n, std::size_t sz, int id) noexcept;
void vc_arg(const void*, std::size_t) noexcept;
void vc_range(const void*, std::size_t) noexcept;
void vc_slot(const void* x, const void* p, std::size_t n, std::size_t stride) noexcept;   // x does not straddle two elements of [p,p+n)
void vc_mark() noexcept;
void vc_begin() noexcept;
void vc_eq_old(const void* p, std::size_t n, const void* q, const char*) noexcept;
void vc_eq_now(const void* p, std::size_t n, const void* q, const char*) noexcept;
void vc_eq_one(const void* p, std::size_t n, const void* x, const char*) noexcept;
void vc_eq_def(const void* p, std::size_t n, const char*) noexcept;
void vc_eq_int(const void* p, int n, const char*) noexcept;
void vc_own(const void*, std::size_t) noexcept;
void vc_own_block(const void*, std::size_t n, std::size_t sz, int id) noexcept;
void vc_chk_block(const void*, std::size_t n, std::size_t sz, int id) noexcept;
int vc_exc_kind() noexcept;
int vc_allocs() noexcept;
int vc_frees() noexcept;
std::size_t vc_limit(int id) noexcept;     // max_size() of an allocator: a function of its identity
}
#define VC_FN(name, params) extern "C" void name params

// Opaque element types: one byte, every special member external (assumed contract in vcg/model.py).
struct KeyX;
struct Elem {
    unsigned char c;
    Elem(); explicit Elem(int); Elem(const Elem&); Elem(Elem&&) noexcept;
    explicit Elem(const KeyX&);
    Elem& operator=(const Elem&); Elem& operator=(Elem&&) noexcept; ~Elem();
};
bool operator==(const Elem&, const Elem&);
bool operator<(const Elem&, const Elem&);
struct ElemT {   // every operation may throw
    unsigned char c;
    ElemT(); explicit ElemT(int); ElemT(const ElemT&); ElemT(ElemT&&) noexcept(false);
    explicit ElemT(const KeyX&);
    ElemT& operator=(const ElemT&); ElemT& operator=(ElemT&&) noexcept(false); ~ElemT();
};
bool operator==(const ElemT&, const ElemT&);
bool operator<(const ElemT&, const ElemT&);
// Keys of another type; comparators and equivalences with state (their meaning depends on id)
struct KeyX { unsigned char c; KeyX(const KeyX&) = delete; KeyX& operator=(const KeyX&) = delete; };
#define VC_FUNCTOR(Name)                                                                                         \
struct Name {                                                                                                    \
    using is_transparent = void;                                                                                 \
    int id; Name() noexcept : id(0) {} explicit Name(int i) noexcept : id(i) {}                                  \
    bool operator()(const Elem&, const Elem&) const noexcept; bool operator()(const ElemT&, const ElemT&) const; \
    bool operator()(const Elem&, const KeyX&) const noexcept; bool operator()(const ElemT&, const KeyX&) const;  \
    bool operator()(const KeyX&, const Elem&) const noexcept; bool operator()(const KeyX&, const ElemT&) const;  \
};
VC_FUNCTOR(Cmp)
VC_FUNCTOR(Eq)

template <class T, int P> struct AlX {
    using value_type = T;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, P & 1>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, (P >> 1) & 1>;
    using propagate_on_container_swap = std::integral_constant<bool, (P >> 2) & 1>;
    using is_always_equal = std::false_type;
    template <class U> struct rebind { using other = AlX<U, P>; };
    int id;
    AlX() noexcept : id(0) {}
    explicit AlX(int i) noexcept : id(i) {}
    template <class U> AlX(const AlX<U, P>& o) noexcept : id(o.id) {}
    T* allocate(std::size_t n);
    void deallocate(T* p, std::size_t n) noexcept;
    std::size_t max_size() const noexcept { return vc_limit(id); }
    AlX select_on_container_copy_construction() const noexcept { return AlX(int(unsigned(id) + 1u)); }
    friend bool operator==(const AlX& a, const AlX& b) noexcept { return a.id == b.id; }
    friend bool operator!=(const AlX& a, const AlX& b) noexcept { return a.id != b.id; }
};
#else
#include "native.hpp"
#endif
#ifndef VC_ELEM
#define VC_ELEM Elem
#endif
#ifndef ALP
#define ALP 0
#endif
template <class T> using Al = AlX<T, ALP>;
using Val = VC_ELEM;
#ifdef VC_PROVE
extern "C" void vc_differ(const void* p, std::size_t n, const void* q, const char*) noexcept;       // some element differs
extern "C" {
// adjacent elements are in order / pairwise different under the functor with state cid
void vc_pre_sorted(const void* p, std::size_t n, std::size_t stride, int cid, bool strict) noexcept;
void vc_sorted(const void* p, std::size_t n, std::size_t stride, int cid, bool strict, const char*) noexcept;
void vc_pre_distinct(const void* p, std::size_t n, std::size_t stride, int cid) noexcept;
void vc_distinct(const void* p, std::size_t n, std::size_t stride, int cid, const char*) noexcept;
// every element's key is related to the key at k (value at entry): -2 <, -1 <=, 0 equivalent, 1 >=, 2 >, 3 not equivalent
void vc_rank_all(int cid, const void* p, std::size_t n, std::size_t stride, const void* k, int rel, const char*) noexcept;
void vc_rank_some(int cid, const void* p, std::size_t n, std::size_t stride, const void* k, const char*) noexcept;
void vc_rank_count(int cid, const void* p, std::size_t n, std::size_t stride, const void* k, std::size_t want, const char*) noexcept;
void vc_rank_count_old(int cid, const void* p, std::size_t n, std::size_t stride, const void* k, std::size_t want, const char*) noexcept;
// what remains of the old elements after removing n bytes at pos in any order / one contiguous block somewhere
void vc_erased_block(const void* now, const void* old, std::size_t total, std::size_t n, std::size_t stride, const char*) noexcept;
void vc_removed(const void* now, const void* old, std::size_t total, std::size_t pos, std::size_t n, std::size_t stride, const char*) noexcept;
void vc_erased_some(const void* now, const void* old, std::size_t total, std::size_t n, std::size_t stride, const char*) noexcept;
}
extern "C" void vc_lex(const void* p, std::size_t n, const void* q, std::size_t m, bool r, const char*) noexcept; // r == (p.. < q..)
#else
inline void vc_differ(const void* p, std::size_t n, const void* q, const char* l)
{ for (std::size_t i = 0; i < n; i += VC_ESZ) if (vcn::valat((const char*)p + i) != vcn::valat((const char*)q + i)) return; vcn::post(l); }
inline int vc_rk(const void* p) { int v = vcn::valat(p); return v >= 0 ? v / 10 : v; }
inline void vc_lex(const void* p, std::size_t n, const void* q, std::size_t m, bool r, const char* l)
{ bool want = n < m; for (std::size_t i = 0; i < n && i < m; i += VC_ESZ) { int a = vc_rk((const char*)p + i), b = vc_rk((const char*)q + i); if (a < b) { want = true; break; } if (b < a) { want = false; break; } }
  if (r != want) vcn::post(l); }
#endif
#endif
