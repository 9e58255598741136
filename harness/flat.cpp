// Contracts of the flat containers. One translation unit per container:
// -DC_<SF|TF|SU|TU>_<SET|MSET|MAP|MMAP>   (SF small flat, TF static flat, SU small unordered flat, TU static unordered flat)
#if defined(C_SU_SET) || defined(C_SU_MSET) || defined(C_SU_MAP) || defined(C_SU_MMAP) || defined(C_TU_SET) || defined(C_TU_MSET) || defined(C_TU_MAP) || defined(C_TU_MMAP)
#define VC_EQUIV
#endif
#include "vc.hpp"
#include <iterator>
#include <initializer_list>
#include <cstdint>
#include <tuple>
#ifndef NN
#define NN 3
#endif
#define VC_FLAT_1
#if defined(C_SF_SET)
#include "sfl/small_flat_set.hpp"
#define ORD 1
#define UNI 1
#define MAPK 0
#define STATICK 0
#define TMPL sfl::small_flat_set
#elif defined(C_SF_MSET)
#include "sfl/small_flat_multiset.hpp"
#define ORD 1
#define UNI 0
#define MAPK 0
#define STATICK 0
#define TMPL sfl::small_flat_multiset
#elif defined(C_SF_MAP)
#include "sfl/small_flat_map.hpp"
#define ORD 1
#define UNI 1
#define MAPK 1
#define STATICK 0
#define TMPL sfl::small_flat_map
#elif defined(C_SF_MMAP)
#include "sfl/small_flat_multimap.hpp"
#define ORD 1
#define UNI 0
#define MAPK 1
#define STATICK 0
#define TMPL sfl::small_flat_multimap
#elif defined(C_TF_SET)
#include "sfl/static_flat_set.hpp"
#define ORD 1
#define UNI 1
#define MAPK 0
#define STATICK 1
#define TMPL sfl::static_flat_set
#elif defined(C_TF_MSET)
#include "sfl/static_flat_multiset.hpp"
#define ORD 1
#define UNI 0
#define MAPK 0
#define STATICK 1
#define TMPL sfl::static_flat_multiset
#elif defined(C_TF_MAP)
#include "sfl/static_flat_map.hpp"
#define ORD 1
#define UNI 1
#define MAPK 1
#define STATICK 1
#define TMPL sfl::static_flat_map
#elif defined(C_TF_MMAP)
#include "sfl/static_flat_multimap.hpp"
#define ORD 1
#define UNI 0
#define MAPK 1
#define STATICK 1
#define TMPL sfl::static_flat_multimap
#elif defined(C_SU_SET)
#include "sfl/small_unordered_flat_set.hpp"
#define ORD 0
#define UNI 1
#define MAPK 0
#define STATICK 0
#define TMPL sfl::small_unordered_flat_set
#elif defined(C_SU_MSET)
#include "sfl/small_unordered_flat_multiset.hpp"
#define ORD 0
#define UNI 0
#define MAPK 0
#define STATICK 0
#define TMPL sfl::small_unordered_flat_multiset
#elif defined(C_SU_MAP)
#include "sfl/small_unordered_flat_map.hpp"
#define ORD 0
#define UNI 1
#define MAPK 1
#define STATICK 0
#define TMPL sfl::small_unordered_flat_map
#elif defined(C_SU_MMAP)
#include "sfl/small_unordered_flat_multimap.hpp"
#define ORD 0
#define UNI 0
#define MAPK 1
#define STATICK 0
#define TMPL sfl::small_unordered_flat_multimap
#elif defined(C_TU_SET)
#include "sfl/static_unordered_flat_set.hpp"
#define ORD 0
#define UNI 1
#define MAPK 0
#define STATICK 1
#define TMPL sfl::static_unordered_flat_set
#elif defined(C_TU_MSET)
#include "sfl/static_unordered_flat_multiset.hpp"
#define ORD 0
#define UNI 0
#define MAPK 0
#define STATICK 1
#define TMPL sfl::static_unordered_flat_multiset
#elif defined(C_TU_MAP)
#include "sfl/static_unordered_flat_map.hpp"
#define ORD 0
#define UNI 1
#define MAPK 1
#define STATICK 1
#define TMPL sfl::static_unordered_flat_map
#elif defined(C_TU_MMAP)
#include "sfl/static_unordered_flat_multimap.hpp"
#define ORD 0
#define UNI 0
#define MAPK 1
#define STATICK 1
#define TMPL sfl::static_unordered_flat_multimap
#endif

#if ORD
using Ord = Cmp;
#define ORDER_OF(v) ((v).key_comp())
#else
using Ord = Eq;
#define ORDER_OF(v) ((v).key_eq())
#endif
#if MAPK
using E = std::pair<Val, Val>;
static inline const Val& keyof(const E& e) { return e.first; }
#define TARGS Val, Val, NN
#else
using E = Val;
static inline const Val& keyof(const E& e) { return e; }
#define TARGS Val, NN
#endif
#if STATICK
using V = TMPL<TARGS, Ord>;
static inline int alid(const V&) { return 0; }
#define HAS_ALLOC 0
#define MAKEF(v, id, ...) V v(__VA_ARGS__); (void)id
#define NEED(c) vc_assume(c)
#else
using V = TMPL<TARGS, Ord, Al<E>>;
static inline int alid(const V& v) { return v.get_allocator().id; }
#define HAS_ALLOC 1
#define MAKEF(v, id, ...) V v(__VA_ARGS__, Al<E>(id))
#define NEED(c) ((void)0)
#endif
#if defined(C_TU_MSET)
static inline const E* dat(const V& v) { return &v.begin()[0]; }   // has no data()
#else
static inline const E* dat(const V& v) { return v.data(); }
#endif
static const std::size_t SZ = sizeof(E);
using sz = std::size_t;

#if !STATICK
static inline const E* internal_of(const V& v)
{
    V probe{Al<E>(0)};
    return reinterpret_cast<const E*>(reinterpret_cast<const char*>(&v) + (reinterpret_cast<const char*>(dat(probe)) - reinterpret_cast<const char*>(&probe)));
}
#endif
#if HAS_ALLOC
static inline sz maxof(int id) { sz l = vc_limit(id), m = sz(PTRDIFF_MAX) / SZ; return l < m ? l : m; }
#else
static inline sz maxof(int) { return NN; }
#endif
static inline int cid_of(const V& v) { return ORDER_OF(v).id; }

struct Old { const E* d; sz n, c; int id; bool inl; int cid; };

// the order / uniqueness invariant of the elements
static inline void pre_order(const V& v)
{
#if ORD
    vc_pre_sorted(dat(v), v.size() * SZ, SZ, cid_of(v), UNI);
#elif UNI
    vc_pre_distinct(dat(v), v.size() * SZ, SZ, cid_of(v));
#endif
}
static inline void ordered(const V& v)
{
#if ORD
    vc_sorted(dat(v), v.size() * SZ, SZ, cid_of(v), UNI, UNI ? "[ord] keys are strictly increasing" : "[ord] keys are in order");
#elif UNI
    vc_distinct(dat(v), v.size() * SZ, SZ, cid_of(v), "[ord] no two keys are equal");
#endif
}
static inline Old pre0(V& v)
{
    vc_obj(&v, sizeof(V));
    vc_assume(v.size() <= v.capacity());
    vc_assume(v.capacity() <= v.max_size());
    bool inl = STATICK;
#if !STATICK
    inl = NN > 0 && dat(v) == internal_of(v);
    if (inl) vc_assume(v.capacity() == NN); else vc_assume(NN == 0 || v.capacity() == 0 || v.capacity() > NN);
    if (!inl && NN > 0) vc_pre_raw(internal_of(v), NN * SZ);
    if (!inl)
    {
        if (v.capacity() == 0) { vc_assume(dat(v) == nullptr); }
        else vc_pre_block(dat(v), v.capacity(), SZ, alid(v));
    }
#endif
    vc_pre_live(dat(v), v.size() * SZ);
    vc_pre_raw(dat(v) + v.size(), (v.capacity() - v.size()) * SZ);
    return Old{dat(v), v.size(), v.capacity(), alid(v), inl, cid_of(v)};
}
static inline Old pre(V& v) { Old o = pre0(v); pre_order(v); return o; }
static inline void shape(const V& v, bool local)
{
    vc_assert(v.size() <= v.capacity(), "[shape] size() <= capacity()");
    vc_assert(v.capacity() <= v.max_size(), "[cap] capacity() <= max_size()");
    vc_assert(v.available() == v.capacity() - v.size(), "[cap] available()");
    vc_assert(v.empty() == (v.size() == 0), "[shape] empty()");
#if STATICK
    vc_assert(v.capacity() == NN, "[cap] fixed capacity");
#else
    if (NN > 0 && dat(v) == internal_of(v)) { vc_assert(v.capacity() == NN, "[cap] internal storage has capacity N"); return; }
    if (NN > 0) vc_assert(v.capacity() == 0 || v.capacity() > NN, "[cap] heap storage is used only beyond the embedded capacity");
    if (v.capacity() != 0) { vc_chk_block(dat(v), v.capacity(), SZ, alid(v)); if (!local) vc_own_block(dat(v), v.capacity(), SZ, alid(v)); }
    else vc_assert(dat(v) == nullptr, "[shape] no storage when capacity is 0");
#endif
}
static inline void inv(const V& v) { shape(v, false); vc_own(dat(v), v.size() * SZ); }
static inline void invl(const V& v) { shape(v, true); }
static inline void same(const V& v, const Old& o)
{
    vc_assert(v.size() == o.n, "[seq] size unchanged");
    vc_eq_old(dat(v), o.n * SZ, o.d, "[seq] contents unchanged");
}
static inline void keep_alloc(const V& v, const Old& o) { vc_assert(alid(v) == o.id, "[alloc] allocator unchanged"); vc_assert(cid_of(v) == o.cid, "[seq] ordering unchanged"); }
#if STATICK
static inline void noheap(sz) {}
#else
static inline void noheap(sz n) { if (n <= NN) vc_assert(vc_allocs() == 0, "[cap] no heap while the elements fit the embedded storage"); }
#endif
static inline void inplace(const V& v, const Old& o, sz extra)
{
#if STATICK
    vc_assert(vc_allocs() == 0, "[cap] no allocation");
#else
    if (extra <= o.c - o.n) vc_assert(dat(v) == o.d && v.capacity() == o.c && vc_allocs() == 0, "[cap] no reallocation while capacity suffices");
    noheap(o.n + extra);
#endif
    (void)v; (void)o; (void)extra;
}
// the container holds its old elements plus n elements at position pos
static inline void inserted(const V& v, const Old& o, sz pos, sz n)
{
    vc_assert(v.size() == o.n + n, "[seq] size grows by the number inserted");
    vc_assert(pos <= o.n, "[seq] returned position designates an element");
    vc_eq_old(dat(v), pos * SZ, o.d, "[seq] elements before the position");
    vc_eq_old(dat(v) + pos + n, (o.n - pos) * SZ, o.d + pos, "[seq] elements after the position");
    keep_alloc(v, o); ordered(v); inplace(v, o, n);
}
static inline void failed(const V& v, const Old& o, sz extra)
{
    int k = vc_exc_kind();
    vc_assert(k == 1 || k == 2, "[seq] only failures of elements, comparisons, allocator or size limit are reported");
    if (k == 2) vc_assert(extra > v.max_size() - o.n, "[cap] length_error only beyond max_size()");
    keep_alloc(v, o);
#if !ORD
    if (extra) ordered(v);      // insertion appends, so that a failure never leaves equal keys behind
#endif
}
struct Rng { const E* p; sz n; };
static inline void range_arg(const Rng& r) { vc_range(r.p, r.n * SZ); vc_assume(r.n <= (sz(1) << 59)); }
// a reference argument designates either an object outside the container or exactly one of its elements
static inline void ref_arg(const V& v, const E& x) { vc_arg(&x, SZ); if (SZ > sizeof(Val)) vc_slot(&x, dat(v), v.size() * SZ, SZ); }
// an rvalue argument is not part of the container; two rvalue arguments are different objects
static inline void rv_arg(const Old& o, const void* x, sz n)
{
    vc_arg(x, n);
    std::uintptr_t a = reinterpret_cast<std::uintptr_t>(x), b = reinterpret_cast<std::uintptr_t>(o.d);
    vc_assume(a + n <= b || b + o.n * SZ <= a);
}
// key k (value at entry) related to the key at position i
static inline void key_at(const V& v, sz i, const void* k, int rel, const char* l) { vc_rank_all(cid_of(v), dat(v) + i, SZ, SZ, k, rel, l); }

#ifndef VC_PROVE
#include "flat_gen.inc"
#endif

// ---------------------------------------------------------------- construction, copy, move, swap
VC_FN(h_ctor_default, (int id, int cid))
{
    vc_begin();
    MAKEF(v, id, Ord{cid}); vc_assert(v.size() == 0, "[seq] empty"); vc_assert(vc_allocs() == 0, "[cap] no allocation"); vc_assert(cid_of(v) == cid, "[seq] given ordering"); invl(v);
#if HAS_ALLOC
    vc_assert(alid(v) == id, "[alloc] given allocator");
#endif
}
VC_FN(h_ctor_copy, (V& a))
{
    Old o = pre(a); vc_begin();
    try { V v(a); noheap(o.n); same(v, o); same(a, o); invl(v); vc_assert(cid_of(v) == o.cid, "[seq] ordering copied"); ordered(v);
#if HAS_ALLOC
        vc_assert(alid(v) == int(unsigned(o.id) + 1u), "[alloc] select_on_container_copy_construction");
#endif
    }
    catch (...) { same(a, o); vc_assert(vc_exc_kind() == 1 || o.n > maxof(int(unsigned(o.id) + 1u)), "[cap] length_error only beyond max_size()"); }
    keep_alloc(a, o); inv(a);
}
VC_FN(h_ctor_move, (V& a))
{
    Old o = pre(a); vc_begin();
    try { V v(std::move(a)); noheap(o.n); same(v, o); invl(v); vc_assert(cid_of(v) == o.cid, "[seq] ordering moved"); vc_assert(alid(v) == o.id, "[alloc] allocator moved"); ordered(v);
#if HAS_ALLOC
        if (!o.inl) vc_assert(dat(v) == o.d && vc_allocs() == 0, "[alloc] storage transferred, elements untouched");
#endif
    }
    catch (...) { vc_assert(vc_exc_kind() == 1, "[cap] length_error only beyond max_size()"); }
    inv(a);
}
#if HAS_ALLOC
VC_FN(h_ctor_copy_alloc, (V& a, int id))
{
    Old o = pre(a); vc_begin();
    try { V v(a, Al<E>(id)); noheap(o.n); same(v, o); same(a, o); invl(v); vc_assert(alid(v) == id, "[alloc] given allocator"); vc_assert(cid_of(v) == o.cid, "[seq] ordering copied"); }
    catch (...) { same(a, o); vc_assert(vc_exc_kind() == 1 || o.n > maxof(id), "[cap] length_error only beyond max_size()"); }
    keep_alloc(a, o); inv(a);
}
VC_FN(h_ctor_move_alloc, (V& a, int id))
{
    Old o = pre(a); vc_begin();
    try { V v(std::move(a), Al<E>(id)); noheap(o.n); same(v, o); invl(v); vc_assert(alid(v) == id, "[alloc] given allocator"); vc_assert(cid_of(v) == o.cid, "[seq] ordering moved");
        if (id == o.id && !o.inl) vc_assert(dat(v) == o.d, "[alloc] storage transferred between equal allocators"); }
    catch (...) { vc_assert(vc_exc_kind() == 1 || o.n > maxof(id), "[cap] length_error only beyond max_size()"); }
    inv(a);
}
#endif
VC_FN(h_dtor, (V& a))
{
    pre(a); vc_begin();
    a.~V();
    vc_assert(vc_allocs() == 0, "[cap] no allocation");
#ifndef VC_PROVE
    ::new (&a) V();
#endif
}
VC_FN(h_copy_assign, (V& v, V& a))
{
    Old o = pre(v), p = pre(a);
    vc_begin();
    try { V& r = (v = a); vc_assert(&r == &v, "[seq] returns *this"); noheap(p.n); same(v, p); same(a, p); vc_assert(cid_of(v) == p.cid, "[seq] ordering copied"); ordered(v);
#if HAS_ALLOC
        vc_assert(alid(v) == ((ALP & 1) ? p.id : o.id), "[alloc] allocator propagation on copy assignment");
#endif
    }
    catch (...) { same(a, p); vc_assert(vc_exc_kind() == 1 || p.n > v.max_size(), "[cap] length_error only beyond max_size()"); }
    keep_alloc(a, p);
    inv(v); inv(a);
}
VC_FN(h_move_assign, (V& v, V& a))
{
    Old o = pre(v), p = pre(a);
    vc_begin();
    try { V& r = (v = std::move(a)); vc_assert(&r == &v, "[seq] returns *this"); noheap(p.n); same(v, p); vc_assert(cid_of(v) == p.cid, "[seq] ordering moved"); ordered(v);
#if HAS_ALLOC
        vc_assert(alid(v) == (((ALP >> 1) & 1) ? p.id : o.id), "[alloc] allocator propagation on move assignment");
        if (!p.inl && p.c > 0 && (((ALP >> 1) & 1) || p.id == o.id)) vc_assert(dat(v) == p.d && vc_allocs() == 0, "[alloc] storage transferred, elements untouched");
#endif
    }
    catch (...) { vc_assert(vc_exc_kind() == 1 || p.n > v.max_size(), "[cap] length_error only beyond max_size()"); }
    inv(v); inv(a);
}
VC_FN(h_copy_assign_self, (V& v))
{
    Old o = pre(v); vc_begin();
    try { V& a = v; v = a; same(v, o); } catch (...) { }
    keep_alloc(v, o); inv(v);
}
VC_FN(h_swap, (V& v, V& a))
{
    Old o = pre(v), p = pre(a);
#if HAS_ALLOC
    vc_assume(((ALP >> 2) & 1) || o.id == p.id);
#endif
    vc_begin();
    try { v.swap(a); same(v, p); same(a, o); vc_assert(cid_of(v) == p.cid && cid_of(a) == o.cid, "[seq] orderings exchanged");
#if HAS_ALLOC
        vc_assert(alid(v) == (((ALP >> 2) & 1) ? p.id : o.id) && alid(a) == (((ALP >> 2) & 1) ? o.id : p.id), "[alloc] allocator propagation on swap");
        vc_assert(vc_allocs() == 0, "[alloc] swap does not allocate");
        if (!p.inl && !o.inl) vc_assert(dat(v) == p.d && dat(a) == o.d, "[alloc] swap exchanges storage");
#endif
    }
    catch (...) { vc_assert(vc_exc_kind() == 1, "[exc] only element failures"); vc_assert(o.inl || p.inl, "[exc] swapping storage does not throw"); }
    inv(v); inv(a);
}
VC_FN(h_swap_self, (V& v))
{
    Old o = pre(v); vc_begin();
    try { v.swap(v); same(v, o); } catch (...) { vc_unreachable("[exc] self swap does not throw"); }
    keep_alloc(v, o); inv(v);
}
// ---------------------------------------------------------------- capacity
VC_FN(h_clear, (V& v))
{
    Old o = pre(v); vc_begin();
    v.clear(); vc_assert(v.size() == 0, "[seq] clear removes everything"); vc_assert(vc_allocs() == 0, "[cap] no allocation");
    keep_alloc(v, o); inv(v);
}
#if !STATICK
VC_FN(h_reserve, (V& v, sz n))
{
    Old o = pre(v); vc_begin();
    try { v.reserve(n); same(v, o); vc_assert(v.capacity() >= n, "[cap] reserve provides the capacity"); vc_assert(v.capacity() >= o.c, "[cap] reserve never shrinks");
        if (n <= o.c) vc_assert(dat(v) == o.d && vc_allocs() == 0, "[cap] reserve within capacity does nothing"); }
    catch (...) { same(v, o); vc_assert(dat(v) == o.d && v.capacity() == o.c, "[strong] failed reserve has no effect");
        if (vc_exc_kind() == 2) vc_assert(n > v.max_size(), "[cap] length_error only beyond max_size()"); }
    keep_alloc(v, o); inv(v);
}
VC_FN(h_shrink, (V& v))
{
    Old o = pre(v); vc_begin();
    try { v.shrink_to_fit(); same(v, o); 
        if (o.n > NN) vc_assert(v.capacity() == o.n, "[cap] shrink_to_fit releases the unused capacity"); else vc_assert(v.capacity() == (o.c < NN ? o.c : NN), "[cap] shrink_to_fit returns to the embedded storage"); }
    catch (...) { same(v, o); vc_assert(dat(v) == o.d && v.capacity() == o.c, "[strong] failed shrink_to_fit has no effect"); vc_assert(vc_exc_kind() == 1, "[cap] no length_error"); }
    keep_alloc(v, o); inv(v);
}
#endif
// ---------------------------------------------------------------- positions
VC_FN(h_observe, (V& v, sz i, sz j))
{
    Old o = pre(v); vc_assume(i <= j && j <= o.n);
    vc_begin();
    const V& c = v;
    vc_assert(dat(c) == o.d, "[seq] data()");
    vc_assert(sz(v.end() - v.begin()) == o.n && sz(c.end() - c.begin()) == o.n && sz(c.cend() - c.cbegin()) == o.n, "[iter] end() - begin() == size()");
    vc_assert(v.nth(i) == v.begin() + i && c.nth(i) == c.begin() + i, "[iter] nth()");
    vc_assert(v.index_of(v.begin() + i) == i, "[iter] index_of()");
    vc_assert((v.begin() + j) - (v.begin() + i) == std::ptrdiff_t(j - i), "[iter] difference");
    vc_assert((v.begin() + j) - std::ptrdiff_t(j - i) == v.begin() + i, "[iter] subtraction");
    vc_assert(((v.begin() + i) < (v.begin() + j)) == (i < j) && ((v.begin() + i) <= (v.begin() + j)), "[iter] order");
    vc_assert(((v.begin() + j) > (v.begin() + i)) == (i < j) && ((v.begin() + i) >= (v.begin() + j)) == (i == j), "[iter] order");
    vc_assert(((v.begin() + i) == (v.begin() + j)) == (i == j) && ((v.begin() + i) != (v.begin() + j)) == (i != j), "[iter] equality");
    auto it = v.begin() + i; auto cit = c.begin() + i;
    vc_assert(cit == it, "[iter] conversion to const_iterator");
    if (i < o.n)
    {
        vc_assert(&*it == o.d + i && &*cit == o.d + i, "[iter] dereference");
        vc_assert(it.operator->() == o.d + i, "[iter] arrow");
        vc_assert(&v.begin()[i] == o.d + i, "[iter] subscript");
#if ORD
        vc_assert(&*(v.rbegin() + (o.n - 1 - i)) == o.d + i && &*(c.rbegin() + (o.n - 1 - i)) == o.d + i, "[iter] reverse traversal");
#endif
        auto a = it; auto b = a++; ++b; vc_assert(a == b && a - it == 1, "[iter] increment");
        auto d = a--; --d; vc_assert(a == it && d == it, "[iter] decrement");
        a += 1; a -= 1; vc_assert(a == it, "[iter] compound");
    }
    same(v, o); inv(v);
}
// ---------------------------------------------------------------- erase by position
VC_FN(h_erase, (V& v, sz pos))
{
    Old o = pre(v); vc_assume(pos < o.n); vc_begin();
    try { auto it = v.erase(v.cbegin() + pos); vc_assert(sz(it - v.begin()) == pos, "[seq] returned iterator designates the position of the erased element"); vc_assert(v.size() == o.n - 1, "[seq] erase removes one");
#if ORD
        vc_eq_old(dat(v), pos * SZ, o.d, "[seq] elements before the position"); vc_eq_old(dat(v) + pos, (o.n - pos - 1) * SZ, o.d + pos + 1, "[seq] elements after the position");
#else
        vc_removed(dat(v), o.d, o.n * SZ, pos * SZ, SZ, SZ, "[seq] exactly the other elements remain");
#endif
        keep_alloc(v, o); ordered(v); vc_assert(vc_allocs() == 0 && v.capacity() == o.c, "[cap] erasing never allocates");
    }
    catch (...) { failed(v, o, 0); }
    inv(v);
}
VC_FN(h_erase_range, (V& v, sz i, sz j))
{
    Old o = pre(v); vc_assume(i <= j && j <= o.n); vc_begin();
    try { auto it = v.erase(v.cbegin() + i, v.cbegin() + j); vc_assert(sz(it - v.begin()) == i, "[seq] returned iterator designates the position of the erased elements"); vc_assert(v.size() == o.n - (j - i), "[seq] erase removes the range");
#if ORD
        vc_eq_old(dat(v), i * SZ, o.d, "[seq] elements before the position"); vc_eq_old(dat(v) + i, (o.n - j) * SZ, o.d + j, "[seq] elements after the position");
#else
        vc_removed(dat(v), o.d, o.n * SZ, i * SZ, (j - i) * SZ, SZ, "[seq] exactly the other elements remain");
#endif
        keep_alloc(v, o); ordered(v); vc_assert(vc_allocs() == 0 && v.capacity() == o.c, "[cap] erasing never allocates");
    }
    catch (...) { failed(v, o, 0); }
    inv(v);
}
// ---------------------------------------------------------------- insertion of elements
// result of a single-element insertion of an element whose key was that at k
static inline void one(V& v, const Old& o, sz i, bool ins, const void* k)
{
    vc_assert(i < v.size(), "[seq] returned iterator designates an element");
    if (ins) inserted(v, o, i, 1);
    else { vc_assert(UNI, "[seq] every insertion succeeds"); same(v, o); keep_alloc(v, o); key_at(v, i, k, 0, "[ord] rejected only when an equivalent key is present, which is designated"); vc_assert(vc_allocs() == 0, "[cap] no reallocation without insertion"); }
}
#if UNI
#define INS1(expr) auto r = expr; sz i = sz(r.first - v.begin()); bool ins = r.second
#define INSH(expr) auto r = expr; sz i = sz(r - v.begin()); bool ins = v.size() != o.n
#else
#define INS1(expr) auto r = expr; sz i = sz(r - v.begin()); bool ins = true
#define INSH(expr) INS1(expr)
#endif
#if UNI   // a unique container that is full may still be asked to insert a present key
#define ROOM(cond) NEED(o.n < NN)
#else
#define ROOM(cond) NEED(o.n < NN)
#endif
VC_FN(h_insert_copy, (V& v, const E& x))
{
    Old o = pre(v); ref_arg(v, x); ROOM(); vc_begin();
    try { INS1(v.insert(x)); one(v, o, i, ins, &keyof(x)); if (ins) vc_eq_old(dat(v) + i, SZ, &x, "[seq] inserted value"); }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_insert_move, (V& v, E&& x))
{
    Old o = pre(v); rv_arg(o, &x, SZ); ROOM(); vc_begin();
    try { INS1(v.insert(std::move(x))); one(v, o, i, ins, &keyof(x)); if (ins) vc_eq_old(dat(v) + i, SZ, &x, "[seq] inserted value"); else vc_eq_old(&x, SZ, &x, "[seq] rejected value is not consumed"); }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
#if MAPK
#define EMPL(x) (x).first, (x).second
#else
#define EMPL(x) (x)
#endif
VC_FN(h_emplace, (V& v, const E& x))
{
    Old o = pre(v); ref_arg(v, x); ROOM(); vc_begin();
    try { INS1(v.emplace(EMPL(x))); one(v, o, i, ins, &keyof(x)); if (ins) vc_eq_old(dat(v) + i, SZ, &x, "[seq] inserted value"); }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_insert_hint_copy, (V& v, sz h, const E& x))
{
    Old o = pre(v); ref_arg(v, x); vc_assume(h <= o.n); ROOM(); vc_begin();
    try { INSH(v.insert(v.cbegin() + h, x)); one(v, o, i, ins, &keyof(x)); if (ins) vc_eq_old(dat(v) + i, SZ, &x, "[seq] inserted value"); }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_insert_hint_move, (V& v, sz h, E&& x))
{
    Old o = pre(v); rv_arg(o, &x, SZ); vc_assume(h <= o.n); ROOM(); vc_begin();
    try { INSH(v.insert(v.cbegin() + h, std::move(x))); one(v, o, i, ins, &keyof(x)); if (ins) vc_eq_old(dat(v) + i, SZ, &x, "[seq] inserted value"); else vc_eq_old(&x, SZ, &x, "[seq] rejected value is not consumed"); }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_emplace_hint, (V& v, sz h, const E& x))
{
    Old o = pre(v); ref_arg(v, x); vc_assume(h <= o.n); ROOM(); vc_begin();
    try { INSH(v.emplace_hint(v.cbegin() + h, EMPL(x))); one(v, o, i, ins, &keyof(x)); if (ins) vc_eq_old(dat(v) + i, SZ, &x, "[seq] inserted value"); }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
#if !MAPK && UNI
VC_FN(h_insert_x, (V& v, const KeyX& x))
{
    Old o = pre(v); vc_arg(&x, 1); ROOM(); vc_begin();
    try { INS1(v.insert(x)); one(v, o, i, ins, &x); if (ins) vc_eq_old(dat(v) + i, SZ, &x, "[seq] inserted value"); }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_insert_hint_x, (V& v, sz h, const KeyX& x))
{
    Old o = pre(v); vc_arg(&x, 1); vc_assume(h <= o.n); ROOM(); vc_begin();
    try { INSH(v.insert(v.cbegin() + h, x)); one(v, o, i, ins, &x); if (ins) vc_eq_old(dat(v) + i, SZ, &x, "[seq] inserted value"); }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
#endif
// ---------------------------------------------------------------- map operations
#if MAPK && UNI
static inline void mapped(V& v, const Old& o, sz i, bool ins, const void* k, const void* m, bool assign)
{
    vc_assert(i < v.size(), "[seq] returned iterator designates an element");
    if (ins) { inserted(v, o, i, 1); vc_eq_old(&dat(v)[i].first, sizeof(Val), k, "[seq] inserted key"); if (m) vc_eq_old(&dat(v)[i].second, sizeof(Val), m, "[seq] inserted mapped value"); else vc_eq_def(&dat(v)[i].second, sizeof(Val), "[seq] inserted mapped value is the default"); }
    else
    {
        key_at(v, i, k, 0, "[ord] an equivalent key is present and designated");
        vc_assert(vc_allocs() == 0 && dat(v) == o.d && v.capacity() == o.c, "[cap] no reallocation without insertion");
        keep_alloc(v, o); vc_assert(v.size() == o.n, "[seq] size unchanged");
        if (!assign) same(v, o);
        else
        {
            vc_eq_old(dat(v), i * SZ, o.d, "[seq] other elements unchanged"); vc_eq_old(dat(v) + i + 1, (o.n - i - 1) * SZ, o.d + i + 1, "[seq] other elements unchanged");
            vc_eq_old(&dat(v)[i].first, sizeof(Val), &o.d[i].first, "[seq] key unchanged"); vc_eq_old(&dat(v)[i].second, sizeof(Val), m, "[seq] mapped value assigned");
            ordered(v);
        }
    }
}
VC_FN(h_insert_or_assign_copy, (V& v, const Val& k, const Val& m))
{
    Old o = pre(v); vc_arg(&k, sizeof(Val)); vc_arg(&m, sizeof(Val)); ROOM(); vc_begin();
    try { INS1(v.insert_or_assign(k, m)); mapped(v, o, i, ins, &k, &m, true); } catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_insert_or_assign_move, (V& v, Val&& k, Val&& m))
{
    Old o = pre(v); rv_arg(o, &k, sizeof(Val)); rv_arg(o, &m, sizeof(Val)); vc_assume(&k != &m); ROOM(); vc_begin();
    try { INS1(v.insert_or_assign(std::move(k), std::move(m))); mapped(v, o, i, ins, &k, &m, true); } catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_insert_or_assign_x, (V& v, const KeyX& k, const Val& m))
{
    Old o = pre(v); vc_arg(&k, 1); vc_arg(&m, sizeof(Val)); ROOM(); vc_begin();
    try { INS1(v.insert_or_assign(k, m)); mapped(v, o, i, ins, &k, &m, true); } catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_insert_or_assign_hint, (V& v, sz h, const Val& k, const Val& m))
{
    Old o = pre(v); vc_arg(&k, sizeof(Val)); vc_arg(&m, sizeof(Val)); vc_assume(h <= o.n); ROOM(); vc_begin();
    try { INSH(v.insert_or_assign(v.cbegin() + h, k, m)); mapped(v, o, i, ins, &k, &m, true); } catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_try_emplace_copy, (V& v, const Val& k, const Val& m))
{
    Old o = pre(v); vc_arg(&k, sizeof(Val)); vc_arg(&m, sizeof(Val)); ROOM(); vc_begin();
    try { INS1(v.try_emplace(k, m)); mapped(v, o, i, ins, &k, &m, false); } catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_try_emplace_move, (V& v, Val&& k, Val&& m))
{
    Old o = pre(v); rv_arg(o, &k, sizeof(Val)); rv_arg(o, &m, sizeof(Val)); vc_assume(&k != &m); ROOM(); vc_begin();
    try { INS1(v.try_emplace(std::move(k), std::move(m))); mapped(v, o, i, ins, &k, &m, false);
        if (!ins) { vc_eq_old(&k, sizeof(Val), &k, "[seq] rejected key is not consumed"); vc_eq_old(&m, sizeof(Val), &m, "[seq] rejected value is not consumed"); } }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_try_emplace_x, (V& v, const KeyX& k, const Val& m))
{
    Old o = pre(v); vc_arg(&k, 1); vc_arg(&m, sizeof(Val)); ROOM(); vc_begin();
    try { INS1(v.try_emplace(k, m)); mapped(v, o, i, ins, &k, &m, false); } catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_try_emplace_hint, (V& v, sz h, const Val& k, const Val& m))
{
    Old o = pre(v); vc_arg(&k, sizeof(Val)); vc_arg(&m, sizeof(Val)); vc_assume(h <= o.n); ROOM(); vc_begin();
    try { INSH(v.try_emplace(v.cbegin() + h, k, m)); mapped(v, o, i, ins, &k, &m, false); } catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_subscript, (V& v, const Val& k))
{
    Old o = pre(v); vc_arg(&k, sizeof(Val)); ROOM(); vc_begin();
    try { Val& r = v[k]; sz i = sz(reinterpret_cast<const E*>(reinterpret_cast<const char*>(&r) - sizeof(Val)) - dat(v)); vc_assert(i < v.size() && &r == &dat(v)[i].second, "[seq] subscript designates a mapped value");
        mapped(v, o, i, v.size() != o.n, &k, nullptr, false); }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_subscript_move, (V& v, Val&& k))
{
    Old o = pre(v); rv_arg(o, &k, sizeof(Val)); ROOM(); vc_begin();
    try { Val& r = v[std::move(k)]; sz i = sz(reinterpret_cast<const E*>(reinterpret_cast<const char*>(&r) - sizeof(Val)) - dat(v)); vc_assert(i < v.size() && &r == &dat(v)[i].second, "[seq] subscript designates a mapped value");
        mapped(v, o, i, v.size() != o.n, &k, nullptr, false); }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_at, (V& v, const Val& k))
{
    Old o = pre(v); vc_arg(&k, sizeof(Val)); vc_begin();
    try { Val& r = v.at(k); sz i = sz(reinterpret_cast<const E*>(reinterpret_cast<const char*>(&r) - sizeof(Val)) - o.d); vc_assert(i < o.n && &r == &o.d[i].second, "[bounds] at() designates a mapped value"); key_at(v, i, &k, 0, "[bounds] at() designates the element with the key"); }
    catch (...) { int e = vc_exc_kind(); vc_assert(e == 3 || e == 1, "[bounds] out_of_range"); if (e == 3) vc_rank_all(o.cid, o.d, o.n * SZ, SZ, &k, 3, "[bounds] at() throws only for absent keys"); }
    try { const V& c = v; const Val& r = c.at(k); sz i = sz(reinterpret_cast<const E*>(reinterpret_cast<const char*>(&r) - sizeof(Val)) - o.d); vc_assert(i < o.n && &r == &o.d[i].second, "[bounds] const at() designates a mapped value"); key_at(v, i, &k, 0, "[bounds] const at() designates the element with the key"); }
    catch (...) { int e = vc_exc_kind(); vc_assert(e == 3 || e == 1, "[bounds] out_of_range"); if (e == 3) vc_rank_all(o.cid, o.d, o.n * SZ, SZ, &k, 3, "[bounds] const at() throws only for absent keys"); }
    same(v, o); inv(v);
}
VC_FN(h_at_x, (V& v, const KeyX& k))
{
    Old o = pre(v); vc_arg(&k, 1); vc_begin();
    try { Val& r = v.at(k); sz i = sz(reinterpret_cast<const E*>(reinterpret_cast<const char*>(&r) - sizeof(Val)) - o.d); vc_assert(i < o.n && &r == &o.d[i].second, "[bounds] at() designates a mapped value"); key_at(v, i, &k, 0, "[bounds] at() designates the element with the key"); }
    catch (...) { int e = vc_exc_kind(); vc_assert(e == 3 || e == 1, "[bounds] out_of_range"); if (e == 3) vc_rank_all(o.cid, o.d, o.n * SZ, SZ, &k, 3, "[bounds] at() throws only for absent keys"); }
    same(v, o); inv(v);
}
#endif
// ---------------------------------------------------------------- lookup
static inline void nothing_changed(V& v, const Old& o) { same(v, o); keep_alloc(v, o); vc_assert(dat(v) == o.d && v.capacity() == o.c && vc_allocs() == 0, "[seq] lookup changes nothing"); inv(v); }
static inline void found(const V& v, const Old& o, sz i, const void* k)
{
    vc_assert(i <= o.n, "[find] result lies in the container");
    if (i < o.n) key_at(v, i, k, 0, "[find] found element has the key");
    else vc_rank_all(o.cid, o.d, o.n * SZ, SZ, k, 3, "[find] end() only when no element has the key");
}
#define LOOKUPS(S, K, KSZ)                                                                                                                        \
VC_FN(h_find##S, (V& v, const K& k))                                                                                                              \
{                                                                                                                                                 \
    Old o = pre(v); vc_arg(&k, KSZ); vc_begin();                                                                                                  \
    try { sz i = sz(v.find(k) - v.begin()); found(v, o, i, &k); } catch (...) { vc_assert(vc_exc_kind() == 1, "[find] only comparison failures"); } \
    nothing_changed(v, o);                                                                                                                        \
}                                                                                                                                                 \
VC_FN(h_find_const##S, (V& v, const K& k))                                                                                                        \
{                                                                                                                                                 \
    Old o = pre(v); vc_arg(&k, KSZ); vc_begin();                                                                                                  \
    const V& c = v;                                                                                                                               \
    try { sz i = sz(c.find(k) - c.begin()); found(v, o, i, &k); } catch (...) { vc_assert(vc_exc_kind() == 1, "[find] only comparison failures"); } \
    nothing_changed(v, o);                                                                                                                        \
}                                                                                                                                                 \
VC_FN(h_contains##S, (V& v, const K& k))                                                                                                          \
{                                                                                                                                                 \
    Old o = pre(v); vc_arg(&k, KSZ); vc_begin();                                                                                                  \
    try { bool b = v.contains(k); if (b) vc_rank_some(o.cid, o.d, o.n * SZ, SZ, &k, "[find] contains() only when an element has the key"); else vc_rank_all(o.cid, o.d, o.n * SZ, SZ, &k, 3, "[find] contains() whenever an element has the key"); } \
    catch (...) { vc_assert(vc_exc_kind() == 1, "[find] only comparison failures"); }                                                             \
    nothing_changed(v, o);                                                                                                                        \
}
LOOKUPS(, Val, sizeof(Val))
LOOKUPS(_x, KeyX, 1)
#if UNI
#define COUNTS(S, K, KSZ)                                                                                                                         \
VC_FN(h_count##S, (V& v, const K& k))                                                                                                             \
{                                                                                                                                                 \
    Old o = pre(v); vc_arg(&k, KSZ); vc_begin();                                                                                                  \
    try { sz b = v.count(k); vc_assert(b <= 1, "[find] count() of a unique key"); if (b) vc_rank_some(o.cid, o.d, o.n * SZ, SZ, &k, "[find] count() only when an element has the key"); else vc_rank_all(o.cid, o.d, o.n * SZ, SZ, &k, 3, "[find] count() whenever an element has the key"); } \
    catch (...) { vc_assert(vc_exc_kind() == 1, "[find] only comparison failures"); }                                                             \
    nothing_changed(v, o);                                                                                                                        \
}
#else
#define COUNTS(S, K, KSZ)                                                                                                                         \
VC_FN(h_count##S, (V& v, const K& k))                                                                                                             \
{                                                                                                                                                 \
    Old o = pre(v); vc_arg(&k, KSZ); vc_begin();                                                                                                  \
    try { sz b = v.count(k); vc_rank_count(o.cid, o.d, o.n * SZ, SZ, &k, b, "[find] count() is the number of elements with the key"); }           \
    catch (...) { vc_assert(vc_exc_kind() == 1, "[find] only comparison failures"); }                                                             \
    nothing_changed(v, o);                                                                                                                        \
}
#endif
COUNTS(, Val, sizeof(Val))
COUNTS(_x, KeyX, 1)
#if ORD
#define BOUNDS(S, K, KSZ)                                                                                                                         \
VC_FN(h_lower_bound##S, (V& v, const K& k))                                                                                                       \
{                                                                                                                                                 \
    Old o = pre(v); vc_arg(&k, KSZ); vc_begin(); const V& c = v;                                                                                  \
    try { sz i = sz(v.lower_bound(k) - v.begin()); vc_assert(i <= o.n, "[find] result lies in the container"); vc_rank_all(o.cid, o.d, i * SZ, SZ, &k, -2, "[find] everything before lower_bound is less"); vc_rank_all(o.cid, o.d + i, (o.n - i) * SZ, SZ, &k, 1, "[find] nothing from lower_bound on is less"); \
          sz j = sz(c.lower_bound(k) - c.begin()); vc_assert(j <= o.n, "[find] result lies in the container"); vc_rank_all(o.cid, o.d, j * SZ, SZ, &k, -2, "[find] everything before lower_bound is less"); vc_rank_all(o.cid, o.d + j, (o.n - j) * SZ, SZ, &k, 1, "[find] nothing from lower_bound on is less"); } \
    catch (...) { vc_assert(vc_exc_kind() == 1, "[find] only comparison failures"); }                                                             \
    nothing_changed(v, o);                                                                                                                        \
}                                                                                                                                                 \
VC_FN(h_upper_bound##S, (V& v, const K& k))                                                                                                       \
{                                                                                                                                                 \
    Old o = pre(v); vc_arg(&k, KSZ); vc_begin(); const V& c = v;                                                                                  \
    try { sz i = sz(v.upper_bound(k) - v.begin()); vc_assert(i <= o.n, "[find] result lies in the container"); vc_rank_all(o.cid, o.d, i * SZ, SZ, &k, -1, "[find] nothing before upper_bound is greater"); vc_rank_all(o.cid, o.d + i, (o.n - i) * SZ, SZ, &k, 2, "[find] everything from upper_bound on is greater"); \
          sz j = sz(c.upper_bound(k) - c.begin()); vc_assert(j <= o.n, "[find] result lies in the container"); vc_rank_all(o.cid, o.d, j * SZ, SZ, &k, -1, "[find] nothing before upper_bound is greater"); vc_rank_all(o.cid, o.d + j, (o.n - j) * SZ, SZ, &k, 2, "[find] everything from upper_bound on is greater"); } \
    catch (...) { vc_assert(vc_exc_kind() == 1, "[find] only comparison failures"); }                                                             \
    nothing_changed(v, o);                                                                                                                        \
}                                                                                                                                                 \
VC_FN(h_equal_range##S, (V& v, const K& k))                                                                                                       \
{                                                                                                                                                 \
    Old o = pre(v); vc_arg(&k, KSZ); vc_begin();                                                                                                  \
    try { auto r = v.equal_range(k); sz i = sz(r.first - v.begin()), j = sz(r.second - v.begin()); equal_rng(v, o, i, j, &k); }                   \
    catch (...) { vc_assert(vc_exc_kind() == 1, "[find] only comparison failures"); }                                                             \
    nothing_changed(v, o);                                                                                                                        \
}                                                                                                                                                 \
VC_FN(h_equal_range_const##S, (V& v, const K& k))                                                                                                 \
{                                                                                                                                                 \
    Old o = pre(v); vc_arg(&k, KSZ); vc_begin(); const V& c = v;                                                                                  \
    try { auto r = c.equal_range(k); sz i = sz(r.first - c.begin()), j = sz(r.second - c.begin()); equal_rng(v, o, i, j, &k); }                   \
    catch (...) { vc_assert(vc_exc_kind() == 1, "[find] only comparison failures"); }                                                             \
    nothing_changed(v, o);                                                                                                                        \
}
static inline void equal_rng(V& v, const Old& o, sz i, sz j, const void* k)
{
    (void)v;
    vc_assert(i <= j && j <= o.n, "[find] result lies in the container");
    vc_rank_all(o.cid, o.d, i * SZ, SZ, k, -2, "[find] everything before the range is less");
    vc_rank_all(o.cid, o.d + i, (j - i) * SZ, SZ, k, 0, "[find] everything in the range has the key");
    vc_rank_all(o.cid, o.d + j, (o.n - j) * SZ, SZ, k, 2, "[find] everything after the range is greater");
}
BOUNDS(, Val, sizeof(Val))
BOUNDS(_x, KeyX, 1)
#endif
// ---------------------------------------------------------------- erase by key
#define ERASES(S, K, KSZ)                                                                                                                         \
VC_FN(h_erase_key##S, (V& v, const K& k))                                                                                                         \
{                                                                                                                                                 \
    Old o = pre(v); vc_arg(&k, KSZ); vc_begin();                                                                                                  \
    try { sz n = v.erase(k); erased_key(v, o, n, &k); } catch (...) { failed(v, o, 0); }                                                          \
    inv(v);                                                                                                                                       \
}
static inline void erased_key(V& v, const Old& o, sz n, const void* k)
{
    vc_assert(n <= o.n && v.size() == o.n - n, "[seq] erase returns the number removed");
    vc_assert(!UNI || n <= 1, "[seq] at most one element has a unique key");
    vc_rank_count_old(o.cid, o.d, o.n * SZ, SZ, k, n, "[ord] erase removes exactly the elements with the key");
#if ORD
    vc_erased_block(dat(v), o.d, o.n * SZ, n * SZ, SZ, "[seq] exactly the other elements remain, in order");
    vc_rank_all(o.cid, dat(v), v.size() * SZ, SZ, k, 3, "[ord] no element with the key remains");
#else
    if (UNI && n <= 1) vc_erased_some(dat(v), o.d, o.n * SZ, n * SZ, SZ, "[seq] exactly the other elements remain");
#ifndef VC_PROVE
    vc_multiset_rest(dat(v), v.size() * SZ, o.d, o.n * SZ, SZ, o.cid, k, "[seq] exactly the other elements remain");
#endif
    vc_rank_all(o.cid, dat(v), v.size() * SZ, SZ, k, 3, "[ord] no element with the key remains");
#endif
    ordered(v); keep_alloc(v, o); vc_assert(vc_allocs() == 0 && v.capacity() == o.c, "[cap] erasing never allocates");
}
ERASES(, Val, sizeof(Val))
ERASES(_x, KeyX, 1)
// ---------------------------------------------------------------- bulk operations
#include "flat_bulk.inc"
