// Contracts of the sequence containers. One translation unit per container: -DC_VECTOR / C_SMALL / C_STATIC / C_COMPACT / C_DEVECTOR
#include "vc.hpp"
#include <iterator>
#include <initializer_list>
#include <cstdint>
#ifndef NN
#define NN 3
#endif
#if defined(C_VECTOR)
#include "sfl/vector.hpp"
using V = sfl::vector<Val, Al<Val>>;
#elif defined(C_SMALL)
#include "sfl/small_vector.hpp"
using V = sfl::small_vector<Val, NN, Al<Val>>;
#elif defined(C_STATIC)
#include "sfl/static_vector.hpp"
using V = sfl::static_vector<Val, NN>;
#elif defined(C_COMPACT)
#include "sfl/compact_vector.hpp"
using V = sfl::compact_vector<Val, Al<Val>>;
#elif defined(C_DEVECTOR)
#include "sfl/devector.hpp"
using V = sfl::devector<Val, Al<Val>>;
#endif
static const std::size_t SZ = sizeof(Val);
using sz = std::size_t;

#ifdef C_STATIC
#define HAS_ALLOC 0
static inline int alid(const V&) { return 0; }
#define MAKE(v, id) V v; (void)id
#define MAKEA(v, id, ...) V v(__VA_ARGS__); (void)id
#define NEED(c) vc_assume(c)
#else
#define HAS_ALLOC 1
static inline int alid(const V& v) { return v.get_allocator().id; }
#define MAKE(v, id) V v{Al<Val>(id)}
#define MAKEA(v, id, ...) V v(__VA_ARGS__, Al<Val>(id))
#define NEED(c) ((void)0)
#endif
#if defined(C_DEVECTOR)
static inline sz front_gap(const V& v) { return v.available_front(); }
static inline sz back_gap(const V& v) { return v.available_back(); }
#else
static inline sz front_gap(const V&) { return 0; }
static inline sz back_gap(const V& v) { return v.capacity() - v.size(); }
#endif
#ifdef C_SMALL
static inline const Val* internal_of(const V& v)
{
    V probe{Al<Val>(0)};
    return reinterpret_cast<const Val*>(reinterpret_cast<const char*>(&v) + (reinterpret_cast<const char*>(probe.data()) - reinterpret_cast<const char*>(&probe)));
}
#endif

struct Old { const Val* d; sz n, c, fg, bg; int id; bool inl; };

static inline Old pre(V& v)
{
    vc_obj(&v, sizeof(V));
    vc_assume(v.size() <= v.capacity());
    vc_assume(v.capacity() <= v.max_size());
    bool inl = false;
#if defined(C_STATIC)
    inl = true;
#elif defined(C_SMALL)
    inl = NN > 0 && v.data() == internal_of(v);
    if (inl) vc_assume(v.capacity() == NN); else vc_assume(NN == 0 || v.capacity() == 0 || v.capacity() > NN);
#endif
#if defined(C_DEVECTOR)
    vc_assume(front_gap(v) <= v.capacity() && back_gap(v) <= v.capacity());
#endif
#if defined(C_SMALL)
    if (!inl && NN > 0) vc_pre_raw(internal_of(v), NN * SZ);
#endif
#if HAS_ALLOC
    if (!inl)
    {
        if (v.capacity() == 0) { vc_assume(v.data() == nullptr); }
        else vc_pre_block(v.data() - front_gap(v), v.capacity(), SZ, alid(v));
    }
#endif
    vc_pre_raw(v.data() - front_gap(v), front_gap(v) * SZ);
    vc_pre_live(v.data(), v.size() * SZ);
    vc_pre_raw(v.data() + v.size(), back_gap(v) * SZ);
    return Old{v.data(), v.size(), v.capacity(), front_gap(v), back_gap(v), alid(v), inl};
}
#if HAS_ALLOC
static inline sz maxof(int id) { sz l = vc_limit(id), m = sz(PTRDIFF_MAX) / SZ; return l < m ? l : m; }
#else
static inline sz maxof(int) { return NN; }
#endif
// structural invariant, checked on every exit
static inline void shape(const V& v, bool local)
{
    vc_assert(v.size() <= v.capacity(), "[shape] size() <= capacity()");
    vc_assert(v.capacity() <= v.max_size(), "[cap] capacity() <= max_size()");
#if defined(C_DEVECTOR)
    vc_assert(v.available_front() + v.size() + v.available_back() == v.capacity(), "[shape] front gap + size + back gap == capacity");
#else
    vc_assert(v.available() == v.capacity() - v.size(), "[cap] available()");
#endif
    vc_assert(v.empty() == (v.size() == 0), "[shape] empty()");
#if defined(C_STATIC)
    vc_assert(v.capacity() == NN, "[cap] fixed capacity");
#elif defined(C_SMALL)
    if (NN > 0 && v.data() == internal_of(v)) { vc_assert(v.capacity() == NN, "[cap] internal storage has capacity N"); return; }
    if (NN > 0) vc_assert(v.capacity() == 0 || v.capacity() > NN, "[cap] heap storage is used only beyond the embedded capacity");
#endif
#if HAS_ALLOC
    if (v.capacity() != 0) { vc_chk_block(v.data() - front_gap(v), v.capacity(), SZ, alid(v)); if (!local) vc_own_block(v.data() - front_gap(v), v.capacity(), SZ, alid(v)); }
    else vc_assert(v.data() == nullptr, "[shape] no storage when capacity is 0");
#endif
}
static inline void inv(const V& v) { shape(v, false); vc_own(v.data(), v.size() * SZ); }
static inline void invl(const V& v) { shape(v, true); }
static inline void same(const V& v, const Old& o)
{
    vc_assert(v.size() == o.n, "[seq] size unchanged");
    vc_eq_old(v.data(), o.n * SZ, o.d, "[seq] values unchanged");
}
static inline void keep_alloc(const V& v, const Old& o) { vc_assert(alid(v) == o.id, "[alloc] allocator unchanged"); }
#if defined(C_SMALL)
static inline void noheap(sz n) { if (n <= NN) vc_assert(vc_allocs() == 0, "[cap] no heap while the elements fit the embedded storage"); }
#else
static inline void noheap(sz) {}
#endif
// no reallocation when the extra elements fit
static inline void inplace(const V& v, const Old& o, sz extra)
{
#if defined(C_STATIC)
    vc_assert(vc_allocs() == 0, "[cap] no allocation");
#elif defined(C_VECTOR) || defined(C_SMALL)
    if (extra <= o.c - o.n) vc_assert(v.data() == o.d && v.capacity() == o.c && vc_allocs() == 0, "[cap] no reallocation while capacity suffices");
#elif defined(C_DEVECTOR)
    if (extra <= o.fg && extra <= o.bg) vc_assert(v.capacity() == o.c && vc_allocs() == 0, "[cap] no reallocation while both gaps suffice");
#endif
    noheap(o.n + extra);
    (void)v; (void)o; (void)extra;
}
static inline void inserted(const V& v, const Old& o, sz pos, sz n)
{
    vc_assert(v.size() == o.n + n, "[seq] size grows by the number inserted");
    vc_eq_old(v.data(), pos * SZ, o.d, "[seq] elements before the position");
    vc_eq_old(v.data() + pos + n, (o.n - pos) * SZ, o.d + pos, "[seq] elements after the position");
    keep_alloc(v, o);
}
static inline void failed(const V& v, const Old& o, sz extra)
{
    int k = vc_exc_kind();
    vc_assert(k == 1 || k == 2, "[seq] only failures of elements, allocator or size limit are reported");
#if defined(C_DEVECTOR)
    if (k == 2) vc_assert(extra > v.max_size() - o.c, "[cap] length_error only beyond max_size()");   // the kept gaps count
#else
    if (k == 2) vc_assert(extra > v.max_size() - o.n, "[cap] length_error only beyond max_size()");
#endif
    keep_alloc(v, o);
}
struct Rng { const Val* p; sz n; };
// an initializer list of any length (the representation of the library of this compiler: first element, length)
static inline std::initializer_list<Val> ilist_of(const Rng& r)
{
    struct R { const Val* p; sz n; } x{r.p, r.n};
    std::initializer_list<Val> l; static_assert(sizeof(l) == sizeof(x), "");
    __builtin_memcpy(static_cast<void*>(&l), &x, sizeof(x));
    return l;
}
static inline void range_arg(const Rng& r) { vc_range(r.p, r.n * SZ); vc_assume(r.n <= (sz(1) << 60)); }

#ifndef VC_PROVE
static std::string vname() { return ""; }
static V* build(int which, int id)
{
    using namespace vcn;
    int n = choose(NN + 3);
#ifdef C_STATIC
    if (n > NN) throw Skip();
    V* v = make<V>();
#else
    V* v = make<V>(Al<Val>(id));
#endif
    int base = which * 3;
    int shape = 0;
#if defined(C_VECTOR)
    shape = choose(3);
    if (shape) v->reserve(n + (shape == 1 ? 1 : 4));
#elif defined(C_SMALL)
    shape = choose(4);
    if (shape == 1 || shape == 2) v->reserve(NN + 1 + (shape == 2 ? 3 : 0));
    if (shape == 3) { if (n) throw Skip(); v->reserve(NN + 1); { V w(std::move(*v)); } }
#elif defined(C_DEVECTOR)
    shape = choose(6);
    if (shape == 1) v->reserve_back(n + 2);
    if (shape == 2) v->reserve_front(n + 2);
    if (shape == 3) { v->reserve_front(n + 1); v->reserve_back(n + 1); }
    if (shape == 4) { v->reserve_front(n + 4); v->reserve_back(n + 1); }
    if (shape == 5) { v->reserve_front(n + 1); v->reserve_back(n + 4); }
#endif
    for (int i = 0; i < n; ++i) v->emplace_back((i + base) * 10 + 5 + which);
    if (v->size() != sz(n)) fail("post", "[seq] building a container by appending");
    for (sz i = 0; i < v->size(); ++i) aliasable().push_back(v->data() + i);
    g().desc += " [n=" + std::to_string(n) + ",cap=" + std::to_string(v->capacity()) + ",shape=" + std::to_string(shape) + ",alloc=" + std::to_string(id) + "]";
    return v;
}
namespace vcn {
static int nth_container;
template <> struct Gen<V&> { static V& get() { bool first = aliasable().empty() && owned().empty(); static const int ids[] = {0, 1, 100};
  int id = HAS_ALLOC ? (first ? choose(2) * 100 : ids[choose(3)]) : 0;
  try { return *build(first ? 0 : 1, id); } catch (std::length_error&) { throw Skip(); } } };
template <> struct Gen<Rng> { static Rng get()
{ int n = choose(7); g().desc += " range(" + std::to_string(n) + ")"; Val* m = static_cast<Val*>(std::malloc((n + 1) * sizeof(Val)));
  for (int i = 0; i < n; ++i) { ::new (m + i) Val(500 + 10 * i); g().ext.push_back(m + i); }
  struct H { Val* m; int n; ~H() { for (int i = 0; i < n; ++i) m[i].~Val(); std::free(m); } };
  vcn::make<H>(H{nullptr, 0}); H* h = static_cast<H*>(owned().back().first); h->m = m; h->n = n; return Rng{m, sz(n)}; } };
}
#endif

// ---------------------------------------------------------------- construction
VC_FN(h_ctor_default, (int id))
{
    vc_begin();
    { MAKE(v, id); vc_assert(v.size() == 0 && v.empty(), "[seq] empty"); vc_assert(vc_allocs() == 0, "[cap] no allocation"); invl(v); }
}
VC_FN(h_ctor_n, (sz n, int id))
{
    NEED(n <= NN);
    vc_begin();
    try { MAKEA(v, id, n); noheap(n); vc_assert(v.size() == n, "[seq] size"); vc_eq_def(v.data(), n * SZ, "[seq] default elements"); invl(v);
#if HAS_ALLOC
        vc_assert(alid(v) == id, "[alloc] given allocator");
#endif
    }
    catch (...) { vc_assert(vc_exc_kind() == 1 || n > maxof(id), "[cap] length_error only beyond max_size()"); }
}
VC_FN(h_ctor_n_value, (sz n, const Val& x, int id))
{
    NEED(n <= NN); vc_arg(&x, SZ);
    vc_begin();
    try { MAKEA(v, id, n, x); noheap(n); vc_assert(v.size() == n, "[seq] size"); vc_eq_one(v.data(), n * SZ, &x, "[seq] copies of value"); invl(v); }
    catch (...) { vc_assert(vc_exc_kind() == 1 || n > maxof(id), "[cap] length_error only beyond max_size()"); }
}
VC_FN(h_ctor_range, (Rng r, int id))
{
    NEED(r.n <= NN); range_arg(r);
    vc_begin();
    try { MAKEA(v, id, r.p, r.p + r.n); noheap(r.n); vc_assert(v.size() == r.n, "[seq] size"); vc_eq_old(v.data(), r.n * SZ, r.p, "[seq] copies of range"); invl(v); }
    catch (...) { vc_assert(vc_exc_kind() == 1 || r.n > maxof(id), "[cap] length_error only beyond max_size()"); }
}
VC_FN(h_ctor_ilist, (Rng r, int id))
{
    NEED(r.n <= NN); range_arg(r);
    vc_begin();
    try { MAKEA(v, id, ilist_of(r)); noheap(r.n); vc_assert(v.size() == r.n, "[seq] size"); vc_eq_old(v.data(), r.n * SZ, r.p, "[seq] copies of list"); invl(v); }
    catch (...) { vc_assert(vc_exc_kind() == 1 || r.n > maxof(id), "[cap] length_error only beyond max_size()"); }
}
VC_FN(h_ctor_copy, (V& a))
{
    Old o = pre(a); vc_begin();
    try { V v(a); noheap(o.n); same(v, o); same(a, o); invl(v);
#if HAS_ALLOC
        vc_assert(alid(v) == int(unsigned(o.id) + 1u), "[alloc] select_on_container_copy_construction");
#endif
    }
    catch (...) { same(a, o); vc_assert(vc_exc_kind() == 1 || o.n > maxof(int(unsigned(o.id) + 1u)), "[cap] length_error only beyond max_size()"); }
    keep_alloc(a, o); inv(a);
}
VC_FN(h_ctor_move, (V& a))
{
    Old o = pre(a); vc_begin();
    try { V v(std::move(a)); noheap(o.n); same(v, o); invl(v); vc_assert(alid(v) == o.id, "[alloc] allocator moved");
#if HAS_ALLOC && !defined(C_SMALL)
        vc_assert(v.data() == o.d && vc_allocs() == 0, "[alloc] storage transferred, elements untouched");
#elif defined(C_SMALL)
        if (!o.inl) vc_assert(v.data() == o.d && vc_allocs() == 0, "[alloc] storage transferred, elements untouched");
#endif
    }
    catch (...) {
#if HAS_ALLOC && !defined(C_SMALL)
        vc_unreachable("[exc] move construction does not throw");
#else
        vc_assert(vc_exc_kind() == 1, "[cap] length_error only beyond max_size()");
#endif
    }
    inv(a);
}
#if HAS_ALLOC
VC_FN(h_ctor_copy_alloc, (V& a, int id))
{
    Old o = pre(a); vc_begin();
    try { V v(a, Al<Val>(id)); noheap(o.n); same(v, o); same(a, o); invl(v); vc_assert(alid(v) == id, "[alloc] given allocator"); }
    catch (...) { same(a, o); vc_assert(vc_exc_kind() == 1 || o.n > maxof(id), "[cap] length_error only beyond max_size()"); }
    keep_alloc(a, o); inv(a);
}
VC_FN(h_ctor_move_alloc, (V& a, int id))
{
    Old o = pre(a); vc_begin();
    try { V v(std::move(a), Al<Val>(id)); noheap(o.n); same(v, o); invl(v); vc_assert(alid(v) == id, "[alloc] given allocator");
        if (id == o.id && !o.inl) vc_assert(v.data() == o.d, "[alloc] storage transferred between equal allocators"); }
    catch (...) { vc_assert(vc_exc_kind() == 1 || o.n > maxof(id), "[cap] length_error only beyond max_size()"); }
    inv(a);
}
#endif
VC_FN(h_dtor, (V& a))
{
    pre(a); vc_begin();
    a.~V();
    vc_assert(vc_allocs() == 0, "[cap] no allocation");
#ifndef VC_PROVE
    ::new (&a) V();
#endif
}
// ---------------------------------------------------------------- assignment
VC_FN(h_assign_n, (V& v, sz n, const Val& x))
{
    Old o = pre(v); vc_arg(&x, SZ); NEED(n <= NN);
    vc_assume(!(o.d <= &x && &x < o.d + o.n));
    vc_begin();
    try { v.assign(n, x); noheap(n); vc_assert(v.size() == n, "[seq] size"); vc_eq_one(v.data(), n * SZ, &x, "[seq] copies of value"); keep_alloc(v, o);
#if !defined(C_COMPACT)
        if (n <= o.c) vc_assert(vc_allocs() == 0, "[cap] no reallocation while capacity suffices");
#endif
    }
    catch (...) { int k = vc_exc_kind(); if (k == 2) vc_assert(n > v.max_size(), "[cap] length_error only beyond max_size()"); keep_alloc(v, o); }
    inv(v);
}
VC_FN(h_assign_range, (V& v, Rng r))
{
    Old o = pre(v); range_arg(r); NEED(r.n <= NN);
    vc_begin();
    try { v.assign(r.p, r.p + r.n); noheap(r.n); vc_assert(v.size() == r.n, "[seq] size"); vc_eq_old(v.data(), r.n * SZ, r.p, "[seq] copies of range"); keep_alloc(v, o);
#if !defined(C_COMPACT)
        if (r.n <= o.c) vc_assert(vc_allocs() == 0, "[cap] no reallocation while capacity suffices");
#endif
    }
    catch (...) { int k = vc_exc_kind(); if (k == 2) vc_assert(r.n > v.max_size(), "[cap] length_error only beyond max_size()"); keep_alloc(v, o); }
    inv(v);
}
VC_FN(h_assign_ilist, (V& v, Rng r))
{
    Old o = pre(v); range_arg(r); NEED(r.n <= NN);
    vc_begin();
    try { v.assign(ilist_of(r)); noheap(r.n); vc_assert(v.size() == r.n, "[seq] size"); vc_eq_old(v.data(), r.n * SZ, r.p, "[seq] copies of list"); keep_alloc(v, o);
#if !defined(C_COMPACT)
        if (r.n <= o.c) vc_assert(vc_allocs() == 0, "[cap] no reallocation while capacity suffices");
#endif
    }
    catch (...) { int k = vc_exc_kind(); if (k == 2) vc_assert(r.n > v.max_size(), "[cap] length_error only beyond max_size()"); keep_alloc(v, o); }
    inv(v);
}
VC_FN(h_assign_op_ilist, (V& v, Rng r))
{
    Old o = pre(v); range_arg(r); NEED(r.n <= NN);
    vc_begin();
    try { V& w = (v = ilist_of(r)); vc_assert(&w == &v, "[seq] returns *this"); vc_assert(v.size() == r.n, "[seq] size"); vc_eq_old(v.data(), r.n * SZ, r.p, "[seq] copies of list"); keep_alloc(v, o);
#if !defined(C_COMPACT)
        if (r.n <= o.c) vc_assert(vc_allocs() == 0, "[cap] no reallocation while capacity suffices");
#endif
    }
    catch (...) { int k = vc_exc_kind(); if (k == 2) vc_assert(r.n > v.max_size(), "[cap] length_error only beyond max_size()"); keep_alloc(v, o); }
    inv(v);
}
VC_FN(h_copy_assign, (V& v, V& a))
{
    Old o = pre(v), p = pre(a);
    vc_begin();
    try { V& r = (v = a); vc_assert(&r == &v, "[seq] returns *this"); same(v, p); same(a, p); noheap(p.n);
#if HAS_ALLOC && !defined(C_COMPACT)
        if ((!(ALP & 1) || p.id == o.id) && p.n <= o.c) vc_assert(vc_allocs() == 0, "[cap] no reallocation while capacity suffices");
#endif
#if HAS_ALLOC
        vc_assert(alid(v) == ((ALP & 1) ? p.id : o.id), "[alloc] allocator propagation on copy assignment");
#endif
    }
    catch (...) { same(a, p); vc_assert(vc_exc_kind() == 1 || p.n > v.max_size(), "[cap] length_error only beyond max_size()"); }
    keep_alloc(a, p);
    inv(v); inv(a);
}
VC_FN(h_move_assign, (V& v, V& a))
{
    Old o = pre(v), p = pre(a);
    vc_begin();
    try { V& r = (v = std::move(a)); vc_assert(&r == &v, "[seq] returns *this"); same(v, p); noheap(p.n);
#if HAS_ALLOC
        vc_assert(alid(v) == (((ALP >> 1) & 1) ? p.id : o.id), "[alloc] allocator propagation on move assignment");
        if (!p.inl && p.c > 0 && (((ALP >> 1) & 1) || p.id == o.id)) vc_assert(v.data() == p.d && vc_allocs() == 0, "[alloc] storage transferred, elements untouched");
#endif
    }
    catch (...) { vc_assert(vc_exc_kind() == 1 || p.n > v.max_size(), "[cap] length_error only beyond max_size()"); }
    inv(v); inv(a);
}
VC_FN(h_copy_assign_self, (V& v))
{
    Old o = pre(v); vc_begin();
    try { V& a = v; v = a; same(v, o); } catch (...) { }
    keep_alloc(v, o); inv(v);
}
VC_FN(h_swap, (V& v, V& a))
{
    Old o = pre(v), p = pre(a);
    vc_assume(((ALP >> 2) & 1) || o.id == p.id);
    vc_begin();
    try { v.swap(a); same(v, p); same(a, o);
#if HAS_ALLOC
        vc_assert(alid(v) == (((ALP >> 2) & 1) ? p.id : o.id) && alid(a) == (((ALP >> 2) & 1) ? o.id : p.id), "[alloc] allocator propagation on swap");
        vc_assert(vc_allocs() == 0, "[alloc] swap does not allocate");
        if (!p.inl && !o.inl) vc_assert(v.data() == p.d && a.data() == o.d, "[alloc] swap exchanges storage");
#endif
    }
    catch (...) { vc_assert(vc_exc_kind() == 1, "[exc] only element failures"); vc_assert(o.inl || p.inl, "[exc] swapping storage does not throw"); }
    inv(v); inv(a);
}
VC_FN(h_swap_self, (V& v))
{
    Old o = pre(v); vc_begin();
    try { v.swap(v); same(v, o); } catch (...) { vc_unreachable("[exc] self swap does not throw"); }
    keep_alloc(v, o); inv(v);
}
// ---------------------------------------------------------------- observers
VC_FN(h_at, (V& v, sz i))
{
    Old o = pre(v); vc_begin();
    try { Val& e = v.at(i); vc_assert(i < o.n, "[bounds] at() accepts only valid positions"); vc_assert(&e == o.d + i, "[bounds] at() designates the element"); }
    catch (...) { vc_assert(vc_exc_kind() == 3, "[bounds] out_of_range"); vc_assert(i >= o.n, "[bounds] at() throws only for invalid positions"); }
    try { const V& c = v; const Val& e = c.at(i); vc_assert(i < o.n, "[bounds] const at() accepts only valid positions"); vc_assert(&e == o.d + i, "[bounds] const at() designates the element"); }
    catch (...) { vc_assert(vc_exc_kind() == 3, "[bounds] const out_of_range"); vc_assert(i >= o.n, "[bounds] const at() throws only for invalid positions"); }
    same(v, o); inv(v);
}
VC_FN(h_observe, (V& v, sz i, sz j))
{
    Old o = pre(v); vc_assume(i <= j && j <= o.n);
    vc_begin();
    const V& c = v;
    vc_assert(c.data() == o.d, "[seq] data()");
    vc_assert(sz(v.end() - v.begin()) == o.n && sz(c.end() - c.begin()) == o.n && sz(c.cend() - c.cbegin()) == o.n, "[iter] end() - begin() == size()");
    vc_assert(v.nth(i) == v.begin() + i && c.nth(i) == c.begin() + i, "[iter] nth()");
    vc_assert(v.index_of(v.begin() + i) == i, "[iter] index_of()");
    vc_assert((v.begin() + j) - (v.begin() + i) == std::ptrdiff_t(j - i), "[iter] difference");
    vc_assert((v.begin() + j) - std::ptrdiff_t(j - i) == v.begin() + i, "[iter] subtraction");
    vc_assert(((v.begin() + i) < (v.begin() + j)) == (i < j) && ((v.begin() + i) <= (v.begin() + j)), "[iter] order");
    vc_assert(((v.begin() + j) > (v.begin() + i)) == (i < j) && ((v.begin() + i) >= (v.begin() + j)) == (i == j), "[iter] order");
    vc_assert(((v.begin() + i) == (v.begin() + j)) == (i == j) && ((v.begin() + i) != (v.begin() + j)) == (i != j), "[iter] equality");
    auto it = v.begin() + i; auto cit = c.begin() + i;
    vc_assert(cit == it, "[iter] conversion to const_iterator");
    if (i < o.n)
    {
        vc_assert(&v[i] == o.d + i && &c[i] == o.d + i, "[seq] operator[]");
        vc_assert(&*it == o.d + i && &*cit == o.d + i, "[iter] dereference");
        vc_assert(it.operator->() == o.d + i, "[iter] arrow");
        vc_assert(&v.begin()[i] == o.d + i, "[iter] subscript");
        vc_assert(&*(v.rbegin() + (o.n - 1 - i)) == o.d + i && &*(c.rbegin() + (o.n - 1 - i)) == o.d + i, "[iter] reverse traversal");
        vc_assert(&v.front() == o.d && &c.front() == o.d && &v.back() == o.d + (o.n - 1) && &c.back() == o.d + (o.n - 1), "[seq] front() and back()");
        auto a = it; auto b = a++; ++b; vc_assert(a == b && a - it == 1, "[iter] increment");
        auto d = a--; --d; vc_assert(a == it && d == it, "[iter] decrement");
        a += 1; a -= 1; vc_assert(a == it, "[iter] compound");
    }
    same(v, o); inv(v);
}
VC_FN(h_eq, (V& v, V& a))
{
    Old o = pre(v), p = pre(a);
    vc_begin();
    bool e = (v == a);
    if (e) { vc_assert(o.n == p.n, "[cmp] equal containers have equal sizes"); vc_eq_now(v.data(), o.n * SZ, a.data(), "[cmp] equal containers have equal elements"); }
    else if (o.n == p.n) vc_differ(v.data(), o.n * SZ, a.data(), "[cmp] unequal containers of equal size differ somewhere");
    same(v, o); same(a, p); inv(v); inv(a);
}
VC_FN(h_ne, (V& v, V& a))
{
    Old o = pre(v), p = pre(a);
    vc_begin();
    bool e = !(v != a);
    if (e) { vc_assert(o.n == p.n, "[cmp] equal containers have equal sizes"); vc_eq_now(v.data(), o.n * SZ, a.data(), "[cmp] equal containers have equal elements"); }
    else if (o.n == p.n) vc_differ(v.data(), o.n * SZ, a.data(), "[cmp] unequal containers of equal size differ somewhere");
    same(v, o); same(a, p); inv(v); inv(a);
}
VC_FN(h_lt, (V& v, V& a)) { Old o = pre(v), p = pre(a); vc_begin(); bool r = v < a; vc_lex(v.data(), o.n * SZ, a.data(), p.n * SZ, r, "[cmp] operator< is lexicographic"); same(v, o); same(a, p); inv(v); inv(a); }
VC_FN(h_gt, (V& v, V& a)) { Old o = pre(v), p = pre(a); vc_begin(); bool r = v > a; vc_lex(a.data(), p.n * SZ, v.data(), o.n * SZ, r, "[cmp] operator> is lexicographic"); same(v, o); same(a, p); inv(v); inv(a); }
VC_FN(h_le, (V& v, V& a)) { Old o = pre(v), p = pre(a); vc_begin(); bool r = v <= a; vc_lex(a.data(), p.n * SZ, v.data(), o.n * SZ, !r, "[cmp] operator<= is lexicographic"); same(v, o); same(a, p); inv(v); inv(a); }
VC_FN(h_ge, (V& v, V& a)) { Old o = pre(v), p = pre(a); vc_begin(); bool r = v >= a; vc_lex(v.data(), o.n * SZ, a.data(), p.n * SZ, !r, "[cmp] operator>= is lexicographic"); same(v, o); same(a, p); inv(v); inv(a); }
// ---------------------------------------------------------------- capacity
#if defined(C_VECTOR) || defined(C_SMALL)
VC_FN(h_reserve, (V& v, sz n))
{
    Old o = pre(v); vc_begin();
    try { v.reserve(n); same(v, o); vc_assert(v.capacity() >= n, "[cap] reserve provides the capacity"); vc_assert(v.capacity() >= o.c, "[cap] reserve never shrinks");
        if (n <= o.c) vc_assert(v.data() == o.d && vc_allocs() == 0, "[cap] reserve within capacity does nothing"); }
    catch (...) { same(v, o); vc_assert(v.data() == o.d && v.capacity() == o.c, "[strong] failed reserve has no effect");
        if (vc_exc_kind() == 2) vc_assert(n > v.max_size(), "[cap] length_error only beyond max_size()"); }
    keep_alloc(v, o); inv(v);
}
VC_FN(h_shrink, (V& v))
{
    Old o = pre(v); vc_begin();
    try { v.shrink_to_fit(); same(v, o); 
#if defined(C_SMALL)
        if (o.n <= NN) vc_assert(v.capacity() == (o.c < NN ? o.c : NN), "[cap] shrink_to_fit returns to the embedded storage"); else
#endif
        vc_assert(v.capacity() == o.n, "[cap] shrink_to_fit releases the unused capacity"); }
    catch (...) { same(v, o); vc_assert(v.data() == o.d && v.capacity() == o.c, "[strong] failed shrink_to_fit has no effect"); vc_assert(vc_exc_kind() == 1, "[cap] no length_error"); }
    keep_alloc(v, o); inv(v);
}
#endif
#if defined(C_DEVECTOR)
VC_FN(h_reserve_front, (V& v, sz n))
{
    Old o = pre(v); vc_begin();
    try { v.reserve_front(n); same(v, o); vc_assert(v.size() + v.available_front() >= n, "[cap] reserve_front provides the capacity"); vc_assert(v.capacity() >= o.c, "[cap] reserve_front never shrinks");
        if (n <= o.n + o.fg) vc_assert(v.data() == o.d && vc_allocs() == 0, "[cap] reserve_front within capacity does nothing"); }
    catch (...) { same(v, o); vc_assert(v.data() == o.d && v.capacity() == o.c, "[strong] failed reserve_front has no effect");
        if (vc_exc_kind() == 2) vc_assert(n > v.max_size() - o.bg, "[cap] length_error only beyond max_size()"); }
    keep_alloc(v, o); inv(v);
}
VC_FN(h_reserve_back, (V& v, sz n))
{
    Old o = pre(v); vc_begin();
    try { v.reserve_back(n); same(v, o); vc_assert(v.size() + v.available_back() >= n, "[cap] reserve_back provides the capacity"); vc_assert(v.capacity() >= o.c, "[cap] reserve_back never shrinks");
        if (n <= o.n + o.bg) vc_assert(v.data() == o.d && vc_allocs() == 0, "[cap] reserve_back within capacity does nothing"); }
    catch (...) { same(v, o); vc_assert(v.data() == o.d && v.capacity() == o.c, "[strong] failed reserve_back has no effect");
        if (vc_exc_kind() == 2) vc_assert(n > v.max_size() - o.fg, "[cap] length_error only beyond max_size()"); }
    keep_alloc(v, o); inv(v);
}
VC_FN(h_shrink, (V& v))
{
    Old o = pre(v); vc_begin();
    try { v.shrink_to_fit(); same(v, o); vc_assert(v.capacity() == o.n, "[cap] shrink_to_fit releases the unused capacity"); }
    catch (...) { same(v, o); vc_assert(v.data() == o.d && v.capacity() == o.c, "[strong] failed shrink_to_fit has no effect"); vc_assert(vc_exc_kind() == 1, "[cap] no length_error"); }
    keep_alloc(v, o); inv(v);
}
#endif
// ---------------------------------------------------------------- modifiers
VC_FN(h_clear, (V& v))
{
    Old o = pre(v); vc_begin();
    v.clear(); vc_assert(v.size() == 0, "[seq] clear removes everything"); vc_assert(vc_allocs() == 0, "[cap] no allocation");
    keep_alloc(v, o); inv(v);
}
VC_FN(h_insert_copy, (V& v, sz pos, const Val& x))
{
    Old o = pre(v); vc_arg(&x, SZ); vc_assume(pos <= o.n); NEED(o.n < NN); vc_begin();
    try { auto it = v.insert(v.cbegin() + pos, x); vc_assert(sz(it - v.begin()) == pos, "[seq] returned iterator designates the inserted element");
        inserted(v, o, pos, 1); vc_eq_one(v.data() + pos, SZ, &x, "[seq] inserted value"); inplace(v, o, 1); }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_insert_move, (V& v, sz pos, Val&& x))
{
    Old o = pre(v); vc_arg(&x, SZ); vc_assume(pos <= o.n); NEED(o.n < NN); vc_begin();
    try { auto it = v.insert(v.cbegin() + pos, std::move(x)); vc_assert(sz(it - v.begin()) == pos, "[seq] returned iterator designates the inserted element");
        vc_assert(v.size() == o.n + 1, "[seq] size grows by the number inserted"); vc_eq_one(v.data() + pos, SZ, &x, "[seq] inserted value");
        if (!(o.d <= &x && &x < o.d + o.n)) inserted(v, o, pos, 1); inplace(v, o, 1); }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_emplace, (V& v, sz pos, int a))
{
    Old o = pre(v); vc_assume(pos <= o.n); NEED(o.n < NN); vc_begin();
    try { auto it = v.emplace(v.cbegin() + pos, a); vc_assert(sz(it - v.begin()) == pos, "[seq] returned iterator designates the inserted element");
        inserted(v, o, pos, 1); vc_eq_int(v.data() + pos, a, "[seq] inserted value"); inplace(v, o, 1); }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_emplace_copy, (V& v, sz pos, const Val& x))
{
    Old o = pre(v); vc_arg(&x, SZ); vc_assume(pos <= o.n); NEED(o.n < NN); vc_begin();
    try { auto it = v.emplace(v.cbegin() + pos, x); vc_assert(sz(it - v.begin()) == pos, "[seq] returned iterator designates the inserted element");
        inserted(v, o, pos, 1); vc_eq_one(v.data() + pos, SZ, &x, "[seq] inserted value"); inplace(v, o, 1); }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_insert_n, (V& v, sz pos, sz n, const Val& x))
{
    Old o = pre(v); vc_arg(&x, SZ); vc_assume(pos <= o.n); NEED(n <= NN - o.n); vc_begin();
    try { auto it = v.insert(v.cbegin() + pos, n, x); vc_assert(sz(it - v.begin()) == pos, "[seq] returned iterator designates the first inserted element");
        inserted(v, o, pos, n); vc_eq_one(v.data() + pos, n * SZ, &x, "[seq] inserted values"); inplace(v, o, n); }
    catch (...) { failed(v, o, n); }
    inv(v);
}
VC_FN(h_insert_range, (V& v, sz pos, Rng r))
{
    Old o = pre(v); range_arg(r); vc_assume(pos <= o.n); NEED(r.n <= NN - o.n); vc_begin();
    try { auto it = v.insert(v.cbegin() + pos, r.p, r.p + r.n); vc_assert(sz(it - v.begin()) == pos, "[seq] returned iterator designates the first inserted element");
        inserted(v, o, pos, r.n); vc_eq_old(v.data() + pos, r.n * SZ, r.p, "[seq] inserted values"); inplace(v, o, r.n); }
    catch (...) { failed(v, o, r.n); }
    inv(v);
}
VC_FN(h_insert_ilist, (V& v, sz pos, Rng r))
{
    Old o = pre(v); range_arg(r); vc_assume(pos <= o.n); NEED(r.n <= NN - o.n); vc_begin();
    try { auto it = v.insert(v.cbegin() + pos, ilist_of(r)); vc_assert(sz(it - v.begin()) == pos, "[seq] returned iterator designates the first inserted element");
        inserted(v, o, pos, r.n); vc_eq_old(v.data() + pos, r.n * SZ, r.p, "[seq] inserted values"); inplace(v, o, r.n); }
    catch (...) { failed(v, o, r.n); }
    inv(v);
}
VC_FN(h_push_back_copy, (V& v, const Val& x))
{
    Old o = pre(v); vc_arg(&x, SZ); NEED(o.n < NN); vc_begin();
    try { v.push_back(x); inserted(v, o, o.n, 1); vc_eq_one(v.data() + o.n, SZ, &x, "[seq] appended value"); inplace(v, o, 1); }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_push_back_move, (V& v, Val&& x))
{
    Old o = pre(v); vc_arg(&x, SZ); NEED(o.n < NN); vc_assume(!(o.d <= &x && &x < o.d + o.n)); vc_begin();
    try { v.push_back(std::move(x)); inserted(v, o, o.n, 1); vc_eq_one(v.data() + o.n, SZ, &x, "[seq] appended value"); inplace(v, o, 1); }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_emplace_back, (V& v, const Val& x))
{
    Old o = pre(v); vc_arg(&x, SZ); NEED(o.n < NN); vc_begin();
    try { Val& r = v.emplace_back(x); vc_assert(&r == v.data() + o.n, "[seq] returned reference designates the appended element");
        inserted(v, o, o.n, 1); vc_eq_one(v.data() + o.n, SZ, &x, "[seq] appended value"); inplace(v, o, 1); }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_pop_back, (V& v))
{
    Old o = pre(v); vc_assume(o.n > 0); vc_begin();
    try { v.pop_back(); vc_assert(v.size() == o.n - 1, "[seq] pop_back removes one"); vc_eq_old(v.data(), (o.n - 1) * SZ, o.d, "[seq] elements kept by pop_back"); }
    catch (...) { failed(v, o, 0); }
    inv(v);
}
VC_FN(h_erase, (V& v, sz pos))
{
    Old o = pre(v); vc_assume(pos < o.n); vc_begin();
    try { auto it = v.erase(v.cbegin() + pos); vc_assert(sz(it - v.begin()) == pos, "[seq] returned iterator follows the erased element"); vc_assert(v.size() == o.n - 1, "[seq] erase removes one");
        vc_eq_old(v.data(), pos * SZ, o.d, "[seq] elements before the position"); vc_eq_old(v.data() + pos, (o.n - pos - 1) * SZ, o.d + pos + 1, "[seq] elements after the position"); keep_alloc(v, o);
#if !defined(C_COMPACT)
        vc_assert(vc_allocs() == 0 && v.capacity() == o.c, "[cap] erasing never allocates");
#endif
    }
    catch (...) { failed(v, o, 0); }
    inv(v);
}
VC_FN(h_erase_range, (V& v, sz i, sz j))
{
    Old o = pre(v); vc_assume(i <= j && j <= o.n); vc_begin();
    try { auto it = v.erase(v.cbegin() + i, v.cbegin() + j); vc_assert(sz(it - v.begin()) == i, "[seq] returned iterator follows the erased elements"); vc_assert(v.size() == o.n - (j - i), "[seq] erase removes the range");
        vc_eq_old(v.data(), i * SZ, o.d, "[seq] elements before the position"); vc_eq_old(v.data() + i, (o.n - j) * SZ, o.d + j, "[seq] elements after the position"); keep_alloc(v, o);
#if !defined(C_COMPACT)
        vc_assert(vc_allocs() == 0 && v.capacity() == o.c, "[cap] erasing never allocates");
#endif
    }
    catch (...) { failed(v, o, 0); }
    inv(v);
}
static inline void resized(const V& v, const Old& o, sz n) { vc_assert(v.size() == n, "[seq] resize sets the size"); keep_alloc(v, o); if (n >= o.n) inplace(v, o, n - o.n); }
#if !defined(C_DEVECTOR)
VC_FN(h_resize, (V& v, sz n))
{
    Old o = pre(v); NEED(n <= NN); vc_begin();
    try { v.resize(n); resized(v, o, n); vc_eq_old(v.data(), (n < o.n ? n : o.n) * SZ, o.d, "[seq] kept elements"); if (n > o.n) vc_eq_def(v.data() + o.n, (n - o.n) * SZ, "[seq] added elements"); }
    catch (...) { failed(v, o, n - o.n); vc_assert(vc_exc_kind() == 1 || n > o.n, "[cap] shrinking never fails with length_error"); }
    inv(v);
}
VC_FN(h_resize_value, (V& v, sz n, const Val& x))
{
    Old o = pre(v); vc_arg(&x, SZ); NEED(n <= NN); vc_begin();
    try { v.resize(n, x); resized(v, o, n); vc_eq_old(v.data(), (n < o.n ? n : o.n) * SZ, o.d, "[seq] kept elements"); if (n > o.n) vc_eq_one(v.data() + o.n, (n - o.n) * SZ, &x, "[seq] added elements"); }
    catch (...) { failed(v, o, n - o.n); vc_assert(vc_exc_kind() == 1 || n > o.n, "[cap] shrinking never fails with length_error"); }
    inv(v);
}
#else
#include "seq_devector.inc"
#endif
#ifndef VC_PROVE
#include "seq_bulk.inc"
#endif
