// Contracts of the segmented containers (-DC_SVEC / -DC_SDEV, segments of NN elements), stated against the sequence of values.
// Executed natively: bounded. Histories of operations are explored as well as single operations in prepared states.
#include "vc.hpp"
#include <iterator>
#include <initializer_list>
#include <string>
#ifndef NN
#define NN 3
#endif
#if defined(C_SVEC)
#include "sfl/segmented_vector.hpp"
using V = sfl::segmented_vector<Val, NN, Al<Val>>;
#else
#include "sfl/segmented_devector.hpp"
using V = sfl::segmented_devector<Val, NN, Al<Val>>;
#endif
using sz = std::size_t;
static const sz SZ = sizeof(Val);
using Vals = std::vector<int>;
using Adr = std::vector<const Val*>;
#ifndef VC_PROVE
static inline int alid(const V& v) { return v.get_allocator().id; }
#if defined(C_SVEC)
static inline sz fgap(const V&) { return 0; }
static inline sz bgap(const V& v) { return v.available(); }
static inline sz segs(const V& v) { return (v.capacity() + 1) / NN; }
#else
static inline sz fgap(const V& v) { return v.available_front(); }
static inline sz bgap(const V& v) { return v.available_back(); }
static inline sz segs(const V& v) { return (v.capacity() + 1) / NN; }
#endif
struct Old { Adr d; Vals e; sz n, c, fg, bg; int id; };
struct Rng { const Val* p; sz n; };
static Vals rvals(const Rng& r, bool old = true) { Vals x; for (sz i = 0; i < r.n; ++i) x.push_back(old ? vcn::oldat(r.p + i) : vcn::valat(r.p + i)); return x; }
static Adr addr(const V& v)
{
    Adr a;
    if (v.size() > 1000) vcn::fail("post", "[shape] size is reasonable");
    auto it = v.begin();
    for (sz i = 0; i < v.size(); ++i, ++it) a.push_back(&*it);
    return a;
}
static Vals now(const V& v) { Vals r; for (auto p : addr(v)) r.push_back(vcn::valat(p)); return r; }
static int spans(const V& v)      // all elements lie in storage owned by this container's allocator
{
    for (auto p : addr(v))
    {
        auto it = vcn::g().blocks.upper_bound(reinterpret_cast<const char*>(p));
        if (it == vcn::g().blocks.begin()) vcn::fail("memory", "element outside allocated storage");
        --it;
        const char* q = reinterpret_cast<const char*>(p);
        if (q < it->first || q + SZ > it->first + it->second.n * it->second.sz || it->second.n != NN || it->second.sz != SZ) vcn::fail("memory", "element outside allocated storage");
        if (it->second.id != alid(v)) vcn::fail("storage", "container allocator differs from the one owning its storage");
    }
    return 0;
}
static void shape(const V& v)
{
    vc_assert(v.size() <= v.capacity(), "[shape] size() <= capacity()");
    vc_assert(v.capacity() <= v.max_size() || v.capacity() - v.max_size() <= NN, "[cap] capacity() exceeds max_size() at most by the last segment");
    vc_assert(fgap(v) + v.size() + bgap(v) == v.capacity(), "[cap] available storage");
    vc_assert((v.capacity() + 1) % NN == 0 && v.capacity() + 1 >= NN, "[cap] capacity is whole segments");
    vc_assert(v.empty() == (v.size() == 0), "[shape] empty()");
    spans(v);
    Adr a = addr(v); for (auto p : a) vcn::valof(p, "contained element");
    for (sz i = 0; i < a.size(); ++i) for (sz j = 0; j < i; ++j) vc_assert(a[i] != a[j], "[shape] elements are distinct objects");
}
static Old pre(V& v) { shape(v); Adr a = addr(v); Vals e; for (auto p : a) e.push_back(vcn::valat(p)); return Old{a, e, v.size(), v.capacity(), fgap(v), bgap(v), alid(v)}; }
static void inv(const V& v)
{
    shape(v);
    for (auto p : addr(v)) vc_own(p, SZ);
    sz k = 0;      // segments and table
    for (sz i = 0; i < segs(v) + 1; ++i) vcn::g().own_blocks.push_back(&v), ++k;
}
static void invl(const V& v) { shape(v); }
static void holds(const V& v, const Vals& e, const char* l) { vc_assert(now(v) == e, l); }
static void same(const V& v, const Old& o) { vc_assert(v.size() == o.n, "[seq] size unchanged"); holds(v, o.e, "[seq] values unchanged"); }
static void stay(const V& v, const Old& o, const char* l) { vc_assert(addr(v) == o.d, l); }
static void keep_alloc(const V& v, const Old& o) { vc_assert(alid(v) == o.id, "[alloc] allocator unchanged"); }
static void no_alloc(bool c) { if (c) vc_assert(vc_allocs() == 0, "[cap] no allocation while capacity suffices"); }
static void failed(const V& v, const Old& o, sz extra)
{
    int k = vc_exc_kind();
    vc_assert(k == 1 || k == 2, "[seq] only failures of elements, allocator or size limit are reported");
    // whole segments are added, so that the last few positions below max_size() may not be reachable
    if (k == 2) vc_assert(extra > v.max_size() - std::min(v.max_size(), o.c), "[cap] length_error only beyond max_size()");
    keep_alloc(v, o);
}
static Vals ins(Vals e, sz pos, const Vals& x) { e.insert(e.begin() + pos, x.begin(), x.end()); return e; }
static Vals del(Vals e, sz i, sz j) { e.erase(e.begin() + i, e.begin() + j); return e; }
static bool inside(const Old& o, const Val* x) { for (auto p : o.d) if (p == x) return true; return false; }
struct InIt
{
    using iterator_category = std::input_iterator_tag; using value_type = Val; using difference_type = std::ptrdiff_t; using pointer = const Val*; using reference = const Val&;
    const Val* p;
    reference operator*() const { return *p; }
    InIt& operator++() { ++p; return *this; }
    InIt operator++(int) { InIt r = *this; ++p; return r; }
    friend bool operator==(const InIt& a, const InIt& b) { return a.p == b.p; }
    friend bool operator!=(const InIt& a, const InIt& b) { return a.p != b.p; }
};
// ---------------------------------------------------------------- states and arguments
static V* build(int which, int id)
{
    using namespace vcn;
    nelems() = 3;
    int n = choose(2 * NN + 3);
    V* v = make<V>(Al<Val>(id));
    int shape = 0, base = which * 30, drop = 0;
#if defined(C_SVEC)
    shape = choose(4);
    if (shape == 1) v->reserve(n + 1);
    if (shape == 2) v->reserve(n + NN);
    if (shape == 3) v->reserve(8 * NN - 1);          // segment table full
#else
    shape = choose(7);
    if (shape == 1) v->reserve_back(n + NN);
    if (shape == 2) v->reserve_front(n + NN);
    if (shape == 3) { v->reserve_front(n + 1); v->reserve_back(n + 1); }
    if (shape == 4) { v->reserve_back(8 * NN - 1); }
    if (shape == 5) { v->reserve_front(8 * NN - 1); }
    if (shape == 6) { v->reserve_front(3 * NN); v->reserve_back(3 * NN); }
    int fr = n ? choose(std::min(n, NN) + 1) : 0;    // so many elements are prepended
    drop = choose(2) * (1 + choose(NN));             // a gap at the front by removing elements
#endif
    for (int i = 0; i < drop; ++i) v->emplace_back(900 + i);
#if defined(C_SDEV)
    for (int i = fr; i < n; ++i) v->emplace_back((i + base) * 10 + 5 + which);
    for (int i = 0; i < drop; ++i) v->pop_front();
    for (int i = fr; i-- > 0;) v->emplace_front((i + base) * 10 + 5 + which);
    g().desc += " [front=" + std::to_string(fr) + ",dropped=" + std::to_string(drop);
#else
    for (int i = 0; i < n; ++i) v->emplace_back((i + base) * 10 + 5 + which);
    g().desc += " [";
#endif
    Vals want; for (int i = 0; i < n; ++i) want.push_back((i + base) * 10 + 5 + which);
    holds(*v, want, "[seq] building a container");
    for (auto p : addr(*v)) aliasable().push_back(p);
    g().desc += "n=" + std::to_string(n) + ",cap=" + std::to_string(v->capacity()) + ",shape=" + std::to_string(shape) + ",alloc=" + std::to_string(id) + "]";
    return v;
}
struct Pos { sz i; };      // a position or count of moderate size
namespace vcn {
template <> struct Gen<V&> { static V& get() { bool first = owned().empty(); static const int ids[] = {0, 1, 100};
  int id = first ? choose(2) * 100 : ids[choose(3)];
  try { return *build(first ? 0 : 1, id); } catch (std::length_error&) { throw Skip(); } } };
template <> struct Gen<Pos> { static Pos get() { int k = choose(3 * NN + 4); g().desc += " " + std::to_string(k); return Pos{sz(k)}; } };
template <> struct Gen<Rng> { static Rng get()
{ int n = choose(2 * NN + 2); g().desc += " range(" + std::to_string(n) + ")"; Val* m = static_cast<Val*>(std::malloc((n + 1) * sizeof(Val)));
  for (int i = 0; i < n; ++i) { ::new (m + i) Val(500 + 10 * i); g().ext.push_back(m + i); }
  struct H { Val* m; int n; ~H() { for (int i = 0; i < n; ++i) m[i].~Val(); std::free(m); } };
  vcn::make<H>(H{nullptr, 0}); H* h = static_cast<H*>(owned().back().first); h->m = m; h->n = n; return Rng{m, sz(n)}; } };
}
static bool lenerr(sz n, int id) { return vc_exc_kind() == 1 || n + 2 * NN > vc_limit(id); }
// ---------------------------------------------------------------- construction
VC_FN(h_ctor_default, (int id)) { vc_begin(); try { V v{Al<Val>(id)}; vc_assert(v.size() == 0, "[seq] empty"); vc_assert(alid(v) == id, "[alloc] given allocator"); invl(v); } catch (...) { vc_assert(vc_exc_kind() == 1, "[exc] only allocation failures"); } }
VC_FN(h_ctor_n, (Pos n, int id)) { vc_begin(); try { V v(n.i, Al<Val>(id)); holds(v, Vals(n.i, 0), "[seq] default elements"); vc_assert(alid(v) == id, "[alloc] given allocator"); invl(v); } catch (...) { vc_assert(lenerr(n.i, id), "[cap] length_error only beyond max_size()"); } }
VC_FN(h_ctor_huge, (sz n, bool val))
{ vc_assume(n > 1000); vc_begin(); try { if (val) { V v(n, Val(3)); } else { V v(n); } vc_unreachable("[cap] length_error beyond max_size()"); } catch (...) { vc_assert(vc_exc_kind() <= 2, "[cap] length_error beyond max_size()"); } }
VC_FN(h_ctor_n_value, (Pos n, const Val& x, int id)) { vc_begin(); try { V v(n.i, x, Al<Val>(id)); holds(v, Vals(n.i, vcn::oldat(&x)), "[seq] copies of value"); invl(v); } catch (...) { vc_assert(lenerr(n.i, id), "[cap] length_error only beyond max_size()"); } }
VC_FN(h_ctor_range, (Rng r, int id, bool in))
{
    vc_begin();
    try { if (in) { V v(InIt{r.p}, InIt{r.p + r.n}, Al<Val>(id)); holds(v, rvals(r), "[seq] copies of range"); invl(v); } else { V v(r.p, r.p + r.n, Al<Val>(id)); holds(v, rvals(r), "[seq] copies of range"); invl(v); } }
    catch (...) { vc_assert(lenerr(r.n, id), "[cap] length_error only beyond max_size()"); }
}
VC_FN(h_ctor_ilist, (int id)) { vc_begin(); try { V v({Val(4), Val(5), Val(6), Val(7)}, Al<Val>(id)); holds(v, Vals{4, 5, 6, 7}, "[seq] copies of list"); invl(v); } catch (...) { vc_assert(vc_exc_kind() == 1, "[exc] only failures of elements or allocation"); } }
VC_FN(h_ctor_copy, (V& a))
{
    Old o = pre(a); vc_begin();
    try { V v(a); same(v, o); same(a, o); invl(v); vc_assert(alid(v) == int(unsigned(o.id) + 1u), "[alloc] select_on_container_copy_construction"); }
    catch (...) { vc_assert(lenerr(o.n, o.id + 1), "[cap] length_error only beyond max_size()"); same(a, o); }
    stay(a, o, "[seq] source keeps its elements"); keep_alloc(a, o); inv(a);
}
VC_FN(h_ctor_move, (V& a))
{
    Old o = pre(a); vc_begin();
    try { V v(std::move(a)); same(v, o); stay(v, o, "[alloc] storage transferred, elements untouched"); invl(v); vc_assert(alid(v) == o.id, "[alloc] allocator moved"); }
    catch (...) { vc_assert(vc_exc_kind() == 1, "[exc] only allocation failures"); same(a, o); }
    inv(a);
}
VC_FN(h_ctor_copy_alloc, (V& a, int id))
{
    Old o = pre(a); vc_begin();
    try { V v(a, Al<Val>(id)); same(v, o); same(a, o); invl(v); vc_assert(alid(v) == id, "[alloc] given allocator"); }
    catch (...) { vc_assert(lenerr(o.n, id), "[cap] length_error only beyond max_size()"); same(a, o); }
    stay(a, o, "[seq] source keeps its elements"); keep_alloc(a, o); inv(a);
}
VC_FN(h_ctor_move_alloc, (V& a, int id))
{
    Old o = pre(a); vc_begin();
    try { V v(std::move(a), Al<Val>(id)); same(v, o); invl(v); vc_assert(alid(v) == id, "[alloc] given allocator"); if (id == o.id) stay(v, o, "[alloc] storage transferred between equal allocators"); }
    catch (...) { vc_assert(lenerr(o.n, id), "[cap] length_error only beyond max_size()"); }
    inv(a);
}
VC_FN(h_dtor, (V& a)) { pre(a); vc_begin(); a.~V(); vc_assert(vc_allocs() == 0, "[cap] no allocation"); vc_assert(vcn::g().blocks.empty(), "[exc] destruction releases all storage"); vcn::g().started = false; ::new (&a) V(); inv(a); }
// ---------------------------------------------------------------- assignment
VC_FN(h_assign_n, (V& v, Pos n, const Val& x))
{
    Old o = pre(v); vc_assume(!inside(o, &x)); vc_begin();
    try { v.assign(n.i, x); holds(v, Vals(n.i, vcn::oldat(&x)), "[seq] copies of value"); keep_alloc(v, o); no_alloc(n.i <= o.n + o.bg); } catch (...) { failed(v, o, n.i); }
    inv(v);
}
VC_FN(h_assign_range, (V& v, Rng r, int how))
{
    Old o = pre(v); vc_begin();
    try { if (how == 0) v.assign(r.p, r.p + r.n); else if (how == 1) v.assign(InIt{r.p}, InIt{r.p + r.n}); else { vc_assume(r.n == 2); if (v.size() & 1) v = {r.p[0], r.p[1]}; else v.assign({r.p[0], r.p[1]}); }
        holds(v, rvals(r), "[seq] copies of range"); keep_alloc(v, o); no_alloc(r.n <= o.n + o.bg); } catch (...) { failed(v, o, r.n); }
    inv(v);
}
VC_FN(h_copy_assign, (V& v, V& a))
{
    Old o = pre(v), p = pre(a); vc_begin();
    try { V& r = (v = a); vc_assert(&r == &v, "[seq] returns *this"); same(v, p); vc_assert(alid(v) == ((ALP & 1) ? p.id : o.id), "[alloc] allocator propagation on copy assignment"); }
    catch (...) { vc_assert(vc_exc_kind() == 1 || p.n + 2 * NN > v.max_size(), "[cap] length_error only beyond max_size()"); }
    same(a, p); stay(a, p, "[seq] source keeps its elements"); keep_alloc(a, p); inv(v); inv(a);
}
VC_FN(h_move_assign, (V& v, V& a))
{
    Old o = pre(v), p = pre(a); vc_begin();
    try { V& r = (v = std::move(a)); vc_assert(&r == &v, "[seq] returns *this"); same(v, p); vc_assert(alid(v) == (((ALP >> 1) & 1) ? p.id : o.id), "[alloc] allocator propagation on move assignment");
        if (p.id == o.id) stay(v, p, "[alloc] storage transferred, elements untouched"); }
    catch (...) { vc_assert(vc_exc_kind() == 1 || p.n + 2 * NN > v.max_size(), "[cap] length_error only beyond max_size()"); }
    inv(v); inv(a);
}
VC_FN(h_copy_assign_self, (V& v)) { Old o = pre(v); vc_begin(); try { V& a = v; v = a; same(v, o); } catch (...) {} keep_alloc(v, o); inv(v); }
VC_FN(h_swap, (V& v, V& a))
{
    Old o = pre(v), p = pre(a); vc_assume(((ALP >> 2) & 1) || o.id == p.id); vc_begin();
    try { v.swap(a); same(v, p); same(a, o); stay(v, p, "[alloc] swap exchanges storage"); stay(a, o, "[alloc] swap exchanges storage"); vc_assert(v.capacity() == p.c && a.capacity() == o.c, "[cap] swap exchanges capacities"); vc_assert(vc_allocs() == 0, "[alloc] swap does not allocate");
        vc_assert(alid(v) == (((ALP >> 2) & 1) ? p.id : o.id) && alid(a) == (((ALP >> 2) & 1) ? o.id : p.id), "[alloc] allocator propagation on swap"); }
    catch (...) { vc_unreachable("[exc] swapping storage does not throw"); }
    inv(v); inv(a);
}
VC_FN(h_swap_self, (V& v)) { Old o = pre(v); vc_begin(); v.swap(v); same(v, o); stay(v, o, "[seq] self swap keeps the elements"); keep_alloc(v, o); inv(v); }
// ---------------------------------------------------------------- observers
VC_FN(h_at, (V& v, Pos q, bool huge))
{
    Old o = pre(v); vc_begin(); sz i = huge ? sz(-1) - q.i : q.i;
    try { Val& e = v.at(i); vc_assert(i < o.n, "[bounds] at() accepts only valid positions"); vc_assert(&e == o.d[i], "[bounds] at() designates the element"); }
    catch (...) { vc_assert(vc_exc_kind() == 3, "[bounds] out_of_range"); vc_assert(i >= o.n, "[bounds] at() throws only for invalid positions"); }
    try { const V& c = v; const Val& e = c.at(i); vc_assert(i < o.n, "[bounds] const at() accepts only valid positions"); vc_assert(&e == o.d[i], "[bounds] const at() designates the element"); }
    catch (...) { vc_assert(vc_exc_kind() == 3, "[bounds] const out_of_range"); vc_assert(i >= o.n, "[bounds] const at() throws only for invalid positions"); }
    same(v, o); stay(v, o, "[seq] observing moves nothing"); inv(v);
}
template <class C> static void walk(C& c, const Old& o, sz i, sz j)
{
    auto b = c.begin(), e = c.end();
    vc_assert(sz(e - b) == o.n, "[iter] end() - begin() == size()");
    vc_assert(c.nth(i) == b + i && c.nth(j) - c.nth(i) == std::ptrdiff_t(j - i), "[iter] nth()");
    vc_assert(c.index_of(b + i) == i, "[iter] index_of()");
    vc_assert((b + j) - (b + i) == std::ptrdiff_t(j) - std::ptrdiff_t(i), "[iter] difference");
    vc_assert((b + i) - (b + j) == std::ptrdiff_t(i) - std::ptrdiff_t(j), "[iter] difference");
    vc_assert((b + j) - std::ptrdiff_t(j - i) == b + i && (b + i) + std::ptrdiff_t(j - i) == b + j && std::ptrdiff_t(j - i) + (b + i) == b + j, "[iter] addition and subtraction");
    vc_assert(((b + i) < (b + j)) == (i < j) && ((b + i) <= (b + j)) == (i <= j), "[iter] order");
    vc_assert(((b + j) > (b + i)) == (i < j) && ((b + i) >= (b + j)) == (i == j), "[iter] order");
    vc_assert(((b + i) == (b + j)) == (i == j) && ((b + i) != (b + j)) == (i != j), "[iter] equality");
    auto x = b + i; for (sz k = i; k < j; ++k) { vc_assert(&*x == o.d[k], "[iter] incremented iterator designates the next element"); ++x; } vc_assert(x == b + j, "[iter] increments reach the position");
    auto y = b + j; for (sz k = j; k-- > i;) { --y; vc_assert(&*y == o.d[k], "[iter] decremented iterator designates the previous element"); } vc_assert(y == b + i, "[iter] decrements reach the position");
    x = b + i; x += std::ptrdiff_t(j - i); vc_assert(x == b + j, "[iter] compound"); x -= std::ptrdiff_t(j - i); vc_assert(x == b + i, "[iter] compound");
    if (i < o.n)
    {
        vc_assert(&*(b + i) == o.d[i] && (b + i).operator->() == o.d[i] && &b[i] == o.d[i] && &c[i] == o.d[i], "[iter] dereference and subscript");
        vc_assert(&*(e - (o.n - i)) == o.d[i] && &e[-std::ptrdiff_t(o.n - i)] == o.d[i], "[iter] backwards from the end");
        vc_assert(&*(c.rbegin() + (o.n - 1 - i)) == o.d[i], "[iter] reverse traversal");
        auto p = b + i; auto q = p++; vc_assert(&*q == o.d[i] && p - q == 1, "[iter] post-increment"); auto r = p--; vc_assert(r - p == 1 && p == q, "[iter] post-decrement");
        vc_assert(&c.front() == o.d[0] && &c.back() == o.d[o.n - 1], "[seq] front() and back()");
    }
}
VC_FN(h_observe, (V& v, Pos i, Pos j))
{
    Old o = pre(v); vc_assume(i.i <= j.i && j.i <= o.n); vc_begin();
    const V& c = v;
    walk(v, o, i.i, j.i); walk(c, o, i.i, j.i);
    vc_assert(c.begin() + i.i == v.begin() + i.i && v.cbegin() == c.begin() && v.cend() == c.end(), "[iter] conversion to const_iterator");
    sz k = 0; for (auto it = v.rbegin(); it != v.rend(); ++it, ++k) vc_assert(&*it == o.d[o.n - 1 - k], "[iter] reverse traversal");
    vc_assert(k == o.n, "[iter] reverse traversal");
    same(v, o); stay(v, o, "[seq] observing moves nothing"); inv(v);
}
VC_FN(h_cmp, (V& v, V& a, bool copy))
{
    Old o = pre(v); vcn::g().started = false;
    // compare with another container, or with a copy that differs at one position or in length
    if (copy)
    {
        a.clear(); try { for (int x : o.e) a.emplace_back(x); } catch (std::length_error&) { throw vcn::Skip(); }
        int k = vcn::choose(int(o.n) + 2);
        if (k < int(o.n)) { int y = o.e[k] + 10; a[k] = Val(y); } else if (k == int(o.n) + 1 && o.n) a.pop_back();
    }
    Old p = pre(a); vc_begin();
    auto rk = [](Vals x) { for (auto& y : x) y = y >= 0 ? y / 10 : y; return x; };
    Vals x = rk(o.e), y = rk(p.e);
    vc_assert((v == a) == (o.e == p.e) && (v != a) == (o.e != p.e), "[cmp] equality");
    vc_assert((v < a) == (x < y) && (a > v) == (x < y), "[cmp] operator< is lexicographic"); vc_assert((v <= a) == !(y < x) && (a >= v) == !(y < x), "[cmp] operator<= is lexicographic");
    same(v, o); same(a, p); inv(v); inv(a);
}
// ---------------------------------------------------------------- capacity
static void reserve_failed(V& v, const Old& o, bool len) { same(v, o); stay(v, o, "[strong] failed reserve leaves the elements alone"); vc_assert(v.capacity() == o.c && fgap(v) == o.fg && bgap(v) == o.bg, "[strong] failed reserve has no effect"); if (vc_exc_kind() == 2) vc_assert(len, "[cap] length_error only beyond max_size()"); }
#if defined(C_SVEC)
VC_FN(h_reserve, (V& v, Pos n, bool huge))
{
    Old o = pre(v); sz m = huge ? sz(-1) - n.i : n.i * (n.i > 2 * NN ? 5 : 1); vc_begin();
    try { v.reserve(m); same(v, o); stay(v, o, "[seq] reserve leaves the elements alone"); vc_assert(v.capacity() >= m, "[cap] reserve provides the capacity"); vc_assert(v.capacity() >= o.c, "[cap] reserve never shrinks"); no_alloc(m <= o.c); }
    catch (...) { reserve_failed(v, o, m + NN > v.max_size() || m > v.max_size()); }
    keep_alloc(v, o); inv(v);
}
#else
VC_FN(h_reserve, (V& v, Pos n, bool huge, bool front))
{
    Old o = pre(v); sz m = huge ? sz(-1) - n.i : n.i * (n.i > 2 * NN ? 5 : 1); vc_begin();
    try { if (front) v.reserve_front(m); else v.reserve_back(m); same(v, o); stay(v, o, "[seq] reserve leaves the elements alone");
        vc_assert(v.size() + (front ? fgap(v) : bgap(v)) >= m, "[cap] reserve provides the capacity"); vc_assert(v.capacity() >= o.c && fgap(v) >= o.fg && bgap(v) >= o.bg, "[cap] reserve never shrinks"); no_alloc(m <= o.n + (front ? o.fg : o.bg)); }
    catch (...) { reserve_failed(v, o, m > v.max_size() || m + NN + (front ? o.bg : o.fg) > v.max_size()); }
    keep_alloc(v, o); inv(v);
}
#endif
VC_FN(h_shrink, (V& v))
{
    Old o = pre(v); vc_begin();
    try { v.shrink_to_fit(); vc_assert(v.capacity() <= o.c, "[cap] shrink_to_fit never grows"); vc_assert(v.capacity() < v.size() + 2 * NN, "[cap] shrink_to_fit releases unused segments"); }
    catch (...) { vc_assert(vc_exc_kind() == 1, "[cap] no length_error"); }
    same(v, o); stay(v, o, "[strong] shrink_to_fit leaves the elements alone"); keep_alloc(v, o); inv(v);
}
// ---------------------------------------------------------------- modifiers
VC_FN(h_clear, (V& v)) { Old o = pre(v); vc_begin(); v.clear(); vc_assert(v.size() == 0, "[seq] clear removes everything"); vc_assert(vc_allocs() == 0 && v.capacity() == o.c, "[cap] clear keeps the storage"); keep_alloc(v, o); inv(v); }
static void put1(V& v, const Old& o, sz pos, int x, sz at, bool)
{
    vc_assert(at == pos, "[seq] returned iterator designates the inserted element");
    holds(v, ins(o.e, pos, Vals{x}), "[seq] exactly the inserted element is added"); keep_alloc(v, o);
#if defined(C_SVEC)
    no_alloc(o.bg >= 1);
#else
    no_alloc(o.bg >= 1 && o.fg >= 1);
#endif
    if (pos == o.n) { Adr a = addr(v); a.pop_back(); vc_assert(a == o.d, "[seq] appending leaves the elements alone"); }
#if defined(C_SDEV)
    if (pos == 0 && o.n) { Adr a = addr(v); a.erase(a.begin()); vc_assert(a == o.d, "[seq] prepending leaves the elements alone"); }
#endif
}
VC_FN(h_insert_copy, (V& v, Pos pos, const Val& x)) { Old o = pre(v); vc_assume(pos.i <= o.n); vc_begin(); try { auto it = v.insert(v.cbegin() + pos.i, x); put1(v, o, pos.i, vcn::oldat(&x), sz(it - v.begin()), true); } catch (...) { failed(v, o, 1); } inv(v); }
VC_FN(h_insert_move, (V& v, Pos pos, Val&& x)) { Old o = pre(v); vc_assume(pos.i <= o.n && !inside(o, &x)); vc_begin(); try { auto it = v.insert(v.cbegin() + pos.i, std::move(x)); put1(v, o, pos.i, vcn::oldat(&x), sz(it - v.begin()), false); } catch (...) { failed(v, o, 1); } inv(v); }
VC_FN(h_emplace, (V& v, Pos pos, int a)) { Old o = pre(v); vc_assume(pos.i <= o.n); vc_begin(); try { auto it = v.emplace(v.cbegin() + pos.i, a); put1(v, o, pos.i, a, sz(it - v.begin()), false); } catch (...) { failed(v, o, 1); } inv(v); }
VC_FN(h_emplace_copy, (V& v, Pos pos, const Val& x)) { Old o = pre(v); vc_assume(pos.i <= o.n); vc_begin(); try { auto it = v.emplace(v.cbegin() + pos.i, x); put1(v, o, pos.i, vcn::oldat(&x), sz(it - v.begin()), true); } catch (...) { failed(v, o, 1); } inv(v); }
VC_FN(h_insert_n, (V& v, Pos pos, Pos n, const Val& x))
{
    Old o = pre(v); vc_assume(pos.i <= o.n); vc_begin();
    try { auto it = v.insert(v.cbegin() + pos.i, n.i, x); vc_assert(sz(it - v.begin()) == pos.i, "[seq] returned iterator designates the first inserted element");
        holds(v, ins(o.e, pos.i, Vals(n.i, vcn::oldat(&x))), "[seq] exactly the inserted elements are added"); keep_alloc(v, o); 
#if defined(C_SVEC)
        no_alloc(o.bg >= n.i);
#else
        no_alloc(o.bg >= n.i && o.fg >= n.i);
#endif
     }
    catch (...) { failed(v, o, n.i); }
    inv(v);
}
VC_FN(h_insert_range, (V& v, Pos pos, Rng r, int how))
{
    Old o = pre(v); vc_assume(pos.i <= o.n); vc_begin();
    try
    {
        typename V::iterator it;
        if (how == 0) it = v.insert(v.cbegin() + pos.i, r.p, r.p + r.n); else if (how == 1) it = v.insert(v.cbegin() + pos.i, InIt{r.p}, InIt{r.p + r.n}); else { vc_assume(r.n == 2); it = v.insert(v.cbegin() + pos.i, {r.p[0], r.p[1]}); }
        vc_assert(sz(it - v.begin()) == pos.i, "[seq] returned iterator designates the first inserted element");
        holds(v, ins(o.e, pos.i, rvals(r)), "[seq] exactly the inserted elements are added"); keep_alloc(v, o);
    }
    catch (...) { failed(v, o, r.n); }
    inv(v);
}
static void one_more(V& v, const Old& o, bool front, int x, bool room)
{
    holds(v, ins(o.e, front ? 0 : o.n, Vals{x}), "[seq] exactly the appended element is added"); keep_alloc(v, o); no_alloc(room);
    Adr a = addr(v); a.erase(front ? a.begin() : a.end() - 1); vc_assert(a == o.d, "[seq] appending leaves the elements alone");
}
VC_FN(h_push_back_copy, (V& v, const Val& x)) { Old o = pre(v); vc_begin(); try { v.push_back(x); one_more(v, o, false, vcn::oldat(&x), o.bg > 0); } catch (...) { failed(v, o, 1); same(v, o); stay(v, o, "[exc] failed append has no effect on the elements"); } inv(v); }
VC_FN(h_push_back_move, (V& v, Val&& x)) { Old o = pre(v); vc_assume(!inside(o, &x)); vc_begin(); try { v.push_back(std::move(x)); one_more(v, o, false, vcn::oldat(&x), o.bg > 0); } catch (...) { failed(v, o, 1); same(v, o); } inv(v); }
VC_FN(h_emplace_back, (V& v, const Val& x)) { Old o = pre(v); vc_begin(); try { Val& r = v.emplace_back(x); vc_assert(&r == &v.back(), "[seq] returned reference designates the appended element"); one_more(v, o, false, vcn::oldat(&x), o.bg > 0); } catch (...) { failed(v, o, 1); same(v, o); } inv(v); }
static void one_less(V& v, const Old& o, bool front) { holds(v, del(o.e, front ? 0 : o.n - 1, front ? 1 : o.n), "[seq] exactly the popped element is removed"); Adr a = o.d; a.erase(front ? a.begin() : a.end() - 1); vc_assert(addr(v) == a, "[seq] popping leaves the elements alone"); vc_assert(vc_allocs() == 0 && v.capacity() == o.c, "[cap] popping keeps the storage"); keep_alloc(v, o); }
VC_FN(h_pop_back, (V& v)) { Old o = pre(v); vc_assume(o.n > 0); vc_begin(); v.pop_back(); one_less(v, o, false); inv(v); }
#if defined(C_SDEV)
VC_FN(h_push_front_copy, (V& v, const Val& x)) { Old o = pre(v); vc_begin(); try { v.push_front(x); one_more(v, o, true, vcn::oldat(&x), o.fg > 0); } catch (...) { failed(v, o, 1); same(v, o); stay(v, o, "[exc] failed append has no effect on the elements"); } inv(v); }
VC_FN(h_push_front_move, (V& v, Val&& x)) { Old o = pre(v); vc_assume(!inside(o, &x)); vc_begin(); try { v.push_front(std::move(x)); one_more(v, o, true, vcn::oldat(&x), o.fg > 0); } catch (...) { failed(v, o, 1); same(v, o); } inv(v); }
VC_FN(h_emplace_front, (V& v, const Val& x)) { Old o = pre(v); vc_begin(); try { Val& r = v.emplace_front(x); vc_assert(&r == &v.front(), "[seq] returned reference designates the prepended element"); one_more(v, o, true, vcn::oldat(&x), o.fg > 0); } catch (...) { failed(v, o, 1); same(v, o); } inv(v); }
VC_FN(h_pop_front, (V& v)) { Old o = pre(v); vc_assume(o.n > 0); vc_begin(); v.pop_front(); one_less(v, o, true); inv(v); }
#endif
VC_FN(h_erase, (V& v, Pos pos))
{
    Old o = pre(v); vc_assume(pos.i < o.n); vc_begin();
    try { auto it = v.erase(v.cbegin() + pos.i); vc_assert(sz(it - v.begin()) == pos.i, "[seq] returned iterator follows the erased element"); holds(v, del(o.e, pos.i, pos.i + 1), "[seq] exactly the designated element is removed"); keep_alloc(v, o); vc_assert(vc_allocs() == 0 && v.capacity() == o.c, "[cap] erasing never allocates"); }
    catch (...) { failed(v, o, 0); }
    inv(v);
}
VC_FN(h_erase_range, (V& v, Pos i, Pos j))
{
    Old o = pre(v); vc_assume(i.i <= j.i && j.i <= o.n); vc_begin();
    try { auto it = v.erase(v.cbegin() + i.i, v.cbegin() + j.i); vc_assert(sz(it - v.begin()) == i.i, "[seq] returned iterator follows the erased elements"); holds(v, del(o.e, i.i, j.i), "[seq] exactly the designated elements are removed"); keep_alloc(v, o); vc_assert(vc_allocs() == 0 && v.capacity() == o.c, "[cap] erasing never allocates"); }
    catch (...) { failed(v, o, 0); }
    inv(v);
}
static Vals sized(const Old& o, sz n, bool front, int x)
{
    Vals e = o.e;
    if (n <= o.n) return front ? Vals(e.end() - n, e.end()) : Vals(e.begin(), e.begin() + n);
    e.insert(front ? e.begin() : e.end(), n - o.n, x); return e;
}
static sz more(const Old& o, sz n) { return n > o.n ? n - o.n : 0; }
#if defined(C_SVEC)
VC_FN(h_resize, (V& v, Pos n)) { Old o = pre(v); vc_begin(); try { v.resize(n.i); holds(v, sized(o, n.i, false, 0), "[seq] resize"); keep_alloc(v, o); no_alloc(n.i <= o.c); } catch (...) { failed(v, o, more(o, n.i)); } inv(v); }
VC_FN(h_resize_value, (V& v, Pos n, const Val& x)) { Old o = pre(v); vc_begin(); try { v.resize(n.i, x); holds(v, sized(o, n.i, false, vcn::oldat(&x)), "[seq] resize"); keep_alloc(v, o); no_alloc(n.i <= o.c); } catch (...) { failed(v, o, more(o, n.i)); } inv(v); }
VC_FN(h_resize_huge, (V& v, sz n, bool val)) { Old o = pre(v); vc_assume(n > 1000); vc_begin(); try { Val x(3); if (val) v.resize(n, x); else v.resize(n); vc_unreachable("[cap] length_error beyond max_size()"); } catch (...) { failed(v, o, more(o, n)); same(v, o); } inv(v); }
#else
// growth may happen on both sides; the old elements stay together at some offset
static void grown(V& v, const Old& o, sz n, int x)
{
    Vals e = now(v); vc_assert(e.size() == n, "[seq] resize sets the size"); keep_alloc(v, o);
    if (n <= o.n) { vc_assert(e == sized(o, n, false, x), "[seq] kept elements"); return; }
    for (sz k = 0; k <= n - o.n; ++k) { Vals w(k, x); w.insert(w.end(), o.e.begin(), o.e.end()); w.resize(n, x); if (w == e) return; }
    vcn::post("[seq] resize keeps the elements and adds the value");
}
VC_FN(h_resize, (V& v, Pos n)) { Old o = pre(v); vc_begin(); try { v.resize(n.i); grown(v, o, n.i, 0); no_alloc(n.i <= o.c); } catch (...) { failed(v, o, more(o, n.i)); } inv(v); }
VC_FN(h_resize_value, (V& v, Pos n, const Val& x)) { Old o = pre(v); vc_begin(); try { v.resize(n.i, x); grown(v, o, n.i, vcn::oldat(&x)); no_alloc(n.i <= o.c); } catch (...) { failed(v, o, more(o, n.i)); } inv(v); }
VC_FN(h_resize_back, (V& v, Pos n)) { Old o = pre(v); vc_begin(); try { v.resize_back(n.i); holds(v, sized(o, n.i, false, 0), "[seq] resize_back"); keep_alloc(v, o); no_alloc(n.i <= o.n + o.bg); } catch (...) { failed(v, o, more(o, n.i)); } inv(v); }
VC_FN(h_resize_back_value, (V& v, Pos n, const Val& x)) { Old o = pre(v); vc_begin(); try { v.resize_back(n.i, x); holds(v, sized(o, n.i, false, vcn::oldat(&x)), "[seq] resize_back"); keep_alloc(v, o); no_alloc(n.i <= o.n + o.bg); } catch (...) { failed(v, o, more(o, n.i)); } inv(v); }
VC_FN(h_resize_front, (V& v, Pos n)) { Old o = pre(v); vc_begin(); try { v.resize_front(n.i); holds(v, sized(o, n.i, true, 0), "[seq] resize_front"); keep_alloc(v, o); no_alloc(n.i <= o.n + o.fg); } catch (...) { failed(v, o, more(o, n.i)); } inv(v); }
VC_FN(h_resize_front_value, (V& v, Pos n, const Val& x)) { Old o = pre(v); vc_begin(); try { v.resize_front(n.i, x); holds(v, sized(o, n.i, true, vcn::oldat(&x)), "[seq] resize_front"); keep_alloc(v, o); no_alloc(n.i <= o.n + o.fg); } catch (...) { failed(v, o, more(o, n.i)); } inv(v); }
VC_FN(h_resize_huge, (V& v, sz n, bool val, int side)) { Old o = pre(v); vc_assume(n > 1000); vc_begin(); try { Val x(3); if (side == 0) { if (val) v.resize(n, x); else v.resize(n); } else if (side == 1) { if (val) v.resize_front(n, x); else v.resize_front(n); } else { if (val) v.resize_back(n, x); else v.resize_back(n); } vc_unreachable("[cap] length_error beyond max_size()"); } catch (...) { failed(v, o, more(o, n)); same(v, o); } inv(v); }
#endif
VC_FN(h_erase_value, (V& v, const Val& x)) { Old o = pre(v); vc_assume(!inside(o, &x) || true); vc_begin(); int xv = vcn::oldat(&x); Vals e; for (int y : o.e) if (y != xv) e.push_back(y); vc_assume(!inside(o, &x));
    try { sz k = sfl::erase(v, x); vc_assert(k == o.n - e.size(), "[seq] erase returns the number removed"); holds(v, e, "[seq] erase removes exactly the equal elements"); } catch (...) { failed(v, o, 0); } inv(v); }
VC_FN(h_erase_if, (V& v, int m)) { Old o = pre(v); vc_begin(); Vals e; auto hit = [m](int x) { return m == 0 ? (x / 10) % 2 == 0 : m == 1 ? (x / 10) % 3 == 0 : x / 10 > 2; }; for (int y : o.e) if (!hit(y)) e.push_back(y);
    try { sz k = sfl::erase_if(v, [&](const Val& y) { return hit(vcn::valof(&y, "tested element")); }); vc_assert(k == o.n - e.size(), "[seq] erase_if returns the number removed"); holds(v, e, "[seq] erase_if removes exactly the matching elements"); } catch (...) { failed(v, o, 0); } inv(v); }
// ---------------------------------------------------------------- histories
VC_FN(h_history, (V& v))
{
    Old o0 = pre(v); Vals e = o0.e; vc_begin();
    int steps = 6;
    for (int s = 0; s < steps; ++s)
    {
        Old o = pre(v); sz n = o.n; int x = 700 + s; int op = vcn::choose(14);
        sz p = vcn::choose(int(n) + 1);
        vcn::g().desc += " op" + std::to_string(op) + "@" + std::to_string(p);
        try
        {
            switch (op)
            {
            case 0: v.emplace_back(x); e.push_back(x); break;
            case 1: v.emplace(v.cbegin() + p, x); e = ins(e, p, Vals{x}); break;
            case 2: { Val y(x); v.insert(v.cbegin() + p, NN + 1, y); e = ins(e, p, Vals(NN + 1, x)); break; }
            case 3: if (p < n) { v.erase(v.cbegin() + p); e = del(e, p, p + 1); } break;
            case 4: v.erase(v.cbegin() + p, v.cend()); e = del(e, p, n); break;
            case 5: v.erase(v.cbegin(), v.cbegin() + p); e = del(e, 0, p); break;
            case 6: v.shrink_to_fit(); break;
            case 7: v.clear(); e.clear(); break;
#if defined(C_SVEC)
            case 8: v.reserve(n + 1); break;
            case 9: v.reserve(9 * NN); break;
            case 10: v.resize(n + NN + 1); e.resize(n + NN + 1, 0); break;
            case 11: { V w(std::move(v)); v.emplace_back(x); e = Vals{x}; break; }
            case 12: { Val y(x); for (int i = 0; i < NN; ++i) v.push_back(y); e = ins(e, n, Vals(NN, x)); break; }
            default: if (n) { v.pop_back(); e.pop_back(); } break;
#else
            case 8: v.reserve_front(n + NN); break;
            case 9: v.reserve_back(9 * NN); break;
            case 10: v.resize_front(n + NN + 1); e = ins(e, 0, Vals(NN + 1, 0)); break;
            case 11: { for (int i = 0; i < NN + 1; ++i) v.emplace_front(x); e = ins(e, 0, Vals(NN + 1, x)); break; }
            case 12: if (n) { v.pop_front(); e = del(e, 0, 1); } break;
            default: if (n) { v.pop_back(); e.pop_back(); } break;
#endif
            }
        }
        catch (...) { failed(v, o, 9 * NN); e = now(v); }
        holds(v, e, "[seq] the sequence the history defines");
        shape(v);
    }
    inv(v);
}
#endif
