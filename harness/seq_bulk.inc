// Operations of the sequence containers over single-pass ranges, and the free functions erase / erase_if: executed natively (bounded).
#include <vector>
using Vals = std::vector<int>;
static Vals oldv(const Old& o) { Vals e; for (sz i = 0; i < o.n; ++i) e.push_back(vcn::oldat(o.d + i)); return e; }
static Vals rvals(const Rng& r) { Vals e; for (sz i = 0; i < r.n; ++i) e.push_back(vcn::oldat(r.p + i)); return e; }
static void holds(const V& v, const Vals& e, const char* l)
{
    vc_assert(v.size() == e.size(), l);
    for (sz i = 0; i < v.size() && i < e.size(); ++i) vc_assert(vcn::valat(v.data() + i) == e[i], l);
}
static Vals now_of(const V& v) { Vals e; for (sz i = 0; i < v.size(); ++i) e.push_back(vcn::valat(v.data() + i)); return e; }
// a single-pass source: every element can be read once, in order
struct InIt
{
    using iterator_category = std::input_iterator_tag; using value_type = Val; using difference_type = std::ptrdiff_t; using pointer = const Val*; using reference = const Val&;
    const Val* p; const Val* base; sz* used;
    reference operator*() const { vc_assert(sz(p - base) == *used, "[seq] a single-pass source is read in order, never past the end or twice"); return *p; }
    InIt& operator++() { vc_assert(sz(p - base) == *used, "[seq] a single-pass source is advanced once"); ++p; ++*used; return *this; }
    InIt operator++(int) { InIt r = *this; ++*this; return r; }
    friend bool operator==(const InIt& a, const InIt& b) { return a.p == b.p; }
    friend bool operator!=(const InIt& a, const InIt& b) { return a.p != b.p; }
};
#if defined(C_COMPACT)
#define COMPACT_OR(x) ((void)0)          // a compact vector reallocates to its exact size
#else
#define COMPACT_OR(x) x
#endif
#define SRC(r) InIt{r.p, r.p, &used}, InIt{r.p + r.n, r.p, &used}
VC_FN(h_ctor_input, (Rng r, int id))
{
    NEED(r.n <= NN); range_arg(r); sz used = 0; vc_begin();
    try { MAKEA(v, id, SRC(r)); holds(v, rvals(r), "[seq] copies of range"); invl(v); }
    catch (...) { vc_assert(vc_exc_kind() == 1 || r.n > maxof(id), "[cap] length_error only beyond max_size()"); }
}
VC_FN(h_assign_input, (V& v, Rng r))
{
    Old o = pre(v); range_arg(r); NEED(r.n <= NN); sz used = 0; vc_begin();
    try { v.assign(SRC(r)); holds(v, rvals(r), "[seq] copies of range"); keep_alloc(v, o); }
    catch (...) { int k = vc_exc_kind(); if (k == 2) vc_assert(r.n > v.max_size() || v.max_size() <= o.c + r.n, "[cap] length_error only beyond max_size()"); keep_alloc(v, o); }
    inv(v);
}
VC_FN(h_insert_input, (V& v, sz pos, Rng r))
{
    Old o = pre(v); range_arg(r); vc_assume(pos <= o.n); NEED(r.n <= NN - o.n); sz used = 0; vc_begin();
    try
    {
        auto it = v.insert(v.cbegin() + pos, SRC(r)); vc_assert(sz(it - v.begin()) == pos, "[seq] returned iterator designates the first inserted element");
        Vals e = oldv(o), x = rvals(r); e.insert(e.begin() + pos, x.begin(), x.end()); holds(v, e, "[seq] exactly the range is added at the position"); keep_alloc(v, o);
    }
    catch (...) { int k = vc_exc_kind(); vc_assert(k == 1 || k == 2, "[seq] only failures of elements, allocator or size limit are reported"); keep_alloc(v, o); }
    inv(v);
}
VC_FN(h_erase_value, (V& v, const Val& x))
{
    Old o = pre(v); vc_arg(&x, SZ); vc_assume(!(o.d <= &x && &x < o.d + o.n)); vc_begin();
    int xv = vcn::oldat(&x); Vals e; for (int y : oldv(o)) if (y != xv) e.push_back(y);
    try { sz k = sfl::erase(v, x); vc_assert(k == o.n - e.size(), "[seq] erase returns the number removed"); holds(v, e, "[seq] erase removes exactly the equal elements, in order"); }
    catch (...) { vc_assert(vc_exc_kind() == 1, "[exc] only failures of elements"); }
    keep_alloc(v, o); COMPACT_OR(vc_assert(vc_allocs() == 0, "[cap] erasing never allocates")); inv(v);
}
VC_FN(h_erase_dup, (V& v, int m))
{
    // repeated values: v becomes a pattern of two values
    int bits = m; for (sz i = 0; i < v.size(); ++i) { v[i] = Val((bits & 1) ? 45 : 95); bits >>= 1; if (i == 0) bits = vcn::choose(1 << (NN + 2)); }
    Old o = pre(v); Val x(45); vc_begin();
    Vals e; for (int y : oldv(o)) if (y != 45) e.push_back(y);
    try { sz k = sfl::erase(v, x); vc_assert(k == o.n - e.size(), "[seq] erase returns the number removed"); holds(v, e, "[seq] erase removes exactly the equal elements, in order"); }
    catch (...) { vc_assert(vc_exc_kind() == 1, "[exc] only failures of elements"); }
    keep_alloc(v, o); inv(v);
}
VC_FN(h_erase_if, (V& v, int m))
{
    Old o = pre(v); vc_begin(); Vals e; auto hit = [m](int x) { return m == 0 ? (x / 10) % 2 == 0 : m == 1 ? (x / 10) % 3 != 0 : x / 10 > 2; };
    for (int y : oldv(o)) if (!hit(y)) e.push_back(y);
    try { sz k = sfl::erase_if(v, [&](const Val& y) { vcn::may_throw(); return hit(vcn::valof(&y, "tested element")); }); vc_assert(k == o.n - e.size(), "[seq] erase_if returns the number removed"); holds(v, e, "[seq] erase_if removes exactly the matching elements, in order"); }
    catch (...) { vc_assert(vc_exc_kind() == 1, "[exc] only failures of elements"); }
    keep_alloc(v, o); COMPACT_OR(vc_assert(vc_allocs() == 0, "[cap] erasing never allocates")); inv(v);
}
VC_FN(h_history, (V& v, V& a))
{
    Old o0 = pre(v); pre(a); vc_begin(); Vals e = oldv(o0), f = now_of(a);
    for (int s = 0; s < 6; ++s)
    {
        sz n = e.size(); int x = 700 + s; int op = vcn::choose(14); sz p = vcn::choose(int(n) + 1);
        vcn::g().desc += " op" + std::to_string(op) + "@" + std::to_string(p);
        Old o = pre(v);
        try
        {
            switch (op)
            {
            case 0: NEED(n < NN); v.emplace_back(x); e.push_back(x); break;
            case 1: NEED(n < NN); v.emplace(v.cbegin() + p, x); e.insert(e.begin() + p, x); break;
            case 2: { NEED(n + 2 <= NN); Val y(x); v.insert(v.cbegin() + p, 2, y); e.insert(e.begin() + p, 2, x); break; }
            case 3: if (p < n) { v.erase(v.cbegin() + p); e.erase(e.begin() + p); } break;
            case 4: v.erase(v.cbegin() + p, v.cend()); e.erase(e.begin() + p, e.end()); break;
            case 5: v.erase(v.cbegin(), v.cbegin() + p); e.erase(e.begin(), e.begin() + p); break;
            case 6: v.clear(); e.clear(); break;
            case 7: if (n) { v.pop_back(); e.pop_back(); } break;
            case 8: if (alid(v) == alid(a)) { v.swap(a); std::swap(e, f); } break;
            case 9: v = a; e = f; break;
            case 10: NEED(n < NN); if (n) { v.insert(v.cbegin() + p, v.back()); e.insert(e.begin() + p, e.back()); } break;
            case 11: v.resize(p); e.resize(p); break;
#if !defined(C_STATIC) && !defined(C_COMPACT)
            case 12: v.shrink_to_fit(); break;
#endif
#if defined(C_DEVECTOR)
            case 13: v.emplace_front(x); e.insert(e.begin(), x); break;
#elif !defined(C_STATIC) && !defined(C_COMPACT)
            case 13: v.reserve(n + 2); break;
#endif
            default: break;
            }
        }
        catch (...) { int k = vc_exc_kind(); vc_assert(k == 1 || k == 2, "[seq] only failures of elements, allocator or size limit are reported"); keep_alloc(v, o); e = now_of(v); f = now_of(a); }
        holds(v, e, "[seq] the sequence the history defines"); holds(a, f, "[seq] the other container holds what the history defines");
        invl(v); invl(a);
    }
    inv(v); inv(a);
}
