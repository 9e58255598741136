// Operations over whole ranges and whole containers (executed natively: bounded).
#ifndef VC_PROVE
#include <list>
#include <iterator>
using Vals = std::vector<std::vector<int>>;
static int keycls(int cid, const std::vector<int>& e) { return vcn::rk(cid, e[0]); }
static Vals now_of(const V& v) { return vcn::elems(dat(v), v.size() * SZ, SZ, false); }
static Vals old_of(const Old& o) { return vcn::elems(o.d, o.n * SZ, SZ, true); }
static Vals old_of(const Rng& r) { return vcn::elems(r.p, r.n * SZ, SZ, true); }
static void add(Vals& m, const Vals& more, int cid)
{
    for (auto& e : more)
    {
        bool have = false;
        for (auto& x : m) if (keycls(cid, x) == keycls(cid, e)) have = true;
        if (!UNI || !have) m.push_back(e);
    }
}
static void expect(const V& v, Vals m, const char* l) { Vals n = now_of(v); std::sort(n.begin(), n.end()); std::sort(m.begin(), m.end()); if (n != m) vcn::post(l); }
// input iterators: single pass, value read through a proxy-free reference
struct InIt
{
    using iterator_category = std::input_iterator_tag; using value_type = E; using difference_type = std::ptrdiff_t; using pointer = const E*; using reference = const E&;
    const E* p;
    reference operator*() const { return *p; }
    InIt& operator++() { ++p; return *this; }
    InIt operator++(int) { InIt r = *this; ++p; return r; }
    friend bool operator==(const InIt& a, const InIt& b) { return a.p == b.p; }
    friend bool operator!=(const InIt& a, const InIt& b) { return a.p != b.p; }
};
static void range_result(V& v, int cid, const Rng& r, const char* l) { Vals m; add(m, old_of(r), cid); expect(v, m, l); ordered(v); vc_assert(cid_of(v) == cid, "[seq] given ordering"); invl(v); }
VC_FN(h_ctor_range, (Rng r, int id, bool in))
{
    NEED(r.n <= NN); int cid = vcn::choose(2); vc_begin();
    try
    {
        if (in) { MAKEF(v, id, InIt{r.p}, InIt{r.p + r.n}, Ord{cid}); range_result(v, cid, r, "[seq] construction from a range"); }
        else    { MAKEF(v, id, r.p, r.p + r.n, Ord{cid}); range_result(v, cid, r, "[seq] construction from a range"); }
    }
    catch (...) { vc_assert(vc_exc_kind() == 1 || r.n > maxof(id), "[cap] length_error only beyond max_size()"); }
}
VC_FN(h_ctor_range_default, (Rng r))
{
    NEED(r.n <= NN); vc_begin();
    try { V v(r.p, r.p + r.n); range_result(v, 0, r, "[seq] construction from a range"); }
    catch (...) { vc_assert(vc_exc_kind() == 1, "[cap] length_error only beyond max_size()"); }
}
VC_FN(h_ctor_ilist, (Rng r, int id))
{
    NEED(r.n <= NN && r.n <= 3); vc_assume(r.n <= 3); int cid = vcn::choose(2); vc_begin();
    const E* p = r.p;
    try
    {
        switch (r.n)
        {
        case 0: { MAKEF(v, id, std::initializer_list<E>{}, Ord{cid}); range_result(v, cid, r, "[seq] construction from an initializer list"); break; }
        case 1: { MAKEF(v, id, std::initializer_list<E>{p[0]}, Ord{cid}); range_result(v, cid, r, "[seq] construction from an initializer list"); break; }
        case 2: { MAKEF(v, id, std::initializer_list<E>{p[0] , p[1]}, Ord{cid}); range_result(v, cid, r, "[seq] construction from an initializer list"); break; }
        case 3: { MAKEF(v, id, std::initializer_list<E>{p[0] , p[1] , p[2]}, Ord{cid}); range_result(v, cid, r, "[seq] construction from an initializer list"); break; }
        }
    }
    catch (...) { vc_assert(vc_exc_kind() == 1 || r.n > maxof(id), "[cap] length_error only beyond max_size()"); }
}
VC_FN(h_assign_ilist, (V& v, Rng r))
{
    Old o = pre(v); vc_assume(r.n <= 3); NEED(r.n <= NN); vc_begin();
    const E* p = r.p;
    try
    {
        V* q = nullptr;
        switch (r.n)
        {
        case 0: q = &(v = std::initializer_list<E>{}); break;
        case 1: q = &(v = {p[0]}); break;
        case 2: q = &(v = {p[0], p[1]}); break;
        case 3: q = &(v = {p[0], p[1], p[2]}); break;
        }
        vc_assert(q == &v, "[seq] returns *this");
        Vals m; add(m, old_of(r), o.cid); expect(v, m, "[seq] assignment from an initializer list"); ordered(v); keep_alloc(v, o);
        if (r.n <= o.c) vc_assert(vc_allocs() == 0, "[cap] no reallocation while capacity suffices");
    }
    catch (...) { failed(v, o, r.n); }
    inv(v);
}
VC_FN(h_insert_range, (V& v, Rng r, bool in))
{
    Old o = pre(v); NEED(o.n + r.n <= NN); vc_begin();
    try
    {
        if (in) v.insert(InIt{r.p}, InIt{r.p + r.n}); else v.insert(r.p, r.p + r.n);
        Vals m = old_of(o); add(m, old_of(r), o.cid); expect(v, m, "[seq] insertion of a range"); ordered(v); keep_alloc(v, o);
    }
    catch (...) { failed(v, o, r.n); }
    inv(v);
}
VC_FN(h_insert_ilist, (V& v, Rng r))
{
    Old o = pre(v); vc_assume(r.n == 2); NEED(o.n + r.n <= NN); vc_begin();
    try
    {
        v.insert({r.p[0], r.p[1]});
        Vals m = old_of(o); add(m, old_of(r), o.cid); expect(v, m, "[seq] insertion of an initializer list"); ordered(v); keep_alloc(v, o);
    }
    catch (...) { failed(v, o, r.n); }
    inv(v);
}
#if MAPK
VC_FN(h_erase_mutable, (V& v, sz pos))
{
    Old o = pre(v); vc_assume(pos < o.n); vc_begin();
    try { auto it = v.erase(v.begin() + pos); vc_assert(sz(it - v.begin()) == pos, "[seq] returned iterator designates the position of the erased element"); vc_assert(v.size() == o.n - 1, "[seq] erase removes one");
        vc_removed(dat(v), o.d, o.n * SZ, pos * SZ, SZ, SZ, "[seq] exactly the other elements remain"); ordered(v); keep_alloc(v, o); }
    catch (...) { failed(v, o, 0); }
    inv(v);
}
VC_FN(h_insert_convertible, (V& v, const E& x, bool hint))
{
    Old o = pre(v); ROOM(); vc_begin();
    try
    {
        std::pair<int, int> q(vcn::oldat(&x.first), vcn::oldat(&x.second));
        if (hint) v.insert(v.cbegin(), q); else v.insert(q);
        Vals m = old_of(o); add(m, Vals{{q.first, q.second}}, o.cid); expect(v, m, "[seq] insertion of a convertible pair"); ordered(v); keep_alloc(v, o);
    }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
#endif
VC_FN(h_erase_if, (V& v, int which))
{
    Old o = pre(v); vc_begin();
    static const int masks[] = {0, 21, 10}; int mask = masks[which] | (vcn::choose(2) ? 1 << 1 : 0);
    Vals rest; for (auto& e : old_of(o)) if (!(mask >> (e[0] / 20) & 1)) rest.push_back(e);
    try { sz n = sfl::erase_if(v, [&](const E& e) { return bool(mask >> (vcn::valof(&keyof(e), "tested element") / 20) & 1); });
        vc_assert(n == o.n - rest.size(), "[seq] erase_if returns the number removed"); expect(v, rest, "[seq] erase_if removes exactly the matching elements"); ordered(v); keep_alloc(v, o); }
    catch (...) { failed(v, o, 0); }
    inv(v);
}
VC_FN(h_ctor_copy_of_range_moved, (V& v))      // a moved-from container can be used again
{
    Old o = pre(v); vc_assume(o.n + 1 <= NN); vc_begin();
    try { V w(std::move(v)); v.clear(); put(v, 30, 1, 40); vc_assert(v.size() == 1, "[seq] moved-from container is usable"); same(w, o); invl(w); }
    catch (...) {}
    inv(v);
}
static Vals canon(const V& v) { Vals n = now_of(v); if (!ORD) std::sort(n.begin(), n.end()); return n; }
VC_FN(h_eq, (V& v, V& a))
{
    Old o = pre(v), p = pre(a); vc_begin();
    bool same_elems = canon(v) == canon(a);
    try { bool e = (v == a), d = (v != a); vc_assert(e == same_elems, "[cmp] equality means the same elements"); vc_assert(d == !same_elems, "[cmp] inequality is the negation of equality"); } catch (...) {}
    same(v, o); same(a, p); inv(v); inv(a);
}
VC_FN(h_eq_variants, (V& v))     // containers differing in one element, in order of insertion, or not at all
{
    Old o = pre(v);
#if HAS_ALLOC
    V& a = *vcn::make<V>(Ord(o.cid), Al<E>(o.id));
#else
    V& a = *vcn::make<V>(Ord(o.cid));
#endif
    Vals es = now_of(v);
    int change = vcn::choose(int(o.n) + 1), rev = vcn::choose(2);
    if (change < int(o.n))
    {
        int src = vcn::choose(UNI ? 1 : 1 + int(o.n));      // another value, or (multi) a copy of another element: same elements, other multiplicities
        if (src) es[change] = es[src - 1]; else es[change].back() = es[change].back() / 10 * 10 + 9;
    }
    for (sz i = 0; i < o.n; ++i)
    {
        auto& e = es[rev ? o.n - 1 - i : i];
#if MAPK
        a.emplace(e[0], e[1]);
#else
        a.emplace(e[0]);
#endif
    }
    Old p = pre(a);
    vc_begin();
    bool same_elems = canon(v) == canon(a);
    try { bool e = (v == a), d = (v != a); vc_assert(e == same_elems, "[cmp] equality means the same elements"); vc_assert(d == !same_elems, "[cmp] inequality is the negation of equality"); } catch (...) {}
    same(v, o); same(a, p); inv(v); inv(a);
}
#if ORD
VC_FN(h_lex, (V& v, V& a))
{
    Old o = pre(v), p = pre(a); vc_begin();
    // lexicographic with the elements' own operator< (rank of the key, then of the mapped value)
    auto ranks = [](const V& x) { Vals r = now_of(x); for (auto& e : r) for (auto& k : e) k = k / 10; return r; };
    bool l = ranks(v) < ranks(a), g = ranks(a) < ranks(v);
    try { vc_assert((v < a) == l, "[cmp] operator< is lexicographic"); vc_assert((v > a) == g, "[cmp] operator> is lexicographic"); vc_assert((v <= a) == !g, "[cmp] operator<= is lexicographic"); vc_assert((v >= a) == !l, "[cmp] operator>= is lexicographic"); } catch (...) {}
    same(v, o); same(a, p); inv(v); inv(a);
}
#endif
VC_FN(h_functors, (V& v))
{
    Old o = pre(v); vc_begin();
    for (sz i = 0; i < o.n; ++i) for (sz j = 0; j < o.n; ++j)
    {
        try
        {
            int a = vcn::rk(o.cid, vcn::valat(&keyof(o.d[i]))), b = vcn::rk(o.cid, vcn::valat(&keyof(o.d[j])));
#if ORD
            vc_assert(v.key_comp()(keyof(o.d[i]), keyof(o.d[j])) == (a < b), "[seq] key_comp()"); vc_assert(v.value_comp()(o.d[i], o.d[j]) == (a < b), "[seq] value_comp()");
#else
            vc_assert(v.key_eq()(keyof(o.d[i]), keyof(o.d[j])) == (a == b), "[seq] key_eq()");
#if MAPK
            vc_assert(v.value_eq()(o.d[i], o.d[j]) == (a == b), "[seq] value_eq()");
#endif
#endif
        } catch (vcn::Injected&) {}
    }
    same(v, o); keep_alloc(v, o); inv(v);
}
#endif
