// Native states and arguments of the flat containers: small sizes, all shapes, keys present and absent.
#include <string>
template <class T> static void put(T& v, int key, int tag, int i)
{
#if MAPK
    v.emplace(key * 10 + tag, 200 + 10 * i + tag);
#else
    v.emplace(key * 10 + tag);
#endif
}
namespace vcn {
inline std::vector<const void*>& alias_elems() { static auto* x = new std::vector<const void*>; return *x; }
}
static V* build(int which, int id)
{
    using namespace vcn;
    nelems() = 12;
    if (which == 0) alias_elems().clear();
    int n = choose(NN + 3), cid = choose(2);
#if STATICK
    if (n > NN) throw Skip();
    V* v = make<V>(Ord(cid));
    int shape = 0;
#else
    V* v = make<V>(Ord(cid), Al<E>(id));
    int shape = choose(4);
    if (shape == 1) v->reserve(NN + 1);
    if (shape == 2) v->reserve(NN + 4);
    if (shape == 3) { if (n) throw Skip(); v->reserve(NN + 1); { V w(std::move(*v)); } }
#endif
    // keys 1,3,5,... (first container) or 2,4,6,... (second); with repetitions in the multi containers
    int dup = UNI || n < 2 ? 0 : choose(3);
    for (int i = 0; i < n; ++i)
    {
        int k = dup == 0 ? i : dup == 1 ? i / 2 : (i ? (i + 1) / 2 : 0);
        put(*v, 2 * k + 1 + which, 1 + i % 4, i + 5 * which);
    }
    if (v->size() != sz(n)) fail("post", "[ord] building a container by emplacing");
    for (sz i = 0; i < v->size(); ++i)
    {
        const E* e = dat(*v) + i;
        alias_elems().push_back(e);
#if MAPK
        aliasable().push_back(&e->first); aliasable().push_back(&e->second);
#else
        aliasable().push_back(e);
#endif
    }
    g().desc += " [n=" + std::to_string(n) + ",cap=" + std::to_string(v->capacity()) + ",shape=" + std::to_string(shape) + ",dup=" + std::to_string(dup) + ",order=" + std::to_string(cid) + ",alloc=" + std::to_string(id) + "]";
    return v;
}
namespace vcn {
template <> struct Gen<V&> { static V& get() { bool first = owned().empty(); static const int ids[] = {0, 1, 100};
  int id = HAS_ALLOC ? (first ? choose(2) * 100 : ids[choose(3)]) : 0;
  try { return *build(first ? 0 : 1, id); } catch (std::length_error&) { throw Skip(); } } };
template <> struct Gen<const KeyX&> { static const KeyX& get() { int k = choose(12); g().desc += " key(" + std::to_string(k * 10 + 7) + ")"; KeyX* p = make<KeyX>(k * 10 + 7); g().ext.push_back(p); return *p; } };
#if MAPK
inline E* make_pair_el(int k) { E* p = make<E>(std::piecewise_construct, std::make_tuple(k * 10 + 5), std::make_tuple(300 + 10 * k)); g().ext.push_back(&p->first); g().ext.push_back(&p->second); g().desc += " elem(" + std::to_string(k * 10 + 5) + ")"; return p; }
template <> struct Gen<const E&> { static const E& get()
{ nelems() = 12; int n = int(alias_elems().size()), k = choose(nelems() + n);
  if (k < nelems()) return *make_pair_el(k);
  g().desc += " alias#" + std::to_string(k - nelems()); return *static_cast<const E*>(alias_elems()[k - nelems()]); } };
template <> struct Gen<E&&> { static E&& get() { return std::move(*make_pair_el(choose(12))); } };
#endif
template <> struct Gen<Rng> { static Rng get()
{
    int n = choose(5);
    static const int step[] = {1, 2, 11, 0, 5};
    int start = n ? choose(4) : 0, st = n > 1 ? step[choose(5)] : 0;
    g().desc += " range(";
    E* m = static_cast<E*>(std::malloc((n + 1) * sizeof(E)));
    for (int i = 0; i < n; ++i)
    {
        int k = (start + i * st) % 12; g().desc += (i ? "," : "") + std::to_string(k);
#if MAPK
        ::new (m + i) E(std::piecewise_construct, std::make_tuple(k * 10 + i), std::make_tuple(400 + 10 * i)); g().ext.push_back(&m[i].first); g().ext.push_back(&m[i].second);
#else
        ::new (m + i) E(k * 10 + i); g().ext.push_back(m + i);
#endif
    }
    g().desc += ")";
    struct H { E* m; int n; ~H() { for (int i = 0; i < n; ++i) m[i].~E(); std::free(m); } };
    vcn::make<H>(H{nullptr, 0}); H* h = static_cast<H*>(owned().back().first); h->m = m; h->n = n; return Rng{m, sz(n)};
} };
}
