// Native meaning of the specification vocabulary: runs the same wrappers on concrete small states.
// Used (a) to replay a failed proof obligation with a concrete input, (b) as the bounded stand-in where the prover has no reach.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <algorithm>
#include <exception>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#include <unistd.h>
#include <sys/wait.h>
#include <fcntl.h>

struct KeyX;
namespace vcn {
struct Injected {};
struct Skip {};
struct Blk { std::size_t n, sz; int id; };
struct G {
    std::unordered_map<const void*, int> live, old;
    std::map<const char*, Blk> blocks;
    std::vector<std::pair<const char*, std::size_t>> own;
    std::vector<const void*> own_blocks;
    std::vector<const void*> ext;            // externally owned elements
    long countdown = -1, throwat = -1;                      // throw injection
    bool injected = false, started = false;
    int allocs = 0, frees = 0, ghost = -1;
    long ops = 0;
    std::vector<int> path, radix; std::size_t pos = 0;
    std::string desc;
    std::string fn;
    int outfd = 1;
    unsigned long long* pick = nullptr;      // random choices
};
inline G& g() { static G* x = new G; return *x; }
inline std::string path_str()
{
    std::string s;
    for (std::size_t i = 0; i < g().pos && i < g().path.size(); ++i) { if (i) s += "."; s += std::to_string(g().path[i]); }
    return s.empty() ? "-" : s;
}
[[noreturn]] inline void fail(const char* cat, const std::string& msg)
{
    std::string s = "FAIL\t" + g().fn + "\t" + cat + "\t" + msg + "\t" + path_str() + "\t" + (g().injected ? "thrown" : "nothrow") + "\t" + std::to_string(g().throwat) + "\t" + g().desc + "\n";
    ssize_t r = write(g().outfd, s.data(), s.size()); (void)r;
    _exit(7);
}
// failed postconditions that belong to other properties than the one being checked do not end the run (VC_IGNORE: ",tag:0,tag:1,": 1 after a failure)
inline void post(const char* l)
{
    static const char* ign = getenv("VC_IGNORE");
    if (ign && l[0] == '[')
    {
        std::string t(l + 1); t = "," + t.substr(0, t.find(']')) + (g().injected ? ":1," : ":0,");
        if (std::strstr(ign, t.c_str())) return;
    }
    fail("post", l);
}
inline void may_throw()
{
    if (g().started) ++g().ops;
    if (g().countdown >= 0 && g().started)
    {
        if (g().countdown == 0) { g().countdown = -2; g().injected = true; throw Injected(); }
        --g().countdown;
    }
}
inline int choose(int n)
{
    G& s = g();
    if (n <= 0) throw Skip();
    if (s.pos == s.path.size())
    {
        int r = 0;
        if (s.pick) { *s.pick ^= *s.pick << 13; *s.pick ^= *s.pick >> 7; *s.pick ^= *s.pick << 17; r = int(*s.pick % unsigned(n)); }
        s.path.push_back(r); s.radix.push_back(n);
    }
    else if (s.pos == s.radix.size()) s.radix.push_back(n);
    int r = s.path[s.pos];
    s.radix[s.pos] = n;
    ++s.pos;
    if (r >= n) throw Skip();
    return r;
}
inline void born(const void* p, int v)
{
    if (g().live.count(p)) fail("lifetime", "an element is constructed over a live element");
    for (auto& b : g().blocks) { (void)b; }
    g().live[p] = v;
}
inline int& valof(const void* p, const char* what)
{
    auto it = g().live.find(p);
    if (it == g().live.end()) fail("lifetime", std::string(what) + " is not a live element");
    return it->second;
}
inline int gone() { return g().ghost--; }
inline int valat(const void* p)   // comparison of values without lifetime requirement
{
    auto it = g().live.find(p);
    return it == g().live.end() ? -2000000000 : it->second;
}
inline int oldat(const void* p)
{
    auto it = g().old.find(p);
    return it == g().old.end() ? -2000000001 : it->second;
}

// ----- element types: v = 10 * rank + tag
template <int Kind> struct El {     // Kind 0: noexcept moves; 1: everything may throw
    int v;
    static constexpr bool NM = Kind == 0;
    El() { may_throw(); v = 0; born(this, 0); }
    explicit El(const ::KeyX& k);
    explicit El(int x) { may_throw(); v = x; born(this, x); }
    El(const El& o) { int x = valof(&o, "copied-from object"); may_throw(); v = x; born(this, x); }
    El(El&& o) noexcept(NM) { int x = valof(&o, "moved-from object"); if (!NM) may_throw(); v = x; born(this, x); valof(&o, "") = o.v = gone(); }
    El& operator=(const El& o) { int x = valof(&o, "assigned-from object"); valof(this, "assigned-to object");
        try { may_throw(); } catch (...) { valof(this, "") = v = gone(); throw; } valof(this, "") = v = x; return *this; }
    El& operator=(El&& o) noexcept(NM) { int x = valof(&o, "assigned-from object"); valof(this, "assigned-to object");
        if (!NM) { try { may_throw(); } catch (...) { valof(this, "") = v = gone(); valof(&o, "") = o.v = gone(); throw; } }
        valof(this, "") = v = x; valof(&o, "") = o.v = gone(); return *this; }
    ~El() { valof(this, "destroyed object"); g().live.erase(this); v = -77777; }
};
template <int K> inline bool operator==(const El<K>& a, const El<K>& b) { int x = valof(&a, "compared object"), y = valof(&b, "compared object"); return x == y; }
template <int K> inline int rank_of(const El<K>& a) { int x = valof(&a, "compared object"); return x >= 0 ? x / 10 : x; }
template <int K> inline bool operator<(const El<K>& a, const El<K>& b) { int x = rank_of(a), y = rank_of(b); return x < y; }
}
using Elem = vcn::El<0>;
using ElemT = vcn::El<1>;
struct KeyX { int v; explicit KeyX(int x) : v(x) { vcn::born(this, x); } KeyX(const KeyX&) = delete; KeyX& operator=(const KeyX&) = delete; ~KeyX() { vcn::valof(this, "destroyed key"); vcn::g().live.erase(this); } };
template <int K> inline vcn::El<K>::El(const KeyX& k) { int x = valof(&k, "converted-from key"); may_throw(); v = x; born(this, x); }
namespace vcn {
// the meaning of a functor with a given state: an integer per value
inline int rank_under(bool order, int cid, int v)
{
    if (v < 0) return v;
    int r = v / 10;
    return order ? ((cid & 1) ? -r : r) : ((cid & 1) ? r / 2 : r);
}
template <class T> struct throws : std::false_type {};
template <> struct throws<El<1>> : std::true_type {};
}
#define VC_FUNCTOR(Name, Ord, op)                                                                                                                     \
struct Name {                                                                                                                                         \
    using is_transparent = void;                                                                                                                      \
    int id; Name() noexcept : id(0) {} explicit Name(int i) noexcept : id(i) {}                                                                       \
    template <class A, class B> bool operator()(const A& a, const B& b) const                                                                         \
    { int x = vcn::valof(&a, "compared object"), y = vcn::valof(&b, "compared object"); if (vcn::throws<A>::value || vcn::throws<B>::value) vcn::may_throw(); \
      return vcn::rank_under(Ord, id, x) op vcn::rank_under(Ord, id, y); }                                                                            \
};
VC_FUNCTOR(Cmp, true, <)
VC_FUNCTOR(Eq, false, ==)

inline std::size_t vc_limit(int id) noexcept { return id >= 100 ? 9 : std::size_t(PTRDIFF_MAX); }
template <class T, int P> struct AlX {
    using value_type = T;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, P & 1>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, (P >> 1) & 1>;
    using propagate_on_container_swap = std::integral_constant<bool, (P >> 2) & 1>;
    using is_always_equal = std::false_type;
    template <class U> struct rebind { using other = AlX<U, P>; };
    int id;
    AlX() noexcept : id(0) {}
    explicit AlX(int i) noexcept : id(i) {}
    template <class U> AlX(const AlX<U, P>& o) noexcept : id(o.id) {}
    T* allocate(std::size_t n)
    {
        if (n > std::size_t(PTRDIFF_MAX) / sizeof(T)) vcn::fail("capacity", "allocation request exceeds the address range");
        if (n > vc_limit(id) && !std::is_pointer<T>::value) vcn::fail("capacity", "allocation request exceeds the maximum size");
        vcn::may_throw();
        if (n > (std::size_t(1) << 20)) throw std::bad_alloc();
        T* p = static_cast<T*>(std::malloc(n * sizeof(T) + (n == 0)));
        vcn::g().blocks[reinterpret_cast<const char*>(p)] = vcn::Blk{n, sizeof(T), id};
        ++vcn::g().allocs;
        return p;
    }
    void deallocate(T* p, std::size_t n) noexcept
    {
        auto it = vcn::g().blocks.find(reinterpret_cast<const char*>(p));
        if (it == vcn::g().blocks.end()) vcn::fail("storage", "released storage is not a live allocation");
        if (it->second.n != n || it->second.sz != sizeof(T)) vcn::fail("storage", "storage released with the wrong size");
        if (it->second.id != id) vcn::fail("storage", "storage released through an unequal allocator");
        const char* b = reinterpret_cast<const char*>(p);
        for (auto& e : vcn::g().live) { const char* q = static_cast<const char*>(e.first); if (b <= q && q < b + n * sizeof(T)) vcn::fail("lifetime", "live element in released storage"); }
        vcn::g().blocks.erase(it);
        ++vcn::g().frees;
        std::memset(static_cast<void*>(p), 0xEE, n * sizeof(T));
        std::free(p);
    }
    std::size_t max_size() const noexcept { return vc_limit(id); }
    AlX select_on_container_copy_construction() const noexcept { return AlX(int(unsigned(id) + 1u)); }
    friend bool operator==(const AlX& a, const AlX& b) noexcept { return a.id == b.id; }
    friend bool operator!=(const AlX& a, const AlX& b) noexcept { return a.id != b.id; }
};

// ----- vocabulary
#define VC_ESZ sizeof(Elem)
static_assert(sizeof(Elem) == sizeof(ElemT), "");
inline void vc_obj(const void*, std::size_t) {}
inline void vc_assume(bool b) { if (!b) throw vcn::Skip(); }
inline void vc_assert(bool b, const char* l) { if (!b) vcn::post(l); }
inline void vc_unreachable(const char* l) { vcn::post(l); }
inline void vc_pre_live(const void* p, std::size_t n) { for (std::size_t i = 0; i < n; i += VC_ESZ) if (!vcn::g().live.count(static_cast<const char*>(p) + i)) vcn::fail("post", "prepared container is well formed"); }
inline void vc_pre_raw(const void*, std::size_t) {}
inline void vc_pre_block(const void* p, std::size_t n, std::size_t sz, int id)
{ auto it = vcn::g().blocks.find(static_cast<const char*>(p)); if (it == vcn::g().blocks.end() || it->second.n != n || it->second.sz != sz || it->second.id != id) vcn::fail("storage", "prepared container owns a matching allocation"); }
inline void vc_arg(const void*, std::size_t) {}
inline void vc_range(const void*, std::size_t) {}
inline void vc_slot(const void*, const void*, std::size_t, std::size_t) {}
inline void vc_mark() { vcn::g().old = vcn::g().live; }
inline void vc_begin() { vcn::g().old = vcn::g().live; vcn::g().started = true; vcn::g().allocs = vcn::g().frees = 0; }
inline void vc_end() { vcn::g().started = false; }
inline void vc_eq_old(const void* p, std::size_t n, const void* q, const char* l) { if (n > 1u << 20) return vcn::post(l); for (std::size_t i = 0; i < n; i += VC_ESZ) if (vcn::valat((const char*)p + i) != vcn::oldat((const char*)q + i)) vcn::post(l); }
inline void vc_eq_now(const void* p, std::size_t n, const void* q, const char* l) { if (n > 1u << 20) return vcn::post(l); for (std::size_t i = 0; i < n; i += VC_ESZ) if (vcn::valat((const char*)p + i) != vcn::valat((const char*)q + i)) vcn::post(l); }
inline void vc_eq_one(const void* p, std::size_t n, const void* x, const char* l) { if (n > 1u << 20) return vcn::post(l); for (std::size_t i = 0; i < n; i += VC_ESZ) if (vcn::valat((const char*)p + i) != vcn::oldat(x)) vcn::post(l); }
inline void vc_eq_def(const void* p, std::size_t n, const char* l) { if (n > 1u << 20) return vcn::post(l); for (std::size_t i = 0; i < n; i += VC_ESZ) if (vcn::valat((const char*)p + i) != 0) vcn::post(l); }
inline void vc_eq_int(const void* p, int v, const char* l) { if (vcn::valat(p) != v) vcn::post(l); }
inline void vc_own(const void* p, std::size_t n) { vcn::g().own.push_back({static_cast<const char*>(p), n}); }
inline void vc_chk_block(const void* p, std::size_t n, std::size_t sz, int id)
{ auto it = vcn::g().blocks.find(static_cast<const char*>(p)); if (it == vcn::g().blocks.end()) vcn::fail("storage", "container storage is not a live allocation");
  if (it->second.n != n || it->second.sz != sz) vcn::fail("storage", "capacity does not match the allocation"); if (it->second.id != id) vcn::fail("storage", "container allocator differs from the one owning its storage"); }
inline void vc_own_block(const void* p, std::size_t, std::size_t, int) { vcn::g().own_blocks.push_back(p); }
inline int vc_exc_kind()
{
    try { throw; } catch (vcn::Injected&) { return 1; } catch (std::bad_alloc&) { return 1; } catch (std::length_error&) { return 2; } catch (std::out_of_range&) { return 3; } catch (vcn::Skip&) { throw; } catch (...) { return 9; }
}
#define VC_AT(p, i) ((const char*)(p) + (i))
namespace vcn {
#ifdef VC_EQUIV
static const bool ordf = false;
#else
static const bool ordf = true;
#endif
inline int rk(int cid, int v) { return rank_under(ordf, cid, v); }
inline std::vector<std::vector<int>> elems(const void* p, std::size_t n, std::size_t stride, bool old)
{
    std::vector<std::vector<int>> r;
    for (std::size_t i = 0; i < n; i += stride) { r.emplace_back(); for (std::size_t j = 0; j < stride; j += sizeof(Elem)) r.back().push_back(old ? oldat(VC_AT(p, i + j)) : valat(VC_AT(p, i + j))); }
    return r;
}
}
inline void vc_sorted(const void* p, std::size_t n, std::size_t st, int cid, bool strict, const char* l)
{ for (std::size_t i = st; i < n; i += st) { int a = vcn::rk(cid, vcn::valat(VC_AT(p, i - st))), b = vcn::rk(cid, vcn::valat(VC_AT(p, i))); if (!(a < b || (!strict && a == b))) vcn::post(l); } }
inline void vc_pre_sorted(const void* p, std::size_t n, std::size_t st, int cid, bool strict) { vc_sorted(p, n, st, cid, strict, "[ord] building an ordered container"); }
inline void vc_distinct(const void* p, std::size_t n, std::size_t st, int cid, const char* l)
{ for (std::size_t i = 0; i < n; i += st) for (std::size_t j = 0; j < i; j += st) if (vcn::rk(cid, vcn::valat(VC_AT(p, i))) == vcn::rk(cid, vcn::valat(VC_AT(p, j)))) vcn::post(l); }
inline void vc_pre_distinct(const void* p, std::size_t n, std::size_t st, int cid) { vc_distinct(p, n, st, cid, "[ord] building a container of unique keys"); }
inline bool vc_rel(int a, int b, int rel) { switch (rel) { case -2: return a < b; case -1: return a <= b; case 0: return a == b; case 1: return a >= b; case 2: return a > b; default: return a != b; } }
inline void vc_rank_all(int cid, const void* p, std::size_t n, std::size_t st, const void* k, int rel, const char* l)
{ for (std::size_t i = 0; i < n; i += st) if (!vc_rel(vcn::rk(cid, vcn::valat(VC_AT(p, i))), vcn::rk(cid, vcn::oldat(k)), rel)) vcn::post(l); }
inline void vc_rank_count(int cid, const void* p, std::size_t n, std::size_t st, const void* k, std::size_t want, const char* l)
{ std::size_t c = 0; for (std::size_t i = 0; i < n; i += st) c += vcn::rk(cid, vcn::valat(VC_AT(p, i))) == vcn::rk(cid, vcn::oldat(k)); if (c != want) vcn::post(l); }
inline void vc_rank_count_old(int cid, const void* p, std::size_t n, std::size_t st, const void* k, std::size_t want, const char* l)
{ std::size_t c = 0; for (std::size_t i = 0; i < n; i += st) c += vcn::rk(cid, vcn::oldat(VC_AT(p, i))) == vcn::rk(cid, vcn::oldat(k)); if (c != want) vcn::post(l); }
inline void vc_rank_some(int cid, const void* p, std::size_t n, std::size_t st, const void* k, const char* l)
{ for (std::size_t i = 0; i < n; i += st) if (vcn::rk(cid, vcn::valat(VC_AT(p, i))) == vcn::rk(cid, vcn::oldat(k))) return; vcn::post(l); }
inline void vc_erased_block(const void* now, const void* old, std::size_t total, std::size_t n, std::size_t st, const char* l)
{ auto a = vcn::elems(now, total - n, st, false), b = vcn::elems(old, total, st, true);
  for (std::size_t s = 0; s * st + n <= total; ++s) { auto c = b; c.erase(c.begin() + s, c.begin() + s + n / st); if (c == a) return; } vcn::post(l); }
inline void vc_removed(const void* now, const void* old, std::size_t total, std::size_t pos, std::size_t n, std::size_t st, const char* l)
{ auto a = vcn::elems(now, total - n, st, false), b = vcn::elems(old, total, st, true); b.erase(b.begin() + pos / st, b.begin() + (pos + n) / st);
  std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) vcn::post(l); }
inline void vc_erased_some(const void*, const void*, std::size_t, std::size_t, std::size_t, const char*) {}
inline void vc_multiset_rest(const void* now, std::size_t n, const void* old, std::size_t total, std::size_t st, int cid, const void* k, const char* l)
{ auto a = vcn::elems(now, n, st, false), b = vcn::elems(old, total, st, true); std::vector<std::vector<int>> c; for (auto& x : b) if (vcn::rk(cid, x[0]) != vcn::rk(cid, vcn::oldat(k))) c.push_back(x);
  std::sort(a.begin(), a.end()); std::sort(c.begin(), c.end()); if (a != c) vcn::post(l); }
inline int vc_allocs() { return vcn::g().allocs; }
inline int vc_frees() { return vcn::g().frees; }

// ----- argument generators
namespace vcn {
struct Pool { std::vector<void*> raw; ~Pool() {} };
inline std::vector<std::pair<void*, void (*)(void*)>>& owned() { static auto* x = new std::vector<std::pair<void*, void (*)(void*)>>; return *x; }
inline std::vector<const void*>& aliasable() { static auto* x = new std::vector<const void*>; return *x; }
template <class T, class... A> T* make(A&&... a)
{
    void* m = std::malloc(sizeof(T));
    T* p = ::new (m) T(std::forward<A>(a)...);
    owned().push_back({p, [](void* q) { static_cast<T*>(q)->~T(); std::free(q); }});
    return p;
}
template <class T> T* make_el(int v) { T* p = make<T>(v); g().ext.push_back(p); return p; }
inline int& nelems() { static int n = 7; return n; }    // how many different external values are tried
template <class T, class = void> struct Gen;    // Gen<T>::get() -> T
template <class T> struct Gen<T, typename std::enable_if<std::is_same<T, std::size_t>::value>::type>
{ static std::size_t get() { int k = choose(8); g().desc += " " + std::to_string(k == 7 ? -1 : k); return k == 7 ? std::size_t(-1) : std::size_t(k); } };
template <> struct Gen<int> { static int get() { int k = choose(3); g().desc += " " + std::to_string(k); return k; } };
template <> struct Gen<bool> { static bool get() { int k = choose(2); g().desc += k ? " true" : " false"; return k; } };
template <int K> struct Gen<const El<K>&> { static const El<K>& get()
{   // external (several ranks) or an alias of an element already inside a container
    int n = int(aliasable().size()), m = nelems(), k = choose(m + n);
    if (k < m) { g().desc += " elem(" + std::to_string(k * 10 + 5) + ")"; return *make_el<El<K>>(k * 10 + 5); }
    g().desc += " alias#" + std::to_string(k - m); return *static_cast<const El<K>*>(aliasable()[k - m]); } };
template <int K> struct Gen<El<K>&&> { static El<K>&& get() { int k = choose(nelems()); g().desc += " elem(" + std::to_string(k * 10 + 5) + ")"; return std::move(*make_el<El<K>>(k * 10 + 5)); } };
struct Entry { const char* name; void (*run)(); };
inline std::vector<Entry>& table() { static auto* t = new std::vector<Entry>; return *t; }
template <class... A> struct Holder { static void (*fn)(A...); };
template <class Tag, class... A> struct Invoke {
    static void (*fn)(A...);
    template <std::size_t... I> static void go(std::index_sequence<I...>) { struct T { std::tuple<A...> t; }; }
    static void run() { std::tuple<A...> t{Gen<A>::get()...}; std::apply(fn, std::move(t)); }
};
template <class Tag, class... A> void (*Invoke<Tag, A...>::fn)(A...) = nullptr;
template <class Tag, class... A> struct Reg { Reg(const char* n, void (*f)(A...)) { Invoke<Tag, A...>::fn = f; table().push_back({n, &Invoke<Tag, A...>::run}); } };
template <class Tag, class... A> Reg<Tag, A...> mkreg(const char* n, void (*f)(A...)) { return Reg<Tag, A...>(n, f); }

inline void run_case(const Entry& e, long throwat)
{
    G& s = g();
    s.live.clear(); s.old.clear(); s.blocks.clear(); s.own.clear(); s.own_blocks.clear(); s.ext.clear();
    owned().clear(); aliasable().clear();
    s.countdown = s.throwat = throwat; s.injected = false; s.started = false; s.ops = 0; s.pos = 0; s.desc.clear(); s.ghost = -1;
    bool skip = false;
    try { e.run(); } catch (Skip&) { skip = true; } catch (...) { s.started = false; fail("terminate", "unexpected exception escapes"); }
    s.started = false;
    if (!skip)
    {
        for (auto p : s.ext) s.own.push_back({static_cast<const char*>(p), VC_ESZ});
        std::size_t cnt = 0;
        for (auto& o : s.own) for (std::size_t i = 0; i < o.second; i += VC_ESZ)
        { ++cnt; if (!s.live.count(o.first + i)) fail("lifetime", "an element a container should hold is not alive"); }
        if (cnt != s.live.size()) fail("lifetime", "an element outside the containers was left alive (leak)");
        if (s.own_blocks.size() != s.blocks.size()) fail("storage", "an allocation is leaked");
    }
    s.countdown = -1;
    for (std::size_t i = owned().size(); i-- > 0;) owned()[i].second(owned()[i].first);
    owned().clear();
    if (!s.live.empty()) fail("lifetime", "elements left alive after destroying everything");
    if (!s.blocks.empty()) fail("storage", "storage left allocated after destroying everything");
    s.pos = skip ? s.pos : s.pos;
    if (skip) throw Skip();
}
inline std::unordered_map<unsigned long long, char>& seen() { static auto* x = new std::unordered_map<unsigned long long, char>; return *x; }
inline std::string& sample() { static std::string* x = new std::string; return *x; }
// counts distinct cases (choices and failure point) in which the operation did something
inline void note_case(long k)
{
    G& s = g();
    if (!s.ops && !s.allocs) return;
    unsigned long long h = 1469598103934665603ull;
    for (std::size_t i = 0; i < s.pos; ++i) h = (h ^ (unsigned long long)(s.path[i] + 1)) * 1099511628211ull;
    h = (h ^ (unsigned long long)(k + 2)) * 1099511628211ull;
    if (seen().size() < 2000000) seen()[h] = 1;
    if (s.desc.size() >= sample().size() && seen().size() < 500) { sample() = s.desc + (k >= 0 ? " failing operation #" + std::to_string(k) : std::string(" no failure")); for (auto& c : sample()) if (c == '\t' || c == '\n') c = ' '; }
}
inline long explore(const Entry& e, long max_cases, double seconds)
{
    G& s = g();
    s.fn = e.name;
    s.path.clear(); s.radix.clear();
    long n = 0;
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    bool random = false;
    unsigned long long rng = 88172645463325252ull;
    if (const char* seed = getenv("VERIF_SEED")) rng ^= std::strtoull(seed, nullptr, 10) * 0x9E3779B97F4A7C15ull;
    if (!rng) rng = 1;
    while (true)
    {
        bool skipped = false;
        if (random) { s.path.clear(); s.radix.clear(); s.pick = &rng; }
        try { run_case(e, -1); ++n; note_case(-1); } catch (Skip&) { skipped = true; }
        s.pick = nullptr;
        if (random) s.path.resize(s.pos);
        if (!skipped)
        {
            const auto path = s.path, radix = s.radix; const auto pos = s.pos;     // a failure may change what is chosen afterwards
            for (long k = 0;; ++k)
            {
                try { run_case(e, k); ++n; note_case(k); } catch (Skip&) { }
                const bool more = s.injected;
                s.path = path; s.radix = radix; s.pos = pos;
                if (!more) break;
            }
        }
        if (random)
        {
            clock_gettime(CLOCK_MONOTONIC, &t1);
            if (n >= max_cases || (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > seconds) return -n;
            continue;
        }
        // next path
        s.path.resize(s.pos); s.radix.resize(s.pos);
        while (!s.path.empty() && s.path.back() + 1 >= s.radix.back()) { s.path.pop_back(); s.radix.pop_back(); }
        if (s.path.empty()) break;
        ++s.path.back();
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if ((t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > seconds / 2) random = true;   // too many to enumerate: sample
    }
    return n;
}
inline void on_signal(int sig) { fail(sig == SIGALRM ? "termination" : "memory", sig == SIGALRM ? "operation does not terminate" : sig == SIGABRT ? "program aborted" : "invalid memory access"); }
inline void on_terminate() { fail("terminate", "std::terminate called"); }
inline int main_(int argc, char** argv)
{
    // usage: list | run SECONDS fn... | replay fn path throw
    std::string mode = argc > 1 ? argv[1] : "list";
    if (mode == "list") { for (auto& e : table()) std::printf("%s\n", e.name); return 0; }
    std::signal(SIGSEGV, on_signal); std::signal(SIGBUS, on_signal); std::signal(SIGFPE, on_signal); std::signal(SIGALRM, on_signal); std::signal(SIGABRT, on_signal); std::signal(SIGILL, on_signal);
    std::set_terminate(on_terminate);
    if (mode == "replay")
    {
        for (auto& e : table()) if (e.name == std::string(argv[2]))
        {
            G& s = g(); s.fn = e.name;
            std::string p = argv[3]; long k = std::atol(argv[4]);
            std::size_t i = 0; while (i < p.size() && p != "-") { std::size_t j = p.find('.', i); if (j == std::string::npos) j = p.size(); s.path.push_back(std::atoi(p.substr(i, j - i).c_str())); s.radix.push_back(1000); i = j + 1; }
            alarm(60);
            try { run_case(e, k); } catch (Skip&) { std::printf("SKIP\n"); return 3; }
            std::printf("HOLDS\t%s\t%s\n", e.name, s.desc.c_str());
            return 0;
        }
        return 2;
    }
    double sec = std::atof(argv[2]);
    int rc = 0;
    for (auto& e : table())
    {
        bool want = argc == 3;
        for (int i = 3; i < argc; ++i) if (e.name == std::string(argv[i])) want = true;
        if (!want) continue;
        std::fflush(stdout);
        pid_t c = fork();
        if (c == 0)
        {
            alarm(unsigned(sec) + 60);
            long n = explore(e, 100000000, sec);
            std::string d = std::string(n < 0 ? "PART\t" : "DONE\t") + e.name + "\t" + std::to_string(n < 0 ? -n : n) + "\t" + std::to_string(seen().size()) + "\t" + sample() + "\n";
            ssize_t r = write(1, d.data(), d.size()); (void)r;
            _exit(0);
        }
        int st = 0; waitpid(c, &st, 0);
        if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 7)))
        { std::string d = std::string("CRASH\t") + e.name + "\tstatus " + std::to_string(st) + "\n"; ssize_t r = write(1, d.data(), d.size()); (void)r; }
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) rc = 1;
    }
    return rc;
}
}
extern "C" void __assert_fail(const char* e, const char*, unsigned, const char*) noexcept { vcn::fail("assert", std::string("library precondition check fails: ") + e); }
int main(int argc, char** argv) { return vcn::main_(argc, argv); }
#define VC_CAT2(a, b) a##b
#define VC_FN(name, params) static void name params; struct tag_##name {}; static auto reg_##name = vcn::mkreg<tag_##name>(#name, &name); static void name params
