VC_FN(h_resize_back, (V& v, sz n))
{
    Old o = pre(v); vc_begin();
    try { v.resize_back(n); resized(v, o, n); vc_eq_old(v.data(), (n < o.n ? n : o.n) * SZ, o.d, "[seq] kept elements"); if (n > o.n) vc_eq_def(v.data() + o.n, (n - o.n) * SZ, "[seq] added elements");
        if (n <= o.n + o.bg) vc_assert(vc_allocs() == 0, "[cap] no reallocation while capacity suffices"); }
    catch (...) { failed(v, o, n - o.n); }
    inv(v);
}
VC_FN(h_resize_back_value, (V& v, sz n, const Val& x))
{
    Old o = pre(v); vc_arg(&x, SZ); vc_begin();
    try { v.resize_back(n, x); resized(v, o, n); vc_eq_old(v.data(), (n < o.n ? n : o.n) * SZ, o.d, "[seq] kept elements"); if (n > o.n) vc_eq_one(v.data() + o.n, (n - o.n) * SZ, &x, "[seq] added elements");
        if (n <= o.n + o.bg) vc_assert(vc_allocs() == 0, "[cap] no reallocation while capacity suffices"); }
    catch (...) { failed(v, o, n - o.n); }
    inv(v);
}
VC_FN(h_resize_front, (V& v, sz n))
{
    Old o = pre(v); vc_begin();
    try { v.resize_front(n); resized(v, o, n);
        if (n <= o.n) vc_eq_old(v.data(), n * SZ, o.d + (o.n - n), "[seq] kept elements");
        else { vc_eq_def(v.data(), (n - o.n) * SZ, "[seq] added elements"); vc_eq_old(v.data() + (n - o.n), o.n * SZ, o.d, "[seq] kept elements"); }
        if (n <= o.n + o.fg) vc_assert(vc_allocs() == 0, "[cap] no reallocation while capacity suffices"); }
    catch (...) { failed(v, o, n - o.n); }
    inv(v);
}
VC_FN(h_resize_front_value, (V& v, sz n, const Val& x))
{
    Old o = pre(v); vc_arg(&x, SZ); vc_begin();
    try { v.resize_front(n, x); resized(v, o, n);
        if (n <= o.n) vc_eq_old(v.data(), n * SZ, o.d + (o.n - n), "[seq] kept elements");
        else { vc_eq_one(v.data(), (n - o.n) * SZ, &x, "[seq] added elements"); vc_eq_old(v.data() + (n - o.n), o.n * SZ, o.d, "[seq] kept elements"); }
        if (n <= o.n + o.fg) vc_assert(vc_allocs() == 0, "[cap] no reallocation while capacity suffices"); }
    catch (...) { failed(v, o, n - o.n); }
    inv(v);
}
// resize(): growth may happen on both sides; the old elements stay contiguous at some offset
#ifdef VC_PROVE
static inline sz offset_of(const V& v, const Old& o, sz) { return vc_allocs() ? o.fg : sz(o.d - v.data()); }
#else
static inline sz offset_of(const V& v, const Old& o, sz n)
{
    for (sz k = 0; k + o.n <= n; ++k) { bool ok = true; for (sz i = 0; i < o.n; ++i) if (vcn::valat(v.data() + k + i) != vcn::oldat(o.d + i)) ok = false; if (ok) return k; }
    return 0;
}
#endif
VC_FN(h_resize, (V& v, sz n))
{
    Old o = pre(v); vc_begin();
    try { v.resize(n); resized(v, o, n);
        if (n <= o.n) vc_eq_old(v.data(), n * SZ, o.d, "[seq] kept elements");
        else { sz k = offset_of(v, o, n); vc_assert(k <= n - o.n, "[seq] kept elements"); vc_eq_old(v.data() + k, o.n * SZ, o.d, "[seq] kept elements"); vc_eq_def(v.data(), k * SZ, "[seq] added elements"); vc_eq_def(v.data() + k + o.n, (n - o.n - k) * SZ, "[seq] added elements"); }
        if (n <= o.c) vc_assert(vc_allocs() == 0, "[cap] no reallocation while capacity suffices"); }
    catch (...) { failed(v, o, n - o.n); }
    inv(v);
}
VC_FN(h_resize_value, (V& v, sz n, const Val& x))
{
    Old o = pre(v); vc_arg(&x, SZ); vc_begin();
    try { v.resize(n, x); resized(v, o, n);
        if (n <= o.n) vc_eq_old(v.data(), n * SZ, o.d, "[seq] kept elements");
        else { sz k = offset_of(v, o, n); vc_assert(k <= n - o.n, "[seq] kept elements"); vc_eq_old(v.data() + k, o.n * SZ, o.d, "[seq] kept elements"); vc_eq_one(v.data(), k * SZ, &x, "[seq] added elements"); vc_eq_one(v.data() + k + o.n, (n - o.n - k) * SZ, &x, "[seq] added elements"); }
        if (n <= o.c) vc_assert(vc_allocs() == 0, "[cap] no reallocation while capacity suffices"); }
    catch (...) { failed(v, o, n - o.n); }
    inv(v);
}
VC_FN(h_push_front_copy, (V& v, const Val& x))
{
    Old o = pre(v); vc_arg(&x, SZ); vc_begin();
    try { v.push_front(x); inserted(v, o, 0, 1); vc_eq_one(v.data(), SZ, &x, "[seq] prepended value"); if (o.fg) vc_assert(vc_allocs() == 0, "[cap] no reallocation while capacity suffices"); }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_push_front_move, (V& v, Val&& x))
{
    Old o = pre(v); vc_arg(&x, SZ); vc_assume(!(o.d <= &x && &x < o.d + o.n)); vc_begin();
    try { v.push_front(std::move(x)); inserted(v, o, 0, 1); vc_eq_one(v.data(), SZ, &x, "[seq] prepended value"); if (o.fg) vc_assert(vc_allocs() == 0, "[cap] no reallocation while capacity suffices"); }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_emplace_front, (V& v, const Val& x))
{
    Old o = pre(v); vc_arg(&x, SZ); vc_begin();
    try { Val& r = v.emplace_front(x); vc_assert(&r == v.data(), "[seq] returned reference designates the prepended element"); inserted(v, o, 0, 1); vc_eq_one(v.data(), SZ, &x, "[seq] prepended value"); if (o.fg) vc_assert(vc_allocs() == 0, "[cap] no reallocation while capacity suffices"); }
    catch (...) { failed(v, o, 1); }
    inv(v);
}
VC_FN(h_pop_front, (V& v))
{
    Old o = pre(v); vc_assume(o.n > 0); vc_begin();
    v.pop_front(); vc_assert(v.size() == o.n - 1, "[seq] pop_front removes one"); vc_eq_old(v.data(), (o.n - 1) * SZ, o.d + 1, "[seq] elements kept by pop_front"); vc_assert(vc_allocs() == 0, "[cap] no allocation");
    keep_alloc(v, o); inv(v);
}
