// C01: integer-interval arithmetic
#include <cmath>
#include <samurai/interval.hpp>
#include "vp.hpp"

using I   = samurai::Interval<int, long long int>;
using i64 = int64_t;
static constexpr int B = 1 << 30;

static I any_interval(int lo = -B, int hi = B)
{
    I r(vp_any_int("start", lo, hi), vp_any_int("end", lo, hi), vp_any_i64("index", -(1LL << 40), 1LL << 40));
    return r;
}

VC(interval_basic)
{
    I a   = any_interval();
    int x = vp_any_int("x", -B, B);
    vp_assert(a.step == 1, "default-step-is-1");
    vp_assert(a.contains(x) == ((a.start <= x) & (x < a.end)), "contains");
    vp_assert(a.is_valid() == (a.start < a.end), "is_valid");
    if ((a.start <= a.end) & (i64(a.end) - i64(a.start) < (i64(1) << 31)))
    {
        vp_assert(static_cast<i64>(a.size()) == i64(a.end) - i64(a.start), "size");
        vp_cover("non-empty");
    }
}

VC(interval_translate)
{
    I a   = any_interval();
    a.step = vp_any_int("step", -B, B);
    int t = vp_any_int("t", -B, B);
    vp_assume((i64(a.start) + t <= B) & (i64(a.start) + t >= -B) & (i64(a.end) + t <= B) & (i64(a.end) + t >= -B));
    vp_assume((i64(a.start) - t <= B) & (i64(a.start) - t >= -B) & (i64(a.end) - t <= B) & (i64(a.end) - t >= -B));
    I b = a + t, c = t + a, d = a - t, e = a, f = a;
    e += t;
    f -= t;
    vp_assert((b.start == a.start + t) & (b.end == a.end + t) & (b.step == a.step) & (b.index == a.index), "add");
    vp_assert((c == b) & (e == b), "add-commutes");
    vp_assert((d.start == a.start - t) & (d.end == a.end - t) & (d.step == a.step) & (d.index == a.index), "sub");
    vp_assert(f == d, "sub-assign");
    vp_assert((b - t) == a, "sub-inverts-add");
}

VC(interval_coarsen)
{
    int s = vp_case("shift", 0, 30);
    I a   = any_interval();
    vp_assume(a.start < a.end);
    i64 p = i64(1) << s;
    I b = a >> static_cast<std::size_t>(s), c = a;
    c >>= static_cast<std::size_t>(s);
    // smallest interval of the coarse level covering the real interval [start, end]
    vp_assert((i64(b.start) * p <= a.start) & (a.start < (i64(b.start) + 1) * p), "coarsen-start-is-floor");
    vp_assert((i64(b.end) * p >= a.end) & (a.end > (i64(b.end) - 1) * p), "coarsen-end-is-ceil");
    vp_assert((b.step == 1) & (b.index == a.index) & (b == c), "coarsen-step-index");
    vp_assert(b.is_valid(), "coarsen-non-empty");
}

VC(interval_refine)
{
    int s = vp_case("shift", 0, 30);
    i64 p = i64(1) << s;
    I a   = any_interval(-static_cast<int>(B / p), static_cast<int>(B / p));
    a.step = vp_any_int("step", -B, B);
    I b = a << static_cast<std::size_t>(s), c = a;
    c <<= static_cast<std::size_t>(s);
    vp_assert((b.start == a.start * p) & (b.end == a.end * p), "refine-scales-bounds");
    vp_assert((b.step == 1) & (b.index == a.index) & (b == c), "refine-step-index");
    if (a.start < a.end)
    {
        a.step = 1;
        vp_assert((b >> static_cast<std::size_t>(s)) == a, "coarsen-inverts-refine");
    }
}

VC(interval_scale)
{
    int m = vp_case("m", -4, 8);
    I a   = any_interval(-B / 8, B / 8);
    a.step = vp_any_int("step", -B / 8, B / 8);
    I b = a * m, c = m * a, d = a;
    d *= m;
    vp_assert((b.start == a.start * m) & (b.end == a.end * m) & (b.step == a.step * m) & (b.index == a.index), "scale");
    vp_assert((c == b) & (d == b), "scale-commutes");
}

VC(interval_parity)
{
    I a   = any_interval();
    int x = vp_any_int("x", -B, B);
    vp_assume(a.start < a.end);
    I e = a.even_elements(), o = a.odd_elements();
    auto visited = [](const I& v, int z)
    {
        return (v.start <= z) & (z < v.end) & ((i64(z) - v.start) % 2 == 0);
    };
    bool in = (a.start <= x) & (x < a.end);
    vp_assert((e.step == 2) & (o.step == 2), "parity-step");
    vp_assert(visited(e, x) == (in & (x % 2 == 0)), "even-elements-exact");
    vp_assert(visited(o, x) == (in & (x % 2 != 0)), "odd-elements-exact");
    vp_assert((e.index == a.index) & (o.index == a.index), "parity-index");
    if (a.is_valid())
    {
        vp_cover("valid");
    }
}

VC(interval_compare)
{
    I a = any_interval(), b = any_interval();
    a.step = vp_any_int("stepa", 1, 4);
    b.step = vp_any_int("stepb", 1, 4);
    bool same = (a.start == b.start) & (a.end == b.end) & (a.step == b.step) & (a.index == b.index);
    vp_assert((a == b) == same, "equality");
    vp_assert((a != b) == !same, "inequality");
    vp_assert((a < b) == (a.start < b.start), "order-by-start");
}

// division: documented as the smallest interval containing the scaled real interval.
// Known finding C01-div: when the scaled right bound is not an integer and lies in a later cell than the left one, it is
// rounded down instead of up ([0,3[ / 2 gives [0,1[).  Everything else follows the documentation.
VC(interval_divide)
{
    int m = vp_case("m", 1, 12);
    I a   = any_interval();
    a.step = vp_any_int("step", -B, B);
    vp_assume(a.start < a.end);
    I b = a / m, c = a, d = m / a;
    c /= m;
    i64 fs = vp_fdiv(a.start, m), fe = vp_fdiv(a.end, m);
    bool known = (fe * m != a.end) & (fs != fe);
    vp_assert(b.start == fs, "divide-start-is-floor");
    vp_assert(vp_implies(!known, (i64(b.end) * m >= a.end) & (a.end > (i64(b.end) - 1) * m)), "divide-end-is-ceil");
    vp_assert(vp_implies(known, b.end == fe), "divide-end-known-finding-exactly");
    vp_assert((b.step == 1) & (b.index == a.index) & (b == c) & (b == d), "divide-step-index");
    if (known)
    {
        vp_cover("known-finding-case");
    }
}

KF(interval_divide_rounds_end_down)
{
    I b = I(0, 3) / 2;
    vp_assert(b.end == 2, "smallest interval containing [0,1.5] ends at 2");
}
