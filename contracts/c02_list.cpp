// C02: inserting intervals and points in a list keeps the exact union, in canonical form
#include <cmath>
#include <samurai/list_of_intervals.hpp>
#include "vp.hpp"

using L   = samurai::ListOfIntervals<int, long long int>;
using I   = typename L::interval_t;
using i64 = int64_t;
static constexpr int B = 1 << 28;

static bool in(const I& a, int x)
{
    return (a.start <= x) & (x < a.end);
}

static bool member(const L& l, int x)
{
    bool r = false;
    for (const auto& i : l)
    {
        r = r | in(i, x);
    }
    return r;
}

// sorted, non-empty, disjoint and non-adjacent
static bool canonical(const L& l)
{
    bool ok       = true;
    bool first    = true;
    i64 prev      = 0;
    std::size_t n = 0;
    for (const auto& i : l)
    {
        ok    = ok & (i.start < i.end) & (first | (prev < i.start)) & (i.step == 1);
        prev  = i.end;
        first = false;
        ++n;
    }
    return ok & (n == l.size());
}

// one insertion in an arbitrary canonical list of k intervals
template <int K>
static void insert_step()
{
    L l;
    I prev(0, 0);
    int k = vp_case("k", 0, K);
    for (int q = 0; q < k; ++q)
    {
        I a(vp_any_int("s", -B, B), vp_any_int("e", -B, B));
        vp_assume(a.start < a.end);
        if (q > 0)
        {
            vp_assume(prev.end < a.start);
        }
        l.add_interval(a);
        prev = a;
    }
    int x      = vp_any_int("x", -B, B);
    bool was   = member(l, x);
    std::size_t n0 = l.size();
    vp_assert(n0 == static_cast<std::size_t>(k), "disjoint-intervals-are-kept-apart");
    bool pt = vp_any_bool("point");
    I a(vp_any_int("as", -B, B), vp_any_int("ae", -B, B));
    if (pt)
    {
        l.add_point(a.start);
        a.end = a.start + 1;
    }
    else
    {
        l.add_interval(a);
    }
    vp_assert(canonical(l), "canonical-form");
    vp_assert(member(l, x) == (was | in(a, x)), "exact-union");
    if (a.start >= a.end)
    {
        vp_assert(l.size() == n0, "empty-interval-ignored");
        vp_cover("empty");
    }
    if (l.size() < n0)
    {
        vp_cover("merge");
    }
    if (l.size() > n0)
    {
        vp_cover("insert");
    }
}

//@opt vc_list_insert_step bound=lists of at most 4 intervals before the insertion (coordinates unbounded)
VC(list_insert_step)
{
    insert_step<4>();
}

//@opt vc_list_insert_step_deep tier=thorough time=800 cost=9 bound=lists of at most 8 intervals before the insertion (coordinates unbounded)
VC(list_insert_step_deep)
{
    insert_step<8>();
}

// an arbitrary history of insertions from the empty list
template <int N>
static void history()
{
    L l;
    int x    = vp_any_int("x", -B, B);
    bool was = false;
    vp_assert(l.empty() & (l.size() == 0), "starts-empty");
    for (int q = 0; q < N; ++q)
    {
        I a(vp_any_int("s", -B, B), vp_any_int("e", -B, B));
        l.add_interval(a);
        was = was | in(a, x);
        vp_assert(canonical(l), "canonical-form");
        vp_assert(member(l, x) == was, "exact-union");
    }
    vp_assert(l.empty() == (l.begin() == l.end()), "empty");
}

//@opt vc_list_history bound=histories of 3 insertions
VC(list_history)
{
    history<3>();
}

//@opt vc_list_history_deep tier=thorough time=800 cost=9 bound=histories of 4 insertions
VC(list_history_deep)
{
    history<4>();
}

// order of insertion does not matter
//@opt vc_list_order_independent bound=two insertions
VC(list_order_independent)
{
    I a(vp_any_int("as", -B, B), vp_any_int("ae", -B, B)), b(vp_any_int("bs", -B, B), vp_any_int("be", -B, B));
    L l, m;
    l.add_interval(a);
    l.add_interval(b);
    m.add_interval(b);
    m.add_interval(a);
    bool same = l.size() == m.size();
    vp_assert(same, "same-number-of-intervals");
    if (same)
    {
        auto p = l.begin();
        auto q = m.begin();
        for (; p != l.end(); ++p, ++q)
        {
            same = same & (p->start == q->start) & (p->end == q->end);
        }
        vp_assert(same, "same-intervals");
    }
}

// long random histories on a small line
//@opt bc_list_long time=6 max=20000
BC(list_long)
{
    L l;
    bool ref[64] = {};
    int n        = vp_case("n", 1, 40);
    for (int q = 0; q < n; ++q)
    {
        int s = vp_any_int("s", 0, 62), e = s + vp_any_int("len", 0, 6);
        e = e > 63 ? 63 : e;
        l.add_interval(I(s - 31, e - 31));
        for (int x = s; x < e; ++x)
        {
            ref[x] = true;
        }
        vp_assert(canonical(l), "canonical-form");
        for (int x = 0; x < 64; ++x)
        {
            vp_assert(member(l, x - 31) == ref[x], "exact-union");
        }
    }
}
