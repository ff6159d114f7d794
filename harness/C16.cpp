// vf:rule=one case per history of iterator operations; distinct by type, start values and operations, non-trivial when the value changed at least once
// vf:assume=histories of at most 60 operations represent longer ones; signed values stay in range
#include "vf.hpp"
#include <algorithm>
#include <numeric>
#include <utility>
#include <ieompp/iterators/integer_iterator.hpp>

template <typename T, bool Const>
static void history(vf::Case& c, const char* name)
{
    using It = ieompp::iterators::IntegerIterator<T, Const>;
    using D  = typename It::difference_type;
    auto& r  = c.rng;
    static_assert(std::is_same<typename It::value_type, T>::value, "");
    static_assert(std::is_same<typename std::iterator_traits<It>::iterator_category,
                               std::random_access_iterator_tag>::value, "");
    static_assert(std::is_same<typename std::iterator_traits<It>::reference,
                               typename std::conditional<Const, const T&, T&>::type>::value, "");
    auto draw = [&]() -> T {
        // far from the middle of the type, with room for the steps below
        const int bits = int(sizeof(T) * 8) - 4;
        if(std::is_signed<T>::value) {
            return r.chance(0.3) ? T(r.range(-(int64_t(1) << bits), int64_t(1) << bits)) : T(r.range(-100000, 100000));
        }
        return r.chance(0.3) ? T(~T(0) - T(r.below(50))) : r.coin() ? T(r.below(uint64_t(1) << r.range(1, bits))) : T(r.below(100000));
    };
    const T s0 = draw(), s1 = r.coin() ? T(s0 + T(r.range(-3, 3))) : draw();
    It a(s0), b(s1);
    T ma = s0, mb = s1;
    std::string log = vf::cat(name, " a=", s0, " b=", s1, ":");
    bool changed    = false;
    c.describe(log, false);
    auto chk = [&](bool ok, const char* op, const T& got, const T& want) {
        c.check(ok, op, "after ", log, " got ", got, " instead of ", want);
    };
    for(uint64_t n = r.range(1, 60); n > 0; --n) {
        const int64_t most = r.chance(0.2) ? int64_t(1) << (sizeof(T) * 8 - 11) : 40;
        const D d          = D(r.range(std::is_signed<T>::value ? -most : 0, most));
        const T before = ma;
        switch(r.below(15)) {
            case 0: {
                log += " ++a";
                It& x = ++a;
                ++ma;
                chk(&x == &a, "pre-increment", *x, ma);
                break;
            }
            case 1: {
                log += " a++";
                It x = a++;
                chk(*x == ma, "post-increment", *x, ma);
                ++ma;
                break;
            }
            case 2: {
                log += " --a";
                It& x = --a;
                --ma;
                chk(&x == &a, "pre-decrement", *x, ma);
                break;
            }
            case 3: {
                log += " a--";
                It x = a--;
                chk(*x == ma, "post-decrement", *x, ma);
                --ma;
                break;
            }
            case 4: {
                log += vf::cat(" a+=", d);
                It& x = a += d;
                ma += d;
                chk(&x == &a, "plus-assign", *x, ma);
                break;
            }
            case 5: {
                log += vf::cat(" a-=", d);
                It& x = a -= d;
                ma -= d;
                chk(&x == &a, "minus-assign", *x, ma);
                break;
            }
            case 6: {
                const It k(a);
                It x = k + d, y = d + k;
                chk(*x == T(ma + d), "plus", *x, T(ma + d));
                chk(*y == T(ma + d), "plus", *y, T(ma + d));
                chk(*a == ma, "plus", *a, ma);
                break;
            }
            case 7: {
                const It k(a);
                It x = k - d;
                chk(*x == T(ma - d), "minus", *x, T(ma - d));
                It y = d - k;
                chk(*y == T(d - ma), "difference-minus-iterator", *y, T(d - ma));
                break;
            }
            case 8: {
                const It k(a), l(b);
                chk(k - l == D(ma - mb), "distance", T(k - l), T(ma - mb));
                c.check(std::distance(l, k) == std::ptrdiff_t(D(ma - mb)), "distance", "std::distance after ", log);
                c.check((k < l) == (ma < mb) && (k > l) == (ma > mb) && (k <= l) == (ma <= mb)
                            && (k >= l) == (ma >= mb) && (k == l) == (ma == mb) && (k != l) == (ma != mb),
                        "comparison", "comparisons of ", ma, " and ", mb, " after ", log);
                c.check(!(k < k) && !(k > k) && k <= k && k >= k && k == k && !(k != k), "comparison",
                        "self-comparison of ", ma);
                vf::observe("comparisons");
                break;
            }
            case 9: {
                log += " swap";
                a.swap(a);
                chk(*a == ma, "self-swap", *a, ma);
                a.swap(b);
                std::swap(ma, mb);
                break;
            }
            case 10: {
                log += " std::swap";
                using std::swap;
                swap(b, b);
                chk(*b == mb, "self-swap", *b, mb);
                swap(a, b);
                std::swap(ma, mb);
                break;
            }
            case 11: {
                log += " b=a";
                It& x = b = a;
                mb    = ma;
                chk(&x == &b, "assignment", *x, mb);
                break;
            }
            case 12: chk(a[d] == T(ma + d), "subscript", a[d], T(ma + d)); break;
            case 13: {
                log += vf::cat(" advance ", d);
                a = std::next(a, d);
                ma += d;
                break;
            }
            default: {
                log += " a=a";
                It& x = a;
                a     = x;
                break;
            }
        }
        changed |= before != ma;
        chk(*a == ma, "value", *a, ma);
        chk(*b == mb, "value", *b, mb);
        vf::observe("operations");
    }
    c.describe(log, changed);
}

template <typename T, bool Const>
static void ranges(vf::Case& c, const char* name)
{
    using It  = ieompp::iterators::IntegerIterator<T, Const>;
    auto& r   = c.rng;
    const T a = T(r.below(1000)), n = T(r.below(60)), b = T(a + n);
    c.describe(vf::cat(name, " range ", a, "..", b), n > 0);
    std::vector<T> want, got;
    for(T i = a; i != b; ++i) {
        want.push_back(i);
    }
    for(It i(a); i != It(b); ++i) {
        got.push_back(*i);
        c.check(got.size() <= want.size(), "range", "pre-increment loop runs past the end");
    }
    c.check(got == want, "range", "pre-increment loop");
    got.clear();
    for(It i(a); i < It(b);) {
        got.push_back(*i++);
        c.check(got.size() <= want.size(), "range", "post-increment loop runs past the end");
    }
    c.check(got == want, "range", "post-increment loop");
    got.clear();
    for(It i(b); i > It(a);) {
        got.push_back(*--i);
        c.check(got.size() <= want.size(), "range", "backward loop runs past the end");
    }
    std::reverse(got.begin(), got.end());
    c.check(got == want, "range", "backward loop");
    got.assign(It(a), It(b));
    c.check(got == want, "range", "container construction");
    c.check(std::accumulate(It(a), It(b), uint64_t(0)) == std::accumulate(want.begin(), want.end(), uint64_t(0)),
            "range", "accumulate");
    if(n > 0) {
        const T x = T(a + T(r.below(uint64_t(n))));
        c.check(*std::lower_bound(It(a), It(b), x) == x, "range", "lower_bound of ", x);
        c.check(*std::find(It(a), It(b), x) == x, "range", "find of ", x);
    }
    vf::observe("ranges");
}

VF_GROUP(history_uint64_const, 1500, 100) { history<uint64_t, true>(c, "uint64 const"); }
VF_GROUP(history_uint64, 1500, 100) { history<uint64_t, false>(c, "uint64"); }
VF_GROUP(history_uint32, 1000, 100) { history<vf::u32, true>(c, "uint32 const"); }
VF_GROUP(history_int, 1500, 100) { history<int, false>(c, "int"); }
VF_GROUP(history_int64_const, 1500, 100) { history<int64_t, true>(c, "int64 const"); }
VF_GROUP(ranges_uint64, 500, 100) { ranges<uint64_t, true>(c, "uint64 const"); }
VF_GROUP(ranges_int, 500, 100) { ranges<int, false>(c, "int"); }
// writes through the dereferenced iterator reach the iterator
VF_GROUP(writable, 300, 50)
{
    using It     = ieompp::iterators::IntegerIterator<int, false>;
    const int a = int(c.rng.range(-99, 99)), b = int(c.rng.range(-99, 99));
    c.describe(vf::cat("write ", b, " over ", a), a != b);
    It i(a), j(i);
    *i = b;
    c.check(*i == b && *j == a, "write", "values after the write are ", *i, ",", *j);
    ++*i;
    c.check(*i == b + 1 && (i - It(0)) == b + 1, "write", "value after increment through * is ", *i);
}
VF_REQUIRE(operations, 100000)
VF_REQUIRE(ranges, 500)
VF_REQUIRE(comparisons, 5000)
VF_MAIN
