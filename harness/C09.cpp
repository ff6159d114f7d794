// vf:rule=one case per multiset of deltas, brought into canonical order from several permutations and orientations; distinct by the multiset, non-trivial with at least two different deltas
// vf:assume=up to 120 deltas represent longer lists (all 6! permutations and 2^n orientations of short lists are tried)
#include "algen.hpp"
#include <ieompp/symbolic/prefactor.hpp>
namespace al = ieompp::algebra;
namespace sy = ieompp::symbolic;
using Pair   = std::pair<std::string, std::string>;

static std::string name(vf::Rng& r, unsigned d)
{
    static const char* n[] = {"i", "j", "k", "a", "ab", "b", "B", "i1", "i10", "i2", "", "\xcf\x83", "1", "10", "2"};
    return n[r.below(d)];
}
template <typename P>
static std::string show(const P& p)
{
    std::string s = vf::cat(p.value);
    for(auto& k : p.kroneckers) {
        s += " d(" + k.a + "," + k.b + ")";
    }
    return s;
}
static Pair sorted(const al::Kronecker& k)
{
    return k.a <= k.b ? Pair{k.a, k.b} : Pair{k.b, k.a};
}

VF_GROUP(single, 3000, 50)
{
    auto& r = c.rng;
    const bool some = r.coin(); // names of the letters a and b only: different pairs are the same when strung together
    auto word = [&] {
        if(!some) {
            return name(r, 15);
        }
        std::string s;
        for(uint64_t n = r.below(4); n > 0; --n) {
            s += r.coin() ? 'a' : 'b';
        }
        return s;
    };
    al::Kronecker x{word(), word()}, y{word(), word()};
    if(some && r.coin()) { // another cut of the same letters
        const std::string all = r.coin() ? x.a + x.b : x.b + x.a;
        const auto at         = r.below(all.size() + 1);
        y = {all.substr(0, at), all.substr(at)};
    } else switch(r.below(4)) {
        case 0: y = {x.b, x.a}; break;
        case 1: y = {x.a, y.b}; break;
        case 2: y = {y.a, x.a}; break;
        default:;
    }
    c.describe("d(" + x.a + "," + x.b + ") d(" + y.a + "," + y.b + ")");
    const bool eq = sorted(x) == sorted(y);
    c.check((x == y) == eq && (y == x) == eq, "==", "== gives ", x == y);
    c.check((x != y) == !eq && (y != x) == !eq, "!=", "!= gives ", x != y);
    al::Kronecker z = x;
    z.order();
    c.check(Pair(z.a, z.b) == sorted(x), "order", "order() gives d(", z.a, ",", z.b, ")");
    c.check(z == x && x == z, "==", "ordered delta differs from itself");
    al::Kronecker w = z;
    w.order();
    c.check(w.a == z.a && w.b == z.b, "idempotent", "ordering twice differs");
    const auto m = al::make_kronecker(x.a, x.b);
    c.check(m.a == x.a && m.b == x.b, "make", "make_kronecker gives d(", m.a, ",", m.b, ")");
    const int p = int(r.range(-20, 20)), q = int(r.range(-20, 20));
    const auto n = al::make_kronecker(p, q);
    c.check(n.a == std::to_string(p) && n.b == std::to_string(q), "make",
            "make_kronecker(", p, ",", q, ") gives d(", n.a, ",", n.b, ")");
    vf::observe(eq ? "equal" : "different");
}

template <typename V>
static void multiset(vf::Case& c)
{
    using P = sy::Prefactor<V>;
    auto& r = c.rng;
    std::vector<al::Kronecker> ks;
    const unsigned d = unsigned(r.range(2, 15));
    for(uint64_t n = r.below(r.chance(0.2) ? 9 : 6); n > 0; --n) {
        al::Kronecker k{name(r, d), name(r, d)};
        if(!ks.empty() && r.chance(0.3)) {
            k = ks[r.below(ks.size())];
        }
        ks.push_back(k);
    }
    std::vector<Pair> want;
    for(auto& k : ks) {
        want.push_back(sorted(k));
    }
    std::sort(want.begin(), want.end());
    const V val = gen::Pref<V>::draw(r);
    std::string s;
    for(auto& w : want) {
        s += "d(" + w.first + "," + w.second + ") ";
    }
    c.describe(s, std::set<Pair>(want.begin(), want.end()).size() > 1);
    auto judge = [&](const std::vector<al::Kronecker>& list) {
        P p{val, {}};
        for(auto& k : list) {
            p *= k;
        }
        const P p0 = p;
        p.order_kroneckers();
        vf::observe("orderings");
        c.check(p.value == val, "value", "value changed from ", show(p0), " to ", show(p));
        c.check(p.kroneckers.size() == want.size(), "size", "deltas lost: ", show(p0), " to ",
                show(p));
        for(std::size_t i = 0; i < want.size(); ++i) {
            c.check(Pair(p.kroneckers[i].a, p.kroneckers[i].b) == want[i], "canonical",
                    show(p0), " is ordered to ", show(p));
        }
        const P q = p;
        p.order_kroneckers();
        for(std::size_t i = 0; i < want.size(); ++i) {
            c.check(p.kroneckers[i].a == q.kroneckers[i].a && p.kroneckers[i].b == q.kroneckers[i].b,
                    "idempotent", "ordering twice differs: ", show(q), " to ", show(p));
        }
    };
    if(ks.size() <= 4) {
        // every permutation and orientation
        std::vector<std::size_t> idx(ks.size());
        for(std::size_t i = 0; i < idx.size(); ++i) {
            idx[i] = i;
        }
        do {
            for(unsigned o = 0; o < (1u << ks.size()); ++o) {
                std::vector<al::Kronecker> l;
                for(std::size_t i = 0; i < idx.size(); ++i) {
                    auto k = ks[idx[i]];
                    if(o >> i & 1) {
                        std::swap(k.a, k.b);
                    }
                    l.push_back(k);
                }
                judge(l);
            }
        } while(std::next_permutation(idx.begin(), idx.end()));
    } else {
        for(int t = 0; t < 20; ++t) {
            auto l = ks;
            for(std::size_t i = l.size(); i > 1; --i) {
                std::swap(l[i - 1], l[r.below(i)]);
            }
            for(auto& k : l) {
                if(r.coin()) {
                    std::swap(k.a, k.b);
                }
            }
            judge(l);
        }
    }
}
VF_GROUP(multisets, 800, 60)
{
    c.index % 2 ? multiset<double>(c) : multiset<std::complex<double>>(c);
}
// long lists with many repetitions, where sorting takes other paths
VF_GROUP(long_lists, 300, 60)
{
    auto& r = c.rng;
    sy::Prefactor<double> p{2., {}};
    const unsigned d = unsigned(r.range(1, 15)), kinds = unsigned(r.range(1, 6)), n = unsigned(r.range(15, 120));
    std::vector<al::Kronecker> some;
    for(unsigned i = 0; i < kinds; ++i) {
        const auto a = name(r, d);
        some.push_back({a, name(r, d)});
    }
    std::vector<Pair> want;
    for(unsigned i = 0; i < n; ++i) {
        auto k = some[r.below(kinds)];
        if(r.coin()) {
            std::swap(k.a, k.b);
        }
        p *= k;
        want.push_back(sorted(k));
    }
    std::sort(want.begin(), want.end());
    std::string s = std::to_string(n) + ":";
    for(auto& w : want) {
        s += " " + w.first + "," + w.second;
    }
    c.describe(s, kinds > 1);
    p.order_kroneckers();
    c.check(p.kroneckers.size() == n && p.value == 2., "size", "deltas lost among ", n);
    for(unsigned i = 0; i < n; ++i) {
        c.check(Pair(p.kroneckers[i].a, p.kroneckers[i].b) == want[i], "canonical", "delta ", i, " of ", n, " is d(",
                p.kroneckers[i].a, ",", p.kroneckers[i].b, ") instead of d(", want[i].first, ",", want[i].second, ")");
    }
    vf::observe("long_lists");
}
VF_REQUIRE(long_lists, 200)
VF_REQUIRE(orderings, 10000)
VF_REQUIRE(equal, 300)
VF_REQUIRE(different, 300)
VF_MAIN
