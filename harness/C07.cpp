// vf:rule=one case per set of operators or terms whose pairs and triples are all judged; distinct by the rendered set, non-trivial when it has two different members
// vf:assume=index domains of up to 6 values and terms of up to 14 operators represent larger ones
#include "algen.hpp"
#include <algorithm>
namespace al = ieompp::algebra;

// reference: three-way comparison from the definition
template <typename Op>
static int cmp_op(const Op& a, const Op& b)
{
    if(a.creator != b.creator) {
        return a.creator ? -1 : 1;
    }
    const auto x = gen::tuple_of(a), y = gen::tuple_of(b);
    return x < y ? -1 : y < x ? 1 : 0;
}
template <typename T>
static int cmp_term(const T& a, const T& b)
{
    if(a.operators.size() != b.operators.size()) {
        return a.operators.size() < b.operators.size() ? -1 : 1;
    }
    auto j = b.operators.begin();
    for(auto& o : a.operators) {
        const int r = cmp_op(o, *j++);
        if(r) {
            return r;
        }
    }
    return 0;
}

template <typename X, typename Smaller, typename Greater, typename Cmp, typename Show>
static void axioms(vf::Case& c, const std::vector<X>& xs, Cmp cmp, Show show)
{
    const Smaller smaller{};
    const Greater greater{};
    const auto n = xs.size();
    std::vector<std::vector<int>> lt(n, std::vector<int>(n));
    for(std::size_t i = 0; i < n; ++i) {
        for(std::size_t j = 0; j < n; ++j) {
            const bool s = smaller(xs[i], xs[j]), g = greater(xs[i], xs[j]);
            const int want = cmp(xs[i], xs[j]);
            c.check(s == (want < 0), "smaller", "smaller(", show(xs[i]), ", ", show(xs[j]),
                    ") gives ", s);
            c.check(g == (want > 0), "greater", "greater(", show(xs[i]), ", ", show(xs[j]),
                    ") gives ", g);
            c.check(g == smaller(xs[j], xs[i]), "reverse", "greater is not the reverse of smaller for ",
                    show(xs[i]), " and ", show(xs[j]));
            lt[i][j] = s;
            vf::observe(want ? "ordered_pairs" : "equal_pairs");
        }
    }
    for(std::size_t i = 0; i < n; ++i) {
        for(std::size_t j = 0; j < n; ++j) {
            for(std::size_t k = 0; k < n; ++k) {
                c.check(!(lt[i][j] && lt[j][k]) || lt[i][k], "transitive",
                        "not transitive: ", show(xs[i]), " ", show(xs[j]), " ", show(xs[k]));
            }
        }
    }
    vf::observe("triples", n * n * n);
    // sorting gives one sequence, whatever the initial order
    auto a = xs, b = xs;
    for(std::size_t i = n; i > 1; --i) {
        std::swap(b[i - 1], b[c.rng.below(i)]);
    }
    std::sort(a.begin(), a.end(), smaller);
    std::stable_sort(b.begin(), b.end(), smaller);
    auto d = xs;
    std::sort(d.begin(), d.end(), greater);
    for(std::size_t i = 0; i < n; ++i) {
        c.check(cmp(a[i], b[i]) == 0, "sort", "sorted sequences differ at ", i);
        c.check(cmp(a[i], d[n - 1 - i]) == 0, "sort", "sorting with greater is not the reverse at ",
                i);
        c.check(i == 0 || cmp(a[i - 1], a[i]) <= 0, "sort", "not ascending at ", i);
    }
}

template <typename Op>
static void ops_case(vf::Case& c)
{
    auto& r = c.rng;
    std::vector<Op> xs;
    const unsigned d = unsigned(r.range(1, 6));
    std::string s;
    bool nontrivial = false;
    for(uint64_t n = r.range(2, 9); n > 0; --n) {
        Op o = gen::OpTraits<Op>::draw(r, d);
        if(!xs.empty() && r.chance(0.25)) {
            o = xs[r.below(xs.size())];
            o.creator ^= r.coin();
        }
        nontrivial |= !xs.empty() && cmp_op(xs[0], o);
        xs.push_back(o);
        s += gen::show(o) + " ";
    }
    c.describe(s, nontrivial);
    axioms<Op, al::OperatorSmaller<Op>, al::OperatorGreater<Op>>(c, xs, cmp_op<Op>, gen::show_one_op<Op>);
}
template <typename T>
static void terms_case(vf::Case& c)
{
    auto& r = c.rng;
    using Op = typename T::Operator;
    std::vector<T> xs;
    const unsigned d = unsigned(r.range(1, 4));
    const bool large = r.chance(0.15);
    std::string s;
    bool nontrivial = false;
    for(uint64_t n = r.range(2, 8); n > 0; --n) {
        T t{gen::Pref<typename T::Prefactor>::draw(r),
            gen::draw_ops<typename T::Container>(r, unsigned(r.below(large ? 14 : 4)), d)};
        if(!xs.empty() && r.chance(0.5)) {
            // differ in one place only
            t.operators = xs[r.below(xs.size())].operators;
            if(large && r.chance(0.3)) {
                for(uint64_t k = r.below(4); k > 0 && !t.operators.empty(); --k) {
                    t.operators.pop_back();
                }
            } else if(!t.operators.empty() && r.coin()) {
                auto it = t.operators.begin();
                std::advance(it, r.below(t.operators.size()));
                *it = gen::OpTraits<Op>::draw(r, d);
            } else if(r.chance(0.3)) {
                t.operators.push_back(gen::OpTraits<Op>::draw(r, d));
            }
        }
        nontrivial |= !xs.empty() && cmp_term(xs[0], t);
        xs.push_back(t);
        s += gen::show_term(t) + " ";
    }
    c.describe(s, nontrivial);
    axioms<T, al::TermSmaller<T>, al::TermGreater<T>>(c, xs, cmp_term<T>, gen::show_term<T>);
}

// exhaustive: all operators over a 2-3 valued domain
template <typename Op, typename... V>
static void all_ops(vf::Case& c, std::vector<Op> xs)
{
    std::string s = "all of ";
    for(auto& o : xs) {
        s += gen::show(o) + " ";
    }
    c.describe(s);
    axioms<Op, al::OperatorSmaller<Op>, al::OperatorGreater<Op>>(c, xs, cmp_op<Op>, gen::show_one_op<Op>);
}
VF_GROUP(exhaustive, 4, 1)
{
    if(c.index == 0) {
        std::vector<al::Operator<int>> v;
        for(int k = 0; k < 2; ++k)
            for(int i = -2; i < 4; ++i) v.push_back({k == 1, i});
        all_ops(c, v);
    } else if(c.index == 1) {
        std::vector<al::Operator<uint64_t, bool>> v;
        for(int k = 0; k < 2; ++k)
            for(uint64_t i = 0; i < 5; ++i)
                for(int s = 0; s < 2; ++s) v.push_back({k == 1, i * 0x4000000000000000ull + i, s == 1});
        all_ops(c, v);
    } else if(c.index == 2) {
        std::vector<al::Operator<int, int, bool>> v;
        for(int k = 0; k < 2; ++k)
            for(int i = 0; i < 3; ++i)
                for(int j = -1; j < 2; ++j)
                    for(int s = 0; s < 2; ++s) v.push_back({k == 1, std::make_tuple(i, j, s == 1)});
        all_ops(c, v);
    } else {
        std::vector<al::Operator<int, int, int, int>> v;
        for(int m = 0; m < 32; ++m)
            v.push_back({(m & 16) != 0, std::make_tuple(m & 1, m >> 1 & 1, m >> 2 & 1, m >> 3 & 1)});
        all_ops(c, v);
    }
}
using S = std::string;
VF_GROUP(operators, 2500, 100)
{
    switch(c.index % 10) {
        case 6: ops_case<al::Operator<uint64_t, uint64_t>>(c); break;
        case 7: ops_case<al::Operator<int, double>>(c); break;
        case 8: ops_case<al::Operator<bool, int, int, char, bool, int>>(c); break;
        case 9: ops_case<al::Operator<S, unsigned, S, uint64_t, bool>>(c); break;
        case 0: ops_case<al::Operator<int>>(c); break;
        case 1: ops_case<al::Operator<uint64_t, bool>>(c); break;
        case 2: ops_case<al::Operator<int, uint64_t, bool>>(c); break;
        case 3: ops_case<al::Operator<S, bool>>(c); break;
        case 4: ops_case<al::Operator<S>>(c); break;
        default: ops_case<al::Operator<int, char, S, bool>>(c);
    }
}
VF_GROUP(terms, 1500, 100)
{
    switch(c.index % 5) {
        case 0: terms_case<al::Term<double, al::Operator<int>>>(c); break;
        case 1: terms_case<al::Term<std::complex<double>, al::Operator<uint64_t, bool>>>(c); break;
        case 2: terms_case<al::Term<double, al::Operator<int, uint64_t, bool>>>(c); break;
        case 3:
            terms_case<al::Term<double, al::Operator<S, bool>, vf::other_list<al::Operator<S, bool>>>>(c);
            break;
        default: terms_case<al::Term<double, al::Operator<S>>>(c);
    }
}
VF_REQUIRE(ordered_pairs, 20000)
VF_REQUIRE(equal_pairs, 5000)
VF_REQUIRE(triples, 100000)
VF_MAIN
