// vf:rule=one case per list of terms; distinct by the rendered list, non-trivial when some operator product occurs at least twice among different ones
// vf:assume=lists of at most 40, some of up to 600, terms represent longer ones
#include "algen.hpp"
#include <ieompp/algebra/term/list.hpp>
namespace al = ieompp::algebra;

template <typename T>
struct Less {
    bool operator()(const T& a, const T& b) const
    {
        if(a.operators.size() != b.operators.size()) {
            return a.operators.size() < b.operators.size();
        }
        auto j = b.operators.begin();
        for(auto& x : a.operators) {
            auto& y = *j++;
            if(x.creator != y.creator) {
                return x.creator;
            }
            const auto s = gen::tuple_of(x), t = gen::tuple_of(y);
            if(s != t) {
                return s < t;
            }
        }
        return false;
    }
};
template <typename P>
static P integral(vf::Rng& r)
{
    return P(double(r.range(-3, 3)));
}
template <>
std::complex<double> integral(vf::Rng& r)
{
    const double a = double(r.range(-3, 3));
    return {a, double(r.range(-3, 3))};
}

template <typename In, typename Out>
static void one(vf::Case& c)
{
    using T  = typename In::value_type;
    auto& r  = c.rng;
    In in;
    std::vector<T> plain;
    const unsigned d = unsigned(r.range(1, 3)), maxlen = unsigned(r.range(0, 3));
    std::string s;
    const bool longer = c.index % 10 == 3; // long products that differ in one place only
    for(uint64_t n = r.below(c.index % 200 == 7 ? 601 : r.chance(0.1) ? 41 : 9); n > 0; --n) {
        T t{integral<typename T::Prefactor>(r),
            gen::draw_ops<typename T::Container>(r, longer ? unsigned(r.range(9, 24)) : unsigned(r.below(maxlen + 1)), d)};
        if(!plain.empty() && r.chance(0.4)) {
            t.operators = plain[r.below(plain.size())].operators;
            if(longer && r.coin()) {
                auto o = t.operators.begin();
                std::advance(o, r.below(t.operators.size()));
                o->creator ^= true;
            } else if(!t.operators.empty() && r.chance(0.3)) {
                t.operators.front().creator ^= true;
            }
        }
        plain.push_back(t);
        in.push_back(t);
        s += gen::show_term(t) + " ";
    }
    std::map<T, typename T::Prefactor, Less<T>> want;
    bool repeated = false;
    for(auto& t : plain) {
        auto it = want.find(t);
        if(it == want.end()) {
            want[t] = t.prefactor;
        } else {
            it->second += t.prefactor;
            repeated = true;
        }
    }
    Out out;
    std::vector<T> before;
    for(uint64_t n = r.below(3); n > 0; --n) {
        before.push_back(T{integral<typename T::Prefactor>(r),
                           gen::draw_ops<typename T::Container>(r, unsigned(r.below(3)), d)});
        out.push_back(before.back());
    }
    c.describe(s + "into a container of " + std::to_string(before.size()),
               repeated && want.size() > 1);
    vf::observe("terms", plain.size());
    vf::observe("merged", plain.size() - want.size());
    al::copy_as_unique_terms(in, out);
    auto show = [&] {
        std::string x;
        for(auto& t : out) {
            x += "\n    " + gen::show_term(t);
        }
        return x;
    };
    auto k = plain.begin();
    for(auto& t : in) {
        c.check(t.prefactor == k->prefactor && t.operators == k->operators, "input-changed",
                "the input changed");
        ++k;
    }
    c.check(out.size() == before.size() + want.size(), "size", "result has ", out.size(),
            " entries instead of ", before.size(), "+", want.size(), ":", show());
    auto it = out.begin();
    for(auto& t : before) {
        c.check(it->prefactor == t.prefactor && it->operators == t.operators, "content",
                "content of the result container changed:", show());
        ++it;
    }
    for(auto& w : want) {
        c.check(it->operators == w.first.operators, "operators", "expected ",
                gen::show_ops(w.first.operators), " at its place in", show());
        c.check(it->prefactor == w.second, "prefactor", "prefactor of ",
                gen::show_ops(w.first.operators), " should be ", w.second, " in", show());
        ++it;
    }
}
using S   = std::string;
using O1  = al::Operator<int>;
using O2  = al::Operator<uint64_t, bool>;
using O3  = al::Operator<int, int, bool>;
using OS  = al::Operator<S, bool>;
using cd  = std::complex<double>;
VF_GROUP(lists, 6000, 150)
{
    switch(c.index % 6) {
        case 0: one<std::vector<al::Term<double, O1>>, std::vector<al::Term<double, O1>>>(c); break;
        case 1: one<std::vector<al::Term<cd, O2>>, vf::other_list<al::Term<cd, O2>>>(c); break;
        case 2: one<vf::other_list<al::Term<cd, O3>>, std::vector<al::Term<cd, O3>>>(c); break;
        case 3: one<std::vector<al::Term<double, OS>>, std::vector<al::Term<double, OS>>>(c); break;
        case 4: one<vf::other_deque<al::Term<int, O2>>, vf::other_deque<al::Term<int, O2>>>(c); break;
        default:
            one<std::vector<al::Term<double, O2, vf::other_list<O2>>>,
                std::vector<al::Term<double, O2, vf::other_list<O2>>>>(c);
    }
}
VF_REQUIRE(merged, 2000)
VF_MAIN
