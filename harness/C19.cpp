// vf:rule=one case per lattice; distinct by kind and size, every basis element checked per case; non-trivial from two sites on
// vf:assume=lattices of at most 44 (thorough: 70) sites represent larger ones
#include "algen.hpp"
#include <blaze/Math.h>
#include <ieompp/algebra/monomial.hpp>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/lattices/periodic_square_lattice.hpp>
#include <ieompp/models/hubbard_real_space/basis.hpp>
namespace al = ieompp::algebra;
namespace rs = ieompp::models::hubbard_real_space;

template <typename Lattice>
static void one(vf::Case& c, const Lattice& lat, uint64_t n)
{
    using Op = al::Operator<uint64_t, bool>;
    using B1 = rs::Basis1Operator<al::Monomial<Op>>;
    using B3 = rs::Basis3Operator<al::Monomial<Op>>;
    static_assert(rs::IsOneOperatorBasis<B1>::value && !rs::IsOneOperatorBasis<B3>::value
                      && rs::IsThreeOperatorBasis<B3>::value && !rs::IsThreeOperatorBasis<B1>::value, "");
    const B1 one(lat);
    const B3 three(lat);
    c.check(one.size() == n && one.N == n, "size", "one-operator basis has ", one.size(), " elements, N=", one.N);
    c.check(three.size() == n + n * n * n && three.N == n && three.N_squared == n * n, "size",
            "three-operator basis has ", three.size(), " elements, N=", three.N);
    for(uint64_t i = 0; i < n; ++i) {
        c.check(one[i].size() == 1 && one[i][0] == Op{true, i, true}, "one", "element ", i, " is ", gen::show_ops(one[i]));
        c.check(three[i].size() == 1 && three[i][0] == Op{true, i, true}, "three", "element ", i, " is ", gen::show_ops(three[i]));
    }
    // copies and the conjugated bases are numbered the same way
    const B1 one_copy(one), one_conj = one.get_conjugate();
    c.check(one_copy == one && one_copy.N == n, "copy", "copied one-operator basis has ", one_copy.size(), " elements, N=", one_copy.N);
    c.check(one_conj.size() == n && one_conj.N == n, "conjugate", "conjugated one-operator basis has ", one_conj.size(), " elements, N=", one_conj.N);
    const B3 three_copy(three), three_conj = three.get_conjugate();
    c.check(three_copy == three && three_copy.N == n && three_copy.N_squared == n * n, "copy", "copied three-operator basis has ",
            three_copy.size(), " elements, N=", three_copy.N, ", N_squared=", three_copy.N_squared);
    c.check(three_conj.size() == three.size() && three_conj.N == n && three_conj.N_squared == n * n, "conjugate",
            "conjugated three-operator basis has ", three_conj.size(), " elements, N=", three_conj.N, ", N_squared=", three_conj.N_squared);
    const B1 one_twice   = one_conj.get_conjugate();
    const B3 three_twice = three_conj.get_conjugate();
    c.check(one_twice == one && one_twice.N == n, "twice", "the conjugate of the conjugated one-operator basis is another basis");
    c.check(three_twice == three && three_twice.N == n && three_twice.N_squared == n * n, "twice",
            "the conjugate of the conjugated three-operator basis is another basis");
    for(uint64_t i = 0; i < n; ++i) {
        c.check(one_conj[i].size() == 1 && one_conj[i][0] == Op{false, i, true}, "conjugate", "element ", i, " of the conjugated basis is ", gen::show_ops(one_conj[i]));
        c.check(three_conj[i].size() == 1 && three_conj[i][0] == Op{false, i, true}, "conjugate", "element ", i, " of the conjugated basis is ", gen::show_ops(three_conj[i]));
    }
    uint64_t at = n;
    for(uint64_t i = 0; i < n; ++i) {
        for(uint64_t j = 0; j < n; ++j) {
            for(uint64_t k = 0; k < n; ++k, ++at) {
                auto& m = three[at];
                c.check(m.size() == 3 && m[0] == Op{true, i, true} && m[1] == Op{true, j, false}
                            && m[2] == Op{false, k, false},
                        "three", "element ", at, " is ", gen::show_ops(m), " instead of the product for ", i,
                        ",", j, ",", k);
                c.check(three.get_3op_index(i, j, k) == at, "lookup", "get_3op_index(", i, ",", j, ",", k,
                        ") is ", three.get_3op_index(i, j, k), " instead of ", at);
                c.check(three_copy.get_3op_index(i, j, k) == at && three_conj.get_3op_index(i, j, k) == at, "lookup",
                        "get_3op_index(", i, ",", j, ",", k, ") of a copy is ", three_copy.get_3op_index(i, j, k), " or ",
                        three_conj.get_3op_index(i, j, k), " instead of ", at);
                auto& w = three_conj[at];
                c.check(w.size() == 3 && w[0] == Op{true, k, false} && w[1] == Op{false, j, false} && w[2] == Op{false, i, true},
                        "conjugate", "element ", at, " of the conjugated basis is ", gen::show_ops(w));
                vf::observe("basis_elements");
            }
        }
    }
}
VF_GROUP(chains, 22, 1)
{
    const uint64_t n = c.index + 1;
    c.describe(vf::cat("chain ", n), n > 1);
    one(c, ieompp::lattices::PeriodicChain<double>(n, c.rng.real(0.1, 2)), n);
    one(c, ieompp::lattices::PeriodicChain<double>(n), n);
}
VF_GROUP(squares, 36, 1)
{
    const uint64_t x = 1 + c.index % 6, y = 1 + c.index / 6;
    if(x * y > 24 && !vf::st().thorough) {
        return;
    }
    c.describe(vf::cat("square ", x, "x", y), x * y > 1);
    one(c, ieompp::lattices::PeriodicSquareLattice<double>(x, y, 1., c.rng.real(0.1, 2)), x * y);
}
VF_GROUP(long_chains, 4, 4)
{
    const uint64_t n = c.rng.range(23, vf::st().thorough ? 44 : 30);
    c.describe(vf::cat("chain ", n));
    one(c, ieompp::lattices::PeriodicChain<vf::f32>(n, vf::f32(0.5)), n);
}
// more than 2^16 elements
VF_GROUP(more_than_two_to_sixteen, 2, 8)
{
    const uint64_t n = vf::st().scale < 0.2 ? 9 : c.rng.range(41, vf::st().thorough ? 70 : 44);
    c.describe(vf::cat("chain ", n));
    one(c, ieompp::lattices::PeriodicChain<double>(n, 2.), n);
}
VF_GROUP(one_operator_long, 2, 4)
{
    using Op = al::Operator<uint64_t, bool>;
    const uint64_t n = c.rng.range(65537, 80000);
    c.describe(vf::cat("one-operator basis of ", n, " sites"));
    const rs::Basis1Operator<al::Monomial<Op>> one(ieompp::lattices::PeriodicChain<double>(n, 2.));
    c.check(one.size() == n && one.N == n, "size", "one-operator basis has ", one.size(), " elements, N=", one.N);
    for(uint64_t i = 0; i < n; ++i) {
        c.check(one[i].size() == 1 && one[i][0] == Op{true, i, true}, "one", "element ", i, " is ", gen::show_ops(one[i]));
    }
}
// a basis is an ordinary vector: reordered or changed, its conjugate has the conjugates of what it holds
template <typename B, typename Lattice>
static void changed(vf::Case& c, const Lattice& lat)
{
    auto& r = c.rng;
    B b(lat);
    for(int step = 0; step < 4; ++step) {
        const auto kind = b.empty() ? 4 : r.below(7);
        if(kind < 2) {
            std::swap(b[r.below(b.size())], b[r.below(b.size())]);
        } else if(kind == 2) {
            b.erase(b.begin() + long(r.below(b.size())));
        } else if(kind == 3) {
            b.resize(r.below(b.size()) + (r.coin() ? 0 : b.size()));
        } else if(kind == 4) { // appended or inserted, of any length
            typename B::Monomial m;
            for(auto k = r.below(6); k > 0; --k) {
                m.push_back({r.coin(), r.below(9), r.coin()});
            }
            b.insert(b.begin() + long(r.coin() ? b.size() : r.below(b.size() + 1)), m);
        } else if(b[r.below(b.size())].empty()) {
            b.clear();
        } else {
            auto& m = b[r.below(b.size())];
            if(!m.empty()) {
                m[r.below(m.size())].index1 = r.below(lat.size());
            }
        }
        const B conj = b.get_conjugate();
        c.check(conj.size() == b.size(), "changed", "conjugate has ", conj.size(), " elements");
        for(uint64_t i = 0; i < b.size(); ++i) {
            auto want = b[i];
            want.conjugate();
            c.check(conj[i] == want, "changed", "conjugate of element ", i, " = ", gen::show_ops(b[i]), " is ", gen::show_ops(conj[i]));
        }
        vf::observe("changed_bases");
    }
}
VF_GROUP(changed_bases, 60, 20)
{
    using M          = al::Monomial<al::Operator<uint64_t, bool>>;
    const uint64_t n = c.rng.range(1, 6);
    const ieompp::lattices::PeriodicChain<double> lat(n, 1.);
    c.describe(vf::cat("changed bases ", c.index, " N=", n));
    changed<rs::Basis1Operator<M>>(c, lat);
    changed<rs::Basis3Operator<M>>(c, lat);
}
VF_REQUIRE(changed_bases, 400)
VF_REQUIRE(basis_elements, 100000)
VF_MAIN
