// vf:rule=one case per (lattice, basis kind) and batch of vectors; distinct by that description, non-trivial from two sites on
// vf:assume=lattices of at most 60, some of up to 4000, sites represent larger ones
// vf:threads=4
#include "vf.hpp"
#include <omp.h>
#include <blaze/Math.h>
#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/operator.hpp>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/models/hubbard_real_space/fermi_jump_no.hpp>
#ifndef VF_PLAIN
#include <hubbard/real_space/fermi_jump_no.hpp>
#endif
namespace al = ieompp::algebra;
namespace rs = ieompp::models::hubbard_real_space;
using Op     = al::Operator<uint64_t, bool>;
using M      = al::Monomial<Op>;
using cd     = std::complex<double>;
using ld     = long double;
using Chain  = ieompp::lattices::PeriodicChain<double, uint64_t>;

template <typename Basis, typename V>
static void one(vf::Case& c, unsigned maxn, const char* name)
{
    auto& r     = c.rng;
    using F     = typename std::decay<decltype(std::declval<V&>()[0])>::type::value_type;
    using Chain = ieompp::lattices::PeriodicChain<F, uint64_t>;
    const double least = sizeof(F) == 4 ? 1e-35 : 1e-295; // below, numbers lose precision
    // rounding errors in units of those of double precision; the momentum is one of double precision at most
    const double units = std::max(1., double(std::numeric_limits<F>::epsilon()) / std::numeric_limits<double>::epsilon());
    struct Item {
        Chain lattice;
        Basis basis;
        std::vector<F> g;
        rs::FermiJump1D_NO<F, Basis> jump;
        Item(const Chain& chain, const std::vector<F>& values)
            : lattice(chain), basis(lattice), g(values),
              jump(lattice, [this](const Op& a, const Op& b) { return g[a.index1 * lattice.size() + b.index1]; })
        {
        }
    };
    std::vector<std::unique_ptr<Item>> items;
    std::string text = name;
    for(uint64_t k = r.range(1, 3); k > 0; --k) {
        const uint64_t n = r.range(c.index % 50 == 7 ? maxn : 1, c.index % 50 == 7 ? maxn * (maxn > 9 ? 70 : 2) : maxn);
        // a third of the chains do not begin at the origin
        const Chain chain = r.chance(0.35) ? Chain(n) : Chain(n, F(r.chance(0.5) ? 1. : r.real(0.1, 3)));
        std::vector<F> g(n * n);
        for(auto& x : g) {
            x = F(r.real(-1, 1));
        }
        omp_set_num_threads(int(r.range(1, 8)));
        items.emplace_back(new Item(chain, g));
        text += vf::cat(" N=", n, " x_0=", chain[uint64_t(0)], " dx=", chain.dx());
    }
    c.describe(text, items[0]->lattice.size() > 1);
    for(int k = 0; k < 6; ++k) {
        auto& it           = *items[r.below(items.size())];
        const uint64_t n   = it.lattice.size();
        const double most  = sizeof(F) == 4 ? 12 : 120;
        const double scale = r.chance(0.7) ? 1. : std::pow(10., r.real(-most, most));
        V h(it.basis.size());
        for(std::size_t i = 0; i < it.basis.size(); ++i) {
            h[i] = std::complex<F>(F(r.real(-1, 1) * scale), F(r.real(-1, 1) * scale));
        }
        vf::shape(r, h);
        const V before(h);
        std::complex<ld> sum = 0;
        ld size              = 0;
        const ld origin      = it.lattice.x_min() == 0 ? 0 : -acosl(-1.L);
        for(uint64_t i = 0; i < n; ++i) {
            const ld a = acosl(-1.L) / 2 * (origin + ld(i) * ld(it.lattice.dx()));
            sum += std::polar(1.L, a) * std::complex<ld>(h[i].real(), h[i].imag());
            size += ld(std::abs(h[i])) * (1 + std::abs(a));
            c.near(cd(it.jump.fourier_coefficient(i)), cd(std::polar(1.L, a)), units * 1e-14 * double(2 + std::abs(a)), "coefficient",
                   "phase of site ", i);
            const uint64_t j = r.below(n);
            c.check(it.jump.expectation_value(Op{true, i, true}, Op{false, j, true}) == it.g[i * n + j], "expectation",
                    "expectation value of ", i, ",", j);
        }
        const int threads = int(r.range(1, 8));
        omp_set_num_threads(threads);
        const double got = double(r.chance(0.3) ? vf::passed(r, it.jump)(h) : it.jump(h));
        c.near(got, double(std::norm(sum)), units * double(size * size * 1e-14L) + least, "value", "jump for N=", n, " with ", threads, " threads");
        for(std::size_t i = 0; i < it.basis.size(); ++i) {
            c.check(h[i] == before[i], "input-changed", "coefficient ", i);
        }
        vf::observe("jumps");
    }
}
VF_GROUP(one_operator, 400, 60) { one<rs::Basis1Operator<M>, std::vector<cd>>(c, 60, "one-operator"); }
VF_GROUP(three_operators, 200, 60) { one<rs::Basis3Operator<M>, std::vector<cd>>(c, 9, "three-operator"); }
VF_GROUP(three_operators_blaze, 150, 60) { one<rs::Basis3Operator<M>, blaze::DynamicVector<cd>>(c, 9, "three-operator blaze"); }
#ifndef VF_PLAIN
VF_GROUP(single_precision, 150, 60) { one<rs::Basis1Operator<M>, std::vector<std::complex<vf::f32>>>(c, 40, "one-operator, single precision"); }
VF_GROUP(single_precision_three, 80, 60) { one<rs::Basis3Operator<M>, blaze::DynamicVector<std::complex<vf::f32>>>(c, 9, "three-operator, single precision"); }
VF_GROUP(extended_precision, 80, 60) { one<rs::Basis3Operator<M>, std::vector<std::complex<ld>>>(c, 9, "three-operator, extended precision"); }
// the observable as the programs set it up
template <typename Basis>
static void helper(vf::Case& c, uint64_t n)
{
    auto& r = c.rng;
    static const std::vector<spdlog::sink_ptr> none;
    get_loggers().main = std::make_shared<spdlog::logger>("main", none.begin(), none.end());
    const Chain lattice = r.chance(0.3) ? Chain(n) : Chain(n, r.coin() ? 1. : r.real(0.1, 3));
    const Basis basis(lattice);
    std::vector<double> g(n * n);
    for(auto& x : g) {
        x = r.real(-1, 1);
    }
    const auto ev = [&](uint64_t a, uint64_t b) { return g[a * n + b]; };
    auto jump     = init_fermi_jump(basis, lattice, ev);
    const rs::FermiJump1D_NO<double, Basis> direct(lattice, [](const Op&, const Op&) { return 0.; });
    std::vector<cd> h(basis.size());
    for(auto& x : h) {
        x = cd(r.real(-1, 1), r.real(-1, 1));
    }
    vf::shape(r, h);
    omp_set_num_threads(int(r.range(1, 8)));
    c.near(jump(h), direct(h), 1e-13 * double(n * n), "helper-value", "jump of N=", n);
    for(uint64_t i = 0; i < n; ++i) {
        for(uint64_t j = 0; j < n; ++j) {
            c.check(jump.expectation_value(Op{r.coin(), i, true}, Op{r.coin(), j, false}) == g[i * n + j], "helper-expectation",
                    "expectation value of ", i, ",", j);
        }
    }
    vf::observe("helpers");
}
VF_GROUP(helpers, 60, 30)
{
    const uint64_t n = c.rng.range(1, 7);
    const bool three = c.rng.coin();
    c.describe(vf::cat("program observable N=", n, three ? " three-operator #" : " one-operator #", c.index), n > 1);
    three ? helper<rs::Basis3Operator<M>>(c, n) : helper<rs::Basis1Operator<M>>(c, n);
}
VF_REQUIRE(helpers, 60)
#endif
VF_REQUIRE(jumps, 3000)
VF_MAIN
