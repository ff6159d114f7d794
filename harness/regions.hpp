// Operations with parallel regions on objects of random kinds and sizes, as closures over what they need.
#ifndef REGIONS_HPP_
#define REGIONS_HPP_
#include "vf.hpp"
#include <blaze/Math.h>
#include <Eigen/Dense>
#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/operator.hpp>
#include <ieompp/algebra/term.hpp>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/lattices/periodic_square_lattice.hpp>
#include <ieompp/models/hubbard/dispersion.hpp>
#include <ieompp/models/hubbard_momentum_space/basis.hpp>
#include <ieompp/models/hubbard_momentum_space/particle_number.hpp>
#include <ieompp/models/hubbard_real_space/expectation_value.hpp>
#include <ieompp/models/hubbard_real_space/fermi_jump/1d.hpp>
#include <ieompp/models/hubbard_real_space/fermi_jump/2d.hpp>
#include <ieompp/models/hubbard_real_space/fermi_jump_no.hpp>
#include <ieompp/models/hubbard_real_space/site_occupation.hpp>
#include <ieompp/ode/rk4.hpp>
#include <ieompp/types/blaze.hpp>
#include <ieompp/types/function_matrix.hpp>
#include <ieompp/types/matrix_check.hpp>
#include <ieompp/types/eigen/multiply_assign.hpp>
namespace al = ieompp::algebra;
namespace rs = ieompp::models::hubbard_real_space;
namespace ms = ieompp::models::hubbard_momentum_space;
namespace hb = ieompp::models::hubbard;
namespace ty = ieompp::types;
using Op     = al::Operator<uint64_t, bool>;
using M      = al::Monomial<Op>;
using T      = al::Term<double, Op>;
using B1     = rs::Basis1Operator<M>;
using B3     = rs::Basis3Operator<M>;
using K3     = ms::Basis3Operator<M>;
using cd     = std::complex<double>;
using Chain  = ieompp::lattices::PeriodicChain<double, uint64_t>;
using Square = ieompp::lattices::PeriodicSquareLattice<double, uint64_t>;
using Vec    = std::vector<cd>;
using BVec   = blaze::DynamicVector<cd>;
using Values = std::vector<double>; // observed numbers; the first `exact` ones must not depend on rounding

struct Work {
    std::string text;
    double tol = 0; // relative to the largest value; 0: identical
    std::function<Values()> run;
};

template <typename V>
static V coefficients(vf::Rng& r, std::size_t d)
{
    V v(d);
    for(std::size_t i = 0; i < d; ++i) {
        v[i] = cd(r.real(-1, 1), r.real(-1, 1));
    }
    return v;
}
template <typename Basis>
static Values content(const Basis& b)
{
    Values v;
    for(auto& m : b) {
        v.push_back(double(m.size()));
        for(auto& o : m) {
            v.push_back(double(o.index1));
            v.push_back(double(o.creator) + 2 * double(o.index2));
        }
    }
    return v;
}
struct Table { // read-only correlations
    uint64_t n;
    std::vector<double> g;
    Table(vf::Rng& r, uint64_t k) : n(k), g(k * k)
    {
        for(uint64_t i = 0; i < n; ++i) {
            for(uint64_t j = 0; j <= i; ++j) {
                g[i * n + j] = g[j * n + i] = r.real(-0.5, 1);
            }
        }
    }
    double operator()(const Op& a, const Op& b) const { return g[a.index1 * n + b.index1]; }
};

static const unsigned KINDS = 20;
// everything the closures need is shared and read-only
static Work draw(vf::Rng& r, unsigned kind, bool share)
{
    Work w;
    const uint64_t n = r.chance(0.2) ? r.range(1, 3) : r.range(2, 40), small = r.range(1, 4);
    const double dx = r.coin() ? 1. : r.real(0.2, 2), J = r.real(-2, 2), fill = r.coin() ? 0.5 : r.unit();
    switch(kind) {
        case 0: {
            auto space = std::make_shared<Chain>(n);
            auto lat   = std::make_shared<Chain>(n, dx);
            auto d     = std::make_shared<hb::Dispersion<double>>(*space, *lat, J);
            w.text     = vf::cat("dispersion of a chain of ", n);
            w.run      = [=] {
                Values v;
                if(share) {
                    for(uint64_t i = 0; i < n; ++i) {
                        v.push_back((*d)(i));
                    }
                }
                const hb::Dispersion<double> own(*space, *lat, J);
                for(uint64_t i = 0; i < n; ++i) {
                    v.push_back(own(i));
                }
                return v;
            };
            break;
        }
        case 1: {
            const uint64_t ny = r.range(1, 8), nx = r.range(1, 8);
            auto space = std::make_shared<Square>(nx, ny);
            auto lat   = std::make_shared<Square>(nx, ny, dx, 1.);
            w.text     = vf::cat("dispersion of a ", nx, "x", ny, " lattice");
            w.run      = [=] {
                Values v;
                const auto own = hb::make_dispersion(*space, *lat, J);
                for(uint64_t i = 0; i < nx * ny; ++i) {
                    v.push_back(own(i));
                }
                return v;
            };
            break;
        }
        case 2: {
            auto b = std::make_shared<B1>(Chain(n, dx));
            w.text = vf::cat("conjugate of the one-operator basis of ", n);
            w.run  = [=] { return content(b->get_conjugate()); };
            break;
        }
        case 3: {
            auto lat = std::make_shared<Chain>(r.range(1, 8), dx);
            auto b   = std::make_shared<B3>(*lat);
            w.text   = vf::cat("three-operator basis of ", lat->size(), " and its conjugate");
            w.run    = [=] {
                Values v = content(b->get_conjugate());
                for(double x : content(B3(*lat))) {
                    v.push_back(x);
                }
                return v;
            };
            break;
        }
        case 4: {
            const uint64_t k = r.range(1, 14), q = r.below(k);
            auto space = std::make_shared<Chain>(k);
            auto b     = std::make_shared<K3>(q, *space);
            w.text     = vf::cat("momentum basis of ", k, " at ", q, " and its conjugate");
            w.run      = [=] {
                Values v = content(b->get_conjugate());
                K3 own(q, *space);
                own.conjugate();
                for(double x : content(own)) {
                    v.push_back(x);
                }
                return v;
            };
            break;
        }
        case 5: {
            auto lat = std::make_shared<Chain>(n, dx);
            auto ev  = std::make_shared<rs::ExpectationValue1DHalfFilled<double, Chain>>(*lat, fill, fill * M_PI);
            w.text   = vf::cat("expectation values of a chain of ", n);
            w.run    = [=] {
                Values v;
                const rs::ExpectationValue1DHalfFilled<double, Chain> own(*lat, fill, fill * M_PI);
                for(uint64_t i = 0; i < n; ++i) {
                    for(uint64_t j = 0; j < n; j += 3) {
                        v.push_back(own(i, j));
                        v.push_back((*ev)(i, j));
                    }
                }
                return v;
            };
            break;
        }
        case 6: {
            const uint64_t nx = r.range(1, 7), ny = r.range(1, 7);
            auto lat = std::make_shared<Square>(nx, ny, dx, 1.);
            auto ev  = std::make_shared<rs::ExpectationValue2DHalfFilled<double, Square>>(*lat);
            w.text   = vf::cat("expectation values of a ", nx, "x", ny, " lattice");
            w.run    = [=] {
                Values v;
                const rs::ExpectationValue2DHalfFilled<double, Square> own(*lat);
                for(uint64_t i = 0; i < nx * ny; ++i) {
                    for(uint64_t j = 0; j < nx * ny; j += 2) {
                        v.push_back(own(i, j));
                        v.push_back((*ev)(i, j));
                    }
                }
                return v;
            };
            break;
        }
        case 7: {
            auto b    = std::make_shared<B1>(Chain(n, dx));
            auto conj = std::make_shared<B1>(b->get_conjugate());
            auto occ  = std::make_shared<rs::SiteOccupation<double, B1>>(
                rs::SiteOccupation<double, B1>{Table(r, n), std::cref(*b), std::cref(*conj)});
            auto h = std::make_shared<Vec>(coefficients<Vec>(r, b->size()));
            w.text = vf::cat("occupation, one-operator basis of ", n);
            w.tol  = 1e-12;
            w.run  = [=] { return Values{(void(b), void(conj), (*occ)(*h))}; };
            break;
        }
        case 8:
        case 9: {
            auto lat  = std::make_shared<Chain>(r.range(1, kind == 8 ? 4 : 3), dx);
            auto b    = std::make_shared<B3>(*lat);
            auto conj = std::make_shared<B3>(b->get_conjugate());
            auto ev   = std::make_shared<rs::ExpectationValue1DHalfFilled<double, Chain>>(*lat, fill, fill * M_PI);
            const bool table = r.coin();
            const Table t(r, lat->size());
            rs::SiteOccupation<double, B3> o{
                [=](const Op& x, const Op& y) { return table ? t(x, y) : (*ev)(x.index1, y.index1); }, std::cref(*b),
                std::cref(*conj)};
            o.exploit_inversion_symmetry = kind == 8;
            auto occ = std::make_shared<rs::SiteOccupation<double, B3>>(o);
            auto h   = std::make_shared<BVec>(coefficients<BVec>(r, b->size()));
            w.text   = vf::cat("occupation, three-operator basis of ", lat->size(), kind == 8 ? " with inversion symmetry" : "");
            w.tol    = 1e-11;
            w.run    = [=] { return Values{(void(b), void(conj), void(lat), (*occ)(*h))}; };
            break;
        }
        case 10: {
            auto lat = std::make_shared<Chain>(n, dx);
            auto b   = std::make_shared<B1>(*lat);
            auto j   = std::make_shared<rs::FermiJump1D<double, B1>>(*lat, Table(r, n), r.real(-3, 3));
            auto h   = std::make_shared<Vec>(coefficients<Vec>(r, b->size()));
            w.text   = vf::cat("Fermi jump, one-operator basis of ", n);
            w.tol    = 1e-12;
            w.run    = [=] { return Values{(*j)(*b, *h)}; };
            break;
        }
        case 11: {
            auto lat = std::make_shared<Chain>(r.range(1, 7), dx);
            auto b   = std::make_shared<B3>(*lat);
            auto j   = std::make_shared<rs::FermiJump1D<double, B3>>(*b, *lat, Table(r, lat->size()), r.real(-3, 3));
            auto h   = std::make_shared<BVec>(coefficients<BVec>(r, b->size()));
            w.text   = vf::cat("Fermi jump, three-operator basis of ", lat->size());
            w.tol    = 1e-12;
            w.run    = [=] { return Values{(void(b), void(lat), (*j)(*h))}; };
            break;
        }
        case 12: {
            auto lat = std::make_shared<Square>(r.range(1, 3), r.range(1, 3), dx, 1.);
            auto b   = std::make_shared<B3>(*lat);
            auto j   = std::make_shared<rs::FermiJump2D<double, B3>>(*b, *lat, Table(r, lat->size()),
                                                                     typename Square::Vector{r.real(-3, 3), r.real(-3, 3)});
            auto h   = std::make_shared<Vec>(coefficients<Vec>(r, b->size()));
            w.text   = vf::cat("Fermi jump in 2D, ", lat->size(), " sites");
            w.tol    = 1e-12;
            w.run    = [=] { return Values{(void(b), void(lat), (*j)(*h))}; };
            break;
        }
        case 13: {
            auto lat = std::make_shared<Chain>(n, dx);
            auto j   = std::make_shared<rs::FermiJump1D_NO<double, B1>>(*lat, Table(r, n));
            auto h   = std::make_shared<Vec>(coefficients<Vec>(r, n));
            w.text   = vf::cat("normal-ordered Fermi jump, one-operator basis of ", n);
            w.tol    = 1e-12;
            w.run    = [=] { return Values{(void(lat), (*j)(*h))}; };
            break;
        }
        case 14: {
            auto lat = std::make_shared<Chain>(r.range(1, 7), dx);
            const Table t(r, lat->size());
            auto h   = std::make_shared<BVec>(coefficients<BVec>(r, lat->size() * (1 + lat->size() * lat->size())));
            w.text   = vf::cat("normal-ordered Fermi jump, three-operator basis of ", lat->size());
            w.tol    = 1e-12;
            w.run    = [=] {
                const rs::FermiJump1D_NO<double, B3> own(*lat, t);
                return Values{own(*h)};
            };
            break;
        }
        case 15: {
            const uint64_t k = r.range(1, 7), q = r.below(k);
            auto space = std::make_shared<Chain>(k);
            auto b     = std::make_shared<K3>(q, *space);
            auto conj  = std::make_shared<K3>(b->get_conjugate());
            auto d     = std::make_shared<hb::Dispersion<double>>(*space, Chain(k, 1.), 1.);
            auto num   = std::make_shared<ms::ParticleNumber<double, K3>>(*b, *conj, *d, 0.1);
            auto h     = std::make_shared<Vec>(coefficients<Vec>(r, b->size()));
            w.text     = vf::cat("particle number of ", k, " at ", q);
            w.run      = [=] {
                Values v{(*num)(*h)};
                if(share) {
                    const ms::ParticleNumber<double, K3> own(*b, *conj, *d, 0.1);
                    v.push_back(own(*h));
                }
                return v;
            };
            w.tol = 1e-12;
            break;
        }
        case 16:
        case 17:
        case 18: {
            const uint64_t d = r.chance(0.2) ? r.range(1, 3) : r.range(2, 30), s = r();
            auto entry       = [s](uint64_t i, uint64_t j) {
                vf::Rng x(s + i * 1000 + j);
                return cd(x.real(-1, 1), x.real(-1, 1));
            };
            const auto h = coefficients<Vec>(r, d);
            w.text       = vf::cat(kind == 16 ? "Blaze" : kind == 17 ? "Eigen" : "RK4 with a", " function matrix of ", d);
            w.tol        = 1e-13;
            w.run        = [=] {
                const ty::FunctionMatrix<cd, uint64_t> f(d, d, entry);
                const ty::FunctionMatrix<cd, int> g(int(d), int(d), [=](int i, int j) { return entry(uint64_t(i), uint64_t(j)); });
                Values v;
                if(kind == 17) {
                    Eigen::Matrix<cd, Eigen::Dynamic, 1> x(long(d), 1);
                    for(uint64_t i = 0; i < d; ++i) {
                        x(long(i)) = h[i];
                    }
                    ty::multiply_assign(g, x);
                    for(uint64_t i = 0; i < d; ++i) {
                        v.push_back(x(long(i)).real());
                        v.push_back(x(long(i)).imag());
                    }
                } else {
                    BVec x(d);
                    for(uint64_t i = 0; i < d; ++i) {
                        x[i] = h[i];
                    }
                    if(kind == 16) {
                        ty::multiply_assign(f, x);
                    } else {
                        const ieompp::ode::RK4<double> rk(d, 0.01);
                        rk.step(f, x);
                        rk.step(f, x);
                    }
                    for(uint64_t i = 0; i < d; ++i) {
                        v.push_back(x[i].real());
                        v.push_back(x[i].imag());
                    }
                }
                return v;
            };
            break;
        }
        default: {
            // the algebra and the lattices open no region, but may be shared by the callers
            auto term = std::make_shared<T>(T{2.5, {Op{true, 1, true}, Op{true, 2, false}, Op{false, r.below(9), false}}});
            auto lat  = std::make_shared<Square>(small + 1, small + 2, dx, 1.);
            auto k    = std::make_shared<K3>(0, Chain(small + 1));
            w.text    = "terms, lattices and lookups";
            w.run     = [=] {
                Values v;
                auto t = *term;
                t.conjugate();
                std::ostringstream o;
                o << t << *term;
                v.push_back(double(vf::hash_str(o.str()) % 1000003));
                for(uint64_t i = 0; i < lat->size(); ++i) {
                    for(auto x : lat->neighbors(i)) {
                        v.push_back(double(x));
                    }
                    v.push_back(double((*lat)((*lat)[i])));
                    v.push_back(double(lat->lattice_distance_x(i, 0)));
                }
                for(auto& m : *k) {
                    v.push_back(double(k->get_3op_index(m[0].index1, m.size() > 1 ? m[1].index1 : 0)));
                }
                auto prod = *term * *term;
                v.push_back(prod.prefactor);
                return v;
            };
        }
    }
    return w;
}
#endif
