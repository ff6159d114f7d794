// Oracles for the matrices of the Hubbard Liouvillian, from the definition of the Hamiltonian only:
//  - traces: infinite-temperature scalar products Tr(A^+ B)/Tr(1) evaluated on the Fock space
//  - formulas: the same entries in closed form, for lattices too large for traces
//  - normal ordering: coefficients of normal-ordered products in a commutator, by Wick's theorem
#ifndef LIOU_HPP_
#define LIOU_HPP_
#include "fock.hpp"
#include "vf.hpp"
#include <functional>
#include <tuple>

namespace liou
{
    using Sites   = std::vector<std::vector<unsigned>>; // neighbours of every site, with multiplicity
    using Entries = std::map<std::pair<uint64_t, uint64_t>, double>;

    inline Sites ring(unsigned n)
    {
        Sites s(n);
        for(unsigned i = 0; i < n; ++i) {
            s[i] = {(i + n - 1) % n, (i + 1) % n};
        }
        return s;
    }
    inline Sites torus(unsigned nx, unsigned ny)
    {
        Sites s(nx * ny);
        for(unsigned x = 0; x < nx; ++x) {
            for(unsigned y = 0; y < ny; ++y) {
                s[x * ny + y] = {((x + nx - 1) % nx) * ny + y, ((x + 1) % nx) * ny + y,
                                 x * ny + (y + ny - 1) % ny, x * ny + (y + 1) % ny};
            }
        }
        return s;
    }

    // ---------------------------------------------------------------- closed forms
    inline Entries real_space(const Sites& s, double J, double U)
    {
        const uint64_t n = s.size();
        auto at          = [n](uint64_t i, uint64_t j, uint64_t k) { return n + (i * n + j) * n + k; };
        Entries e;
        for(uint64_t i = 0; i < n; ++i) {
            e[{i, i}] += U / 2;
            e[{i, at(i, i, i)}] += U / 2;
            e[{at(i, i, i), i}] += U / 2;
            for(auto x : s[i]) {
                e[{i, x}] -= J;
            }
            for(uint64_t j = 0; j < n; ++j) {
                for(uint64_t k = 0; k < n; ++k) {
                    const auto a = at(i, j, k);
                    e[{a, a}] += U / 2;
                    for(auto x : s[i]) {
                        e[{a, at(x, j, k)}] -= J;
                    }
                    for(auto x : s[j]) {
                        e[{a, at(i, x, k)}] -= J;
                    }
                    for(auto x : s[k]) {
                        e[{a, at(i, j, x)}] += J;
                    }
                }
            }
        }
        return e;
    }
    inline Entries kinetic(const Sites& s, double J)
    {
        Entries e;
        for(uint64_t i = 0; i < s.size(); ++i) {
            for(auto x : s[i]) {
                e[{i, x}] -= J;
            }
        }
        return e;
    }

    // ---------------------------------------------------------------- traces
    // sparse operators on the Fock space: matrix elements by (to, from)
    using Matrix = std::map<std::pair<uint64_t, uint64_t>, std::complex<double>>;
    inline Matrix matrix(const fock::Sum& s, unsigned modes)
    {
        Matrix m;
        for(uint64_t from = 0; from < (uint64_t(1) << modes); ++from) {
            for(auto& x : fock::act(s, from)) {
                if(x.second != 0.) {
                    m[{x.first, from}] += x.second;
                }
            }
        }
        return m;
    }
    // Tr(A^+ [H, B]) / Tr(1) for all A, B of the basis
    inline std::vector<std::vector<std::complex<double>>> traces(const fock::Sum& h, const std::vector<fock::Sum>& basis,
                                                   unsigned modes)
    {
        const double dim = double(uint64_t(1) << modes);
        std::vector<Matrix> b;
        for(auto& x : basis) {
            b.push_back(matrix(x, modes));
        }
        const Matrix hm = matrix(h, modes);
        std::vector<std::vector<std::pair<uint64_t, std::complex<double>>>> from(uint64_t(1) << modes),
            to(uint64_t(1) << modes);
        for(auto& x : hm) {
            from[x.first.second].emplace_back(x.first.first, x.second);
            to[x.first.first].emplace_back(x.first.second, x.second);
        }
        std::vector<std::vector<std::complex<double>>> r(basis.size(),
                                           std::vector<std::complex<double>>(basis.size()));
        for(std::size_t j = 0; j < b.size(); ++j) {
            Matrix c;
            for(auto& x : b[j]) {
                for(auto& y : from[x.first.first]) { // H B
                    c[{y.first, x.first.second}] += y.second * x.second;
                }
                for(auto& y : to[x.first.second]) { // B H
                    c[{x.first.first, y.first}] -= x.second * y.second;
                }
            }
            for(std::size_t i = 0; i < b.size(); ++i) {
                std::complex<double> sum = 0;
                for(auto& x : b[i]) {
                    auto it = c.find(x.first);
                    if(it != c.end()) {
                        sum += std::conj(x.second) * it->second;
                    }
                }
                r[i][j] = sum / dim;
            }
        }
        return r;
    }
    // modes: up 0..n-1, down n..2n-1
    inline fock::Sum hubbard(const Sites& s, double J, double U)
    {
        const unsigned n = unsigned(s.size());
        fock::Sum h;
        for(unsigned i = 0; i < n; ++i) {
            h.push_back({U, {{true, i}, {false, i}, {true, i + n}, {false, i + n}}});
            for(auto x : s[i]) {
                h.push_back({-J, {{true, i}, {false, x}}});
                h.push_back({-J, {{true, i + n}, {false, x + n}}});
            }
        }
        return h;
    }
    inline fock::Sum orthonormal1(unsigned i) { return {{std::sqrt(2.), {{true, i}}}}; }
    inline fock::Sum orthonormal3(unsigned n, unsigned i, unsigned j, unsigned k)
    {
        fock::Sum s{{2 * std::sqrt(2.), {{true, i}, {true, j + n}, {false, k + n}}}};
        if(j == k) {
            s.push_back({-std::sqrt(2.), {{true, i}}});
        }
        return s;
    }

    // ---------------------------------------------------------------- normal ordering
    struct Op {
        bool creator;
        unsigned site;
        bool up;
        bool operator<(const Op& o) const
        {
            return std::make_tuple(!creator, !up, site) < std::make_tuple(!o.creator, !o.up, o.site);
        }
        bool operator==(const Op& o) const
        {
            return creator == o.creator && up == o.up && site == o.site;
        }
    };
    using Product = std::vector<Op>;
    using Normal  = std::map<Product, double>; // coefficients of normal-ordered products
    using Corr    = std::function<double(unsigned, unsigned)>;

    inline double contraction(const Op& x, const Op& y, const Corr& g)
    {
        if(x.up != y.up || x.creator == y.creator) {
            return 0.;
        }
        return x.creator ? g(x.site, y.site) : (x.site == y.site ? 1. : 0.) - g(y.site, x.site);
    }
    // adds w * (done p[0] p[1] ...) where `done` is to be normal ordered as it stands
    inline void expand(double w, Product done, const Product& p, const Corr& g, Normal& out)
    {
        if(w == 0.) {
            return;
        }
        if(p.empty()) {
            // sort, operators anticommute below the normal ordering; equal ones vanish
            for(std::size_t i = 1; i < done.size(); ++i) {
                for(std::size_t j = i; j > 0 && done[j] < done[j - 1]; --j) {
                    std::swap(done[j], done[j - 1]);
                    w = -w;
                }
            }
            for(std::size_t i = 1; i < done.size(); ++i) {
                if(done[i] == done[i - 1]) {
                    return;
                }
            }
            out[done] += w;
            return;
        }
        Product rest(p.begin() + 1, p.end());
        for(std::size_t j = 1; j < p.size(); ++j) {
            const double c = contraction(p[0], p[j], g);
            if(c != 0.) {
                Product r;
                for(std::size_t k = 1; k < p.size(); ++k) {
                    if(k != j) {
                        r.push_back(p[k]);
                    }
                }
                // operators between the two: j - 1
                expand(w * c * ((j - 1) % 2 ? -1. : 1.), done, r, g, out);
            }
        }
        done.push_back(p[0]);
        expand(w, done, rest, g, out);
    }
    using Poly = std::vector<std::pair<double, Product>>;
    // [H, B] of the Hubbard model near B: only terms sharing a site with B matter
    inline Normal commutator(const Sites& s, double J, double U, const Poly& b, const Corr& g)
    {
        std::set<unsigned> sites;
        for(auto& t : b) {
            for(auto& o : t.second) {
                sites.insert(o.site);
            }
        }
        Poly h;
        for(unsigned i = 0; i < s.size(); ++i) {
            if(sites.count(i)) {
                h.push_back({U, {{true, i, true}, {false, i, true}, {true, i, false}, {false, i, false}}});
            }
            for(auto x : s[i]) {
                if(sites.count(i) || sites.count(x)) {
                    h.push_back({-J, {{true, i, true}, {false, x, true}}});
                    h.push_back({-J, {{true, i, false}, {false, x, false}}});
                }
            }
        }
        Normal r;
        for(auto& x : h) {
            for(auto& y : b) {
                Product p = x.second;
                p.insert(p.end(), y.second.begin(), y.second.end());
                expand(x.first * y.first, {}, p, g, r);
                p = y.second;
                p.insert(p.end(), x.second.begin(), x.second.end());
                expand(-x.first * y.first, {}, p, g, r);
            }
        }
        return r;
    }
} // namespace liou
#endif
