// ground-state expectation values of the momentum-space basis, from Fock-space states only
#ifndef SEA_HPP_
#define SEA_HPP_
#include "fock.hpp"
#include "vf.hpp"

namespace sea
{
    // level energies given directly
    struct Levels {
        using Float = double;
        std::vector<double> e;
        double operator()(uint64_t i) const { return e[i]; }
    };

    // index of the momentum k1 + k2 - q of a grid of nx times ny momenta (x slowest); a chain is n times 1
    inline uint64_t third(uint64_t nx, uint64_t ny, uint64_t k1, uint64_t k2, uint64_t q)
    {
        return (k1 / ny + k2 / ny + nx - q / ny) % nx * ny + (k1 % ny + k2 % ny + ny - q % ny) % ny;
    }

    // <FS| L_i L_j^+ |FS> with L_0 = c+_{q up}, L_i = 2 c+_{k1 up} c+_{k2 dn} c_{k3 dn} + delta(k2,k3) c+_{k1 up};
    // modes: up 0..n-1, down n..2n-1; k3 = k1+k2-q
    inline std::vector<std::vector<double>> gram(uint64_t nx, uint64_t ny, uint64_t q, const std::vector<bool>& filled)
    {
        const uint64_t n = nx * ny;
        uint64_t fs = 0;
        for(uint64_t k = 0; k < n; ++k) {
            if(filled[k]) {
                fs |= (uint64_t(1) << k) | (uint64_t(1) << (n + k));
            }
        }
        auto up = [&](uint64_t k, bool c) { return fock::Op{c, unsigned(k)}; };
        auto dn = [&](uint64_t k, bool c) { return fock::Op{c, unsigned(n + k)}; };
        std::vector<std::map<uint64_t, double>> excited; // L_i^+ |FS>
        auto add = [&](const fock::Product& p, double w, std::map<uint64_t, double>& v) {
            uint64_t m = fs;
            const int s = fock::apply(p, m);
            if(s) {
                v[m] += s * w;
            }
        };
        excited.emplace_back();
        add({up(q, false)}, 1., excited.back());
        for(uint64_t k1 = 0; k1 < n; ++k1) {
            for(uint64_t k2 = 0; k2 < n; ++k2) {
                const uint64_t k3 = third(nx, ny, k1, k2, q);
                excited.emplace_back();
                // adjoint of c+_{k1} c+_{k2} c_{k3} is c+_{k3} c_{k2} c_{k1}
                add({dn(k3, true), dn(k2, false), up(k1, false)}, 2., excited.back());
                if(k2 == k3) {
                    add({up(k1, false)}, 1., excited.back());
                }
            }
        }
        const std::size_t d = excited.size();
        std::vector<std::vector<double>> g(d, std::vector<double>(d, 0.));
        for(std::size_t i = 0; i < d; ++i) {
            for(std::size_t j = 0; j < d; ++j) {
                for(auto& x : excited[i]) {
                    auto it = excited[j].find(x.first);
                    if(it != excited[j].end()) {
                        g[i][j] += x.second * it->second;
                    }
                }
            }
        }
        return g;
    }

    struct Setup {
        uint64_t n, nx, ny, q;
        Levels levels;
        double fermi;
        std::vector<bool> filled;
        std::string text;
    };
    inline Setup draw(vf::Rng& r, unsigned maxn, bool square = false)
    {
        Setup s;
        s.n  = uint64_t(r.range(maxn > 12 ? maxn / 2 : 1, maxn));
        s.nx = s.n, s.ny = 1;
        if(square) {
            do {
                s.nx = r.range(1, 6), s.ny = r.range(1, 6);
            } while(s.nx * s.ny > maxn);
            s.n = s.nx * s.ny;
        }
        s.q     = r.below(s.n);
        s.fermi = r.chance(0.5) ? 0. : r.real(-2.5, 2.5);
        s.text  = vf::cat(square ? vf::cat(s.nx, "x", s.ny) : vf::cat("N=", s.n), " q=", s.q, " E_F=", s.fermi);
        if(r.chance(0.5)) {
            const double J = r.one_of({1., -1., 0.5, 2.});
            s.text += vf::cat(" band J=", J);
            for(uint64_t i = 0; i < s.n; ++i) {
                s.levels.e.push_back(-2 * J * std::cos(-M_PI + double(i / s.ny) * 2 * M_PI / double(s.nx)));
                if(square) {
                    s.levels.e.back() += -2 * J * std::cos(-M_PI + double(i % s.ny) * 2 * M_PI / double(s.ny));
                }
            }
        } else {
            s.text += " levels";
            for(uint64_t i = 0; i < s.n; ++i) {
                s.levels.e.push_back(r.chance(0.15) ? s.fermi : r.real(-3, 3));
                s.text += vf::cat(" ", s.levels.e.back());
            }
        }
        for(auto e : s.levels.e) {
            s.filled.push_back(e < s.fermi);
        }
        return s;
    }
} // namespace sea
#endif
