// quasi-free (Gaussian) states: expectation values of operator products by Wick's theorem, and
// Slater determinants on a Fock space to cross-check it
#ifndef WICK_HPP_
#define WICK_HPP_
#include "fock.hpp"
#include "vf.hpp"

namespace wick
{
    struct Op {
        bool creator;
        unsigned site;
        bool up;
    };
    using Product = std::vector<Op>;
    using Matrix  = std::vector<std::vector<double>>; // g[a][b] = <c+_a c_b>, the same for both spins

    inline double pair(const Op& x, const Op& y, const Matrix& g)
    {
        if(x.up != y.up || x.creator == y.creator) {
            return 0.;
        }
        return x.creator ? g[x.site][y.site] : (x.site == y.site ? 1. : 0.) - g[y.site][x.site];
    }

    // <p[0] p[1] ... p[n-1]>
    inline double expect(const Product& p, const Matrix& g)
    {
        if(p.empty()) {
            return 1.;
        }
        if(p.size() % 2) {
            return 0.;
        }
        double sum = 0;
        int sign   = 1;
        for(std::size_t j = 1; j < p.size(); ++j, sign = -sign) {
            const double w = pair(p[0], p[j], g);
            if(w != 0.) {
                Product rest;
                for(std::size_t k = 1; k < p.size(); ++k) {
                    if(k != j) {
                        rest.push_back(p[k]);
                    }
                }
                sum += sign * w * expect(rest, g);
            }
        }
        return sum;
    }

    // sum of weighted products
    using Poly = std::vector<std::pair<double, Product>>;
    inline Poly operator*(const Poly& a, const Poly& b)
    {
        Poly r;
        for(auto& x : a) {
            for(auto& y : b) {
                Product p = x.second;
                p.insert(p.end(), y.second.begin(), y.second.end());
                r.emplace_back(x.first * y.first, p);
            }
        }
        return r;
    }
    inline Poly adjoint(const Poly& a)
    {
        Poly r;
        for(auto& x : a) {
            Product p(x.second.rbegin(), x.second.rend());
            for(auto& o : p) {
                o.creator = !o.creator;
            }
            r.emplace_back(x.first, p);
        }
        return r;
    }
    inline double expect(const Poly& a, const Matrix& g)
    {
        double s = 0;
        for(auto& x : a) {
            s += x.first * expect(x.second, g);
        }
        return s;
    }

    // the orthonormal basis elements sqrt(2) c+_i and 2 sqrt(2) c+_i (c+_j c_k - delta_jk/2)
    inline Poly element1(unsigned i) { return {{std::sqrt(2.), {{true, i, true}}}}; }
    inline Poly element3(unsigned i, unsigned j, unsigned k)
    {
        Poly p{{2 * std::sqrt(2.), {{true, i, true}, {true, j, false}, {false, k, false}}}};
        if(j == k) {
            p.push_back({-std::sqrt(2.), {{true, i, true}}});
        }
        return p;
    }

    // random real orthonormal vectors of dimension n
    inline Matrix orthonormal(vf::Rng& r, unsigned n)
    {
        Matrix v;
        while(v.size() < n) {
            std::vector<double> x(n);
            for(auto& e : x) {
                e = r.real(-1, 1);
            }
            for(auto& o : v) {
                double s = 0;
                for(unsigned i = 0; i < n; ++i) {
                    s += o[i] * x[i];
                }
                for(unsigned i = 0; i < n; ++i) {
                    x[i] -= s * o[i];
                }
            }
            double s = 0;
            for(auto e : x) {
                s += e * e;
            }
            if(s < 1e-3) {
                continue;
            }
            for(auto& e : x) {
                e /= std::sqrt(s);
            }
            v.push_back(x);
        }
        return v;
    }

    // Slater determinant of the given real orbitals for both spins as a Fock-space vector;
    // modes: up 0..n-1, down n..2n-1
    inline std::map<uint64_t, double> slater(const Matrix& orbitals, unsigned n)
    {
        std::map<uint64_t, double> v{{0, 1.}};
        for(unsigned spin = 0; spin < 2; ++spin) {
            for(auto& o : orbitals) {
                std::map<uint64_t, double> w;
                for(auto& x : v) {
                    for(unsigned i = 0; i < n; ++i) {
                        uint64_t m  = x.first;
                        const int s = fock::apply({{true, i + spin * n}}, m);
                        if(s) {
                            w[m] += s * o[i] * x.second;
                        }
                    }
                }
                v = w;
            }
        }
        return v;
    }
    inline double expect_in(const std::map<uint64_t, double>& state, const Poly& a, unsigned n)
    {
        double sum = 0;
        for(auto& x : state) {
            for(auto& t : a) {
                fock::Product p;
                for(auto& o : t.second) {
                    p.push_back({o.creator, o.site + (o.up ? 0 : n)});
                }
                uint64_t m  = x.first;
                const int s = fock::apply(p, m);
                auto it     = s ? state.find(m) : state.end();
                if(it != state.end()) {
                    sum += t.first * s * x.second * it->second;
                }
            }
        }
        return sum;
    }
} // namespace wick
#endif
