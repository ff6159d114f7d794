// Fock-space (Jordan-Wigner) oracle: exact action of fermionic operator products on basis states.
// Written from the definition of fermionic operators only; uses none of the library's code.
#ifndef FOCK_HPP_
#define FOCK_HPP_
#include <complex>
#include <cstdint>
#include <map>
#include <vector>

namespace fock
{
    using cplx = std::complex<double>;

    struct Op {
        bool creator;
        unsigned mode;
    };
    using Product = std::vector<Op>;
    struct WTerm {
        cplx w;
        Product ops;
    };
    using Sum = std::vector<WTerm>;

    // apply to |mask>; returns the sign (0: vanishes), rightmost operator first
    inline int apply(const Product& p, uint64_t& mask)
    {
        int sign = 1;
        for(auto it = p.rbegin(); it != p.rend(); ++it) {
            const uint64_t bit = uint64_t(1) << it->mode;
            if(bool(mask & bit) == it->creator) {
                return 0;
            }
            if(__builtin_popcountll(mask & (bit - 1)) & 1) {
                sign = -sign;
            }
            mask ^= bit;
        }
        return sign;
    }

    inline Product concat(const Product& a, const Product& b)
    {
        Product r = a;
        r.insert(r.end(), b.begin(), b.end());
        return r;
    }

    // sum of the terms applied to |mask>
    inline std::map<uint64_t, cplx> act(const Sum& s, uint64_t mask)
    {
        std::map<uint64_t, cplx> r;
        for(auto& t : s) {
            uint64_t m = mask;
            int sign   = apply(t.ops, m);
            if(sign) {
                r[m] += double(sign) * t.w;
            }
        }
        return r;
    }

    // largest deviation between two sums over all states of `modes` modes
    inline double distance(const Sum& a, const Sum& b, unsigned modes)
    {
        double dev = 0;
        for(uint64_t m = 0; m < (uint64_t(1) << modes); ++m) {
            auto x = act(a, m);
            for(auto& y : act(b, m)) {
                x[y.first] -= y.second;
            }
            for(auto& y : x) {
                const double d = std::abs(y.second);
                if(!(d <= dev)) {
                    dev = d;
                }
            }
        }
        return dev;
    }

    inline bool is_null(const Sum& a, unsigned modes)
    {
        for(uint64_t m = 0; m < (uint64_t(1) << modes); ++m) {
            for(auto& y : act(a, m)) {
                if(std::abs(y.second) > 1e-12) {
                    return false;
                }
            }
        }
        return true;
    }

    // [A, B] = AB - BA
    inline Sum commutator(const Sum& a, const Sum& b)
    {
        Sum r;
        for(auto& x : a) {
            for(auto& y : b) {
                r.push_back({x.w * y.w, concat(x.ops, y.ops)});
                r.push_back({-x.w * y.w, concat(y.ops, x.ops)});
            }
        }
        return r;
    }

    // numbers the modes in order of appearance
    template <typename Key>
    struct Modes {
        std::map<Key, unsigned> ids;
        unsigned operator()(const Key& k)
        {
            return ids.emplace(k, unsigned(ids.size())).first->second;
        }
        unsigned size() const { return unsigned(ids.size()); }
    };
} // namespace fock
#endif
