// generators and renderers of algebra objects, shared by the algebra harnesses
#ifndef ALGEN_HPP_
#define ALGEN_HPP_
#include "vf.hpp"
#include "fock.hpp"

#include <complex>
#include <deque>
#include <list>

#include <ieompp/algebra/operator.hpp>
#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/term.hpp>

namespace gen
{
    using ieompp::algebra::Operator;

    template <typename T>
    struct Value; // small: draw from a small domain
    template <>
    struct Value<bool> {
        static bool draw(vf::Rng& r, unsigned) { return r.coin(); }
    };
    template <>
    struct Value<int> {
        static int draw(vf::Rng& r, unsigned d)
        {
            const int v = int(r.below(d));
            return v == 3 ? 2147483600 : v == 4 ? -2147483600 : v - 1;
        }
    };
    template <>
    struct Value<unsigned> {
        static unsigned draw(vf::Rng& r, unsigned d) { return unsigned(r.below(d)); }
    };
    template <>
    struct Value<uint64_t> {
        static uint64_t draw(vf::Rng& r, unsigned d)
        {
            const auto v = r.below(d);
            return v == 1 ? 0xfffffffffffffffeull : v == 2 ? 0x100000001ull : v;
        }
    };
    template <>
    struct Value<int64_t> {
        static int64_t draw(vf::Rng& r, unsigned d)
        {
            const auto v = r.below(d);
            return v == 1 ? -9000000000000000000ll : int64_t(v);
        }
    };
    template <>
    struct Value<char> {
        static char draw(vf::Rng& r, unsigned d) { return char('a' + r.below(d)); }
    };
    template <>
    struct Value<unsigned char> {
        static unsigned char draw(vf::Rng& r, unsigned d) { return static_cast<unsigned char>(250 + r.below(d)); }
    };
    template <>
    struct Value<double> {
        static double draw(vf::Rng& r, unsigned d) { return 0.25 * double(r.below(d)) - 0.5; }
    };
    template <>
    struct Value<std::string> {
        static std::string draw(vf::Rng& r, unsigned d)
        {
            static const char* n[] = {"i", "j", "k", "ab", "a", "b", "sigma", "i1", "B"};
            return n[r.below(d < 9 ? d : 9)];
        }
    };

    // uniform view of operators as (creator, tuple) built by hand, not through library factories
    template <typename... I>
    struct Make {
        static Operator<I...> make(bool c, const std::tuple<I...>& t)
        {
            return Operator<I...>{c, t};
        }
    };
    template <typename A>
    struct Make<A> {
        static Operator<A> make(bool c, const std::tuple<A>& t)
        {
            return Operator<A>{c, std::get<0>(t)};
        }
    };
    template <typename A, typename B>
    struct Make<A, B> {
        static Operator<A, B> make(bool c, const std::tuple<A, B>& t)
        {
            return Operator<A, B>{c, std::get<0>(t), std::get<1>(t)};
        }
    };

    template <typename... I>
    std::tuple<I...> tuple_of(const Operator<I...>& o)
    {
        return o.indices;
    }
    template <typename A>
    std::tuple<A> tuple_of(const Operator<A>& o)
    {
        return std::tuple<A>(o.index);
    }
    template <typename A, typename B>
    std::tuple<A, B> tuple_of(const Operator<A, B>& o)
    {
        return std::tuple<A, B>(o.index1, o.index2);
    }

    template <typename Op>
    struct OpTraits;
    template <typename... I>
    struct OpTraits<Operator<I...>> {
        using Tuple = std::tuple<I...>;
        static Operator<I...> make(bool c, const Tuple& t) { return Make<I...>::make(c, t); }
        static Tuple draw_tuple(vf::Rng& r, unsigned d) { return Tuple{Value<I>::draw(r, d)...}; }
        static Operator<I...> draw(vf::Rng& r, unsigned d)
        {
            const bool c = r.coin();
            return make(c, draw_tuple(r, d));
        }
    };

    template <typename T>
    void show_one(std::ostream& o, const T& t)
    {
        o << t;
    }
    template <typename Tuple, std::size_t... K>
    void show_impl(std::ostream& o, const Tuple& t, std::index_sequence<K...>)
    {
        const char* sep = "";
        (void) std::initializer_list<int>{
            (o << sep, show_one(o, std::get<K>(t)), sep = ",", 0)...};
    }
    // description of an operator, independent of the library's printing
    template <typename... I>
    std::string show(const Operator<I...>& op)
    {
        std::ostringstream o;
        o << "c" << (op.creator ? "+" : "") << "(";
        show_impl(o, tuple_of(op), std::index_sequence_for<I...>{});
        o << ")";
        return o.str();
    }
    template <typename Op>
    std::string show_one_op(const Op& op)
    {
        return show(op);
    }
    template <typename Container>
    std::string show_ops(const Container& ops)
    {
        std::string s;
        for(auto& o : ops) {
            s += (s.empty() ? "" : " ") + show(o);
        }
        return "[" + s + "]";
    }
    template <typename P>
    std::string show_num(const P& p)
    {
        return vf::cat(p);
    }
    template <typename Term>
    std::string show_term(const Term& t)
    {
        return show_num(t.prefactor) + show_ops(t.operators);
    }

    template <typename P>
    struct Pref;
    template <>
    struct Pref<int> {
        static int draw(vf::Rng& r) { return int(r.range(-4, 4)); }
    };
    template <>
    struct Pref<double> {
        static double draw(vf::Rng& r)
        {
            return r.chance(0.7) ? double(r.range(-4, 4)) / 2. : r.real(-2, 2);
        }
    };
    template <>
    struct Pref<float> {
        static float draw(vf::Rng& r) { return float(r.range(-8, 8)) / 4.f; }
    };
    template <>
    struct Pref<std::complex<double>> {
        static std::complex<double> draw(vf::Rng& r)
        {
            const double a = Pref<double>::draw(r), b = Pref<double>::draw(r);
            return {a, b};
        }
    };
    template <>
    struct Pref<std::complex<float>> {
        static std::complex<float> draw(vf::Rng& r)
        {
            const float a = Pref<float>::draw(r), b = Pref<float>::draw(r);
            return {a, b};
        }
    };

    template <typename Container>
    Container draw_ops(vf::Rng& r, unsigned n, unsigned domain)
    {
        using Op = typename Container::value_type;
        Container c;
        for(unsigned i = 0; i < n; ++i) {
            c.push_back(OpTraits<Op>::draw(r, domain));
        }
        return c;
    }

    template <typename Container, typename ModeMap>
    fock::Product product(const Container& ops, ModeMap& modes)
    {
        fock::Product p;
        for(auto& o : ops) {
            p.push_back({o.creator, modes(tuple_of(o))});
        }
        return p;
    }
} // namespace gen
#endif
