// vf:rule=one case per pair of operators built by one of the factories; distinct by the rendered pair; every case is non-trivial
// vf:assume=operators of one to five indices represent those with more
#include "algen.hpp"
#include <ieompp/algebra/operator/is_symbolic.hpp>
#include <ieompp/models/hubbard/operator_traits.hpp>
namespace al = ieompp::algebra;

template <typename Op>
struct Via; // factories, fed with the components of a tuple
template <typename... I>
struct Via<al::Operator<I...>> {
    using Op    = al::Operator<I...>;
    using Tuple = std::tuple<I...>;
    template <std::size_t... K>
    static Op call(unsigned how, bool creator, const Tuple& t, std::index_sequence<K...>)
    {
        Tuple m = t;
        switch(how) {
            case 0:
                return creator ? Op::make_creator(std::get<K>(t)...)
                               : Op::make_annihilator(std::get<K>(t)...);
            case 1:
                return creator ? Op::make_creator(std::move(std::get<K>(m))...)
                               : Op::make_annihilator(std::move(std::get<K>(m))...);
            case 2:
                return creator ? al::make_creator(std::get<K>(t)...)
                               : al::make_annihilator(std::get<K>(t)...);
            case 3:
                return creator ? al::make_creator(std::move(std::get<K>(m))...)
                               : al::make_annihilator(std::move(std::get<K>(m))...);
            case 4:
                return creator ? al::make_creator(std::get<K>(m)...)
                               : al::make_annihilator(std::get<K>(m)...);
            default: return gen::OpTraits<Op>::make(creator, t);
        }
    }
    static Op make(unsigned how, bool creator, const Tuple& t)
    {
        return call(how, creator, t, std::index_sequence_for<I...>{});
    }
};

template <std::size_t K, std::size_t N, typename Op, typename Tuple>
struct Access {
    static void check(vf::Case& c, Op& op, const Tuple& t)
    {
        const Op& cop = op;
        c.check(al::get_index<K>(op) == std::get<K>(t), "get_index", "get_index<", K, "> gives ",
                al::get_index<K>(op));
        c.check(al::get_index<K>(cop) == std::get<K>(t), "get_index", "const get_index<", K,
                "> gives ", al::get_index<K>(cop));
        const typename al::IndexType<K, Op>::Type moved = al::get_index<K>(Op(op));
        c.check(moved == std::get<K>(t), "get_index", "get_index<", K, "> of a temporary gives ",
                moved);
        c.check(std::is_same<typename al::IndexType<K, Op>::Type,
                             typename std::tuple_element<K, Tuple>::type>::value,
                "index-type", "IndexType<", K, "> is wrong");
        c.check(al::IsSymbolicIndex<K, Op>::value
                    == !std::is_arithmetic<typename std::tuple_element<K, Tuple>::type>::value,
                "is_symbolic", "IsSymbolicIndex<", K, "> is wrong");
        vf::observe("accesses", 3);
        Access<K + 1, N, Op, Tuple>::check(c, op, t);
    }
    // write a new value into index `which`
    static void write(Op& op, const Tuple& t, std::size_t which)
    {
        if(which == K) {
            al::get_index<K>(op) = std::get<K>(t);
        }
        Access<K + 1, N, Op, Tuple>::write(op, t, which);
    }
    static void set(Tuple& dst, const Tuple& src, std::size_t which)
    {
        if(which == K) {
            std::get<K>(dst) = std::get<K>(src);
        }
        Access<K + 1, N, Op, Tuple>::set(dst, src, which);
    }
};
template <std::size_t N, typename Op, typename Tuple>
struct Access<N, N, Op, Tuple> {
    static void check(vf::Case&, Op&, const Tuple&) {}
    static void write(Op&, const Tuple&, std::size_t) {}
    static void set(Tuple&, const Tuple&, std::size_t) {}
};

template <typename Tuple, typename Op>
static void components(vf::Case& c, Op& op, bool creator, const Tuple& t)
{
    c.check(op.creator == creator, "kind", "operator has the wrong kind");
    c.check(gen::tuple_of(op) == t, "indices", "operator holds ", gen::show(op));
    c.check(op.index_tuple() == t, "index_tuple", "index_tuple differs for ", gen::show(op));
    c.check(al::get_indices(op) == t, "get_indices", "get_indices differs for ", gen::show(op));
    Access<0, std::tuple_size<Tuple>::value, Op, Tuple>::check(c, op, t);
}

template <typename Op>
static void pair_case(vf::Case& c)
{
    using Tuple          = typename Via<Op>::Tuple;
    constexpr auto N     = std::tuple_size<Tuple>::value;
    using A              = Access<0, N, Op, Tuple>;
    auto& r              = c.rng;
    const unsigned dom   = unsigned(r.range(1, 6));
    const Tuple ta       = gen::OpTraits<Op>::draw_tuple(r, dom);
    Tuple tb             = ta;
    const auto mode      = r.below(4);
    if(mode == 1) {
        A::set(tb, gen::OpTraits<Op>::draw_tuple(r, dom + 2), r.below(N));
    } else if(mode == 2) {
        tb = gen::OpTraits<Op>::draw_tuple(r, dom);
    }
    const bool ka = r.coin(), kb = r.chance(0.7) ? ka : !ka;
    const unsigned how_a = unsigned(r.below(6)), how_b = unsigned(r.below(6));
    Op a = Via<Op>::make(how_a, ka, ta), b = Via<Op>::make(how_b, kb, tb);
    c.describe(vf::cat(gen::show(gen::OpTraits<Op>::make(ka, ta)), " by factory ", how_a, ", ",
                       gen::show(gen::OpTraits<Op>::make(kb, tb)), " by factory ", how_b));
    components(c, a, ka, ta);
    components(c, b, kb, tb);
    const bool eq = ka == kb && ta == tb;
    c.check((a == b) == eq && (b == a) == eq, "==", "== gives ", a == b);
    c.check((a != b) == !eq && (b != a) == !eq, "!=", "!= gives ", a != b);
    c.check(a.same_indices(b) == (ta == tb), "same_indices", "same_indices gives ",
            a.same_indices(b));
    c.check(a == a && !(a != a), "reflexive", "an operator differs from itself");
    vf::observe(eq ? "equal_pairs" : ta == tb ? "other_kind" : mode == 1 ? "one_index_differs"
                                                                        : "different");
    // a write is seen by every accessor
    const auto which = r.below(N);
    Tuple tw = ta;
    const Tuple fresh = gen::OpTraits<Op>::draw_tuple(r, 6);
    A::set(tw, fresh, which);
    A::write(a, fresh, which);
    components(c, a, ka, tw);
    c.check((a == b) == (ka == kb && tw == tb), "==", "== after a write gives ", a == b);
    vf::observe("writes");
    // copies and assignments
    Op d = b;
    d    = a;
    components(c, d, ka, tw);
    c.check(al::IsOperator<Op>::value && !al::IsOperator<Tuple>::value, "IsOperator",
            "IsOperator is wrong");
    c.check(Op::number_of_indices == N, "number_of_indices", "number_of_indices is ",
            std::size_t(Op::number_of_indices));
}

template <typename Op, typename T>
static void has(vf::Case& c, bool expected, const char* what)
{
    c.check(al::HasIndexOfType<Op, T>::value == expected, "HasIndexOfType", what);
}
VF_GROUP(traits, 1, 1)
{
    c.describe("static traits of operator types");
    using S = std::string;
    namespace hb = ieompp::models::hubbard;
    has<al::Operator<int>, int>(c, true, "<int> has int");
    has<al::Operator<int>, bool>(c, false, "<int> has no bool");
    has<al::Operator<uint64_t, bool>, bool>(c, true, "<uint64,bool> has bool");
    has<al::Operator<uint64_t, bool>, uint64_t>(c, true, "<uint64,bool> has uint64");
    has<al::Operator<uint64_t, bool>, int>(c, false, "<uint64,bool> has no int");
    has<al::Operator<int, S, bool>, S>(c, true, "<int,string,bool> has string");
    has<al::Operator<int, S, bool>, bool>(c, true, "<int,string,bool> has bool");
    has<al::Operator<int, S, bool>, char>(c, false, "<int,string,bool> has no char");
#define SYM(expected, ...)                                                                         \
    c.check(al::IsSymbolicOperator<al::Operator<__VA_ARGS__>>::value == expected, "is_symbolic",   \
            "IsSymbolicOperator<" #__VA_ARGS__ "> is wrong")
    SYM(false, int);
    SYM(true, S);
    SYM(false, uint64_t, bool);
    SYM(true, S, bool);
    SYM(true, bool, S);
    SYM(true, int, S, bool);
    SYM(true, bool, int, S);
    SYM(false, int, int, bool);
#define HUB(d1, d2, ...)                                                                           \
    c.check(hb::Is1dHubbardOperator<al::Operator<__VA_ARGS__>>::value == d1                        \
                && hb::Is2dHubbardOperator<al::Operator<__VA_ARGS__>>::value == d2                 \
                && hb::IsHubbardOperator<al::Operator<__VA_ARGS__>>::value == (d1 || d2),          \
            "hubbard-traits", "Hubbard traits of Operator<" #__VA_ARGS__ "> are wrong")
    HUB(true, false, uint64_t, bool);
    HUB(false, false, bool, uint64_t);
    HUB(false, false, double, bool);
    HUB(false, true, int, uint64_t, bool);
    HUB(false, false, int, bool, int);
    HUB(false, false, int, int, int, bool);
    HUB(false, false, int);
    vf::observe("traits", 23);
}

using S = std::string;
VF_GROUP(one_index, 800, 100)
{
    c.index % 3 ? (c.index % 3 == 1 ? pair_case<al::Operator<int>>(c)
                                    : pair_case<al::Operator<S>>(c))
                : pair_case<al::Operator<uint64_t>>(c);
}
VF_GROUP(two_indices, 1500, 100)
{
    c.index % 3 ? (c.index % 3 == 1 ? pair_case<al::Operator<uint64_t, bool>>(c)
                                    : pair_case<al::Operator<S, bool>>(c))
                : pair_case<al::Operator<int, double>>(c);
}
VF_GROUP(three_indices, 1500, 100)
{
    c.index % 3 ? (c.index % 3 == 1 ? pair_case<al::Operator<int, int, bool>>(c)
                                    : pair_case<al::Operator<S, int, bool>>(c))
                : pair_case<al::Operator<uint64_t, uint64_t, uint64_t>>(c);
}
VF_GROUP(many_indices, 1500, 100)
{
    if(c.index % 3 == 2) {
        return pair_case<al::Operator<bool, int, uint64_t, S, bool, unsigned, S>>(c);
    }
    c.index % 2 ? pair_case<al::Operator<int, S, char, bool>>(c)
                : pair_case<al::Operator<int, int, int64_t, S, bool>>(c);
}
// products: the same operators in the same order
template <typename Op>
static void product_case(vf::Case& c)
{
    using M = al::Monomial<Op>;
    auto& r = c.rng;
    std::vector<Op> a, b;
    for(auto n = r.chance(0.1) ? r.below(100) : r.below(6); n > 0; --n) {
        a.push_back(gen::OpTraits<Op>::draw(r, 3));
    }
    b = a;
    switch(r.below(7)) {
        case 0: break;
        case 1: b.push_back(gen::OpTraits<Op>::draw(r, 3)); break;
        case 2:
            if(!b.empty()) {
                b.pop_back();
            }
            break;
        case 3:
            if(!b.empty()) {
                b.erase(b.begin());
            }
            break;
        case 4:
            if(!b.empty()) {
                b[r.below(b.size())] = gen::OpTraits<Op>::draw(r, 3);
            }
            break;
        case 5: std::reverse(b.begin(), b.end()); break;
        default:
            b.clear();
            for(auto n = r.below(4); n > 0; --n) {
                b.push_back(gen::OpTraits<Op>::draw(r, 2));
            }
    }
    bool same = a.size() == b.size();
    for(std::size_t i = 0; same && i < a.size(); ++i) {
        same = a[i].creator == b[i].creator && gen::tuple_of(a[i]) == gen::tuple_of(b[i]);
    }
    c.describe("products " + gen::show_ops(a) + " and " + gen::show_ops(b), true);
    M x, y;
    x.assign(a.begin(), a.end());
    y.assign(b.begin(), b.end());
    c.check((x == y) == same && (y == x) == same, "product==", "== of the products gives ", x == y);
    c.check((x != y) == !same && (y != x) == !same, "product!=", "!= of the products gives ", x != y);
    c.check(x == x && !(x != x) && y == y && !(y != y), "product-self", "a product differs from itself");
    vf::observe(same ? "equal_products" : a.size() == b.size() ? "other_products" : "products_of_other_length");
}
VF_GROUP(products, 1200, 60)
{
    c.index % 3 ? (c.index % 3 == 1 ? product_case<al::Operator<uint64_t, bool>>(c)
                                    : product_case<al::Operator<S>>(c))
                : product_case<al::Operator<int, S, bool>>(c);
}
VF_REQUIRE(equal_products, 100)
VF_REQUIRE(other_products, 100)
VF_REQUIRE(products_of_other_length, 100)
VF_REQUIRE(equal_pairs, 300)
VF_REQUIRE(one_index_differs, 300)
VF_REQUIRE(other_kind, 300)
VF_REQUIRE(accesses, 10000)
VF_REQUIRE(writes, 1000)
VF_MAIN
