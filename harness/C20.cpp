// vf:rule=one case per history of operations on a Fermi sea; distinct by sea and history, non-trivial when at least one excitation was undone again
// vf:assume=histories of at most 60, some of up to 700, operations on at most 24, some on up to 600, modes represent longer ones
#include "algen.hpp"
#include <ieompp/algebra/monomial.hpp>
#include <ieompp/models/hubbard_momentum_space/excited_fermi_sea.hpp>
namespace al = ieompp::algebra;
namespace mm = ieompp::models::hubbard_momentum_space;

template <typename F>
struct Levels {
    using Float = F;
    std::vector<F> e;
    F operator()(uint64_t i) const { return e[i]; }
};
template <typename Op>
struct Draw;
template <>
struct Draw<al::Operator<uint64_t, bool>> {
    static std::tuple<uint64_t, bool> tuple(vf::Rng& r, uint64_t n)
    {
        const uint64_t k = r.below(n);
        return std::tuple<uint64_t, bool>{k, r.coin()};
    }
};
template <>
struct Draw<al::Operator<unsigned>> {
    static std::tuple<unsigned> tuple(vf::Rng& r, uint64_t n) { return std::tuple<unsigned>(unsigned(r.below(n))); }
};
template <>
struct Draw<al::Operator<uint64_t, int, bool>> {
    static std::tuple<uint64_t, int, bool> tuple(vf::Rng& r, uint64_t n)
    {
        const uint64_t k = r.below(n);
        const int b      = int(r.range(-1, 1));
        return std::tuple<uint64_t, int, bool>{k, b, r.coin()};
    }
};

template <typename Op, typename F>
static void one(vf::Case& c)
{
    using M       = al::Monomial<Op>;
    using State   = mm::ExcitedFermiSea<M>;
    using Indices = typename Op::Indices;
    using Tuple   = typename gen::OpTraits<Op>::Tuple;
    auto& r       = c.rng;
    const uint64_t n = r.range(1, c.index % 100 == 5 ? 300 : r.chance(0.3) ? 12 : 4);
    Levels<F> levels;
    const F fermi = r.chance(0.4) ? F(0) : F(r.range(-2, 2)) / F(2);
    std::string log = vf::cat("E_F=", double(fermi), " levels");
    for(uint64_t i = 0; i < n; ++i) {
        levels.e.push_back(r.chance(0.15) ? fermi : r.chance(0.1) ? std::nextafter(fermi, F(-9)) : F(r.range(-4, 4)) / F(2));
        log += vf::cat(" ", double(levels.e.back()));
    }
    c.describe(log, false);
    State s;
    c.check(s.is_initial_fermi_sea() && !s.vanishes, "initial", "fresh state is not the Fermi sea");
    auto initial = [&](const Tuple& t) { return levels.e[std::get<0>(t)] < fermi; };
    std::map<Tuple, bool> occ; // touched modes only
    std::map<Tuple, bool> touched;
    bool vanished = false, undone = false;
    auto step = [&](bool creator, const Tuple& t) {
        if(vanished) {
            return;
        }
        if(!occ.count(t)) {
            occ[t] = initial(t);
        }
        if(occ[t] == creator) {
            vanished = true;
            return;
        }
        occ[t] = creator;
        undone |= occ[t] == initial(t);
    };
    const bool def = fermi == F(0) && r.coin(); // use the default Fermi energy
    // bias towards allowed operations, so that long histories survive
    auto draw = [&](bool allowed) {
        Tuple t = Draw<Op>::tuple(r, n);
        if(!occ.empty() && r.chance(0.5)) {
            auto it = occ.begin();
            std::advance(it, long(r.below(occ.size())));
            t = it->first;
        }
        bool cr = r.coin();
        if(allowed) {
            cr = !(occ.count(t) ? occ[t] : initial(t));
        }
        return gen::OpTraits<Op>::make(cr, t);
    };
    std::unique_ptr<State> held;
    std::vector<Tuple> held_created, held_annihilated;
    const double risk = c.index % 100 == 5 ? 0.001 : r.chance(0.5) ? 0.02 : 0.3;
    for(uint64_t steps = r.range(1, c.index % 100 == 5 ? 700 : r.chance(0.3) ? 60 : 8); steps > 0; --steps) {
        const bool was = vanished;
        switch(r.below(3)) {
            case 0: {
                const auto op = draw(!r.chance(risk));
                const auto t  = gen::tuple_of(op);
                const auto ix = al::get_indices(op);
                log += " step " + gen::show(op);
                vf::stage(log);
                c.check(State::is_initially_occupied(ix, levels, fermi) == initial(t), "occupied",
                        "is_initially_occupied of ", gen::show(op), "; ", log);
                const bool ok = op.creator ? s.create_particle(ix, levels, fermi)
                                           : s.annihilate_particle(ix, levels, fermi);
                step(op.creator, t);
                c.check(ok == !vanished, "result", "create/annihilate returned ", ok, " after ", log);
                break;
            }
            case 1: {
                const auto op = draw(!r.chance(risk));
                log += " apply " + gen::show(op);
                vf::stage(log);
                def ? s.apply_operator(op, levels) : s.apply_operator(op, levels, fermi);
                step(op.creator, gen::tuple_of(op));
                break;
            }
            default: {
                M m;
                // build from the right, so that each factor may be allowed
                std::vector<Op> rev;
                const auto keep = occ;
                const bool kv = vanished, ku = undone;
                for(uint64_t k = r.below(5); k > 0; --k) {
                    rev.push_back(draw(!r.chance(risk)));
                    step(rev.back().creator, gen::tuple_of(rev.back()));
                }
                occ      = keep;
                vanished = kv;
                undone   = ku;
                for(auto it = rev.rbegin(); it != rev.rend(); ++it) {
                    m.push_back(*it);
                }
                log += " monomial " + gen::show_ops(m);
                vf::stage(log);
                def ? s.apply_monomial(m, levels) : s.apply_monomial(m, levels, fermi);
                for(auto& op : rev) {
                    step(op.creator, gen::tuple_of(op));
                }
                vf::observe("monomials");
                break;
            }
        }
        vf::observe("steps");
        c.check(s.vanishes == vanished, "vanishes", "vanishes is ", s.vanishes, " instead of ", vanished,
                " after ", log);
        if(vanished) {
            c.check(!s.is_initial_fermi_sea(), "initial", "vanished state is reported as Fermi sea after ", log);
            vf::observe(was ? "steps_after_vanishing" : "vanishings");
            if(was && r.chance(0.5)) {
                break;
            }
            continue;
        }
        std::vector<Tuple> cr, an;
        for(auto& o : occ) {
            if(o.second != initial(o.first)) {
                (o.second ? cr : an).push_back(o.first);
            }
        }
        auto flat = [](const auto& l) {
            std::vector<Tuple> v;
            for(auto& x : l) {
                v.push_back(Tuple(x));
            }
            std::sort(v.begin(), v.end());
            return v;
        };
        c.check(flat(s.created_particles) == cr, "created", "created_particles has ",
                s.created_particles.size(), " entries, ", cr.size(), " expected (or different ones) after ", log);
        c.check(flat(s.annihilated_particles) == an, "annihilated", "annihilated_particles has ",
                s.annihilated_particles.size(), " entries, ", an.size(), " expected (or different ones) after ", log);
        c.check(s.is_initial_fermi_sea() == (cr.empty() && an.empty()), "initial",
                "is_initial_fermi_sea is ", s.is_initial_fermi_sea(), " after ", log);
        if(r.chance(0.1)) {
            State copy(s);
            s = copy;
        }
        // a copy made earlier stays as it was while the original goes on
        if(held && r.chance(0.3)) {
            c.check(!held->vanishes && flat(held->created_particles) == held_created && flat(held->annihilated_particles) == held_annihilated,
                    "copy", "a copy changes with its original; ", log);
            held.reset();
            vf::observe("independent_copies");
        } else if(!held && r.chance(0.2)) {
            held.reset(new State(s));
            held_created     = cr;
            held_annihilated = an;
        }
        vf::observe("states_compared");
    }
    vf::observe(undone ? "histories_with_undone_excitations" : "histories_without");
    c.describe(log, undone);
}
VF_GROUP(momentum_spin, 3000, 60) { one<al::Operator<uint64_t, bool>, double>(c); }
#ifndef VF_PLAIN // as a fallback: operators of several indices alone
VF_GROUP(momentum_only, 1000, 60) { one<al::Operator<unsigned>, vf::f32>(c); }
#endif
VF_GROUP(three_indices, 1000, 60) { one<al::Operator<uint64_t, int, bool>, double>(c); }
VF_REQUIRE(independent_copies, 200)
VF_REQUIRE(histories_with_undone_excitations, 1000)
VF_REQUIRE(vanishings, 500)
VF_REQUIRE(steps_after_vanishing, 200)
VF_REQUIRE(states_compared, 10000)
VF_MAIN
