// vf:sanitize=thread
// vf:rule=one case per (parallel operation or set of concurrent callers, sizes, numbers of threads, seed of the delays); distinct by that description; non-trivial with at least two threads
// vf:assume=ThreadSanitizer sees the accesses of the executed paths only; the OpenMP runtime is a stand-in which orders nothing beyond fork, join, barriers and critical sections; lattices of at most 64 sites (5 for the occupation of the three-operator basis) represent larger ones
#include "vf.hpp"
#include "../shim/gomp/gomp.h"
#include <omp.h>
#include <thread>
#include <atomic>
#include "regions.hpp"
static void same(vf::Case& c, const Work& w, const Values& a, const Values& b, const std::string& how)
{
    c.check(a.size() == b.size(), "size", w.text, " ", how, ": ", b.size(), " instead of ", a.size(), " values");
    double scale = 1;
    for(double x : a) {
        scale = std::max(scale, std::abs(x));
    }
    for(std::size_t i = 0; i < a.size(); ++i) {
        c.near(b[i], a[i], w.tol * scale, "result", w.text, " ", how, ", value ", i);
    }
    vf::observe("results");
}
static VfGompStats before;
static void account()
{
    const auto s = vf_gomp_stats();
    vf::observe("regions", s.regions - before.regions);
    vf::observe("threads", s.threads - before.threads);
    vf::observe("chunks", s.chunks - before.chunks);
    vf::observe("schedules", s.orders - before.orders);
    vf::observe("overlapping_regions", s.overlaps - before.overlaps);
    before = s;
}
static int threads(vf::Rng& r) { return r.chance(0.15) ? int(r.range(9, 24)) : int(r.range(2, 8)); }

VF_GROUP(regions, 3200, 20)
{
    auto& r = c.rng;
    std::vector<Work> all;
    std::vector<Values> want;
    std::string text;
    for(uint64_t k = r.range(1, 3); k > 0; --k) {
        omp_set_num_threads(r.coin() ? 1 : threads(r));
        all.push_back(draw(r, unsigned((c.index + k * 7) % (KINDS - 1)), false));
        text += all.back().text + "; ";
    }
    c.describe(vf::cat(text, " case ", c.index));
    omp_set_num_threads(1);
    for(auto& w : all) {
        want.push_back(w.run());
    }
    for(int k = 0; k < 5; ++k) {
        const int n = threads(r);
        vf_gomp_seed(r());
        omp_set_num_threads(n);
        const std::size_t i = r.below(all.size());
        vf::stage(vf::cat(all[i].text, " with ", n, " threads, round ", k));
        same(c, all[i], want[i], all[i].run(), vf::cat("with ", n, " threads"));
    }
    account();
}
// read-only objects used by several callers at once (the function-matrix products keep a work space)
VF_GROUP(callers, 900, 20)
{
    auto& r = c.rng;
    std::vector<unsigned> kinds;
    for(unsigned k = 0; k < KINDS; ++k) {
        if(k < 16 || k > 18) {
            kinds.push_back(k);
        }
    }
    omp_set_num_threads(2);
    const Work w = draw(r, kinds[c.index % kinds.size()], true), u = draw(r, kinds[r.below(kinds.size())], true);
    const int callers = int(r.range(2, 5)), n = int(r.range(1, 3));
    c.describe(vf::cat(callers, " callers of ", w.text, " and ", u.text, ", ", n, " threads each, case ", c.index));
    omp_set_num_threads(1);
    const bool same_object = r.chance(0.6);
    const Values a = w.run(), b = same_object ? a : u.run();
    omp_set_num_threads(n);
    vf_gomp_seed(r());
    std::vector<std::vector<Values>> got(static_cast<std::size_t>(callers));
    std::vector<std::thread> t;
    for(int k = 0; k < callers; ++k) {
        auto* mine      = &got[std::size_t(k)];
        const Work* job = same_object || k % 2 == 0 ? &w : &u;
        t.emplace_back([mine, job] {
            for(int i = 0; i < 3; ++i) {
                mine->push_back(job->run());
            }
        });
    }
    for(auto& x : t) {
        x.join();
    }
    for(int k = 0; k < callers; ++k) {
        for(auto& v : got[std::size_t(k)]) {
            same(c, same_object || k % 2 == 0 ? w : u, same_object || k % 2 == 0 ? a : b, v, vf::cat("called by ", callers, " at once"));
        }
    }
    vf::observe("callers", uint64_t(callers));
    account();
}
VF_REQUIRE(regions, 16000)
VF_REQUIRE(schedules, 8000)
VF_REQUIRE(overlapping_regions, 500)
VF_REQUIRE(results, 16000)
VF_REQUIRE(callers, 2000)
VF_MAIN
