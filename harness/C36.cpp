// vf:flags=-D_GLIBCXX_DEBUG
// vf:rule=own workload: one case per random history (object kinds, sizes, operations), distinct by its description; other monitors' workloads: one case per (workload, instrumentation)
// vf:assume=errors are seen on the executed paths only; accesses that stay inside one allocation and inside initialised memory are not seen; the Blaze stand-in allocates exactly what is asked for
#include "vf.hpp"
#include <algorithm>
#include <list>
#include <limits.h>
#include "regions.hpp"
#include <ieompp/algebra/commutator.hpp>
#include <ieompp/algebra/kronecker.hpp>
#include <ieompp/algebra/term/checks.hpp>
#include <ieompp/algebra/term/list.hpp>
#include <ieompp/algebra/term/order.hpp>
#include <ieompp/exception.hpp>
#include <ieompp/io/exception.hpp>
#include <ieompp/io/line.hpp>
#include <ieompp/models/hubbard_momentum_space/excited_fermi_sea.hpp>
#include <ieompp/platform.hpp>
#include <ieompp/string.hpp>
#include <ieompp/symbolic/prefactor.hpp>
#include <ieompp/tuple.hpp>
#include <ieompp/types/triplet.hpp>
using SOp = al::Operator<std::string, int>; // indices own memory

// the host's name as the machine could have it; honours the size it is given, as POSIX has it
static std::string host_name;
extern "C" int gethostname(char* buffer, std::size_t size)
{
    std::memset(buffer, 'x', size); // the whole buffer is announced as writable
    std::memcpy(buffer, host_name.c_str(), std::min(size, host_name.size() + 1));
    return host_name.size() + 1 > size ? -1 : 0;
}

VF_GROUP(platform, 60, 10)
{
    auto& r   = c.rng;
    host_name = std::string(std::size_t(r.one_of<int64_t>({0, 1, 15, 31, 63, 64, r.range(2, 64)})), 'h');
    const std::size_t len = std::size_t(r.one_of<int64_t>({0, 1, 8, 32, 256, 4096}));
    const bool set        = r.chance(0.7);
    c.describe(vf::cat("host name of ", host_name.size(), " characters, ", set ? vf::cat("user name of ", len) : std::string("no user name")));
    if(set) {
        setenv("LOGNAME", std::string(len, 'u').c_str(), 1);
    } else {
        unsetenv("LOGNAME");
    }
    using P = ieompp::Platform;
    const auto a = P::host();
    const auto b = P::host();
    c.check(a == host_name && b == a, "host", "host() is '", a, "'");
    c.check(!set || P::user() == std::string(len, 'u'), "user", "user() is '", P::user(), "'");
    std::ostringstream o;
    o << P::boost() << P::architecture() << P::operating_system() << P::compiler() << P::cpp_library() << P::user()
      << P::max_threads();
    for(auto e : {P::endianess(), P::Endian::Unknown, P::Endian::Big, P::Endian::Little, P::Endian::BigWord, P::Endian::LittleWord}) {
        std::ostringstream p;
        p << e;
        c.check(!p.str().empty(), "endian", "empty name of an endianness");
    }
    c.check(!o.str().empty(), "platform", "nothing described");
    setenv("LOGNAME", "root", 1);
    vf::observe("platform_queries", 12);
}

// ------------------------------------------------------------------ histories of products
static SOp draw_op(vf::Rng& r)
{
    const std::string s = r.coin() ? std::string(std::size_t(r.range(20, 60)), char('a' + r.below(3))) : std::string(1, char('a' + r.below(3)));
    return SOp{r.coin(), s, int(r.range(-1, 1))};
}
static std::vector<SOp> draw_ops(vf::Rng& r)
{
    std::vector<SOp> v;
    for(auto n = r.chance(0.2) ? 0 : r.chance(0.1) ? r.range(5, 20) : r.range(1, 4); n > 0; --n) {
        v.push_back(draw_op(r));
    }
    return v;
}
static std::vector<SOp> adjoint(std::vector<SOp> v)
{
    std::reverse(v.begin(), v.end());
    for(auto& o : v) {
        o.creator = !o.creator;
    }
    return v;
}
struct MonomialKind {
    using Object = al::Monomial<SOp>;
    struct Shadow {
        std::vector<SOp> ops;
    };
    static const char* name() { return "monomials"; }
    static Object make(const Shadow& s) { return Object(s.ops.begin(), s.ops.end()); }
    static Shadow draw(vf::Rng& r) { return {draw_ops(r)}; }
    static bool same(const Object& o, const Shadow& s) { return o.size() == s.ops.size() && std::equal(o.begin(), o.end(), s.ops.begin()); }
    static void times(Shadow& a, const Shadow& b)
    {
        const auto copy = b.ops;
        a.ops.insert(a.ops.end(), copy.begin(), copy.end());
    }
    static void conjugate(Shadow& a) { a.ops = adjoint(a.ops); }
    static std::size_t length(const Shadow& a) { return a.ops.size(); }
    static void extra(vf::Case& c, Object& a, Object& b, const Shadow& sa, const Shadow& sb)
    {
        c.check((a == b) == (sa.ops == sb.ops) && (a != b) == (sa.ops != sb.ops), "equality", "comparison of monomials");
        c.check(a.is_conjugate(b) == (sa.ops == adjoint(sb.ops)), "is_conjugate", "is_conjugate");
    }
};
template <typename Container>
struct TermKind {
    using Object = al::Term<double, SOp, Container>;
    struct Shadow {
        std::vector<SOp> ops;
        double p;
    };
    static const char* name() { return "terms"; }
    static Object make(const Shadow& s) { return Object{s.p, Container(s.ops.begin(), s.ops.end())}; }
    static Shadow draw(vf::Rng& r) { return {draw_ops(r), double(r.range(-3, 3))}; }
    static bool same(const Object& o, const Shadow& s)
    {
        return o.operators.size() == s.ops.size() && std::equal(o.operators.begin(), o.operators.end(), s.ops.begin()) && o.prefactor == s.p;
    }
    static void times(Shadow& a, const Shadow& b)
    {
        const auto copy = b;
        a.ops.insert(a.ops.end(), copy.ops.begin(), copy.ops.end());
        a.p *= copy.p;
    }
    static void conjugate(Shadow& a) { a.ops = adjoint(a.ops); }
    static std::size_t length(const Shadow& a) { return a.ops.size(); }
    static void extra(vf::Case& c, Object& a, Object& b, const Shadow& sa, const Shadow& sb)
    {
        c.check(a.have_same_operators(b) == (sa.ops == sb.ops), "have_same_operators", "have_same_operators");
        const al::TermSmaller<Object> lt{};
        const al::TermGreater<Object> gt{};
        c.check(!(lt(a, b) && lt(b, a)) && !(gt(a, b) && gt(b, a)) && lt(a, b) == gt(b, a), "order", "order of terms");
        c.check(!lt(a, a) && !gt(a, a), "order", "a term is smaller than itself");
        al::total_creations(a);
    }
};
template <typename K>
static void history(vf::Case& c)
{
    auto& r = c.rng;
    using O = typename K::Object;
    using S = typename K::Shadow;
    std::vector<O> obj;
    std::vector<S> mod;
    const std::size_t pool = std::size_t(r.range(1, 4));
    for(std::size_t i = 0; i < pool; ++i) {
        mod.push_back(K::draw(r));
        obj.push_back(K::make(mod.back()));
    }
    const auto steps = r.range(5, 60);
    c.describe(vf::cat(steps, " operations on ", pool, " ", K::name(), ", case ", c.index), true);
    for(int64_t s = 0; s < steps; ++s) {
        const std::size_t i = r.below(pool), j = r.below(pool), k = r.below(pool); // often the same object
        const uint64_t what = r.below(13);
        vf::stage(vf::cat(c.desc, ", step ", s, " operation ", what, " on ", i, ",", j, ",", k));
        switch(what) {
            case 0:
                if(K::length(mod[i]) + K::length(mod[j]) < 300) {
                    obj[i] *= obj[j];
                    K::times(mod[i], mod[j]);
                }
                break;
            case 1:
                if(K::length(mod[k]) + K::length(mod[j]) < 300) {
                    S m = mod[k];
                    K::times(m, mod[j]);
                    obj[i] = obj[k] * obj[j];
                    mod[i] = m;
                }
                break;
            case 2:
                obj[i].conjugate();
                K::conjugate(mod[i]);
                break;
            case 3: {
                obj[i] = obj[j].get_conjugate();
                mod[i] = mod[j];
                K::conjugate(mod[i]);
                break;
            }
            case 4:
                obj[i] = obj[j];
                mod[i] = mod[j];
                break;
            case 5:
                if(i != j) {
                    obj[i] = std::move(obj[j]);
                    mod[i] = mod[j];
                    mod[j] = K::draw(r);
                    obj[j] = K::make(mod[j]); // a moved-from object can be assigned to
                }
                break;
            case 6:
                std::swap(obj[i], obj[j]);
                std::swap(mod[i], mod[j]);
                break;
            case 7: {
                auto copy = std::make_unique<O>(obj[i]);
                obj[j]    = *copy * *copy;
                copy.reset(); // the product outlives its factor
                const S m = mod[i];
                mod[j]    = m;
                K::times(mod[j], m);
                if(K::length(mod[j]) > 200) {
                    mod[j] = K::draw(r);
                    obj[j] = K::make(mod[j]);
                }
                break;
            }
            case 8: {
                std::ostringstream o;
                o.width(int64_t(r.below(8)));
                if(r.chance(0.1)) {
                    o.setstate(r.coin() ? std::ios::badbit : std::ios::failbit);
                }
                o << obj[i];
                break;
            }
            case 9:
                K::extra(c, obj[i], obj[j], mod[i], mod[j]);
                break;
            case 10:
                mod[i] = K::draw(r);
                obj[i] = K::make(mod[i]);
                break;
            default: // a new pool, objects relocated
                obj.reserve(obj.capacity() + 1);
                obj.push_back(obj.front());
                obj.pop_back();
                if(r.coin()) {
                    obj.shrink_to_fit();
                }
        }
        for(std::size_t x : {i, j, k}) {
            c.check(K::same(obj[x], mod[x]), "content", "object ", x, " differs from the model after operation ", what, " of step ", s);
        }
        vf::observe("object_operations");
    }
}
VF_GROUP(monomials, 1200, 20) { history<MonomialKind>(c); }
VF_GROUP(terms, 900, 20) { history<TermKind<std::vector<SOp>>>(c); }
VF_GROUP(list_terms, 300, 20) { history<TermKind<vf::other_list<SOp>>>(c); }

// ------------------------------------------------------------------ commutators and collected terms
VF_GROUP(commutators, 500, 20)
{
    auto& r  = c.rng;
    using ST = al::Term<ieompp::symbolic::Prefactor<double>, SOp>;
    auto cut = [&] { return std::min<std::size_t>(std::size_t(r.range(0, 4)), 4); };
    auto t   = [&] {
        auto v = draw_ops(r);
        v.resize(std::min(v.size(), cut()));
        return ST{{double(r.range(-2, 2)), {}}, v};
    };
    auto n = [&] {
        std::vector<Op> v;
        for(std::size_t k = cut(); k > 0; --k) {
            v.push_back(Op{r.coin(), r.below(3), r.coin()});
        }
        return T{double(r.range(-2, 2)), v};
    };
    // the product of the lengths has to be even
    const ST a = t();
    const T x  = n();
    ST b       = t();
    T y        = n();
    b.operators.resize(b.operators.size() & ~std::size_t(1));
    y.operators.resize(y.operators.size() & ~std::size_t(1));
    const bool self = r.chance(0.2);
    c.describe(vf::cat(self ? "products with themselves, of " : "products of ", x.operators.size(), ",", y.operators.size(), " and, symbolically, ", a.operators.size(), ",",
                       b.operators.size(), " operators, case ", c.index));
    std::vector<ST> symbolic;
    al::commutate(self ? b : a, b, symbolic);
    vf::other_list<ST> appended(symbolic.begin(), symbolic.end());
    al::commutate(b, self ? b : a, appended);
    std::ostringstream o;
    for(auto& s : appended) {
        s.prefactor.order_kroneckers();
        o << s << '\n';
    }
    std::vector<T> out;
    if(r.coin()) {
        out.push_back(x);
    }
    al::commutate(self ? y : x, y, out);
    vf::other_list<T> more;
    al::commutate(y, self ? y : x, more);
    std::vector<T> unique;
    al::copy_as_unique_terms(out, unique);
    al::copy_as_unique_terms(more, unique);
    std::sort(unique.begin(), unique.end(), al::TermSmaller<T>());
    std::sort(unique.begin(), unique.end(), al::TermGreater<T>());
    std::stable_sort(out.begin(), out.end(), al::TermSmaller<T>());
    for(auto& s : unique) {
        o << s << '\n';
    }
    vf::observe("commutator_terms", unique.size() + appended.size());
}

// ------------------------------------------------------------------ prefactors
VF_GROUP(prefactors, 800, 20)
{
    auto& r = c.rng;
    using P = ieompp::symbolic::Prefactor<double>;
    using K = al::Kronecker;
    struct S {
        double v;
        std::vector<std::pair<std::string, std::string>> k;
    };
    auto word = [&] { return r.coin() ? std::string(1, char('a' + r.below(3))) : std::string(std::size_t(r.range(16, 40)), char('a' + r.below(3))); };
    std::vector<P> p;
    std::vector<S> m;
    for(int i = 0; i < 3; ++i) {
        p.push_back(P{double(i) - 1, {}});
        m.push_back(S{double(i) - 1, {}});
    }
    const auto steps = r.range(3, 40);
    c.describe(vf::cat(steps, " operations on prefactors, case ", c.index));
    for(int64_t s = 0; s < steps; ++s) {
        const std::size_t i = r.below(3), j = r.below(3);
        const uint64_t what = r.below(9);
        vf::stage(vf::cat(c.desc, ", step ", s, " operation ", what, " on ", i, ",", j));
        const bool room = m[i].k.size() + m[j].k.size() < 200;
        switch(what) {
            case 0: {
                const auto a = word(), b = word();
                p[i] *= K{a, b};
                m[i].k.emplace_back(a, b);
                break;
            }
            case 1:
                if(room) {
                    p[i] *= p[j].kroneckers;
                    const auto copy = m[j].k;
                    m[i].k.insert(m[i].k.end(), copy.begin(), copy.end());
                }
                break;
            case 2:
                if(room) {
                    p[i] *= p[j];
                    const S copy = m[j];
                    m[i].k.insert(m[i].k.end(), copy.k.begin(), copy.k.end());
                    m[i].v *= copy.v;
                }
                break;
            case 3:
                if(room) {
                    p[j] = p[i] * p[j];
                    S copy = m[i];
                    copy.k.insert(copy.k.end(), m[j].k.begin(), m[j].k.end());
                    copy.v *= m[j].v;
                    m[j] = copy;
                }
                break;
            case 4:
                if(!p[j].kroneckers.empty() && room) {
                    const auto x = r.below(p[j].kroneckers.size());
                    p[i] *= p[j].kroneckers[x]; // possibly an element of its own
                    const auto copy = m[j].k[x];
                    m[i].k.push_back(copy);
                }
                break;
            case 5:
                p[i].order_kroneckers();
                for(auto& k : m[i].k) {
                    if(k.second < k.first) {
                        std::swap(k.first, k.second);
                    }
                }
                std::sort(m[i].k.begin(), m[i].k.end());
                break;
            case 6:
                p[i] *= 2.;
                m[i].v *= 2.;
                break;
            case 7: {
                std::ostringstream o;
                o << p[i];
                break;
            }
            default:
                p[i] = p[j];
                m[i] = m[j];
        }
        for(std::size_t x : {i, j}) {
            c.check(p[x].value == m[x].v && p[x].kroneckers.size() == m[x].k.size(), "content", "prefactor ", x, " after operation ", what);
            for(std::size_t y = 0; y < m[x].k.size(); ++y) {
                c.check(p[x].kroneckers[y].a == m[x].k[y].first && p[x].kroneckers[y].b == m[x].k[y].second, "content", "delta ", y, " of prefactor ", x,
                        " after operation ", what);
            }
        }
        vf::observe("object_operations");
    }
}

// ------------------------------------------------------------------ triplets
template <typename Scalar, typename Index>
static void triplets(vf::Case& c, const char* type)
{
    auto& r = c.rng;
    using L = ty::TripletList<Scalar, Index>;
    L list;
    std::map<Index, Scalar> sum;
    const auto steps = r.range(2, 30);
    c.describe(vf::cat(steps, " operations on triplets of ", type, ", case ", c.index));
    for(int64_t s = 0; s < steps; ++s) {
        const uint64_t what = r.below(7);
        vf::stage(vf::cat(c.desc, ", step ", s, " operation ", what, ", size ", list.size()));
        switch(what) {
            case 0:
            case 1:
                for(auto n = r.range(1, 20); n > 0; --n) {
                    const Index col  = Index(r.below(6));
                    const Scalar val = Scalar(double(r.range(-4, 4)) / 4);
                    list.push_back(ty::Triplet<Scalar, Index>(Index(r.below(2)), col, val));
                    sum[col] += val;
                }
                break;
            case 2: list.sort(); break;
            case 3: {
                L sorted = list;
                sorted.sort();
                const L u = sorted.make_columns_unique();
                c.check(u.has_unique_columns(), "unique", "duplicate columns");
                std::size_t nonzero = 0;
                for(auto& x : sum) {
                    nonzero += x.second != Scalar(0);
                }
                c.check(u.size() == nonzero, "merged", "merged list has ", u.size(), " entries instead of ", nonzero);
                list = u;
                break;
            }
            case 4: list.has_unique_columns(); break;
            case 5:
                if(r.chance(0.3)) {
                    list.clear();
                    list.shrink_to_fit();
                    sum.clear();
                    list.sort();
                    c.check(list.make_columns_unique().empty() && list.has_unique_columns(), "empty", "empty list");
                }
                break;
            default: {
                L copy = list;
                list   = std::move(copy);
            }
        }
        vf::observe("object_operations");
    }
}
VF_GROUP(triplet_lists, 800, 20)
{
    if(c.index % 3 == 0) {
        triplets<double, uint64_t>(c, "double");
    } else if(c.index % 3 == 1) {
        triplets<cd, int>(c, "complex double");
    } else {
        triplets<float, uint8_t>(c, "float");
    }
}

// ------------------------------------------------------------------ evaluators of changing sizes
VF_GROUP(evaluators, 1500, 20)
{
    auto& r = c.rng;
    std::vector<std::unique_ptr<Work>> pool(std::size_t(r.range(1, 4)));
    std::vector<Values> first(pool.size());
    const unsigned base = unsigned(c.index % KINDS);
    const auto steps    = r.range(4, 14);
    c.describe(vf::cat(steps, " evaluations by up to ", pool.size(), " objects, kind ", base, ", case ", c.index));
    for(int64_t s = 0; s < steps; ++s) {
        const std::size_t i = r.below(pool.size());
        if(!pool[i] || r.chance(0.25)) {
            // the same kind again, most of the time: static work spaces see different sizes
            pool[i].reset(new Work(draw(r, r.chance(0.7) ? base : unsigned(r.below(KINDS)), false)));
            first[i].clear();
        } else if(r.chance(0.1)) {
            Work copy(*pool[i]);
            pool[i].reset(new Work(std::move(copy)));
        }
        vf::stage(vf::cat(c.desc, ", step ", s, ": ", pool[i]->text));
        const Values v = pool[i]->run();
        double scale   = 1;
        for(double x : v) {
            c.check(x == x, "nan", pool[i]->text, " gives NaN");
            scale = std::max(scale, std::abs(x));
        }
        if(first[i].empty()) {
            first[i] = v;
        }
        c.check(first[i].size() == v.size(), "repeat", pool[i]->text, " gives ", v.size(), " values instead of ", first[i].size());
        for(std::size_t k = 0; k < v.size(); ++k) {
            c.near(v[k], first[i][k], 1e-11 * scale, "repeat", pool[i]->text, " gives another value ", k, " the second time");
        }
        vf::observe("evaluations");
    }
}

// ------------------------------------------------------------------ lattices from one site up
template <typename Lat>
static void walk(vf::Case& c, const Lat& lat, uint64_t n)
{
    using I = typename Lat::SiteIndex;
    uint64_t seen = 0;
    for(auto i : lat) {
        c.check(uint64_t(i) == seen, "iterate", "site ", seen, " is ", uint64_t(i));
        ++seen;
    }
    c.check(seen == n && uint64_t(lat.size()) == n, "iterate", seen, " sites instead of ", n);
    c.check(uint64_t(std::distance(lat.begin(), lat.end())) == n, "iterate", "distance of begin and end");
    for(auto it = lat.cend(); it != lat.cbegin();) {
        --it;
        --seen;
        c.check(uint64_t(*it) == seen, "iterate", "backwards: site ", seen);
    }
    for(uint64_t k = 0; k < std::min<uint64_t>(n, 40); ++k) {
        const I i = I(c.rng.below(n)), j = I(c.rng.below(n));
        for(auto x : lat.neighbors(i)) {
            c.check(uint64_t(x) < n, "neighbour", "neighbour ", uint64_t(x), " of ", n, " sites");
        }
        lat.neighboring(i, j);
        c.check(uint64_t(lat(lat[i])) == uint64_t(i), "position", "position of ", uint64_t(i));
        vf::observe("lattice_queries", 3);
    }
}
VF_GROUP(lattices, 600, 20)
{
    auto& r          = c.rng;
    const uint64_t n = r.chance(0.3) ? r.range(1, 3) : r.range(1, 300), nx = r.range(1, 14), ny = r.range(1, 14);
    const double dx  = r.one_of({1., 0.1, 3.25});
    c.describe(vf::cat("lattices of ", n, " and ", nx, "x", ny, " sites, spacing ", dx));
    walk(c, Chain(n, dx), n);
    walk(c, ieompp::lattices::PeriodicChain<float, uint32_t>(uint32_t(n), float(dx)), n);
    walk(c, Square(nx, ny, dx, 2.), nx * ny);
    walk(c, ieompp::lattices::PeriodicSquareLattice<float, uint32_t>(uint32_t(nx), uint32_t(ny), 1.f, float(dx)), nx * ny);
    const Chain space(n);
    for(int k = 0; k < 4; ++k) {
        c.check(uint64_t(space.closest(r.real(space.x_min(), space.x_max() + space.dx()))) < n, "closest", "no site");
    }
    const Chain copy(space);
    c.check(copy.size() == space.size() && copy[uint64_t(n - 1)] == space[uint64_t(n - 1)], "copy", "copied lattice differs");
}

// ------------------------------------------------------------------ the excited Fermi sea, copied and restored
VF_GROUP(seas, 600, 20)
{
    auto& r          = c.rng;
    const uint64_t n = r.range(1, 8);
    const Chain space(n);
    const hb::Dispersion<double> d(space, Chain(n, 1.), 1.);
    using Sea = ms::ExcitedFermiSea<M>;
    std::vector<Sea> s(3);
    const auto steps = r.range(3, 40);
    const double ef  = r.one_of({0., -3., 3., 0.5});
    c.describe(vf::cat(steps, " operators on Fermi seas of ", n, " momenta, level ", ef, ", case ", c.index));
    for(int64_t k = 0; k < steps; ++k) {
        const std::size_t i = r.below(3), j = r.below(3);
        switch(r.below(4)) {
            case 0: s[i] = s[j]; break;
            case 1:
                if(s[i].vanishes) {
                    s[i] = Sea();
                }
                break;
            case 2: s[i].apply_operator(Op{r.coin(), r.below(n), r.coin()}, d, ef); break;
            default: {
                M m;
                for(auto x = r.below(4); x > 0; --x) {
                    m.push_back(Op{r.coin(), r.below(n), r.coin()});
                }
                s[i].apply_monomial(m, d, ef);
            }
        }
        s[i].is_initial_fermi_sea();
        c.check(s[i].vanishes || s[i].created_particles.size() + s[i].annihilated_particles.size() <= 2 * n, "sea", "too many excitations");
        vf::observe("object_operations");
    }
}

// ------------------------------------------------------------------ text
VF_GROUP(texts, 600, 20)
{
    auto& r = c.rng;
    std::string text;
    const auto lines = r.below(12);
    for(uint64_t k = 0; k < lines; ++k) {
        const auto len = r.chance(0.05) ? r.range(1000, 200000) : r.range(0, 20);
        for(int64_t i = 0; i < len; ++i) {
            text += r.chance(0.3) ? " \t#\r\v\f"[r.below(6)] : char(r.below(256));
        }
        if(k + 1 < lines || r.coin()) {
            text += '\n';
        }
    }
    c.describe(vf::cat("text of ", text.size(), " bytes, case ", c.index), !text.empty());
    std::istringstream in(text);
    if(r.chance(0.1)) {
        in.setstate(r.coin() ? std::ios::badbit : std::ios::failbit);
    }
    std::size_t total = 0, calls = 0;
    for(; calls < text.size() + 4; ++calls) {
        const auto l = ieompp::io::next_line(in);
        if(l.empty()) {
            break;
        }
        total += l.size();
    }
    c.check(total <= text.size() && calls < text.size() + 4, "lines", "more text returned than read");
    vf::observe("lines_read", calls);
}

// ------------------------------------------------------------------ strings, tuples, exceptions, matrices of functions
VF_GROUP(printing, 400, 20)
{
    auto& r = c.rng;
    const std::string s(std::size_t(r.range(0, 80)), 's');
    const unsigned rows = unsigned(r.below(5)), cols = unsigned(r.below(5));
    c.describe(vf::cat("text of ", s.size(), ", matrix of ", rows, "x", cols, ", case ", c.index));
    c.check(ieompp::compose() == "" && ieompp::compose(s, 1, 'c', s) == s + "1c" + s, "compose", "composed text");
    std::ostringstream o;
    ieompp::print_tuple(o, std::make_tuple(s));
    ieompp::print_tuple(o, std::make_tuple(s, 1, 'c', s, true, s), s, s, s);
    ieompp::print_tuple(o, std::make_tuple(1, s), std::string(40, ','), std::string(40, '('), std::string(40, ')'));
    c.check(o.str() == "(" + s + ")" + s + s + s + "1" + s + "c" + s + s + s + "1" + s + s + s + std::string(40, '(') + "1" + std::string(40, ',') + s + std::string(40, ')'),
            "print_tuple", "printed tuples: ", o.str());
    const ty::FunctionMatrix<cd, int> f(int(rows), int(cols), [&](int i, int j) {
        if(i < 0 || j < 0 || i >= int(rows) || j >= int(cols)) {
            throw std::out_of_range("entry outside the matrix");
        }
        return cd(i, -j);
    });
    o << f;
    auto copy = f;
    copy      = ty::FunctionMatrix<cd, int>(0, 0, [](int, int) { return cd(); });
    o << copy;
    ty::is_symmetric(f);
    ty::is_hermitian(f);
    c.check(f == f && !(f != f), "self", "a matrix differs from itself");
    std::unique_ptr<ieompp::Exception> kept;
    auto text = std::make_unique<std::string>(s + "!");
    try {
        switch(r.below(3)) {
            case 0: THROW(ieompp::Exception, *text); break;
            case 1: THROW(ieompp::io::IOException, text->c_str()); break;
            default: THROW(ieompp::NotImplemented, *text);
        }
    } catch(const ieompp::Exception& e) {
        kept.reset(new ieompp::Exception(e));
    }
    text.reset();
    const std::string w = kept->what();
    c.check(w.size() > s.size() && w.compare(w.size() - s.size() - 1, s.size() + 1, s + "!") == 0, "exception", "message '", w, "'");
    vf::observe("texts_printed", 6);
}
VF_REQUIRE(object_operations, 80000)
VF_REQUIRE(evaluations, 8000)
VF_REQUIRE(lattice_queries, 20000)
VF_REQUIRE(lines_read, 500)
VF_REQUIRE(texts_printed, 1000)
VF_REQUIRE(platform_queries, 500)
VF_MAIN
