// vf:rule=one case per sequence of steps with several integrators used in turn; distinct by dimensions, kinds of matrices, element types and step sizes; non-trivial when some dimension exceeds one
// vf:assume=dense, compressed and function matrices of dimension 1 to 60, some of up to 300, with entries up to 1e6 represent all; vector arithmetic is the stand-in's
#include "vf.hpp"
#include <algorithm>
#include <omp.h>
#include <blaze/Math.h>
#include <ieompp/types/blaze.hpp>
#include <ieompp/types/number.hpp>
#include <ieompp/types/function_matrix.hpp>
#include <ieompp/types/matrix_check.hpp>
#include <ieompp/ode/rk4.hpp>
namespace ty = ieompp::types;
using cl = std::complex<long double>;
using cd = std::complex<double>;

template <typename T>
struct Num {
    using Real = T;
    static T draw(vf::Rng& r) { return T(r.number()); }
};
template <typename F>
struct Num<std::complex<F>> {
    using Real = F;
    static std::complex<F> draw(vf::Rng& r) { return {F(r.number()), F(r.number())}; }
};
template <typename T>
struct Wide {
    static cl get(T t) { return cl((long double) t, 0); }
};
template <typename F>
struct Wide<std::complex<F>> {
    static cl get(std::complex<F> t) { return cl((long double) t.real(), (long double) t.imag()); }
};
template <typename T>
using Vec = blaze::DynamicVector<T, blaze::columnVector>;

struct Line { // one integrator with its matrix and vector
    virtual ~Line() {}
    virtual void step(vf::Case& c) = 0;
    virtual std::string text() const = 0;
};
template <typename T>
struct Typed : Line {
    using Real = typename Num<T>::Real;
    unsigned n, kind, steps = 0;
    double h, mag;
    std::vector<std::vector<T>> m;
    blaze::DynamicMatrix<T> dense;
    blaze::CompressedMatrix<T> sparse;
    std::unique_ptr<ty::FunctionMatrix<T, std::size_t>> fn;
    std::unique_ptr<ty::FunctionMatrix<T, int>> fn_int;
    Vec<T> u;
    std::unique_ptr<ieompp::ode::RK4<Real>> rk;
    Typed(vf::Rng& r) : kind(unsigned(r.below(4)))
    {
        n   = unsigned(r.chance(0.004) ? r.range(100, 300) : r.chance(0.15) ? r.range(20, 60) : r.range(1, 12));
        mag = r.chance(0.2) ? std::pow(10., r.real(-3, 3)) : 1;
        h   = Real(r.chance(0.1) ? 0. : r.chance(0.2) ? -r.real(0.001, 0.5) : r.chance(0.3) ? 1. : r.real(0.0001, 0.7));
        h   = Real(h / (mag > 1 ? mag : 1));
        const double fill = r.coin() ? 1. : r.real(0, 0.5);
        m.assign(n, std::vector<T>(n, T(0)));
        for(auto& row : m) {
            for(auto& x : row) {
                if(r.chance(fill)) {
                    x = Num<T>::draw(r) * T(Real(mag));
                }
            }
        }
        dense  = blaze::DynamicMatrix<T>(n, n, T(0));
        sparse = blaze::CompressedMatrix<T>(n, n);
        for(unsigned i = 0; i < n; ++i) {
            for(unsigned j = 0; j < n; ++j) {
                dense(i, j) = m[i][j];
                if(m[i][j] != T(0)) {
                    sparse.insert(i, j, m[i][j]);
                }
            }
        }
        auto copy = m;
        fn.reset(new ty::FunctionMatrix<T, std::size_t>(n, n, [copy](std::size_t i, std::size_t j) { return copy.at(i).at(j); }));
        fn_int.reset(new ty::FunctionMatrix<T, int>(int(n), int(n), [copy](int i, int j) { return copy.at(std::size_t(i)).at(std::size_t(j)); }));
        u = Vec<T>(n);
        for(auto& x : u) {
            x = Num<T>::draw(r);
        }
        rk.reset(new ieompp::ode::RK4<Real>(n, Real(h)));
    }
    std::string text() const override
    {
        static const char* k[] = {"dense", "sparse", "function", "function<int>"};
        return vf::cat(k[kind], " ", sizeof(T), "-byte ", n, "x", n, " h=", h, " scale ", mag);
    }
    void apply(Vec<T>& v)
    {
        switch(kind) {
            case 0: rk->step(dense, v); break;
            case 1: rk->step(sparse, v); break;
            case 2: rk->step(*fn, v); break;
            default: rk->step(*fn_int, v);
        }
    }
    // one step in extended precision; bound: size of the largest intermediate
    std::vector<cl> taylor(const Vec<T>& v, long double& bound) const
    {
        std::vector<cl> term(n), sum(n);
        std::vector<long double> a(n), b(n), total(n);
        for(unsigned i = 0; i < n; ++i) {
            term[i] = sum[i] = Wide<T>::get(v[i]);
            a[i] = total[i] = std::abs(term[i]);
        }
        for(int k = 1; k <= 4; ++k) {
            std::vector<cl> next(n);
            std::fill(b.begin(), b.end(), 0);
            for(unsigned i = 0; i < n; ++i) {
                for(unsigned j = 0; j < n; ++j) {
                    const cl x = Wide<T>::get(m[i][j]) * (long double) h / (long double) k;
                    next[i] += x * term[j];
                    b[i] += std::abs(x) * a[j];
                }
            }
            term = next;
            a    = b;
            for(unsigned i = 0; i < n; ++i) {
                sum[i] += term[i];
                total[i] += a[i];
            }
        }
        bound = *std::max_element(total.begin(), total.end());
        return sum;
    }
    void step(vf::Case& c) override
    {
        omp_set_num_threads(int(c.rng.range(1, 6)));
        const double eps = std::numeric_limits<Real>::epsilon();
        if(c.rng.chance(0.05)) { // a vector that overflowed must not leave anything behind
            Vec<T> v(n);
            for(auto& x : v) {
                x = T(c.rng.coin() ? std::numeric_limits<Real>::infinity() : std::numeric_limits<Real>::quiet_NaN());
            }
            apply(v);
            vf::observe("overflown_vectors");
        }
        const Vec<T> before(u);
        if(n > 0 && c.rng.chance(0.15)) { // the matrix changed since the last step
            const unsigned i = unsigned(c.rng.below(n)), j = unsigned(c.rng.below(n));
            const T x        = m[i][j] == T(0) ? T(0) : Num<T>::draw(c.rng) * T(Real(mag));
            if(x != T(0)) {
                m[i][j] = dense(i, j) = x;
                sparse(i, j)          = x;
                auto copy             = m;
                using Fn    = ty::FunctionMatrix<T, std::size_t>;
                using FnInt = ty::FunctionMatrix<T, int>;
                fn->~Fn(), fn_int->~FnInt();
                new(fn.get()) Fn(n, n, [copy](std::size_t k, std::size_t l) { return copy.at(k).at(l); });
                new(fn_int.get()) FnInt(int(n), int(n), [copy](int k, int l) { return copy.at(std::size_t(k)).at(std::size_t(l)); });
                vf::observe("changed_matrices");
            }
        }
        long double bound;
        const auto want  = taylor(u, bound);
        const double tol = double(bound) * eps * (60 + 10 * n);
        apply(u);
        c.check(u.size() == n, "size", text(), " changes the size of the vector to ", u.size());
        for(unsigned i = 0; i < n; ++i) {
            c.near(Wide<T>::get(u[i]), want[i], tol, "step", text(), " step ", steps, " component ", i);
        }
        c.check(rk->dimension() == n && rk->step_size() == Real(h), "accessors", text(), " reports ", rk->dimension(), ", ", rk->step_size());
        for(unsigned i = 0; i < n; ++i) {
            for(unsigned j = 0; j < n; ++j) {
                c.check(dense(i, j) == m[i][j] && static_cast<const blaze::CompressedMatrix<T>&>(sparse)(i, j) == m[i][j],
                        "matrix-changed", text(), " changes the matrix at (", i, ",", j, ")");
            }
        }
        // linearity: the step of a combination is the combination of steps
        if(c.rng.chance(0.4)) {
            Vec<T> v(n), w(n);
            for(unsigned i = 0; i < n; ++i) {
                v[i] = Num<T>::draw(c.rng);
                w[i] = T(Real(2)) * before[i] - v[i];
            }
            long double bv, bw;
            taylor(v, bv);
            taylor(w, bw);
            apply(v);
            apply(w);
            for(unsigned i = 0; i < n; ++i) {
                const auto sum = Wide<T>::get(v[i]) + Wide<T>::get(w[i]);
                c.near(sum, Wide<T>::get(u[i]) * 2.L, double(2 * bound + bv + bw) * eps * (60 + 10 * n), "linear", text(), " component ", i);
            }
            vf::observe("linearity_checks");
        }
        double size = 0;
        for(auto& x : u) {
            size = std::max(size, double(std::abs(Wide<T>::get(x))));
        }
        if(!(size < 1e12)) { // start over before numbers get out of hand
            for(auto& x : u) {
                x = Num<T>::draw(c.rng);
            }
        }
        ++steps;
        vf::observe("steps");
        vf::observe(vf::cat("steps_kind_", kind));
    }
};
static std::unique_ptr<Line> draw(vf::Rng& r)
{
    switch(r.below(3)) {
        case 0: return std::unique_ptr<Line>(new Typed<double>(r));
        case 1: return std::unique_ptr<Line>(new Typed<float>(r));
        default: return std::unique_ptr<Line>(new Typed<cd>(r));
    }
}
VF_GROUP(interleaved, 1200, 25)
{
    auto& r = c.rng;
    std::vector<std::unique_ptr<Line>> lines;
    const unsigned k = unsigned(r.range(1, 5));
    std::string text;
    for(unsigned i = 0; i < k; ++i) {
        lines.push_back(draw(r));
        text += (i ? "; " : "") + lines.back()->text();
    }
    c.describe(text);
    const unsigned total = unsigned(r.range(1, 12));
    for(unsigned s = 0; s < total; ++s) {
        lines[r.below(k)]->step(c);
    }
}
VF_REQUIRE(changed_matrices, 200)
VF_REQUIRE(steps, 5000)
VF_REQUIRE(steps_kind_0, 500)
VF_REQUIRE(steps_kind_1, 500)
VF_REQUIRE(steps_kind_2, 500)
VF_REQUIRE(steps_kind_3, 500)
VF_REQUIRE(linearity_checks, 1000)
VF_REQUIRE(overflown_vectors, 100)
VF_MAIN
