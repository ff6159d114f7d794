// Reference simulator of the time-evolution programs: reads one job per line on standard input,
//   <id> <kind> <nx> <ny> <J> <U> <dt> <filling> <kx> <ky> <step> <step> ...
// and prints <id> <step> <size> <value> <value> ... where size bounds the terms summed up in a value.
#include "liou.hpp"
#include "sea.hpp"
#include "wick.hpp"
#include <iostream>
#include <sstream>
using ld = long double;
using cl = std::complex<long double>;
using Vec = std::vector<cl>;

struct Sparse {
    std::vector<std::vector<std::pair<uint64_t, ld>>> rows;
    Vec operator()(const Vec& v) const // i M v
    {
        Vec r(v.size());
        for(std::size_t i = 0; i < rows.size(); ++i) {
            cl s = 0;
            for(auto& x : rows[i]) {
                s += x.second * v[x.first];
            }
            r[i] = cl(0, 1) * s;
        }
        return r;
    }
};
static Sparse sparse(const liou::Entries& e, std::size_t d)
{
    Sparse s;
    s.rows.resize(d);
    for(auto& x : e) {
        if(x.second != 0) {
            s.rows[x.first.first].emplace_back(x.first.second, x.second);
        }
    }
    return s;
}
static void step(const Sparse& m, Vec& v, ld dt)
{
    Vec t(v);
    for(int k = 1; k <= 4; ++k) {
        t = m(t);
        for(std::size_t i = 0; i < t.size(); ++i) {
            t[i] *= dt / k;
            v[i] += t[i];
        }
    }
}

int main()
{
    std::string line;
    while(std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string id, kind;
        uint64_t nx, ny;
        double J, U, dt, filling, kx, ky;
        in >> id >> kind >> nx >> ny >> J >> U >> dt >> filling >> kx >> ky;
        std::set<uint64_t> steps;
        for(uint64_t s; in >> s;) {
            steps.insert(s);
        }
        const bool square = kind == "jump2d", kinetic = kind == "kinetic" || kind == "kinetic_coefficients";
        const uint64_t n  = square ? nx * ny : nx;
        const uint64_t d  = kinetic ? n : kind == "momentum" ? 1 + n * n : n + n * n * n;
        // correlations of the sea
        wick::Matrix g(n, std::vector<double>(n));
        for(uint64_t a = 0; a < n; ++a) {
            for(uint64_t b = 0; b < n; ++b) {
                if(square) {
                    // half of the electrons, filled up to |kx|+|ky| = pi: 2 (1/2pi)^2 ... as a function of
                    // the smallest displacement
                    const uint64_t x = (a / ny + nx - b / ny) % nx, y = (a % ny + ny - b % ny) % ny;
                    const ld dx = ld(std::min(x, nx - x)), dy = ld(std::min(y, ny - y));
                    // integrate over the diamond: with p = (kx+ky)/2, q = (kx-ky)/2 each in [-pi/2, pi/2]
                    auto one = [](ld m) { return m == 0 ? M_PIl : 2 * std::sin(m * M_PIl / 2) / m; };
                    g[a][b] = double(2 * one(dx + dy) * one(dx - dy) / (4 * M_PIl * M_PIl));
                } else {
                    const ld kf = ld(filling) * M_PIl;
                    const uint64_t x = (a + n - b) % n;
                    const ld y       = ld(std::min(x, n - x));
                    g[a][b]          = x == 0 ? filling : double(std::sin(kf * y) / (M_PIl * y));
                }
            }
        }
        // matrix
        liou::Entries e;
        if(kinetic) {
            e = liou::kinetic(liou::ring(unsigned(n)), J);
        } else if(kind == "momentum") {
            const uint64_t q = n / 2;
            auto eps = [&](uint64_t k) { return double(-2 * ld(J) * std::cos(-M_PIl + 2 * M_PIl * ld(k) / ld(n))); };
            e[{0, 0}] = eps(q) + U / 2;
            for(uint64_t i = 1; i < d; ++i) {
                const uint64_t k1 = (i - 1) / n, k2 = (i - 1) % n, k3 = (k1 + k2 + n - q) % n;
                e[{i, i}] = eps(k1) + eps(k2) - eps(k3) + U / 2;
                e[{0, i}] = e[{i, 0}] = U / (2. * double(n));
            }
        } else {
            e = liou::real_space(square ? liou::torus(unsigned(nx), unsigned(ny)) : liou::ring(unsigned(n)), J, U);
        }
        const Sparse m = sparse(e, d);
        // quadratic form of the observable
        std::vector<std::vector<double>> form;
        if(kinetic) {
            form = g;
        } else if(kind == "momentum") {
            std::vector<bool> filled;
            for(uint64_t k = 0; k < n; ++k) {
                filled.push_back(-2 * J * std::cos(-M_PI + 2 * M_PI * double(k) / double(n)) < 0);
            }
            form = sea::gram(n, 1, n / 2, filled);
        } else if(kind == "occupation") {
            std::vector<wick::Poly> b;
            for(unsigned i = 0; i < n; ++i) {
                b.push_back(wick::element1(i));
            }
            for(unsigned i = 0; i < n; ++i) {
                for(unsigned j = 0; j < n; ++j) {
                    for(unsigned k = 0; k < n; ++k) {
                        b.push_back(wick::element3(i, j, k));
                    }
                }
            }
            form.assign(d, std::vector<double>(d));
            for(uint64_t i = 0; i < d; ++i) {
                for(uint64_t j = 0; j < d; ++j) {
                    form[i][j] = wick::expect(b[i] * wick::adjoint(b[j]), g) / 2;
                }
            }
        }
        std::vector<cl> phase(n);
        for(uint64_t i = 0; i < n; ++i) {
            phase[i] = square ? std::polar(1.L, ld(kx) * ld(i / ny) + ld(ky) * ld(i % ny))
                              : std::polar(1.L, ld(filling) * M_PIl * ld(i));
        }
        Vec h(d);
        h[0] = 1;
        std::cout.precision(17);
        for(uint64_t s = 0; !steps.empty(); ++s) {
            if(steps.count(s)) {
                std::vector<ld> values;
                ld size = 0;
                if(kind == "coefficients" || kind == "kinetic_coefficients") {
                    for(auto& x : h) {
                        values.push_back(x.real());
                        values.push_back(x.imag());
                        size = std::max(size, std::abs(x));
                    }
                } else if(kind == "jump" || kind == "jump2d") {
                    cl sum = 0;
                    for(uint64_t i = 0; i < n; ++i) {
                        cl x = h[i];
                        size += std::abs(h[i]);
                        for(uint64_t j = 0; j < n; ++j) {
                            for(uint64_t k = 0; k < n; ++k) {
                                const cl y = h[n + n * n * i + n * j + k];
                                x += (2.L * g[j][k] - (j == k ? 1 : 0)) * y;
                                size += std::abs(y);
                            }
                        }
                        sum += x * phase[i];
                    }
                    values.push_back(std::norm(sum));
                    size *= size;
                } else {
                    ld sum = 0;
                    for(uint64_t i = 0; i < d; ++i) {
                        for(uint64_t j = 0; j < d; ++j) {
                            if(form[i][j] != 0) {
                                const cl x = h[i] * std::conj(h[j]) * ld(form[i][j]);
                                sum += x.real();
                                size += std::abs(x);
                            }
                        }
                    }
                    values.push_back(sum);
                }
                std::cout << id << ' ' << s << ' ' << size;
                for(auto v : values) {
                    std::cout << ' ' << v;
                }
                std::cout << '\n';
                steps.erase(s);
            }
            if(!steps.empty()) {
                step(m, h, dt);
            }
        }
    }
    return std::cout.good() ? 0 : 1;
}
