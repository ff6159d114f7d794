// Expected content of theory.txt: the occupation of site 0 of a half-filled ring of N sites under
// h_r(t) = (-i)^|r| J_|r|(2t), r the distance on the ring. Direct sum over pairs, libm's Bessel functions.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <vector>
int main(int argc, char** argv)
{
    const int n = std::atoi(argv[1]), steps = std::atoi(argv[2]);
    const double dt = std::atof(argv[3]);
    std::vector<long double> g(n);
    for(int r = 0; r < n; ++r) {
        const int d = r < n - r ? r : n - r;
        g[r] = d == 0 ? 0.5L : (d % 2 ? (d % 4 == 1 ? 1.L : -1.L) / (3.14159265358979323846L * d) : 0.L);
    }
    for(int s = 0; s < steps; ++s) {
        const double t = s * dt;
        std::vector<double> re(n), im(n);
        for(int r = 0; r < n; ++r) {
            const int d = r < n - r ? r : n - r;
            const double b = jn(d, 2 * t);
            re[r] = d % 4 == 0 ? b : d % 4 == 2 ? -b : 0;
            im[r] = d % 4 == 1 ? -b : d % 4 == 3 ? b : 0;
        }
        double sum = 0;
        for(int i = 0; i < n; ++i) {
            for(int j = 0; j < n; ++j) {
                sum += double(g[(i - j + n) % n]) * (re[i] * re[j] + im[i] * im[j]);
            }
        }
        std::printf("%.10f %.12f\n", t, sum);
    }
}
