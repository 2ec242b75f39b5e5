#include "vh.h"
static void twiddle(int n, std::vector<cd> &w) {
    w.resize(n);
    for (int i = 0; i < n; i++) { long double a = 2.0L * acosl(-1.0L) * i / n; w[i] = cd((double)cosl(a), (double)sinl(a)); }
}
void dft_dim(std::vector<cd> &a, std::array<int, 3> n, int d, int sign) {
    int len = n[d]; if (len == 1) return;
    std::vector<cd> w; twiddle(len, w);
    if (sign < 0) for (auto &x : w) x = std::conj(x);
    long long stride = 1; for (int i = 0; i < d; i++) stride *= n[i];
    long long total = (long long)n[0] * n[1] * n[2];
    std::vector<double> re(len), im(len), ore(len), oim(len);
    for (long long b = 0; b < total; b++) {
        if ((b / stride) % len != 0) continue;
        for (int j = 0; j < len; j++) { re[j] = a[b + j * stride].real(); im[j] = a[b + j * stride].imag(); }
        for (int k = 0; k < len; k++) {
            double sr = 0, si = 0; int p = 0;
            for (int j = 0; j < len; j++) {
                double wr = w[p].real(), wi = w[p].imag();
                sr += re[j] * wr - im[j] * wi; si += re[j] * wi + im[j] * wr;
                p += k; if (p >= len) p -= len;
            }
            ore[k] = sr; oim[k] = si;
        }
        for (int k = 0; k < len; k++) a[b + k * stride] = cd(ore[k], oim[k]);
    }
}
void ref_dft(std::vector<cd> &a, std::array<int, 3> n, int sign) { for (int d = 0; d < 3; d++) dft_dim(a, n, d, sign); }
std::vector<cd> ref_c2r(std::vector<cd> const &half, std::array<int, 3> n, int dir) {
    // unnormalised inverse: complex transforms in the other two directions, then the conjugate-even extension
    // of every line in direction dir (the imaginary parts of entry 0, and of n/2 when n is even, play no role)
    std::array<int, 3> m = n; m[dir] = n[dir] / 2 + 1;
    std::vector<cd> h = half;
    for (int d = 0; d < 3; d++) if (d != dir) dft_dim(h, m, d, +1);
    int len = n[dir];
    std::vector<cd> w; twiddle(len, w);
    std::vector<cd> res((size_t)n[0] * n[1] * n[2]);
    std::array<int, 3> g;
    int d1 = (dir + 1) % 3, d2 = (dir + 2) % 3;
    auto at = [](std::array<int, 3> const &s, std::array<int, 3> const &i) { return ((size_t)i[2] * s[1] + i[1]) * s[0] + i[0]; };
    for (g[d1] = 0; g[d1] < n[d1]; g[d1]++) for (g[d2] = 0; g[d2] < n[d2]; g[d2]++)
        for (int x = 0; x < len; x++) {
            double s = 0;
            for (int k = 0; k < m[dir]; k++) {
                g[dir] = k; cd v = h[at(m, g)]; cd t = w[(int)(((long long)k * x) % len)];
                double term = v.real() * t.real() - v.imag() * t.imag();
                if (k == 0) s += v.real();
                else if (2 * k == len) s += v.real() * t.real();
                else s += 2 * term;
            }
            g[dir] = x; res[at(n, g)] = cd(s, 0);
        }
    return res;
}
void r2r_dim(std::vector<double> &a, std::array<int, 3> n, int d, int backend, bool fwd) {
    int len = n[d];
    long double pi = acosl(-1.0L);
    std::vector<double> M((size_t)len * len);
    double mult = 1;
    // conventions: FFTW's REDFT10/01, RODFT10/01, REDFT00, RODFT00; the stock and MKL inverse transforms carry an extra factor 2 per direction
    for (int k = 0; k < len; k++) for (int j = 0; j < len; j++) {
        long double v = 0;
        switch (backend) {
        case B_FFTW_COS: case B_STOCK_COS: case B_MKL_COS:
            if (fwd) v = 2 * cosl(pi * (j + 0.5L) * k / len); else v = (j == 0) ? 1 : 2 * cosl(pi * j * (k + 0.5L) / len);
            break;
        case B_FFTW_SIN: case B_STOCK_SIN: case B_MKL_SIN:
            if (fwd) v = 2 * sinl(pi * (j + 0.5L) * (k + 1) / len);
            else v = (j == len - 1) ? ((k % 2) ? -1 : 1) : 2 * sinl(pi * (j + 1) * (k + 0.5L) / len);
            break;
        case B_FFTW_COS1: case B_STOCK_COS1:
            v = (j == 0) ? 1 : (j == len - 1) ? ((k % 2) ? -1 : 1) : 2 * cosl(pi * j * k / (len - 1));
            break;
        case B_FFTW_SIN1:
            v = 2 * sinl(pi * (j + 1) * (k + 1) / (len + 1));
            break;
        }
        M[(size_t)k * len + j] = (double)v;
    }
    if (!fwd && (backend == B_STOCK_COS || backend == B_STOCK_SIN || backend == B_MKL_COS || backend == B_MKL_SIN || backend == B_STOCK_COS1)) mult = 2;
    long long stride = 1; for (int i = 0; i < d; i++) stride *= n[i];
    long long total = (long long)n[0] * n[1] * n[2];
    std::vector<double> x(len), y(len);
    for (long long b = 0; b < total; b++) {
        if ((b / stride) % len != 0) continue;
        for (int j = 0; j < len; j++) x[j] = a[b + j * stride];
        for (int k = 0; k < len; k++) { double s = 0; for (int j = 0; j < len; j++) s += M[(size_t)k * len + j] * x[j]; y[k] = s * mult; }
        for (int j = 0; j < len; j++) a[b + j * stride] = y[j];
    }
}
void ref_r2r(std::vector<double> &a, std::array<int, 3> n, int backend, bool fwd) { for (int d = 0; d < 3; d++) r2r_dim(a, n, d, backend, fwd); }
double expected_scale(int backend, int, std::array<int, 3> n, int scaling) {
    if (scaling == 0) return 1.0;
    double f = 1.0;
    for (int d = 0; d < 3; d++) {
        switch (backend) {
        case B_FFTW_COS: case B_FFTW_SIN: f /= 2.0 * n[d]; break;
        case B_STOCK_COS: case B_STOCK_SIN: case B_MKL_COS: case B_MKL_SIN: f /= 4.0 * n[d]; break;
        case B_FFTW_COS1: f /= 2.0 * (n[d] - 1); break;
        case B_STOCK_COS1: f /= 4.0 * (n[d] - 1); break;
        case B_FFTW_SIN1: f /= 2.0 * (n[d] + 1); break;
        default: f /= n[d];
        }
    }
    return scaling == 2 ? std::sqrt(f) : f;
}
