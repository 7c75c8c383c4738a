// Complex elements: the operations that take them, over small Gaussian integers, where all arithmetic is exact.
// -DVMC_T=std::complex<..> -DVMC_PROP=1 element-wise, 2 products, 4 determinants, 11 convolution, 13 mean, 15 predicates
#include "alphabet.hpp"
using namespace vmc;
typedef VMC_T T; typedef T::value_type F;
using mlib::operator+; using mlib::operator-; using mlib::operator*; using mlib::operator++; using mlib::operator--;
struct Z { long long re, im; };
static Z z(const T& x) { return {(long long)x.real(), (long long)x.imag()}; }
static Z add(Z a, Z b) { return {a.re + b.re, a.im + b.im}; }
static Z sub(Z a, Z b) { return {a.re - b.re, a.im - b.im}; }
static Z mul(Z a, Z b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
static T t(Z a) { return T((F)a.re, (F)a.im); }
static std::vector<T> letters() { std::vector<T> v; for (int a : {0, 1, -2}) for (int b : {0, 1, -3}) v.push_back(T((F)a, (F)b)); return v; }
static std::vector<std::vector<T>> bases()
{
  std::vector<std::vector<T>> b = {{T(0)}, {T(1)}, {T(0, 1)}, {}, {}};
  for (int i = 0; i < 37; ++i) { b[3].push_back(T((F)(i % 7 - 3), (F)(i * 5 % 11 - 5))); b[4].push_back(T((F)(i % 3), (F)-(i % 4))); }
  return b;
}
template <class M> void is(const M& got, const M& want) { call(); if (!eqv(got, want)) fail(got, want); agreed(got); }
template <size_t R, size_t C, class F2> Mat<T, R, C> make(F2 f) { Mat<T, R, C> M{}; for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) M[i][j] = f(i, j); return M; }
template <class F2> void run(Unit& u, Cells<T>& c, F2 f)
{
  Space<T> sp; sp.alpha = letters(); sp.bases = bases(); sp.fullLimit = 60000; sp.dev2Limit = g().thorough ? 3e6 : 2e5;
  enumerate<T>(u, c, sp, f);
}
#if VMC_PROP == 1
template <size_t R, size_t C> void shape()
{
  static Mat<T, R, C> A, B; static T s;
  auto map = [&](auto f) { return make<R, C>([&](size_t i, size_t j) { return f(A[i][j], B[i][j]); }); };
  if (!mine()) return;
  { Unit u("A+B, A-B, mlib::sum, mlib::sub"); u.in("A", A).in("B", B); Cells<T> c; c.add(A).add(B);
    run(u, c, [&] { auto p = map([](T a, T b) { return t(add(z(a), z(b))); }), m = map([](T a, T b) { return t(sub(z(a), z(b))); }); is(Mat<T, R, C>(A + B), p); is(Mat<T, R, C>(mlib::sum(A, B)), p); is(Mat<T, R, C>(A - B), m); is(Mat<T, R, C>(mlib::sub(A, B)), m); }); }
  { Unit u("A+s, s+A, A-s, A*s, s*A, A++, A--, abs(A)"); u.in("A", A).in("s", s); Cells<T> c; c.add(A).add(s);
    run(u, c, [&] {
      is(Mat<T, R, C>(A + s), map([](T a, T) { return t(add(z(a), z(s))); })); is(Mat<T, R, C>(s + A), map([](T a, T) { return t(add(z(a), z(s))); }));
      is(Mat<T, R, C>(A - s), map([](T a, T) { return t(sub(z(a), z(s))); }));
      is(Mat<T, R, C>(A * s), map([](T a, T) { return t(mul(z(a), z(s))); })); is(Mat<T, R, C>(s * A), map([](T a, T) { return t(mul(z(a), z(s))); }));
      is(Mat<T, R, C>(A++), map([](T a, T) { return t(add(z(a), Z{1, 0})); })); is(Mat<T, R, C>(A--), map([](T a, T) { return t(sub(z(a), Z{1, 0})); }));
      is(Mat<T, R, C>(mlib::abs(A)), map([](T a, T) { return T(std::abs(a)); })); }); }
}
static void all() { forNs(Ns<1, 2, 3, 4, 7>(), [](auto r) { forNs(Ns<1, 2, 3, 5>(), [](auto c) { shape<decltype(r)::value, decltype(c)::value>(); }); }); }
#elif VMC_PROP == 2
template <size_t N, size_t M, size_t P> void shape()
{
  if (!mine()) return;
  static Mat<T, N, M> A; static Mat<T, M, P> B;
  Unit u("A*B"); u.in("A", A).in("B", B); Cells<T> c; c.add(A).add(B);
  run(u, c, [&] { auto w = make<N, P>([&](size_t i, size_t j) { Z s{0, 0}; for (size_t k = 0; k < M; ++k) s = add(s, mul(z(A[i][k]), z(B[k][j]))); return t(s); }); is(Mat<T, N, P>(A * B), w); is(Mat<T, N, P>(mlib::mult(A, B)), w); });
}
static void all()
{
  forNs(Ns<1, 2, 3, 4>(), [](auto n) { forNs(Ns<1, 2, 3, 5>(), [](auto m) { forNs(Ns<1, 2, 3>(), [](auto p) { shape<decltype(n)::value, decltype(m)::value, decltype(p)::value>(); }); }); });
  if (!mine()) return;
  static Mat<T, 2, 2> A, B;
  Unit u("mlib::strassen(A, B)"); u.in("A", A).in("B", B); Cells<T> c; c.add(A).add(B);
  run(u, c, [&] { is(Mat<T, 2, 2>(mlib::strassen(A, B)), make<2, 2>([&](size_t i, size_t j) { return t(add(mul(z(A[i][0]), z(B[0][j])), mul(z(A[i][1]), z(B[1][j])))); })); });
}
#elif VMC_PROP == 4
static void all()
{
  if (mine()) { static Mat<T, 1, 1> A; Unit u("mlib::det(A)"); u.in("A", A); Cells<T> c; c.add(A); run(u, c, [&] { call(); T d = mlib::det(A); if (!eqv(d, A[0][0])) fail(d, A[0][0]); agreed(d); }); }
  if (mine()) { static Mat<T, 2, 2> A; Unit u("mlib::det(A)"); u.in("A", A); Cells<T> c; c.add(A); run(u, c, [&] { call(); T d = mlib::det(A), w = t(sub(mul(z(A[0][0]), z(A[1][1])), mul(z(A[0][1]), z(A[1][0])))); if (!eqv(d, w)) fail(d, w); agreed(d); }); }
  if (mine()) { static Mat<T, 3, 3> A; Unit u("mlib::det(A)"); u.in("A", A); Cells<T> c; c.add(A); run(u, c, [&] {
    Z w{0, 0}; for (int k = 0; k < 3; ++k) { Z a = z(A[0][k]), m = sub(mul(z(A[1][(k + 1) % 3]), z(A[2][(k + 2) % 3])), mul(z(A[1][(k + 2) % 3]), z(A[2][(k + 1) % 3]))); w = add(w, mul(a, m)); }
    call(); T d = mlib::det(A); if (!eqv(d, t(w))) fail(d, t(w)); agreed(d); }); }
}
#elif VMC_PROP == 11
template <bool B> struct Valid { template <size_t R, size_t C, class W> static void ask(const Mat<T, R, C>& A, const Mat<T, 3, 3>& K, const W& w) { is(Mat<T, R - 2, C - 2>(mlib::conv2_valid(A, K)), make<R - 2, C - 2>([&](size_t i, size_t j) { return w[i + 2][j + 2]; })); } };
template <> struct Valid<false> { template <size_t R, size_t C, class W> static void ask(const Mat<T, R, C>&, const Mat<T, 3, 3>&, const W&) {} };
template <size_t R, size_t C> void shape()
{
  if (!mine()) return;
  static Mat<T, R, C> A; static Mat<T, 3, 3> K;
  Unit u("mlib::conv2, conv2_full, conv2_valid(A, K)"); u.in("A", A).in("K", K); Cells<T> c; c.add(A).add(K);
  run(u, c, [&] {
    auto w = make<R + 2, C + 2>([&](size_t r, size_t q) { Z s{0, 0}; for (size_t a = 0; a < 3; ++a) for (size_t b = 0; b < 3; ++b) if (r >= a && q >= b && r - a < R && q - b < C) s = add(s, mul(z(K[a][b]), z(A[r - a][q - b]))); return t(s); });
    is(Mat<T, R + 2, C + 2>(mlib::conv2_full(A, K)), w); is(Mat<T, R, C>(mlib::conv2(A, K)), make<R, C>([&](size_t i, size_t j) { return w[i + 1][j + 1]; }));
    Valid<(R > 2 && C > 2)>::template ask<R, C>(A, K, w); });
}
static void all() { forNs(Ns<1, 2, 3, 4>(), [](auto r) { forNs(Ns<1, 2, 3, 5>(), [](auto c) { shape<decltype(r)::value, decltype(c)::value>(); }); }); }
#elif VMC_PROP == 13
template <size_t R, size_t C> void shape()
{
  if (!mine()) return;
  static Mat<T, R, C> A;
  Unit u("mlib::mean(A)"); u.in("A", A); Cells<T> c; c.add(A);
  run(u, c, [&] { Z s{0, 0}; for (auto& r : A) for (auto& x : r) s = add(s, z(x)); const T w((F)((long double)s.re / (R * C)), (F)((long double)s.im / (R * C)));
    call(); T m = mlib::mean(A); if (!(std::abs(m - w) <= 4 * std::numeric_limits<F>::epsilon() * std::abs(w))) fail(m, w); agreed(m); });
}
static void all() { forNs(Ns<1, 2, 3, 4, 7, 12>(), [](auto r) { forNs(Ns<1, 2, 3, 5, 11>(), [](auto c) { shape<decltype(r)::value, decltype(c)::value>(); }); }); }
#else
template <size_t R, size_t C> void shape()
{
  if (!mine()) return;
  static Mat<T, R, C> A, B; static float e;
  for (float eps : {0.0f, 0.5f, 1.0f, 2.0f, 5.0f})
  {
    e = eps; Unit u("mlib::compare(A, B, e)"); u.in("A", A).in("B", B).in("e", e); Cells<T> c; c.add(A).add(B);
    run(u, c, [&] { bool want = true; for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) { Z d = sub(z(A[i][j]), z(B[i][j])); want &= (long double)(d.re * d.re + d.im * d.im) <= (long double)e * e; }
      call(); bool got = mlib::compare(A, B, e); if (got != want) fail(std::string(got ? "true" : "false"), std::string(want ? "true" : "false")); agreed((int)got); });
  }
}
template <size_t N> void ident()
{
  if (!mine()) return;
  static Mat<T, N, N> A; Unit u("mlib::isIdentity(A)"); u.in("A", A); Cells<T> c; c.add(A);
  Space<T> sp; sp.alpha = letters(); sp.bases = bases(); std::vector<T> I; for (size_t i = 0; i < N * N; ++i) I.push_back(T(i / N == i % N)); sp.bases.push_back(I); sp.fullLimit = 7000; sp.dev2Limit = 3e4;
  enumerate<T>(u, c, sp, [&] { bool want = true; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) want &= A[i][j] == T(i == j); call(); bool got = mlib::isIdentity(A); if (got != want) fail(std::string(got ? "true" : "false"), std::string(want ? "true" : "false")); agreed((int)got); });
}
static void all() { forNs(Ns<1, 2, 3, 4, 6>(), [](auto r) { forNs(Ns<1, 2, 3, 5>(), [](auto c) { shape<decltype(r)::value, decltype(c)::value>(); }); }); ident<1>(); ident<2>(); ident<3>(); ident<4>(); ident<7>(); }
#endif
int main(int argc, char** argv) { char p[8]; std::snprintf(p, sizeof p, "C%02d", VMC_PROP); init(p, argc, argv); all(); return finish(); }
