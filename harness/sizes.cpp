// Every size: lines and thin matrices of every length from 1 to VMC_LINE, squares up to VMC_SQUARE, over small integers,
// where all arithmetic is exact. Contents: four patterns, one of them with every element deviating in turn.
// -DVMC_T=type -DVMC_PROP=1 element-wise, 2 products, 3 division, 9 layout, 10 joining, 11 convolution, 15 predicates
#include "alphabet.hpp"
using namespace vmc;
typedef VMC_T T;
using mlib::operator+; using mlib::operator-; using mlib::operator*; using mlib::operator/; using mlib::operator++; using mlib::operator--;
#ifndef VMC_LINE
#define VMC_LINE 80
#endif
#ifndef VMC_SQUARE
#define VMC_SQUARE 40
#endif
typedef long long ll;
static std::vector<int> v;              // all cells of all operands of the current case
static std::vector<ll> w;               // what is expected
static std::string dims;
static const char* op = "";
static std::string cellsText() { std::string s = "operands " + dims + ", their elements in order: "; for (int x : v) s += std::to_string(x) + " "; return s; }
static void contents(Unit& u, size_t n, const std::function<void()>& f)
{
  auto go = [&] { ++u.cases; ++g().states; f(); };
  for (int b = 0; b < 4; ++b)
  {
    v.assign(n, 0);
    for (size_t p = 0; p < n; ++p) v[p] = b == 0 ? 0 : b == 1 ? 1 : b == 2 ? (int)(p * 5 % 11) - 5 : (int)(p % 97) - 48;
    go();
    if (b != 2) continue;
    for (size_t p = 0; p < n; p += n > 4000 && p + 1 < n ? std::min(n / 23, n - 1 - p) : 1) for (int d : {7, -6}) { if (d < 0 && n > 700 && !g().thorough) break; const int keep = v[p]; v[p] = d; go(); v[p] = keep; }
  }
  g().modes["every element deviating in turn, every size"] += u.cases;
}
static void cmp(const T* got, size_t n)
{
  if (w.size() != n) emitViolation(std::to_string(n) + " elements", std::to_string(w.size()), op);
  for (size_t p = 0; p < n; ++p) if (!(got[p] == (T)w[p])) emitViolation("element " + std::to_string(p) + " is " + lit(got[p]), std::to_string(w[p]), op);
  call(); agreedQuiet();
}
template <size_t R, size_t C> void is(const Mat<T, R, C>& got, const char* what) { op = what; cmp(&got[0][0], R * C); }
template <class M> void load(M& A, size_t from) { T* a = &A[0][0]; const size_t n = A.size() * A[0].size(); for (size_t p = 0; p < n; ++p) a[p] = (T)v[from + p]; }
static std::string x(size_t a, size_t b) { return std::to_string(a) + "x" + std::to_string(b); }

#if VMC_PROP == 1
template <size_t R, size_t C> void shape()
{
  if (!mine()) return;
  const size_t n = R * C; static Mat<T, R, C> A, B;
  Unit u("+, -, *, ++, --, abs"); dims = x(R, C) + ", " + x(R, C) + " and a scalar"; u.operands.push_back(cellsText);
  contents(u, 2 * n + 1, [&] {
    load(A, 0); load(B, n); const int si = v[2 * n]; const T s = (T)si; w.resize(n);
    auto want = [&](ll (*f)(ll, ll, ll)) { for (size_t p = 0; p < n; ++p) w[p] = f(v[p], v[n + p], v[2 * n]); };
    want([](ll a, ll b, ll) { return a + b; }); is<R, C>(A + B, "A + B"); is<R, C>(mlib::sum(A, B), "sum(A, B)");
    want([](ll a, ll b, ll) { return a - b; }); is<R, C>(A - B, "A - B"); is<R, C>(mlib::sub(A, B), "sub(A, B)");
    want([](ll a, ll, ll c) { return a + c; }); is<R, C>(A + s, "A + s"); is<R, C>(s + A, "s + A"); is<R, C>(mlib::sum(A, s), "sum(A, s)");
    want([](ll a, ll, ll c) { return a - c; }); is<R, C>(A - s, "A - s"); is<R, C>(mlib::sub(A, s), "sub(A, s)");
    want([](ll a, ll, ll c) { return a * c; }); is<R, C>(A * s, "A * s"); is<R, C>(s * A, "s * A"); is<R, C>(mlib::mult(A, s), "mult(A, s)");
    want([](ll a, ll, ll) { return a < 0 ? -a : a; }); is<R, C>(mlib::abs(A), "abs(A)");
    want([](ll a, ll, ll) { return a + 1; }); { Mat<T, R, C> M = A; is<R, C>(M++, "A++"); }
    want([](ll a, ll, ll) { return a - 1; }); { Mat<T, R, C> M = A; is<R, C>(M--, "A--"); }
  });
}
#elif VMC_PROP == 3
template <size_t R, size_t C> void shape()
{
  if (!mine()) return;
  const size_t n = R * C; static Mat<T, R, C> A;
  Unit u("A / s, div(A, s)"); dims = x(R, C) + " and a scalar"; u.operands.push_back(cellsText);
  contents(u, n + 1, [&] {
    load(A, 0);
    for (int si : {v[n], 0, 3})
    {
      const T s = (T)si; v[n] = si;
      for (int form = 0; form < 2; ++form)
      {
        Mat<T, R, C> M = A;
        const int e = attempt([&] { M = form ? Mat<T, R, C>(mlib::div(A, s)) : Mat<T, R, C>(A / s); });
        if (e != (si == 0 ? Overflow : Returned)) emitViolation(endingText(e), endingText(si == 0 ? Overflow : Returned), form ? "div(A, s)" : "A / s");
        if (si) for (size_t p = 0; p < n; ++p) { const T q = (T)v[p] / s; if (!(M[p / C][p % C] == q)) fail(M[p / C][p % C], q, "element " + std::to_string(p)); }
        agreedQuiet();
      }
    }
  });
}
#elif VMC_PROP == 9
template <size_t R, size_t C> struct Square { static void run() {} };
template <size_t N> struct Square<N, N>
{
  static void run()
  {
    static Mat<T, N, N> A; load(A, 0);
    for (size_t a = 0; a < N; ++a) for (size_t b = 0; b < N; ++b)
    {
      w.clear(); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (i != a && j != b) w.push_back(v[i * N + j]);
      is<N - 1, N - 1>(mlib::getminor(A, a, b), "getminor(A, i, j)");
    }
  }
};
template <> struct Square<1, 1> { static void run() {} };
template <size_t R, size_t C> void shape()
{
  if (!mine()) return;
  static Mat<T, R, C> A;
  Unit u("trans, swap_rows, swap_cols, getminor"); dims = x(R, C); u.operands.push_back(cellsText);
  v.resize(R * C); for (size_t p = 0; p < R * C; ++p) v[p] = (int)p + 1;
  ++u.cases; ++g().states; g().modes["distinct elements, every size"] += 1;
  load(A, 0);
  w.clear(); for (size_t j = 0; j < C; ++j) for (size_t i = 0; i < R; ++i) w.push_back(v[i * C + j]);
  is<C, R>(mlib::trans(A), "trans(A)");
  for (size_t a = 0; a < R; ++a) for (size_t b = 0; b < R; ++b)
  { w.assign(v.begin(), v.end()); for (size_t j = 0; j < C; ++j) std::swap(w[a * C + j], w[b * C + j]); Mat<T, R, C> M = A; mlib::swap_rows(M, a, b); is<R, C>(M, "swap_rows(A, a, b)"); }
  for (size_t a = 0; a < C; ++a) for (size_t b = 0; b < C; ++b)
  { w.assign(v.begin(), v.end()); for (size_t i = 0; i < R; ++i) std::swap(w[i * C + a], w[i * C + b]); Mat<T, R, C> M = A; mlib::swap_cols(M, a, b); is<R, C>(M, "swap_cols(A, a, b)"); }
  Square<R, C>::run();
}
#elif VMC_PROP == 11
template <bool B> struct Valid { template <size_t R, size_t C> static void ask(const Mat<T, R, C>& A, const Mat<T, 3, 3>& K, const std::vector<ll>& f)
  { w.clear(); for (size_t i = 2; i < R; ++i) for (size_t j = 2; j < C; ++j) w.push_back(f[i * (C + 2) + j]); is<R - 2, C - 2>(mlib::conv2_valid(A, K), "conv2_valid(A, K)"); } };
template <> struct Valid<false> { template <size_t R, size_t C> static void ask(const Mat<T, R, C>&, const Mat<T, 3, 3>&, const std::vector<ll>&) {} };
template <size_t R, size_t C> void shape()
{
  if (!mine()) return;
  const size_t n = R * C; static Mat<T, R, C> A; static Mat<T, 3, 3> K;
  Unit u("conv2, conv2_full, conv2_valid"); dims = x(R, C) + " and the 3x3 kernel"; u.operands.push_back(cellsText);
  contents(u, n + 9, [&] {
    load(A, 0); load(K, n);
    std::vector<ll> f((R + 2) * (C + 2), 0);
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) for (size_t a = 0; a < 3; ++a) for (size_t b = 0; b < 3; ++b) f[(i + a) * (C + 2) + j + b] += (ll)v[i * C + j] * v[n + a * 3 + b];
    w = f; is<R + 2, C + 2>(mlib::conv2_full(A, K), "conv2_full(A, K)");
    w.clear(); for (size_t i = 1; i <= R; ++i) for (size_t j = 1; j <= C; ++j) w.push_back(f[i * (C + 2) + j]);
    is<R, C>(mlib::conv2(A, K), "conv2(A, K)");
    Valid<(R > 2 && C > 2)>::template ask<R, C>(A, K, f);
  });
}
#elif VMC_PROP == 15
template <size_t R, size_t C> struct Square { static void run(Unit&) {} };
template <size_t N> struct Square<N, N>
{
  static void ask(Unit& u, Mat<T, N, N>& A)
  {
    ++u.cases; ++g().states; call();
    bool want = true; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) want &= A[i][j] == (T)(i == j);
    const bool got = mlib::isIdentity(A);
    if (got != want) { v.clear(); for (auto& r : A) for (auto& e : r) v.push_back((int)e); dims = x(N, N); fail(std::string(got ? "true" : "false"), std::string(want ? "true" : "false"), "isIdentity(A)"); }
    agreedQuiet();
  }
  static void run(Unit& u)
  {
    static Mat<T, N, N> A; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) A[i][j] = (T)(i == j);
    ask(u, A);
    for (auto& r : A) for (auto& e : r) { const T k = e; for (int d : {0, 1, 2, -1}) { e = (T)d; ask(u, A); } e = k; }
  }
};
template <size_t R, size_t C> void shape()
{
  if (!mine()) return;
  const size_t n = R * C; static Mat<T, R, C> A, B;
  Unit u("compare(A, B, e), isIdentity(A)"); dims = x(R, C) + ", " + x(R, C); u.operands.push_back(cellsText);
  for (int b : {2, 3}) for (float e : {0.0f, 0.5f, 1.0f})
  {
    v.resize(2 * n); for (size_t p = 0; p < n; ++p) v[p] = v[n + p] = b == 2 ? (int)(p * 5 % 11) - 5 : (int)(p % 97) - 48;
    load(A, 0); load(B, n);
    auto ask = [&](bool want) { ++u.cases; ++g().states; call(); const bool got = mlib::compare(A, B, e); if (got != want) fail(std::string(got ? "true" : "false"), std::string(want ? "true" : "false"), "compare(A, B, " + std::to_string(e) + ")"); agreedQuiet(); };
    ask(true);
    for (size_t p = 0; p < n; ++p) for (int d : {1, -1, 2, 90})
    {
      T& q = (p & 1 ? A : B)[p / C][p % C]; int& y = v[p & 1 ? p : n + p];
      q = (T)(y + d); y += d; ask((d < 0 ? -d : d) <= (int)e); y -= d; q = (T)y;
    }
  }
  g().modes["every element deviating in turn, every size"] += u.cases;
  Square<R, C>::run(u);
}
#endif

#if VMC_PROP == 2
template <size_t N, size_t M, size_t P> void shape()
{
  if (!mine()) return;
  static Mat<T, N, M> A; static Mat<T, M, P> B;
  Unit u("A * B"); dims = x(N, M) + ", " + x(M, P); u.operands.push_back(cellsText);
  contents(u, N * M + M * P, [&] {
    load(A, 0); load(B, N * M);
    w.assign(N * P, 0); for (size_t i = 0; i < N; ++i) for (size_t k = 0; k < M; ++k) for (size_t j = 0; j < P; ++j) w[i * P + j] += (ll)v[i * M + k] * v[N * M + k * P + j];
    is<N, P>(A * B, "A * B"); is<N, P>(mlib::mult(A, B), "mult(A, B)");
  });
}
static void all()
{
  forNs(range<1, VMC_LINE>(), [](auto q) { constexpr size_t N = decltype(q)::value; if constexpr (inSlice(N)) { shape<1, N, 1>(); shape<2, N, 3>(); shape<N, 2, 3>(); shape<3, 2, N>(); shape<N, 1, 1>(); shape<1, 1, N>(); shape<2, 3, N>(); } });
  forNs(range<5, VMC_SQUARE>(), [](auto q) { constexpr size_t N = decltype(q)::value; if constexpr (inSlice(N)) { shape<N, N, N>(); shape<N, N, 1>(); shape<1, N, N>(); shape<N, N + 1, 2>(); } });
  forNs(range<VMC_SQUARE + 1, 80>(), [](auto q) { constexpr size_t N = decltype(q)::value; if constexpr (inSlice(N)) shape<N, N, N>(); });
}
#elif VMC_PROP == 10
template <size_t R1, size_t R2, size_t C> void vertical()
{
  if (!mine()) return;
  static Mat<T, R1, C> A; static Mat<T, R2, C> B;
  Unit u("concatenate(A, B)"); dims = x(R1, C) + ", " + x(R2, C); u.operands.push_back(cellsText);
  const size_t n = (R1 + R2) * C; v.resize(n); for (size_t p = 0; p < n; ++p) v[p] = (int)p + 1;
  ++u.cases; ++g().states; g().modes["distinct elements, every size"] += 1;
  load(A, 0); load(B, R1 * C); w.assign(v.begin(), v.end());
  is<R1 + R2, C>(mlib::concatenate(A, B), "concatenate(A, B)");
}
template <size_t R, size_t C1, size_t C2> void horizontal()
{
  if (!mine()) return;
  static Mat<T, R, C1> A; static Mat<T, R, C2> B;
  Unit u("concatenate(A, B)"); dims = x(R, C1) + ", " + x(R, C2); u.operands.push_back(cellsText);
  const size_t n = R * (C1 + C2); v.resize(n); for (size_t p = 0; p < n; ++p) v[p] = (int)p + 1;
  ++u.cases; ++g().states; g().modes["distinct elements, every size"] += 1;
  load(A, 0); load(B, R * C1);
  w.clear(); for (size_t i = 0; i < R; ++i) { for (size_t j = 0; j < C1; ++j) w.push_back(v[i * C1 + j]); for (size_t j = 0; j < C2; ++j) w.push_back(v[R * C1 + i * C2 + j]); }
  is<R, C1 + C2>(mlib::concatenate(A, B), "concatenate(A, B)");
}
template <size_t N> void square()
{
  if (!mine()) return;
  static Mat<T, N, N> A, B;
  Unit u("concatenate(A, B), concatenateV(A, B), concatenateH(A, B)"); dims = x(N, N) + ", " + x(N, N); u.operands.push_back(cellsText);
  const size_t n = 2 * N * N; v.resize(n); for (size_t p = 0; p < n; ++p) v[p] = (int)p + 1;
  ++u.cases; ++g().states; g().modes["distinct elements, every size"] += 1;
  load(A, 0); load(B, N * N);
  auto p = mlib::concatenate(A, B);
  w.assign(v.begin(), v.end()); is<2 * N, N>(p.first, "concatenate(A, B).first"); is<2 * N, N>(mlib::concatenateV(A, B), "concatenateV(A, B)");
  w.clear(); for (size_t i = 0; i < N; ++i) { for (size_t j = 0; j < N; ++j) w.push_back(v[i * N + j]); for (size_t j = 0; j < N; ++j) w.push_back(v[N * N + i * N + j]); }
  is<N, 2 * N>(p.second, "concatenate(A, B).second"); is<N, 2 * N>(mlib::concatenateH(A, B), "concatenateH(A, B)");
}
static void all()
{
  forNs(range<3, VMC_LINE>(), [](auto q) { constexpr size_t N = decltype(q)::value; if constexpr (inSlice(N)) {
    vertical<N, 1, 1>(); vertical<1, N, 2>(); vertical<N, N + 1, 2>(); vertical<N, 2, 3>(); vertical<2, 1, N>(); vertical<1, 2, N>(); vertical<N - 1, N, N>();
    horizontal<1, N, 1>(); horizontal<2, 1, N>(); horizontal<2, N, N + 1>(); horizontal<3, 2, N>(); horizontal<N, 1, 2>(); horizontal<N, 2, 1>(); horizontal<N, N, N - 1>(); } });
  forNs(range<1, 80>(), [](auto q) { if constexpr (inSlice(decltype(q)::value)) square<decltype(q)::value>(); });
}
#else
static void all()
{
  forNs(range<1, VMC_LINE>(), [](auto q) { constexpr size_t N = decltype(q)::value; if constexpr (inSlice(N)) { shape<1, N>(); shape<N, 1>(); shape<2, N>(); shape<N, 3>(); } });
  forNs(range<4, VMC_SQUARE>(), [](auto q) { constexpr size_t N = decltype(q)::value; if constexpr (inSlice(N)) { shape<N, N>(); shape<N, N + 1>(); } });
  forNs(range<VMC_SQUARE + 1, 80>(), [](auto q) { constexpr size_t N = decltype(q)::value; if constexpr (inSlice(N)) shape<N, N>(); });
#if VMC_PROP == 11
  if (VMC_SLICE == 0) { shape<1, 70000>(); shape<70000, 1>(); shape<3, 33000>(); shape<33000, 3>(); }
#endif
}
#endif
int main(int argc, char** argv) { char p[8]; std::snprintf(p, sizeof p, "C%02d", VMC_PROP); init(p, argc, argv); all(); return finish(); }
