// C11: 2-D convolution with a 3x3 kernel in the three modes. -DVMC_T=type -DVMC_PART=0
#include "ref.hpp"
using namespace vmc;
typedef VMC_T T;
constexpr bool kInt = std::is_integral<T>::value;

// the 'full' convolution by its definition
template <size_t R, size_t C> struct Ref
{
  typedef typename std::conditional<kInt, i128, long double>::type W;
  W w[R + 2][C + 2], m[R + 2][C + 2];
  bool make(const Mat<T, R, C>& A, const Mat<T, 3, 3>& K)
  {
    for (size_t r = 0; r < R + 2; ++r) for (size_t c = 0; c < C + 2; ++c)
    {
      W s = 0, t = 0;
      for (size_t a = 0; a < 3; ++a) for (size_t b = 0; b < 3; ++b)
      {
        if (r < a || c < b || r - a >= R || c - b >= C) continue;
        W x = (W)K[a][b] * (W)A[r - a][c - b];
        s += x; t += x < 0 ? -x : x;
      }
      if (kInt ? t > (W)std::numeric_limits<T>::max() : !((long double)t < (long double)std::numeric_limits<T>::max() / 4)) return false;
      w[r][c] = s; m[r][c] = t;
    }
    return true;
  }
  // result of shape RR x CC is the part of 'full' from (o,o)
  template <size_t RR, size_t CC> void check(const Mat<T, RR, CC>& X, size_t o)
  {
    for (size_t i = 0; i < RR; ++i) for (size_t j = 0; j < CC; ++j)
    {
      const W want = w[i + o][j + o]; const W mag = m[i + o][j + o];
      const bool ok = kInt ? (W)X[i][j] == want : within((long double)X[i][j] - (long double)want, exact ? 0 : 40 * epsOf<T>() * (long double)mag + 16 * (long double)std::numeric_limits<T>::min());
      if (!ok) fail(X, std::to_string((long double)want), "element (" + std::to_string(i) + "," + std::to_string(j) + ")");
    }
    agreed(X);
  }
  bool exact = false;
};
template <class X> typename std::enable_if<std::is_integral<X>::value, std::vector<X>>::type alphabet()
{ std::vector<X> v = {X(0), X(1), X(-1), X(2), X(7), X(-5), X(100)}; for (long long x : {257LL, 12289LL, 46337LL, 16777217LL, 94906267LL}) if (x < (long long)std::numeric_limits<X>::max()) v.push_back((X)x); return v; }
template <class X> typename std::enable_if<std::is_floating_point<X>::value, std::vector<X>>::type alphabet()
{ return {X(0), X(1), X(-1), X(2), X(7), X(-0.5), X(0.1), X(1e-4), X(1e-15), X(4097), X(-16777217), X(1e10)}; }

template <size_t R, size_t C, bool V> struct Valid { static void run(Ref<R, C>& ref, const Mat<T, R, C>& A, const Mat<T, 3, 3>& K) { call(); Mat<T, R - 2, C - 2> X = mlib::conv2_valid(A, K); ref.check(X, 2); } };
template <size_t R, size_t C> struct Valid<R, C, false> { static void run(Ref<R, C>&, const Mat<T, R, C>&, const Mat<T, 3, 3>&) {} };

template <size_t R, size_t C> void shape()
{
  static Mat<T, R, C> A; static Mat<T, 3, 3> K; static Ref<R, C> ref;
  for (int form = 0; form < 3; ++form)
  {
    if (form == 2 && (R < 3 || C < 3)) continue;
    if (!mine()) continue;
    Unit u(form == 0 ? "mlib::conv2(A, K)" : form == 1 ? "mlib::conv2_full(A, K)" : "mlib::conv2_valid(A, K)"); u.in("A", A).in("K", K);
    auto body = [&] {
      bool whole = true;
      if (!kInt) { for (auto& r : A) for (auto& x : r) whole = whole && x == std::floor((long double)x) && std::fabs((long double)x) < 1000; for (auto& r : K) for (auto& x : r) whole = whole && x == std::floor((long double)x) && std::fabs((long double)x) < 1000; }
      ref.exact = whole;
      if (!ref.make(A, K)) { ++g().undefinedSkipped; return; }
      if (form == 0) { call(); ref.check(mlib::conv2(A, K), 1); }
      else if (form == 1) { call(); ref.check(mlib::conv2_full(A, K), 0); }
      else Valid<R, C, (R >= 3 && C >= 3)>::run(ref, A, K);
    };
    Cells<T> c; c.add(K).add(A);
    Space<T> sp; sp.alpha = alphabet<T>(); sp.bases = distinctBases<T>(); sp.fullLimit = 1; sp.dev2Limit = g().thorough ? 1e6 : 5e4;
    if (R * C > 30) { sp.bases.erase(sp.bases.begin() + 1, sp.bases.begin() + 3); sp.alpha.resize(5); }
    if (R * C > 200) { sp.bases.erase(sp.bases.begin(), sp.bases.begin() + 2); sp.alpha.resize(2); }
    if (R * C > 600 && !g().thorough) sp.dev1Limit = 0;
    enumerate<T>(u, c, sp, body);
    // every impulse with every impulse kernel and with a kernel of distinct elements
    uint64_t before = u.cases;
    for (size_t k = 0; k <= 9; ++k)
    {
      if (R * C > 300 && k < 9 && k != 1) continue;
      for (size_t q = 0; q < 9; ++q) K[q / 3][q % 3] = k == 9 ? T((int)q * 3 + 2) : T(q == k ? 3 : 0);
      for (auto& r : A) r.fill(T(0));
      for (size_t p = 0; p < R * C; ++p) { if (R * C > 1500 && p % 5 && p % C && p / C) continue; A[p / C][p % C] = T(2); ++u.cases; ++g().states; body(); A[p / C][p % C] = T(0); }
    }
    g().modes["impulses times impulse kernels"] += u.cases - before;
  }
}
// images of fixed contents: every kernel over {-1,0,1}, every rank-one kernel, every kernel symmetric in both directions
template <size_t R, size_t C> void kernels()
{
  static Mat<T, R, C> A; static Mat<T, 3, 3> K; static Ref<R, C> ref; ref.exact = true;
  for (int form = 0; form < 3; ++form)
  {
    if (form == 2 && (R < 3 || C < 3)) continue;
    if (!mine()) continue;
    Unit u(form == 0 ? "mlib::conv2(A, K)" : form == 1 ? "mlib::conv2_full(A, K)" : "mlib::conv2_valid(A, K)"); u.in("A", A).in("K", K);
    auto body = [&] {
      ++u.cases; ++g().states;
      if (!ref.make(A, K)) { ++g().undefinedSkipped; return; }
      if (form == 0) { call(); ref.check(mlib::conv2(A, K), 1); }
      else if (form == 1) { call(); ref.check(mlib::conv2_full(A, K), 0); }
      else Valid<R, C, (R >= 3 && C >= 3)>::run(ref, A, K);
    };
    for (int image = 0; image < 3; ++image)
    {
      for (size_t k = 0; k < R * C; ++k) A[k / C][k % C] = image == 0 ? T((int)(k * 7 % 31) - 15) : image == 1 ? T(1) : T((k / C + k % C) % 2 ? -1 : 2);
      if (image && R * C > 40) continue;
      if (R * C <= 100 || g().thorough) for (int q = 0; q < 19683; ++q) { int x = q; for (size_t k = 0; k < 9; ++k) { K[k / 3][k % 3] = T(x % 3 - 1); x /= 3; } body(); }
      const int v[] = {-1, 0, 1, 2, 3, 4, -2};
      const int m = R * C > 100 ? 5 : 7;
      for (int p = 0; p < m * m * m; ++p) for (int q = 0; q < m * m * m; ++q)
      {
        const int a[] = {v[p % m], v[p / m % m], v[p / m / m]}, b[] = {v[q % m], v[q / m % m], v[q / m / m]};
        if (R * C > 100 && (a[0] != a[2] || b[0] != b[2])) continue;
        for (size_t k = 0; k < 9; ++k) K[k / 3][k % 3] = T(a[k / 3] * b[k % 3]);
        body();
      }
      // corners, edges, centre
      for (int p = 0; p < m; ++p) for (int q = 0; q < m; ++q) for (int r = 0; r < m; ++r) for (int s = 0; s < m; ++s)
      {
        const int w[] = {v[p], v[q], v[p], v[s], v[r], v[s], v[p], v[q], v[p]};
        for (size_t k = 0; k < 9; ++k) K[k / 3][k % 3] = T(w[k]);
        body();
      }
    }
    g().modes["every small, rank-one and symmetric kernel"] += u.cases;
  }
}
// one object as image and kernel
void self()
{
  static Mat<T, 3, 3> K; static Ref<3, 3> ref;
  for (int form = 0; form < 3; ++form)
  {
    if (!mine()) continue;
    Unit u(form == 0 ? "mlib::conv2(K, K)" : form == 1 ? "mlib::conv2_full(K, K)" : "mlib::conv2_valid(K, K)"); u.in("K", K);
    Cells<T> c; c.add(K);
    Space<T> sp; sp.alpha = {T(0), T(1), T(2)}; sp.fullLimit = 1e6;
    enumerate<T>(u, c, sp, [&] {
      ref.exact = true; ref.make(K, K); call();
      if (form == 0) ref.check(mlib::conv2(K, K), 1); else if (form == 1) ref.check(mlib::conv2_full(K, K), 0); else ref.check(mlib::conv2_valid(K, K), 2);
    });
  }
}
template <size_t R, size_t C> void fullSpace(std::vector<T> alpha)
{
  static Mat<T, R, C> A; static Mat<T, 3, 3> K; static Ref<R, C> ref;
  for (int form = 0; form < 2; ++form)
  {
    Unit u(form == 0 ? "mlib::conv2(A, K)" : "mlib::conv2_full(A, K)"); u.in("A", A).in("K", K);
    Cells<T> c; c.add(K).add(A);
    Space<T> sp; sp.alpha = alpha; sp.fullLimit = 1e9; sp.shard = true;
    enumerate<T>(u, c, sp, [&] { ref.exact = true; ref.make(A, K); call(); if (form == 0) ref.check(mlib::conv2(A, K), 1); else ref.check(mlib::conv2_full(A, K), 0); });
  }
}
int main(int argc, char** argv)
{
  init("C11", argc, argv);
  forNs(Ns<1, 2, 3, 4, 5, 6>(), [](auto r) { forNs(Ns<1, 2, 3, 4, 5, 6>(), [](auto c) { shape<decltype(r)::value, decltype(c)::value>(); }); });
  forNs(Ns<7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 32, 33>(), [](auto n) { constexpr size_t N = decltype(n)::value; shape<N, N>(); shape<1, N>(); shape<N, 1>(); shape<3, N>(); shape<N, 4>(); });
  shape<64, 64>(); shape<65, 33>(); shape<33, 65>(); shape<7, 9>(); shape<9, 7>(); shape<100, 100>(); shape<1, 300>(); shape<300, 1>(); shape<257, 3>(); shape<3, 257>(); shape<2, 256>(); shape<254, 3>(); shape<255, 2>();
  kernels<4, 4>(); kernels<5, 5>(); kernels<3, 5>(); kernels<6, 4>(); kernels<1, 5>(); kernels<5, 1>(); kernels<2, 2>(); kernels<1, 1>(); kernels<8, 8>(); kernels<17, 17>(); kernels<3, 3>(); kernels<2, 7>();
  self();
  fullSpace<1, 1>(ints<T>(-1, 1)); fullSpace<2, 2>({T(0), T(1)}); fullSpace<2, 3>({T(0), T(1)}); fullSpace<3, 2>({T(0), T(1)}); fullSpace<1, 4>({T(0), T(1)}); fullSpace<4, 1>({T(0), T(1)}); fullSpace<3, 3>({T(0), T(1)});
  return finish();
}
