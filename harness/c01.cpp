// C01: element-wise arithmetic equals scalar arithmetic of each element.
// -DVMC_T=type -DVMC_PART=0 (shapes) or 1 (sweeps over all element values)
#include "vmc.hpp"
#include "alphabet.hpp"
using namespace vmc;
typedef VMC_T T;

namespace ops {
using mlib::operator+; using mlib::operator-; using mlib::operator*; using mlib::operator/;
using mlib::operator++; using mlib::operator--;
template <class M> M addMM(const M& A, const M& B) { return A + B; }
template <class M, class S> M addMS(const M& A, S s) { return A + s; }
template <class M, class S> M addSM(const M& A, S s) { return s + A; }
template <class M> M subMM(const M& A, const M& B) { return A - B; }
template <class M, class S> M subMS(const M& A, S s) { return A - s; }
template <class M, class S> M mulMS(const M& A, S s) { return A * s; }
template <class M, class S> M mulSM(const M& A, S s) { return s * A; }
template <class M, class S> M divMS(const M& A, S s) { return A / s; }
template <class M> M inc(M& A) { return A++; }
template <class M> M dec(M& A) { return A--; }
}

// scalar reference; false: undefined for this element type
template <class X, bool I = std::is_integral<X>::value && std::is_signed<X>::value && (sizeof(X) >= sizeof(int))> struct Ref
{
  static bool add(X a, X b, X& r) { r = (X)(a + b); return true; }
  static bool sub(X a, X b, X& r) { r = (X)(a - b); return true; }
  static bool mul(X a, X b, X& r) { r = (X)(a * b); return true; }
  static bool div(X a, X b, X& r) { if (b == X(0)) return false; r = (X)(a / b); return true; }
};
template <class X> struct Ref<X, true>
{
  static bool add(X a, X b, X& r) { return !__builtin_add_overflow(a, b, &r); }
  static bool sub(X a, X b, X& r) { return !__builtin_sub_overflow(a, b, &r); }
  static bool mul(X a, X b, X& r) { return !__builtin_mul_overflow(a, b, &r); }
  static bool div(X a, X b, X& r) { if (b == 0 || (a == std::numeric_limits<X>::min() && b == X(-1))) return false; r = a / b; return true; }
};
template <> struct Ref<unsigned short, false>
{
  typedef unsigned short X;
  static bool add(X a, X b, X& r) { r = (X)((unsigned)a + b); return true; }
  static bool sub(X a, X b, X& r) { r = (X)((unsigned)a - b); return true; }
  static bool mul(X a, X b, X& r) { r = (X)((unsigned)a * b); return (unsigned long long)a * b < (1ull << 31); }
  static bool div(X a, X b, X& r) { if (!b) return false; r = (X)(a / b); return true; }
};
template <class X> bool absRef(X a, X& r)
{
  if (std::is_integral<X>::value && sizeof(X) >= sizeof(int) && a == std::numeric_limits<X>::min()) return false;
  r = a < X(0) || (std::is_floating_point<X>::value && std::signbit((long double)a)) ? X(-a) : a;
  return true;
}

template <size_t R, size_t C> void check(const Mat<T, R, C>& got, const Mat<T, R, C>& want)
{
  for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j)
    if (!same(got[i][j], want[i][j])) fail(got, want, "element (" + std::to_string(i) + "," + std::to_string(j) + ")");
  agreed(got);
}

typedef bool (*BinRef)(T, T, T&);
template <size_t R, size_t C> void matMat(const char* e, Mat<T, R, C> (*op)(const Mat<T, R, C>&, const Mat<T, R, C>&), BinRef ref)
{
  if (!mine()) return;
  static Mat<T, R, C> A, B, W;
  Unit u(e); u.in("A", A).in("B", B);
  Cells<T> c; c.add(A).add(B);
  enumerate<T>(u, c, wideSpace<T>(R * C), [&] {
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) if (!ref(A[i][j], B[i][j], W[i][j])) { ++g().undefinedSkipped; return; }
    call();
    check(op(A, B), W);
  });
}
// one object on both sides
template <size_t R, size_t C> void matSelf(const char* e, Mat<T, R, C> (*op)(const Mat<T, R, C>&, const Mat<T, R, C>&), BinRef ref)
{
  if (!mine()) return;
  static Mat<T, R, C> A, W;
  Unit u(e); u.in("A", A);
  Cells<T> c; c.add(A);
  Space<T> sp = wideSpace<T>(R * C); sp.dev2Limit = 2000;
  enumerate<T>(u, c, sp, [&] {
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) if (!ref(A[i][j], A[i][j], W[i][j])) { ++g().undefinedSkipped; return; }
    call();
    check(op(A, A), W);
  });
}
template <size_t R, size_t C> void matScal(const char* e, Mat<T, R, C> (*op)(const Mat<T, R, C>&, T), BinRef ref)
{
  if (!mine()) return;
  static Mat<T, R, C> A, W; static T s;
  Unit u(e); u.in("A", A).in("s", s);
  Cells<T> c; c.add(s).add(A);
  enumerate<T>(u, c, wideSpace<T>(R * C), [&] {
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) if (!ref(A[i][j], s, W[i][j])) { ++g().undefinedSkipped; return; }
    call();
    check(op(A, s), W);
  });
}
template <size_t R, size_t C> void unary(const char* e, Mat<T, R, C> (*op)(Mat<T, R, C>&), bool (*ref)(T, T&))
{
  if (!mine()) return;
  static Mat<T, R, C> A, W;
  Unit u(e); u.in("A", A);
  Cells<T> c; c.add(A);
  enumerate<T>(u, c, wideSpace<T>(R * C), [&] {
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) if (!ref(A[i][j], W[i][j])) { ++g().undefinedSkipped; return; }
    call();
    check(op(A), W);
  });
}
bool incRef(T a, T& r) { return Ref<T>::add(a, T(1), r); }
bool decRef(T a, T& r) { return Ref<T>::sub(a, T(1), r); }

template <size_t R, size_t C> void shape()
{
  typedef Mat<T, R, C> M;
  matMat<R, C>("mlib::sum(A, B)", [](const M& A, const M& B) -> M { return mlib::sum(A, B); }, Ref<T>::add);
  matMat<R, C>("A + B", [](const M& A, const M& B) -> M { return ops::addMM(A, B); }, Ref<T>::add);
  matMat<R, C>("mlib::sub(A, B)", [](const M& A, const M& B) -> M { return mlib::sub(A, B); }, Ref<T>::sub);
  matMat<R, C>("A - B", [](const M& A, const M& B) -> M { return ops::subMM(A, B); }, Ref<T>::sub);
  matSelf<R, C>("A + A", [](const M& A, const M& B) -> M { return ops::addMM(A, B); }, Ref<T>::add);
  matSelf<R, C>("A - A", [](const M& A, const M& B) -> M { return ops::subMM(A, B); }, Ref<T>::sub);
  matScal<R, C>("mlib::sum(A, s)", [](const M& A, T s) -> M { return mlib::sum(A, s); }, Ref<T>::add);
  matScal<R, C>("A + s", [](const M& A, T s) -> M { return ops::addMS(A, s); }, Ref<T>::add);
  matScal<R, C>("s + A", [](const M& A, T s) -> M { return ops::addSM(A, s); }, Ref<T>::add);
  matScal<R, C>("mlib::sub(A, s)", [](const M& A, T s) -> M { return mlib::sub(A, s); }, Ref<T>::sub);
  matScal<R, C>("A - s", [](const M& A, T s) -> M { return ops::subMS(A, s); }, Ref<T>::sub);
  matScal<R, C>("mlib::mult(A, s)", [](const M& A, T s) -> M { return mlib::mult(A, s); }, Ref<T>::mul);
  matScal<R, C>("A * s", [](const M& A, T s) -> M { return ops::mulMS(A, s); }, Ref<T>::mul);
  matScal<R, C>("s * A", [](const M& A, T s) -> M { return ops::mulSM(A, s); }, Ref<T>::mul);
  matScal<R, C>("mlib::div(A, s)", [](const M& A, T s) -> M { return mlib::div(A, s); }, Ref<T>::div);
  matScal<R, C>("A / s", [](const M& A, T s) -> M { return ops::divMS(A, s); }, Ref<T>::div);
  unary<R, C>("A++", [](M& A) -> M { return ops::inc(A); }, incRef);
  unary<R, C>("A--", [](M& A) -> M { return ops::dec(A); }, decRef);
#ifndef VMC_NO_ABS
  unary<R, C>("mlib::abs(A)", [](M& A) -> M { return mlib::abs(A); }, absRef<T>);
#endif
}

bool incRef2(T a, T, T& r) { return incRef(a, r); }
bool decRef2(T a, T, T& r) { return decRef(a, r); }
bool absRef2(T a, T, T& r) { return absRef<T>(a, r); }
#if VMC_PART == 1
// every value of the element type (up to 32 bits), packed in 32x32 matrices
template <size_t N> struct Sweep
{
  Mat<T, N, N> A, B, W; T s;
  uint64_t skipped = 0;
  template <class Gen> void run(const char* e, uint64_t total, const std::vector<T>& scalars, const std::function<void(T)>& op, Gen gen)
  {
    for (T sc : scalars)
    {
      if (!mine()) continue;
      Unit u(e); u.in("A", A).in("s", s);
      s = sc;
      for (uint64_t base = 0; base < total; base += N * N)
      {
        for (size_t k = 0; k < N * N; ++k) A[k / N][k % N] = gen(base + k);
        ++u.cases; g().states += N * N; call();
        op(sc);
        agreedQuiet();
        if ((u.cases & 1023) == 1) outcome(hv(W));
      }
      g().modes["sweep over element values"] += total;
    }
  }
};
template <class X> X fromBits(uint64_t b) { X x; typename std::conditional<sizeof(X) == 1, uint8_t, typename std::conditional<sizeof(X) == 2, uint16_t, uint32_t>::type>::type v = (decltype(v))b; std::memcpy(&x, &v, sizeof x); return x; }
// index -> value: everything for 8 and 16 bits and in the thorough tier; else the 2^21 values
// around zero and every combination of the 22 leading bits
uint64_t sweepSize() { return sizeof(T) <= 2 || g().thorough ? 1ull << (8 * sizeof(T)) : (1ull << 21) + (1ull << 22); }
T value(uint64_t b)
{
  if (sizeof(T) <= 2 || g().thorough) return fromBits<T>(b);
  if (b < (1ull << 21)) return std::is_integral<T>::value ? (T)((long long)b - (1 << 20)) : (T)((T)b - (T)(1 << 20));
  return fromBits<T>(((b - (1ull << 21)) << 10) | (b * 37 & 1023));
}
constexpr size_t N = 32;
static Sweep<N> sw;
typedef Mat<T, N, N> MN;
template <BinRef ref, class Op> void sweepScalar(const char* e, const std::vector<T>& sc, Op op)
{
  uint64_t total = sweepSize();
  sw.run(e, total, sc, [&](T s) {
    // undefined scalar operations are replaced by a harmless operand before the call
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (!ref(sw.A[i][j], s, sw.W[i][j])) { sw.A[i][j] = T(1); ++g().undefinedSkipped; if (!ref(sw.A[i][j], s, sw.W[i][j])) return; }
    MN got = op(sw.A, s);
    bool ok = true;
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) ok &= same(got[i][j], sw.W[i][j]);
    if (!ok) check(got, sw.W);
  }, [](uint64_t b) { return value(b); });
}
void sweeps()
{
  std::vector<T> sc;
  if (sizeof(T) <= 2) { uint64_t n = 1ull << (8 * sizeof(T)); uint64_t step = sizeof(T) == 1 ? 1 : 257; for (uint64_t b = 0; b < n; b += step) sc.push_back(fromBits<T>(b)); }
  else { sc = {T(1), T(-3)}; if (g().thorough) for (T v : wideAlphabet<T>()) sc.push_back(v); }
  sweepScalar<Ref<T>::add>("A + s", sc, [](const MN& A, T s) { return ops::addMS(A, s); });
  sweepScalar<Ref<T>::add>("s + A", sc, [](const MN& A, T s) { return ops::addSM(A, s); });
  sweepScalar<Ref<T>::sub>("A - s", sc, [](const MN& A, T s) { return ops::subMS(A, s); });
  sweepScalar<Ref<T>::mul>("A * s", sc, [](const MN& A, T s) { return ops::mulMS(A, s); });
  sweepScalar<Ref<T>::div>("A / s", sc, [](const MN& A, T s) { return ops::divMS(A, s); });
  std::vector<T> one = {T(0)};
  sweepScalar<incRef2>("A++", one, [](MN& A, T) { return ops::inc(A); });
  sweepScalar<decRef2>("A--", one, [](MN& A, T) { return ops::dec(A); });
#ifndef VMC_NO_ABS
  sweepScalar<absRef2>("mlib::abs(A)", one, [](const MN& A, T) { return mlib::abs(A); });
#endif
  // matrix op matrix: all pairs for 8-bit types, all values against a shuffled partner for wider ones
  auto pairs = [&](const char* e, BinRef ref, MN (*op)(const MN&, const MN&)) {
    uint64_t total = sweepSize();
    uint64_t rounds = sizeof(T) == 1 ? 256 : 1;
    for (uint64_t k = 0; k < rounds; ++k)
    {
      if (!mine()) continue;
      Unit u(e); u.in("A", sw.A).in("B", sw.B);
      for (uint64_t base = 0; base < total; base += N * N)
      {
        for (size_t q = 0; q < N * N; ++q)
        {
          uint64_t b = base + q;
          T x = value(b), y = sizeof(T) == 1 ? fromBits<T>(b + k) : fromBits<T>(b * 2654435761u + 12345);
          if (!ref(x, y, sw.W[q / N][q % N])) { y = T(1); x = T(2); ref(x, y, sw.W[q / N][q % N]); ++g().undefinedSkipped; }
          sw.A[q / N][q % N] = x; sw.B[q / N][q % N] = y;
        }
        ++u.cases; g().states += N * N; call();
        MN got = op(sw.A, sw.B);
        bool ok = true;
        for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) ok &= same(got[i][j], sw.W[i][j]);
        if (!ok) check(got, sw.W);
        agreedQuiet();
      }
    }
  };
  pairs("A + B", Ref<T>::add, [](const MN& A, const MN& B) -> MN { return ops::addMM(A, B); });
  pairs("A - B", Ref<T>::sub, [](const MN& A, const MN& B) -> MN { return ops::subMM(A, B); });
}
#endif

int main(int argc, char** argv)
{
  init("C01", argc, argv);
#if VMC_PART == 1
  sweeps();
#else
  forNs(Ns<1, 2, 3, 4, 5, 6>(), [](auto r) { forNs(Ns<1, 2, 3, 4, 5, 6>(), [](auto c) { shape<decltype(r)::value, decltype(c)::value>(); }); });
  shape<7, 7>(); shape<7, 9>(); shape<9, 7>(); shape<8, 8>(); shape<1, 16>(); shape<16, 1>(); shape<10, 10>(); shape<16, 16>();
  shape<17, 17>(); shape<3, 33>(); shape<33, 3>(); shape<32, 32>(); shape<64, 2>(); shape<2, 64>(); shape<1, 100>(); shape<100, 1>(); shape<65, 65>();
  shape<1, 300>(); shape<300, 1>(); shape<257, 3>(); shape<2, 256>(); shape<255, 257>(); shape<300, 300>(); shape<1, 65537>(); shape<65537, 1>();
#endif
  return finish();
}
