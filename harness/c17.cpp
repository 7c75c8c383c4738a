// C17: print. -DVMC_T=type -DVMC_PART=0
#include "alphabet.hpp"
#include <iostream>
#include <locale>
#include <sstream>
using namespace vmc;
typedef VMC_T T;

template <class X> std::string expectedText(const std::vector<const X*>& e, size_t C, std::ios_base::fmtflags f, std::streamsize prec, char fill, const std::locale& loc)
{
  std::string s;
  for (size_t k = 0; k < e.size(); ++k)
  {
    std::ostringstream o; o.imbue(loc); o.flags(f); o.precision(prec); o.fill(fill);
    o << *e[k];
    s += o.str(); s += ' ';
    if ((k + 1) % C == 0) s += '\n';
  }
  return s;
}
struct Punct : std::numpunct<char>
{
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
  std::string do_truename() const override { return "wahr"; }
};
struct Fmt { std::ios_base::fmtflags f; std::streamsize prec; char fill; int loc; };
static Fmt cur;
static std::locale locs[2];
inline std::string fmtText() { return "std::cout flags " + std::to_string((long)cur.f) + ", precision " + std::to_string((long)cur.prec) + ", fill " + std::string(1, cur.fill) + ", locale " + (cur.loc ? "with grouping" : "C"); }
static std::stringbuf captured;

template <class X, size_t C, size_t R> void judge(Unit& u, Mat<X, R, C>& A)
{
  ++u.cases; ++g().states; call();
  const Mat<X, R, C> keep = A;
  std::vector<const X*> e; for (auto& r : keep) for (auto& x : r) e.push_back(&x);
  std::cout.clear();
  if (cur.loc != -1 && !(std::cout.getloc() == locs[cur.loc])) std::cout.imbue(locs[cur.loc]);
  std::cout.flags(cur.f); std::cout.precision(cur.prec); std::cout.fill(cur.fill); std::cout.width(0);
  captured.str("");
  mlib::print(A);
  std::string got = captured.str();
  const auto f = std::cout.flags(); const auto p = std::cout.precision(); const char fl = std::cout.fill(); const auto st = std::cout.rdstate();
  std::string want = expectedText<X>(e, C, cur.f, cur.prec, cur.fill, locs[cur.loc]);
  if (got != want) emitViolation(got, want, "text written to std::cout");
  if (f != cur.f || p != cur.prec || fl != cur.fill || st != std::ios_base::goodbit)
    emitViolation("flags " + std::to_string((long)f) + " precision " + std::to_string((long)p) + " state " + std::to_string((int)st), fmtText(), "format state of std::cout after print");
  if (!same(A, keep)) fail(A, keep, "print changed the matrix");
  outcome(std::hash<std::string>()(got)); ++g().validated;
  if (u.cases == 40 && g().samples.size() < 3 && got.size() < 200) g().samples.push_back(fmtText() + ": print writes " + got);
}

static std::vector<Fmt> formats()
{
  typedef std::ios_base B; std::vector<Fmt> v;
  for (auto base : {B::dec, B::hex, B::oct}) for (auto ff : {B::fmtflags(0), B::fixed, B::scientific, B::fixed | B::scientific})
    for (auto adj : {B::fmtflags(0), B::left, B::right, B::internal})
      for (int bits = 0; bits < 32; ++bits)
      {
        B::fmtflags f = base | ff | adj | B::skipws;
        if (bits & 1) f |= B::showpos; if (bits & 2) f |= B::showbase; if (bits & 4) f |= B::uppercase; if (bits & 8) f |= B::showpoint; if (bits & 16) f |= B::boolalpha;
        for (long p : {0L, 1L, 2L, 3L, 6L, 10L, 17L, 20L}) for (int l = 0; l < 2; ++l) for (char fill : {' ', '*'})
        {
          if (adj != 0 && (p != 6 || l)) continue;
          if (fill == '*' && p != 6) continue;
          v.push_back({f, p, fill, l});
        }
      }
  return v;
}
static std::vector<Fmt> fewFormats()
{
  typedef std::ios_base B;
  return {{B::dec | B::skipws, 6, ' ', 0}, {B::dec | B::skipws | B::fixed, 2, ' ', 0}, {B::dec | B::skipws, 17, '0', 0}, {B::hex | B::showbase | B::skipws, 3, ' ', 0}, {B::dec | B::skipws | B::showpos | B::scientific | B::left, 10, '*', 1}};
}
template <size_t R, size_t C> struct S { static Mat<T, R, C> A; };
template <size_t R, size_t C> Mat<T, R, C> S<R, C>::A;

template <size_t R, size_t C> void shape()
{
  if (!mine()) return;
  auto& A = S<R, C>::A;
  Unit u("mlib::print(A)"); u.in("A", A); u.operands.push_back(fmtText);
  // every format state, on a few matrices
  if (R * C <= 4) for (auto& f : formats())
  {
    cur = f;
    std::vector<T> al = wideAlphabet<T>();
    for (size_t k = 0; k < al.size(); k += R * C) { for (size_t q = 0; q < R * C; ++q) A[q / C][q % C] = al[(k + q) % al.size()]; judge(u, A); }
  }
  g().modes["format states"] += R * C <= 4 ? formats().size() : 0;
  // every value at every place
  for (auto& f : fewFormats())
  {
    cur = f;
    Cells<T> c; c.add(A);
    Space<T> sp; sp.alpha = wideAlphabet<T>(); sp.bases = {smallBases<T>()[0], smallBases<T>().back()};
    sp.fullLimit = 3000; sp.dev2Limit = g().thorough ? 300000 : 1000;
    if (R * C > 30) { sp.bases = {smallBases<T>().back()}; sp.alpha.resize(3); }
    uint64_t before = u.cases; (void)before;
    enumerate<T>(u, c, sp, [&] { --u.cases; --g().states; judge(u, A); });
  }
}
template <size_t R> void row() { forNs(Ns<1, 2, 3, 4, 5, 6>(), [](auto c) { shape<R, decltype(c)::value>(); }); }

// what one print leaves behind for the next: all pairs of prints of different shapes, formats and signs
template <size_t R, size_t C> void fillIn(int k) { for (size_t q = 0; q < R * C; ++q) S<R, C>::A[q / C][q % C] = (T)((int)(q * 7 + (size_t)k) % 100 - (std::is_unsigned<T>::value ? 0 : 50)); }
template <size_t R, size_t C> void few()
{
  if (!mine()) return;
  Unit u("mlib::print(A)"); u.in("A", S<R, C>::A); u.operands.push_back(fmtText);
  auto f = fewFormats(); f.resize(2);
  for (auto& x : f) for (int k : {0, 13}) { cur = x; fillIn<R, C>(k); judge(u, S<R, C>::A); }
  g().modes["every size"] += u.cases;
}
void sequences()
{
  if (!mine()) return;
  Unit u("a sequence of mlib::print calls"); u.operands.push_back(fmtText);
  std::vector<std::function<void()>> st;
  for (auto& f : fewFormats()) for (int k : {0, 13})
  {
    st.push_back([&u, f, k] { cur = f; fillIn<1, 1>(k); judge(u, S<1, 1>::A); });
    st.push_back([&u, f, k] { cur = f; fillIn<2, 3>(k); judge(u, S<2, 3>::A); });
    st.push_back([&u, f, k] { cur = f; fillIn<3, 1>(k); judge(u, S<3, 1>::A); });
  }
  for (auto& a : st) for (auto& b : st) { a(); b(); if (g().thorough) for (auto& c : st) { a(); b(); c(); } }
}
int main(int argc, char** argv)
{
  init("C17", argc, argv);
  locs[0] = std::locale::classic(); locs[1] = std::locale(std::locale::classic(), new Punct);
  std::streambuf* out = std::cout.rdbuf(&captured);
#if VMC_PART == 9
  forNs(range<1, 80>(), [](auto n) { constexpr size_t N = decltype(n)::value; if constexpr (inSlice(N)) { few<1, N>(); few<N, 1>(); few<2, N>(); few<N, 3>(); if constexpr (N <= 40) { few<N, N>(); few<N, N + 1>(); } } });
#else
  row<1>(); row<2>(); row<3>(); row<4>(); row<5>(); row<6>();
  shape<1, 17>(); shape<17, 1>(); shape<10, 10>(); shape<32, 33>(); shape<3, 70>(); shape<1, 300>(); shape<300, 1>(); shape<257, 2>(); shape<2, 256>();
  sequences();
#endif
  std::cout.rdbuf(out); std::cout.imbue(locs[0]); std::cout.flags(std::ios_base::dec | std::ios_base::skipws); std::cout.precision(6); std::cout.fill(' ');
  return finish();
}
