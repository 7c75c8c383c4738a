// The operations, compiled with -fsanitize=thread against the scheduler's runtime. -DVMC_T=type
#include "c19.hpp"
#include "optable.hpp"
typedef VMC_T T;
static Op table[4096]; Op* c19_ops = table; size_t c19_nops = 0;

template <size_t R, size_t C> struct Sets { static tab::In<T, R, C> v[4]; };
template <size_t R, size_t C> tab::In<T, R, C> Sets<R, C>::v[4];

template <class I, class F> struct Runner
{
  static F* f;
  static void go(const Op*, void* args, uint64_t* out)
  {
    tab::HashSink s; uint64_t h;
    try { (*f)(*(I*)args, s); h = s.h; }
    catch (const std::overflow_error&) { h = 2; }
    catch (...) { h = 3; }
    *out = h;
  }
};
template <class I, class F> F* Runner<I, F>::f;

template <size_t R, size_t C> struct Reg
{
  template <class F> void operator()(const char* name, F f)
  {
    if (R * C > 130 && (strstr(name, "inv") || strstr(name, "-p"))) return;             // n^5 steps
    typedef tab::In<T, R, C> I;
    Runner<I, F>::f = new F(f);
    I* v = Sets<R, C>::v;
    Op o = {name, (int)R, (int)C, &Runner<I, F>::go, {v, v + 1, v + 2, v + 3}, sizeof(I)};
    table[c19_nops++] = o;
  }
};
template <size_t R, size_t C> void shape()
{
  auto& X = Sets<R, C>::v[0]; auto& Y = Sets<R, C>::v[1]; auto& Z = Sets<R, C>::v[2]; auto& W = Sets<R, C>::v[3];
  tab::others(X, 7); tab::others(Y, 20); tab::others(Z, 33); tab::others(W, 45);
  for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j)
  {
    X.A[i][j] = (T)((int)((i * 3 + j * 5) % 7) - 2 + (i == j ? 6 : 0));
    Y.A[i][j] = (T)((int)((i * 2 + j * 3 + 1) % 5) - 1 + (i + j + 1 == R ? 5 : 0));     // needs pivoting
    Z.A[i][j] = Z.B[i][j] = (T)(i == j);                                                 // identity: the predicates hold
    W.A[i][j] = (T)(j + 1);                                                              // singular: inv throws
  }
  W.s = (T)0; W.p = 0;                                                                   // division throws
  Y.s = (T)3; Y.p = 2; Y.i = R - 1; Y.j = C - 1; Y.k = 0; Y.l = 0; Y.eps = 2.0f;
  Reg<R, C> r;
  tab::allOps<T, R, C>(r);
}
void c19_register() { VMC_SHAPES }
