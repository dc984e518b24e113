// Complex numbers against std::complex. Built twice, with different headers before (PART).
#if defined(PART) && PART == 1
#include <cmath>
#include <complex>
#include <cstdlib>
#include "cest/string.hpp"
#include "cest/vector.hpp"
#include "cest/iostream.hpp"
#include "cest/algorithm.hpp"
#include "cest/cmath.hpp"
#include "cest/complex.hpp"
#include "cest/numeric.hpp"
#else
#include "cest/complex.hpp"
#endif
#include "mon.hpp"
#include <complex>
#include <cmath>
#include <limits>
using namespace mon;

template <class T> struct W {
  using C = cest::complex<T>; using X = std::complex<T>; using LX = std::complex<long double>;
  static constexpr T eps = std::numeric_limits<T>::epsilon();
  static uint64_t hb(X z) { double d[2] = { (double)z.real(), (double)z.imag() }; uint64_t u[2]; memcpy(u, d, 16); return mix(u[0] * 31 + u[1]); }
  static double unit() { return (R.next() >> 11) * 0x1p-53; }
  T comp(int dec)
  {
    T r;
    switch (R.below(7)) { case 0: return 0; case 1: r = (T)R.range(0, 12); break; case 2: r = (T)(R.range(0, 200) / 16.0); break;
      case 3: r = (T)std::pow(10.0, R.range(-dec, dec) * 1.0) * (T)(1 + unit()); break; default: r = (T)(unit() * 10); }
    return R.chance(1, 2) ? -r : r;
  }
  X val(int dec = 8) { return X(comp(dec), comp(dec)); }
  static C c(X x) { return C(x.real(), x.imag()); }
  static X x(C z) { return X(z.real(), z.imag()); }
  static LX l(X z) { return LX(z.real(), z.imag()); }
  // equal to rounding of the operation: the error is measured against the size of the terms
  void near_(const char* f, C g, LX r, long double scale, X a, X b)
  {
    long double e = std::max(std::fabs((long double)g.real() - r.real()), std::fabs((long double)g.imag() - r.imag()));
    CHECK(MODEL, e <= 16 * (long double)eps * scale + 1e-4000L, f, "%s of (%g,%g) and (%g,%g): (%.17g,%.17g), expected (%.17g,%.17g)", f, (double)a.real(), (double)a.imag(), (double)b.real(), (double)b.imag(), (double)g.real(), (double)g.imag(), (double)r.real(), (double)r.imag());
  }
  void approx(const char* f, C g, X r, X a, double scale = 1)
  {
    double e = std::abs(std::complex<double>(g.real() - (double)r.real(), g.imag() - (double)r.imag())), m = std::abs(std::complex<double>(r.real(), r.imag()));
    CHECK(MODEL, e <= 0.015 * std::max(m, scale), f, "%s of (%g,%g): (%.9g,%.9g), expected (%.9g,%.9g)", f, (double)a.real(), (double)a.imag(), (double)g.real(), (double)g.imag(), (double)r.real(), (double)r.imag());
  }
  void arith()
  {
    X a = val(), b = val(); T s = comp(8); LX la = l(a), lb = l(b); long double ls = s; C p = c(a), q = c(b);
    long double na = std::abs(la), nb = std::abs(lb), as = std::fabs(ls);
    op("arith", (long)a.real(), (long)b.real()); op("arith", (long)a.imag(), (long)b.imag(), (long)s);
    near_("+", p + q, la + lb, na + nb, a, b); near_("-", p - q, la - lb, na + nb, a, b); near_("*", p * q, la * lb, na * nb, a, b);
    if (nb > 0) near_("/", p / q, la / lb, na / nb, a, b);
    near_("+scalar", p + s, la + ls, na + as, a, s); near_("scalar+", s + p, ls + la, na + as, a, s); near_("-scalar", p - s, la - ls, na + as, a, s); near_("scalar-", s - p, ls - la, na + as, a, s);
    near_("*scalar", p * s, la * ls, na * as, a, s); near_("scalar*", s * p, ls * la, na * as, a, s);
    if (s != 0) near_("/scalar", p / s, la / ls, na / as, a, s); if (na > 0) near_("scalar/", s / p, ls / la, as / na, a, s);
    CHECK(MODEL, x(+p) == a && x(-p) == -a, "negation", "sign operators"); CHECK(MODEL, x(conj(p)) == std::conj(a), "conj", "conjugate"); CHECK(MODEL, real(p) == a.real() && imag(p) == a.imag(), "parts", "real and imag");
    CHECK(MODEL, std::fabs((long double)norm(p) - std::norm(la)) <= 16 * (long double)eps * std::norm(la), "norm", "norm of (%g,%g) = %g", (double)a.real(), (double)a.imag(), (double)norm(p));
    // compound forms, also with the target as operand
    auto comp2 = [&](const char* f, auto g, LX r, long double sc) { C z = p; C& res = g(z); CHECK(MODEL, &res == &z, "result", "%s returns another object", f); near_(f, z, r, sc, a, b); };
    comp2("+=", [&](C& z) -> C& { return z += q; }, la + lb, na + nb); comp2("-=", [&](C& z) -> C& { return z -= q; }, la - lb, na + nb); comp2("*=", [&](C& z) -> C& { return z *= q; }, la * lb, na * nb);
    if (nb > 0) comp2("/=", [&](C& z) -> C& { return z /= q; }, la / lb, na / nb);
    comp2("+=s", [&](C& z) -> C& { return z += s; }, la + ls, na + as); comp2("-=s", [&](C& z) -> C& { return z -= s; }, la - ls, na + as); comp2("*=s", [&](C& z) -> C& { return z *= s; }, la * ls, na * as); if (s != 0) comp2("/=s", [&](C& z) -> C& { return z /= s; }, la / ls, na / as);
    comp2("z+=z", [&](C& z) -> C& { return z += z; }, la + la, 2 * na); comp2("z-=z", [&](C& z) -> C& { return z -= z; }, 0, 2 * na); comp2("z*=z", [&](C& z) -> C& { return z *= z; }, la * la, na * na); if (na > 0) comp2("z/=z", [&](C& z) -> C& { return z /= z; }, 1, 1);
    comp2("=s", [&](C& z) -> C& { return z = s; }, ls, 0); comp2("=z", [&](C& z) -> C& { return z = q; }, lb, 0); comp2("z=z", [&](C& z) -> C& { return z = z; }, la, 0);
    comp2("z=q*z", [&](C& z) -> C& { return z = q * z; }, la * lb, na * nb); comp2("z=z*z+q", [&](C& z) -> C& { return z = z * z + q; }, la * la + lb, na * na + nb);
    // equality
    CHECK(MODEL, (p == q) == (a == b) && (p != q) == (a != b) && p == c(a) && !(p != c(a)), "equality", "equality of (%g,%g) and (%g,%g)", (double)a.real(), (double)a.imag(), (double)b.real(), (double)b.imag());
    CHECK(MODEL, (p == s) == (a == s) && (s == p) == (s == a) && (p != s) == (a != s) && (s != p) == (s != a), "equality", "equality with a scalar");
    { C r1(a.real(), b.imag()), r2(a.real()); CHECK(MODEL, (r1 == p) == (X(a.real(), b.imag()) == a) && r2 == a.real() && (r2 == p) == (a.imag() == 0) && C() == T(0), "equality", "equality that differs in one part"); }
    { C z = p; z.real(s); CHECK(MODEL, z.real() == s && z.imag() == a.imag(), "setters", "real(value)"); z.imag(b.real()); CHECK(MODEL, z.real() == s && z.imag() == b.real(), "setters", "imag(value)"); }
    state(hb(a), hb(b)); count("operations", 40);
  }
  template <class U> void mixed()
  {
    X a = val(4); std::complex<U> b((U)R.range(-50, 50) / 4, (U)R.range(-50, 50) / 4); C p = c(a); cest::complex<U> q(b.real(), b.imag()); LX la = l(a), lb(b.real(), b.imag()); long double na = std::abs(la), nb = std::abs(lb); op("mixed", (long)a.real(), (long)b.real());
    auto t = [&](const char* f, auto g, LX r, long double sc) { C z = p; g(z); near_(f, z, r, sc, a, X((T)b.real(), (T)b.imag())); };
    t("mixed+=", [&](C& z) { z += q; }, la + lb, na + nb); t("mixed-=", [&](C& z) { z -= q; }, la - lb, na + nb); t("mixed*=", [&](C& z) { z *= q; }, la * lb, na * nb); if (nb > 0) t("mixed/=", [&](C& z) { z /= q; }, la / lb, na / nb); t("mixed=", [&](C& z) { z = q; }, lb, 0);
    near_("convert", C(q), lb, 0, a, a);
  }
  void functions()
  {
    X a = val(2); if (std::fabs(a.real()) > 20) a.real(3); if (std::fabs(a.imag()) > 20) a.imag(-2); C p = c(a); double m = (double)std::abs(a); op("functions", (long)(a.real() * 100), (long)(a.imag() * 100));
    { X w = val(); double r = (double)std::abs(w); CHECK(MODEL, std::fabs((double)abs(c(w)) - r) <= 0.01 * r, "abs", "abs of (%g,%g) = %g", (double)w.real(), (double)w.imag(), (double)abs(c(w))); }
    if (m > 0 && !(a.imag() == 0 && std::signbit(a.imag()))) CHECK(MODEL, std::fabs((double)arg(p) - (double)std::arg(a)) <= 0.015, "arg", "arg of (%g,%g) = %g, expected %g", (double)a.real(), (double)a.imag(), (double)arg(p), (double)std::arg(a));
    { T rho = std::fabs(comp(3)), th = (T)((unit() - 0.5) * 40); approx("polar", cest::polar(rho, th), std::polar(rho, th), X(rho, th), (double)rho); approx("polar", cest::polar(rho), std::polar(rho), X(rho, 0), (double)rho); }
    double ch = std::cosh((double)a.imag()), chr = std::cosh((double)a.real());
    approx("cos", cos(p), std::cos(a), a, ch); approx("sin", sin(p), std::sin(a), a, ch); approx("cosh", cosh(p), std::cosh(a), a, chr); approx("sinh", sinh(p), std::sinh(a), a, chr);
    approx("exp", exp(p), std::exp(a), a, 1e-12);
    if (m > 0 && a.imag() != 0) { approx("log", log(p), std::log(a), a); approx("log10", log10(p), std::log10(a), a); }
    if (a.imag() != 0 || a.real() > 0) approx("sqrt", sqrt(p), std::sqrt(a), a, 1e-6);
    if (std::abs(std::cos(a)) > 0.1 * ch) approx("tan", tan(p), std::tan(a), a); if (std::abs(std::cosh(a)) > 0.1 * chr) approx("tanh", tanh(p), std::tanh(a), a);
    int n = R.range(-7, 7); if (m > 0.01 && m < 50) { X r = std::pow(a, n); approx("pow-int", pow(p, n), r, a, 1e-30); } if (n >= 0) { LX r(1); for (int i = 0; i < n; i++) r *= l(a); near_("pow-int", pow(p, n), r, std::pow(std::abs(l(a)), (long double)n) * (n + 1), a, a); }
    if (m > 0.01 && m < 50 && a.imag() != 0) { T y = (T)(R.range(-16, 16) / 8.0); approx("pow-real", pow(p, y), std::pow(a, y), a, 1e-30); X e((T)(R.range(-16, 16) / 8.0), (T)(R.range(-16, 16) / 8.0)); approx("pow-complex", pow(p, c(e)), std::pow(a, e), a, 1e-30); T bse = (T)(0.1 + unit() * 20); approx("pow-base", cest::pow(bse, c(e)), std::pow(bse, e), X(bse, 0), 1e-30); approx("pow-real", pow(C(bse), y), X(std::pow(bse, y)), X(bse, 0), 1e-30); }
    approx("pow-zero", pow(C(), c(X(2, 1))), X(0), X(0)); CHECK(MODEL, x(pow(p, 0)) == X(1), "pow-int", "power 0");
    state(hb(a), 3); count("functions", 20);
  }
};
template <class T> void go() { run_cases([](long) { W<T> w; for (int i = 0; i < 20; i++) { w.arith(); if (i % 2) w.functions(); if constexpr (!std::is_same_v<T, float>) w.template mixed<float>(); w.template mixed<double>(); w.template mixed<int>(); } }); }
int main(int argc, char** argv)
{
  init(argc, argv, "w_complex"); std::string c = S().config;
  if (c == "float") go<float>();
  if (c == "double") go<double>();
  if (c == "longdouble") go<long double>();
  return 3;
}
