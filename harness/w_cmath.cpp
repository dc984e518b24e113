// Elementary functions against the C library's (long double where it matters), over arguments chosen by
// magnitude, near the borders of the algorithms' ranges, and hostile ones. A watchdog decides termination.
#include "cest/cmath.hpp"
#include "cest/cstdlib.hpp"
#include "mon.hpp"
#include <cmath>
#include <limits>
#include <climits>
using namespace mon;

static double bits(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static double unit() { return (R.next() >> 11) * 0x1p-53; }
// a double of any kind within [-m, m]
static double pick(double m)
{
  double x;
  switch (R.below(9)) {
    case 0: x = unit() * m; break;
    case 1: case 2: x = unit() * std::pow(10.0, R.range(-12, (long)std::floor(std::log10(m)))); break;
    case 3: x = (double)R.range(0, (long)std::min(m, 1e6)); break;
    case 4: x = R.range(0, 4000) / 8.0; break;
    case 5: { static const double b[] = { 0.001, 0.2679491924311227, 1.0, 3.7320508075688776, 1.5707963267948966, 3.141592653589793, 6.283185307179586, 0.5, 2.5, 10.0, 0.1, 100.0, 3.1622776601683795, 1e9, 20.7 };
      x = b[R.below(15)] * (R.chance(1, 3) ? (double)R.range(1, 400) : 1); int n = R.range(-3, 3); for (; n > 0; n--) x = std::nextafter(x, INFINITY); for (; n < 0; n++) x = std::nextafter(x, -INFINITY); if (R.chance(1, 4)) x += (unit() - 0.5) * 1e-6; break; }
    case 6: x = std::ldexp(1.0 + unit(), R.range(-1074, 40)); break;
    case 7: x = std::fabs(bits(R.next())); break;
    default: x = R.chance(1, 2) ? 0.0 : std::numeric_limits<double>::denorm_min() * R.below(100); break;
  }
  if (!(x <= m)) x = unit() * m;
  return R.chance(1, 2) ? -x : x;
}
static void abs_or_rel(const char* f, double x, double g, double r)
{
  double t = std::max(0.002, 0.01 * std::fabs(r));
  CHECK(MODEL, std::fabs(g - r) <= t, f, "%s(%.17g) = %.17g, correct is %.17g", f, x, g, r);
}
static void rel(const char* f, double x, double g, double r)
{
  if (std::fabs(r) < 1e-300 && r != 0) return;
  if (std::isinf(r) || r == 0) { CHECK(MODEL, g == r, f, "%s(%.17g) = %.17g, correct is %.17g", f, x, g, r); return; }
  if (std::fabs(r) > 1.7e308) return;
  CHECK(MODEL, std::fabs(g - r) <= 0.01 * std::fabs(r), f, "%s(%.17g) = %.17g, correct is %.17g", f, x, g, r);
}
static void finite_args(long)
{
  for (int k = 0; k < 40; k++) {
    double x = pick(1e12), p = std::fabs(pick(1e308)), e = pick(709.0), y = pick(1e300);
    op("trig", (long)std::min(std::fabs(x), 1e15), x < 0);
    abs_or_rel("sin", x, cest::sin(x), std::sin(x)); abs_or_rel("cos", x, cest::cos(x), std::cos(x));
    op("atan"); if (std::fabs(y) > 1e-290) rel("atan", y, cest::atan(y), std::atan(y)); else abs_or_rel("atan", y, cest::atan(y), std::atan(y));
    { double a = pick(1e150), b = pick(1e150); if (R.chance(1, 6)) a = 0.0; if (R.chance(1, 6)) b = 0.0; if (a == 0) a = 0.0; if (b == 0) b = 0.0; // signed zeros left out
      op("atan2"); if (a != 0 || b != 0) { double g = cest::atan2(a, b), r = std::atan2(a, b); abs_or_rel("atan2", a / b, g, r); if (a != 0 && std::fabs(r) > 1e-6) CHECK(MODEL, (g < 0) == (r < 0), "atan2", "atan2(%g, %g) = %g: sign", a, b, g); } else CHECK(MODEL, cest::atan2(a, b) == 0, "atan2", "atan2(0,0)"); }
    op("sqrt"); rel("sqrt", p, cest::sqrt(p), std::sqrt(p));
    op("log"); if (p > 0) abs_or_rel("log", p, cest::log(p), std::log(p));
    op("exp"); rel("exp", e, cest::exp(e), std::exp(e));
    op("hyperbolic"); rel("sinh", e, cest::sinh(e), std::sinh(e)); rel("cosh", e, cest::cosh(e), std::cosh(e));
    { double b = R.chance(1, 2) ? pick(20.0) : pick(1e300); int n = R.chance(1, 2) ? R.range(-12, 12) : R.chance(1, 2) ? R.range(-1100, 1100) : (int)R.next(); if (b == 0 && n < 0) n = -n & INT_MAX; op("pow", n);
      double r = std::pow(b, n); if (std::fabs(std::fabs(b) - 1) > 1e-6 || std::abs((long)n) < 1000000) { // elsewhere the rounding of the base decides
        rel("pow", b, cest::pow(b, n), r); }
      long bi = R.range(-9, 9); int m = R.range(0, 15); double q = cest::pow((double)bi, m), w = 1; for (int i = 0; i < m; i++) w *= bi; CHECK(MODEL, q == w, "pow", "pow(%ld, %d) = %.17g, exactly %.17g", bi, m, q, w);
      CHECK(MODEL, cest::pow(b, 0) == 1 && cest::pow(b, 1) == b, "pow", "pow(%g, 0 and 1)", b); }
    { double v = R.chance(1, 2) ? pick(2147483000.0) : R.range(-2147483647, 2147483646) + (R.chance(1, 3) ? 0 : unit()); if (v > 2147483646.0) v = 1.5;
      op("floor"); CHECK(MODEL, cest::floor(v) == (long)std::floor(v), "floor", "floor(%.17g) = %d", v, cest::floor(v)); CHECK(MODEL, cest::ceil(v) == (long)std::ceil(v), "ceil", "ceil(%.17g) = %d", v, cest::ceil(v)); }
    { double v = R.chance(1, 3) ? bits(R.next()) : pick(1e308); if (v == v) CHECK(MODEL, cest::abs(v) == std::fabs(v) && cest::fabs(v) == std::fabs(v), "abs", "abs(%.17g) = %.17g", v, cest::abs(v)); }
    // signs and symmetry
    CHECK(MODEL, cest::sinh(-e) == -cest::sinh(e) && cest::cosh(-e) == cest::cosh(e) && cest::atan(-y) == -cest::atan(y), "symmetry", "odd and even functions at %g and %g", e, y);
    int ex; std::frexp(x, &ex); state(1, ex + 2000); std::frexp(p, &ex); state(2, ex + 2000); state(3, (long)e + 800);
    count("arguments", 12);
  }
}
static void special(long i)
{
  const double inf = INFINITY, nan = NAN;
  double v[] = { 0.0, -0.0, inf, -inf, nan, -nan, 1e308, -1e308, std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(), std::numeric_limits<double>::min(), std::numeric_limits<double>::denorm_min(), -std::numeric_limits<double>::denorm_min(), -1.0, -1e-300, 1e15, 1e16, 1e300, 9.3e18, 1.9e19, -9.3e18, 745.2, -745.2, -1000.0, 1000.0, 710.4, 709.9, -708.0 };
  double x = i < (long)(sizeof v / sizeof *v) ? v[i] : bits(R.next()); op("special", i); op("special", i); op("special", i);
  volatile double sink; // only that each call returns
  sink = cest::sin(x); sink = cest::cos(x); sink = cest::atan(x); sink = cest::sqrt(x); sink = cest::log(x); sink = cest::exp(x); sink = cest::sinh(x); sink = cest::cosh(x); sink = cest::abs(x);
  for (double y : v) { sink = cest::atan2(x, y); sink = cest::atan2(y, x); count("arguments", 2); }
  for (int n : { 0, 1, -1, 2, -2, 3, -3, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 1023, -1075, 65536 }) { sink = cest::pow(x, n); count("arguments"); }
  (void)sink; count("arguments", 9);
  auto cls = [](double d) { return d != d ? 0 : d == INFINITY ? 1 : d == -INFINITY ? 2 : d == 0 ? 3 : d > 0 ? 4 : 5; };
  auto same = [&](const char* f, double g, double r) { CHECK(MODEL, cls(g) == cls(r), f, "%s(%g) = %g, expected %g", f, x, g, r); };
  if (x == 0 || x != x || std::isinf(x)) { same("sqrt", cest::sqrt(x), std::sqrt(x)); same("sin", cest::sin(x), std::sin(x)); same("atan", cest::atan(x), std::atan(x)); same("log", cest::log(x), std::log(x)); same("exp", cest::exp(x), std::exp(x)); same("sinh", cest::sinh(x), std::sinh(x)); same("cosh", cest::cosh(x), std::cosh(x)); same("abs", cest::abs(x), std::fabs(x)); if (x != 0) same("cos", cest::cos(x), std::cos(x)); }
  if (x < 0 && x == x) { same("sqrt", cest::sqrt(x), NAN); same("log", cest::log(x), NAN); }
  CHECK(MODEL, cest::sqrt(0) == 0 && cest::sin(0) == 0 && cest::atan(0) == 0 && cest::exp(0) == 1 && cest::log(1) == 0 && cest::cosh(0) == 1 && cest::sinh(0) == 0, "zero", "values at zero");
  state(9, i < 30 ? i : 30 + cls(x));
}
int main(int argc, char** argv)
{
  init(argc, argv, "w_cmath"); std::string c = S().config;
  if (c == "finite") run_cases(finite_args);
  if (c == "special") run_cases(special);
  return 3;
}
