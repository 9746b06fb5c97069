// Replay harness: runs the real code on concrete inputs and compares it with the contract.
// A failing input is printed and the program exits 1; the current case is kept in a mapped file,
// so that it survives a crash or a hang.
#ifndef VERIF_H
#define VERIF_H
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
namespace H {
static char *casebuf = nullptr;
static const size_t CASEMAX = 1 << 16;
static std::mt19937_64 rng;
static std::vector<double> hints;
static uint64_t cases = 0, checks = 0;
static std::string text;
static std::string first_samples;
static int nsamples = 0;
inline void note(const std::string &s)
{
  text = s;
  ++cases;
  size_t n = std::min(s.size(), CASEMAX - 1);
  memcpy(casebuf, s.data(), n);
  casebuf[n] = 0;
  if (nsamples < 3 && (cases == 1 || cases % 97 == 0)) {
    printf("SAMPLE %s\n", s.substr(0, 300).c_str());
    ++nsamples;
  }
}
inline void more(const std::string &s)
{
  text += s;
  size_t n = std::min(text.size(), CASEMAX - 1);
  memcpy(casebuf, text.data(), n);
  casebuf[n] = 0;
}
[[noreturn]] inline void fail(const std::string &name, const std::string &detail)
{
  printf("FAIL %s\n  case: %s\n  detail: %s\n", name.c_str(), text.c_str(), detail.c_str());
  fflush(stdout);
  _exit(1);
}
inline void check(bool ok, const char *name, const std::string &detail = "")
{
  ++checks;
  if (!ok)
    fail(name, detail);
}
inline std::string num(double x)
{
  char b[64];
  snprintf(b, sizeof b, "%.17g", x);
  return b;
}
inline bool close(double a, double b, double tol = 1e-6)
{
  if (std::isnan(a) || std::isnan(b))
    return false;
  return std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b)));
}
inline void near(double got, double want, const char *name, double tol = 1e-6)
{
  ++checks;
  if (!close(got, want, tol))
    fail(name, "got " + num(got) + ", expected " + num(want));
}
template <typename M>
inline std::string str(const M &m)
{
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (long i = 0; i < m.rows(); ++i)
    for (long j = 0; j < m.cols(); ++j)
      o << (i + j ? (j ? " " : "; ") : "") << m(i, j);
  o << "]";
  return o.str();
}
template <typename A, typename B>
inline void nearm(const A &got, const B &want, const char *name, double tol = 1e-6)
{
  ++checks;
  if (got.rows() != want.rows() || got.cols() != want.cols())
    fail(name, "shape");
  double s = 1;
  for (long i = 0; i < got.rows(); ++i)
    for (long j = 0; j < got.cols(); ++j)
      s = std::max(s, (double)std::fabs(want(i, j)));
  for (long i = 0; i < got.rows(); ++i)
    for (long j = 0; j < got.cols(); ++j)
      if (!(std::fabs(got(i, j) - want(i, j)) <= tol * s))
        fail(name, "got " + str(got) + ", expected " + str(want));
}
inline double u01()
{
  return std::uniform_real_distribution<double>(0, 1)(rng);
}
inline double uni(double a, double b)
{
  return a + (b - a) * u01();
}
inline int64_t ri(int64_t a, int64_t b)
{
  return std::uniform_int_distribution<int64_t>(a, b)(rng);
}
inline bool coin(double p = 0.5)
{
  return u01() < p;
}
// a real number: corner values, values from the solver's counterexample, or random
inline double real(double lim = 50)
{
  static const double corner[] = { 0, 1, -1, 0.5, -0.5, 2, -2, 3, -3, 10, 0.1, -0.1, 1e-3 };
  double u = u01();
  if (!hints.empty() && u < 0.2) {
    double h = hints[ri(0, (int64_t)hints.size() - 1)];
    if (std::fabs(h) <= lim)
      return h;
  }
  if (u < 0.4) {
    double c = corner[ri(0, 12)];
    if (std::fabs(c) <= lim)
      return c;
  }
  return uni(-lim, lim);
}
inline double angle()
{
  static const double PI = 3.14159265358979323846;
  double u = u01();
  if (u < 0.35)
    return ri(-8, 8) * PI / 4;
  if (u < 0.5)
    return ri(-8, 8) * PI / 4 + (coin() ? 1e-9 : -1e-9);
  if (u < 0.8)
    return uni(-PI, PI);
  return uni(-20, 20);
}
inline bool same_angle(double a, double b, double tol = 1e-6)
{
  return std::fabs(std::remainder(a - b, 2 * 3.14159265358979323846)) <= tol;
}
inline void nearang(double got, double want, const char *name, double tol = 1e-6)
{
  ++checks;
  if (!(same_angle(got, want, tol)))
    fail(name, "got angle " + num(got) + ", expected " + num(want) + " modulo a full turn");
}
inline void principal(double a, const char *name)
{
  check(a >= -3.14159265358979323846 - 1e-12 && a <= 3.14159265358979323846 + 1e-12, name, "angle " + num(a));
}
// drives a property: fn() is one random case
inline void loop(double seconds, uint64_t minimum, const std::function<void()> &fn)
{
  auto t0 = std::chrono::steady_clock::now();
  for (uint64_t n = 0;; ++n) {
    fn();
    if (n >= minimum && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > seconds)
      break;
  }
}
}
typedef void (*prop_fn)(double);
#define HARNESS_MAIN(...)                                                                      \
  int main(int argc, char **argv)                                                              \
  {                                                                                            \
    static const std::map<std::string, prop_fn> table = { __VA_ARGS__ };                       \
    std::string prop = argv[1];                                                                \
    double secs = atof(argv[2]);                                                               \
    H::rng.seed(strtoull(argv[3], nullptr, 10) * 7919 + 13);                                   \
    int fd = open(argv[4], O_RDWR | O_CREAT | O_TRUNC, 0600);                                  \
    if (fd < 0 || ftruncate(fd, H::CASEMAX))                                                   \
      return 3;                                                                                \
    H::casebuf = (char *)mmap(nullptr, H::CASEMAX, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); \
    if (argc > 5) {                                                                            \
      std::ifstream f(argv[5]);                                                                \
      double x;                                                                                \
      while (f >> x)                                                                           \
        H::hints.push_back(x);                                                                 \
    }                                                                                          \
    setvbuf(stdout, nullptr, _IOLBF, 0);                                                       \
    table.at(prop)(secs);                                                                      \
    printf("OK cases=%llu checks=%llu\n", (unsigned long long)H::cases, (unsigned long long)H::checks); \
    return 0;                                                                                  \
  }
#endif
