#include "h.h"
#include <iostream>
#define private public
#include <ndt/ndt_cell.cpp>
#undef private
using slamuk::NDTCell;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef std::vector<V3> Pts;
static std::string show(const NDTCell &c)
{
  return "{occ " + H::num(c.occup_) + " n " + std::to_string(c.points_) + " gaussian " + std::to_string(c.gaussian_) + " mean " + H::str(c.mean_) + " cov " + H::str(c.cov_) + " pending " + std::to_string(c.points_vec_.size()) + "}";
}
static M3 lifted(const M3 &c)
{
  Eigen::SelfAdjointEigenSolver<M3> s(c);
  V3 e = s.eigenvalues();
  double lim = 0.01 * e(2);
  for (int i = 0; i < 2; ++i)
    e(i) = std::max(e(i), lim);
  return s.eigenvectors() * e.asDiagonal() * s.eigenvectors().transpose();
}
static float clampf(double x)
{
  return x > 1 ? 1 : x < -1 ? -1 : x;
}
static double coord()
{
  return H::coin(0.3) ? H::ri(-8, 8) * 0.25 : H::uni(-5, 5);
}
static Pts cloud(int n)
{
  Pts p;
  V3 c(coord(), coord(), H::coin(0.7) ? 0 : coord());
  double s = std::pow(10, H::uni(-2, 0.7));
  bool line = H::coin(0.2);
  for (int i = 0; i < n; ++i) {
    V3 d(H::uni(-1, 1), line ? 0 : H::uni(-1, 1), H::coin(0.7) ? 0 : H::uni(-1, 1));
    p.push_back(c + s * d);
  }
  return p;
}
static NDTCell filled(int n)
{
  NDTCell c;
  for (auto &p : cloud(n))
    c.addPoint(p);
  c.computeGaussian();
  return c;
}
static void valid(const NDTCell &c, const char *after)
{
  H::check(c.occup_ >= -1 && c.occup_ <= 1, "the occupancy is in [-1, 1]", std::string(after) + " " + show(c));
  H::check(!c.gaussian_ || c.points_ >= 3, "a Gaussian stands for three points or more", std::string(after) + " " + show(c));
  int o = c.getOccupancy();
  H::check(c.occup_ < 0 ? o == -1 : std::abs(o - 100.0 * c.occup_) <= 1.001 && o >= 0 && o <= 100, "scaled occupancy", std::to_string(o) + " " + show(c));
  if (!c.gaussian_)
    return;
  H::check(c.cov_.allFinite() && c.mean_.allFinite(), "a Gaussian is finite", std::string(after) + " " + show(c));
  Eigen::SelfAdjointEigenSolver<M3> s(c.cov_);
  H::check(s.eigenvalues()(0) > 0 && s.eigenvalues()(0) >= 0.0099 * s.eigenvalues()(2), "a Gaussian has a well conditioned positive covariance", std::string(after) + " " + show(c));
  H::nearm(M3(c.icov_ * c.cov_), M3(M3::Identity()), "inverse covariance times covariance = I", 1e-6);
}
struct St {
  double n;
  V3 m;
  M3 c;
};
static St pooled(const St &a, const St &b)
{
  St r;
  r.n = a.n + b.n;
  r.m = (a.n * a.m + b.n * b.m) / r.n;
  V3 d = a.m - b.m;
  r.c = ((a.n - 1) * a.c + (b.n - 1) * b.c + a.n * b.n / r.n * d * d.transpose()) / (r.n - 1);
  return r;
}
static void same(const NDTCell &a, const NDTCell &b, const char *what)
{
  H::check(a.occup_ == b.occup_ && a.points_ == b.points_ && a.gaussian_ == b.gaussian_ && a.mean_ == b.mean_ && a.cov_ == b.cov_ && a.icov_ == b.icov_, what, show(a) + " / " + show(b));
}
static void c19(double s)
{
  H::loop(s, 2000, [] {
    NDTCell a = filled(H::coin(0.2) ? H::ri(0, 6) : H::ri(6, 60)), b = filled(H::coin(0.2) ? H::ri(0, 6) : H::ri(6, 60));
    if (H::coin(0.2))
      a.points_ = H::ri(3, 1000), b.points_ = H::ri(0, 1000000);
    if (H::coin(0.5))
      a.occup_ = H::uni(-1, 1), b.occup_ = H::uni(-1, 1);
    if (H::coin(0.1))
      b.points_ = H::ri(0, 3);
    H::note("a=" + show(a) + " b=" + show(b));
    if (a.gaussian_ && a.points_ < 3)
      a.points_ = 3;
    if (b.gaussian_ && b.points_ < 3 && H::coin())
      b.points_ = 3;
    NDTCell a0 = a, b0 = b;
    a += b;
    same(b, b0, "the other cell is not changed");
    if (!b0.gaussian_ || b0.points_ <= 2) {
      same(a, a0, "nothing to merge");
      return;
    }
    if (!a0.gaussian_) {
      same(a, b0, "an empty cell takes over the other one");
      return;
    }
    St w = pooled({ (double)a0.points_, a0.mean_, a0.cov_ }, { (double)b0.points_, b0.mean_, b0.cov_ });
    H::check(a.points_ == std::min<size_t>(a0.points_ + b0.points_, 1000000000), "the points add up", show(a));
    H::nearm(a.mean_, w.m, "the mean is the mean of all points");
    H::near(a.occup_, clampf(a0.occup_ + b0.points_ * 0.405465108), "the occupancy grows with the points of the other cell", 1e-4);
    if (a.occup_ < 0) {
      H::check(!a.gaussian_, "unoccupied cells have no Gaussian", show(a));
      H::nearm(a.cov_, w.c, "the covariance is the covariance of all points");
      return;
    }
    H::check(a.gaussian_, "a proper covariance makes a Gaussian", show(a));
    H::nearm(a.cov_, lifted(w.c), "the covariance is the covariance of all points, small eigenvalues lifted");
    valid(a, "merge");
  });
}
static double likelihood(const NDTCell &c, const V3 &s, const V3 &e, V3 &p)
{
  V3 l = (e - s).normalized();
  double t = -l.dot(c.icov_ * (e - c.mean_)) / l.dot(c.icov_ * l);
  p = e + t * l;
  return std::exp(-0.5 * (p - c.mean_).dot(c.icov_ * (p - c.mean_)));
}
static void c20(double s)
{
  H::loop(s, 2000, [] {
    NDTCell c;
    if (H::coin(0.8))
      c = filled(H::ri(3, 20));
    std::string hist;
    int steps = H::ri(1, 12);
    H::note("start " + show(c));
    for (int k = 0; k < steps; ++k) {
      NDTCell o = c;
      int op = H::ri(0, 9);
      if (op <= 5) {
        V3 a(coord(), coord(), 0), b(coord(), coord(), 0);
        double u = H::u01();
        if (u < 0.15)
          b = a;
        else if (u < 0.25)
          b = c.mean_ + V3(H::uni(-0.01, 0.01), 0, 0);
        else if (u < 0.5)
          b = a + (c.mean_ - a) * H::uni(0.5, 2) + V3(H::uni(-0.1, 0.1), H::uni(-0.1, 0.1), 0);
        size_t n = H::coin() ? 1 : H::ri(0, 40);
        if (H::coin(0.3))
          c.occup_ = o.occup_ = H::uni(-1, 1);
        H::more(" ray " + H::str(a) + " " + H::str(b) + " " + std::to_string(n) + " on occupancy " + H::num(c.occup_));
        c.updateOccupancy(a, b, n);
        double d = (o.mean_ - b).cwiseAbs().sum();
        if (!o.gaussian_) {
          H::near(c.occup_, clampf(o.occup_ - 0.2 * n), "a cell without Gaussian loses a fifth per point", 1e-4);
          H::check(!c.gaussian_, "no Gaussian appears", show(c));
        } else if (std::fabs(d - 0.01) < 1e-9) {
        } else if (d < 0.01) {
          H::near(c.occup_, clampf(o.occup_ + 1), "a ray that ends at the mean makes the cell occupied");
          H::check(c.gaussian_, "the Gaussian stays", show(c));
        } else {
          H::check(c.occup_ <= o.occup_, "a ray that passes does not raise the occupancy", show(c));
          H::check(c.gaussian_ == (c.occup_ > 0), "the Gaussian is dropped when the occupancy is used up", show(c));
          if ((b - a).norm() == 0)
            H::check(c.occup_ == o.occup_, "a ray without length changes nothing", show(c));
          else if ((b - a).norm() > 1e-3) {
            V3 p;
            double l = likelihood(o, a, b, p);
            l = 0.5 + 0.1 * l * (1 - std::exp(-0.5 * (p - b).squaredNorm() / 1e-4));
            H::near(c.occup_, clampf(o.occup_ + n * std::log((1 - l) / l)), "occupancy after a passing ray", 1e-3);
          }
        }
        H::check(c.points_ == o.points_ && c.mean_ == o.mean_ && c.cov_ == o.cov_, "a ray changes nothing but the occupancy", show(c));
      } else if (op == 6) {
        int p = H::ri(-128, 127);
        H::more(" setOccupancy " + std::to_string(p));
        c.setOccupancy(p);
        if (p >= 0 && p <= 100)
          H::near(c.occup_, p / 100.0, "percentage");
      } else if (op == 7) {
        NDTCell b = filled(H::ri(0, 12));
        H::more(" merge " + show(b));
        c += b;
      } else if (op == 8) {
        int n = H::ri(0, 9);
        H::more(" compute with " + std::to_string(n) + " points more");
        for (auto &p : cloud(n))
          c.addPoint(p);
        size_t m = c.points_vec_.size();
        c.computeGaussian();
        H::near(c.occup_, clampf(o.occup_ + m * 0.405465108), "occupancy after new points", 1e-4);
      } else {
        H::more(" copy");
        NDTCell e(c);
        c = e;
      }
      valid(c, "step");
    }
  });
}
static St points_of(const Pts &p)
{
  St r;
  r.n = p.size();
  r.m = V3::Zero();
  for (auto &x : p)
    r.m += x;
  r.m /= r.n;
  r.c = M3::Identity();
  for (auto &x : p)
    r.c += (x - r.m) * (x - r.m).transpose();
  r.c *= (r.n - 1) / (r.n * r.n);
  return r;
}
static void c21(double s)
{
  {
    // no spread at all once rounding has eaten the differences: must not count as a Gaussian
    for (int k = 0; k < 300; ++k) {
      NDTCell c;
      double x = std::pow(10, H::uni(8, 12));
      std::string t;
      for (int i = 0; i < 6 + k % 20; ++i) {
        V3 p(x + H::u01(), x + H::u01(), x + H::u01());
        t += H::str(p);
        c.addPoint(p);
      }
      H::note("far points " + t.substr(0, 4000));
      c.computeGaussian();
      Eigen::SelfAdjointEigenSolver<M3> e(c.cov_);
      H::check(!c.gaussian_ || (c.cov_.allFinite() && e.eigenvalues()(2) > 0), "a Gaussian has a positive covariance", show(c));
    }
  }
  H::loop(s, 2000, [] {
    NDTCell c;
    H::check(c.occup_ == 0 && c.points_ == 0 && !c.gaussian_ && c.points_vec_.empty(), "a new cell is unknown");
    H::note("");
    int rounds = H::ri(1, 3);
    for (int k = 0; k < rounds; ++k) {
      Pts p = cloud(H::coin(0.2) ? H::ri(0, 6) : H::ri(6, 40));
      H::more(" add " + std::to_string(p.size()));
      for (auto &x : p) {
        H::more(H::str(x));
        c.addPoint(x);
      }
      if (H::coin(0.1))
        c.occup_ = H::uni(-1, 1);
      NDTCell o = c;
      Pts all = c.points_vec_;
      c.computeGaussian();
      float occ = clampf(o.occup_ + all.size() * 0.405465108);
      H::near(c.occup_, occ, "occupancy", 1e-4);
      if (std::fabs(occ) < 1e-6)
        return;
      if (occ <= 0 || all.size() < 6) {
        H::check(!c.gaussian_, "no Gaussian from fewer than six points or without occupancy", show(c));
        H::check(c.points_vec_.size() == all.size() && c.points_ == all.size(), "the points are kept for later", show(c));
        valid(c, "compute");
        continue;
      }
      St w = points_of(all);
      if (o.gaussian_)
        w = pooled({ (double)o.points_, o.mean_, o.cov_ }, w);
      H::check(c.points_vec_.empty(), "the points are used up", show(c));
      H::check(c.gaussian_, "a proper covariance makes a Gaussian", show(c));
      H::check(c.points_ == w.n, "number of points", show(c));
      H::nearm(c.mean_, w.m, "mean of all points");
      H::nearm(c.cov_, lifted(w.c), "covariance of the points", 1e-5);
      valid(c, "compute");
    }
    // moving the cell
    NDTCell o = c;
    NDTCell::Transform t = NDTCell::Transform::Identity();
    if (H::coin())
      t.rotate(Eigen::AngleAxisd(H::angle(), V3::UnitZ()));
    else
      t.rotate(Eigen::AngleAxisd(H::angle(), V3(H::uni(-1, 1), H::uni(-1, 1), H::uni(0.1, 1)).normalized()));
    t.pretranslate(V3(coord(), coord(), H::coin() ? 0 : coord()));
    H::more(" transform " + H::str(t.matrix()));
    c.transform(t);
    if (!o.gaussian_)
      same(c, o, "a cell without Gaussian does not move");
    else {
      H::nearm(c.mean_, V3(t.linear() * o.mean_ + t.translation()), "the mean moves with the transform");
      H::nearm(c.cov_, M3(t.linear() * o.cov_ * t.linear().transpose()), "the covariance turns with the transform", 1e-5);
      H::check(c.points_ == o.points_ && c.occup_ == o.occup_ && c.gaussian_, "points and occupancy stay", show(c));
      valid(c, "transform");
    }
    slamuk::NDTCellMsg m = c.serialize();
    H::check(m.mean_ == c.getMean() && m.cov_ == c.getCov() && m.occupancy_ == c.getOccupancyRaw() && m.points_ == (long)c.points() && c.hasGaussian() == c.gaussian_, "message", show(c));
  });
}
HARNESS_MAIN({ "C19", c19 }, { "C20", c20 }, { "C21", c21 })
