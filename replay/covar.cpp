#include <ndt_gslam/utils/covariance_inverse.h>
#include <ndt_gslam/utils/covariance_wrapper.h>
#include "h.h"
typedef Eigen::Matrix3d M3;
static M3 rotq()
{
  Eigen::Quaterniond q(H::uni(-1, 1), H::uni(-1, 1), H::uni(-1, 1), H::uni(-1, 1));
  if (q.norm() < 1e-3)
    return M3::Identity();
  q.normalize();
  return q.toRotationMatrix();
}
static M3 psd()
{
  M3 a;
  for (int i = 0; i < 9; ++i)
    a(i / 3, i % 3) = H::uni(-2, 2);
  if (H::coin(0.2))
    a.col(H::ri(0, 2)).setZero();
  return a * a.transpose();
}
static void c11(double s)
{
  H::loop(s, 2000, [] {
    M3 c = psd(), o = psd();
    double x = H::real(), y = H::real(), t = H::angle();
    H::note("C=" + H::str(c) + " Q=" + H::str(o) + " trans=(" + H::num(x) + "," + H::num(y) + "," + H::num(t) + ")");
    slamuk::CovarianceWrapper::Transform T = slamuk::CovarianceWrapper::Transform::Identity();
    T.linear() << std::cos(t), -std::sin(t), std::sin(t), std::cos(t);
    T.translation() << x, y;
    slamuk::CovarianceWrapper w(c), d;
    H::nearm(w.covar_, c, "the wrapper starts from the given covariance");
    H::nearm(d.covar_, M3(M3::Identity()), "default covariance");
    w.addToCovar(o, T);
    double co = std::cos(t), si = std::sin(t);
    M3 j1, j2;
    j1 << 1, 0, -si * x - co * y, 0, 1, co * x - si * y, 0, 0, 1;
    j2 << co, -si, 0, si, co, 0, 0, 0, 1;
    M3 want = j1 * c * j1.transpose() + j2 * o * j2.transpose();
    H::nearm(w.covar_, want, "addToCovar = J1 C J1^T + J2 Q J2^T");
    Eigen::SelfAdjointEigenSolver<M3> e(w.covar_);
    H::check(e.eigenvalues()(0) >= -1e-7 * std::max(1.0, e.eigenvalues()(2)), "positive semidefinite", H::str(w.covar_));
    // a second step composes
    w.addToCovar(c, T);
    H::nearm(w.covar_, M3(j1 * want * j1.transpose() + j2 * c * j2.transpose()), "two steps compose");
  });
}
static void c12(double s)
{
  H::loop(s, 2000, [] {
    Eigen::Vector3d e;
    for (int i = 0; i < 3; ++i) {
      double u = H::u01();
      e(i) = u < 0.15 ? 0 : u < 0.3 ? -H::uni(0, 0.5) : u < 0.6 ? std::pow(10, H::uni(-8, 3)) : u < 0.7 ? 1 : H::uni(0, 10);
    }
    if (H::coin(0.1))
      e = -e;
    M3 V = H::coin(0.2) ? M3(M3::Identity()) : rotq();
    M3 C = V * e.asDiagonal() * V.transpose();
    C = (0.5 * (C + C.transpose())).eval();
    double tr = e.sum(), mx = e.maxCoeff();
    if (std::fabs(tr) < 1e-9 * std::max(1.0, e.cwiseAbs().maxCoeff()))
      return;
    H::note("eigenvalues=" + H::str(e) + " cov=" + H::str(C));
    M3 a = M3::Constant(7), b = M3::Constant(7);
    bool r = slamuk::covarInverse<double>(C, a, b);
    H::check(r == (tr > 0), "succeeds exactly when the trace is positive");
    if (!r)
      return;
    Eigen::Vector3d w;
    for (int i = 0; i < 3; ++i)
      w(i) = std::max(e(i), mx / 100);
    M3 wa = V * w.asDiagonal() * V.transpose(), wb = V * w.cwiseInverse().asDiagonal() * V.transpose();
    H::nearm(M3(a / mx), M3(wa / mx), "adjusted covariance: eigenvalues lifted to a hundredth of the largest", 1e-7);
    H::nearm(M3(b * mx / 100), M3(wb * mx / 100), "icov is the inverse of the adjusted covariance", 1e-6);
    H::nearm(M3(a * b), M3(M3::Identity()), "icov * adjusted = I", 1e-6);
  });
}
HARNESS_MAIN({ "C11", c11 }, { "C12", c12 })
