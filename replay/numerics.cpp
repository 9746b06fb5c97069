#include <ndt_gslam/utils/eigen_tools.h>
#include "h.h"
typedef eigt::pose2d_t<double> P;
typedef eigt::transform2d_t<double> T;
typedef Eigen::Matrix3d M3;
typedef Eigen::Matrix4d M4;
static P pose()
{
  return P(H::real(), H::real(), H::angle());
}
static M3 tf(const P &p)
{
  M3 m;
  m << std::cos(p(2)), -std::sin(p(2)), p(0), std::sin(p(2)), std::cos(p(2)), p(1), 0, 0, 1;
  return m;
}
static M4 emb(const P &p)
{
  M4 m = M4::Identity();
  m.block<2, 2>(0, 0) = tf(p).block<2, 2>(0, 0);
  m(0, 3) = p(0);
  m(1, 3) = p(1);
  return m;
}
static T mk(const P &p)
{
  T t;
  t.matrix() = tf(p);
  return t;
}
static void samepose(const P &got, const P &want, const char *n)
{
  H::near(got(0), want(0), n);
  H::near(got(1), want(1), n);
  H::nearang(got(2), want(2), n);
  H::principal(got(2), n);
}
static void c05(double s)
{
  H::loop(s, 2000, [] {
    P p = pose();
    H::note("pose=" + H::str(p));
    T t = eigt::getTransFromPose<double>(p);
    H::nearm(t.matrix(), tf(p), "getTransFromPose: rotation by t then translation");
    P r = eigt::getPoseFromTransform<double>(mk(p));
    samepose(r, p, "getPoseFromTransform");
    samepose(eigt::getPoseFromTransform<double>(t), p, "round trip");
    H::nearang(eigt::getAngle<double>(t), p(2), "getAngle");
    H::principal(eigt::getAngle<double>(t), "getAngle range");
    H::near(eigt::getDisplacement<double>(t), std::hypot(p(0), p(1)), "getDisplacement");
    H::nearm(eigt::getTransFromPose<double>(r).matrix(), t.matrix(), "transform -> pose -> transform");
  });
}
static void c06(double s)
{
  H::loop(s, 2000, [] {
    double a = H::angle();
    P x = pose(), y = pose();
    H::note("angle=" + H::num(a) + " from=" + H::str(x) + " to=" + H::str(y));
    double r = eigt::normalizeAngle<double>(a);
    H::principal(r, "normalizeAngle range");
    H::nearang(r, a, "normalizeAngle congruence");
    double d = eigt::getAngleDiffrence<double>(x, y);
    H::principal(d, "getAngleDiffrence range");
    H::nearang(d, y(2) - x(2), "getAngleDiffrence");
  });
}
static void c07(double s)
{
  H::loop(s, 2000, [] {
    P a = pose(), b = pose(), c = pose();
    H::note("a=" + H::str(a) + " b=" + H::str(b) + " c=" + H::str(c));
    M3 ab = eigt::transBtwFrames<double>(a, b).matrix(), bc = eigt::transBtwFrames<double>(b, c).matrix(), ac = eigt::transBtwFrames<double>(a, c).matrix();
    H::nearm((tf(b) * ab).eval(), tf(a), "transBtwFrames: T_to * F = T_from");
    H::nearm((bc * ab).eval(), ac, "frame changes compose");
    T d = eigt::transBtwPoses<double>(a, b);
    P dp(b(0) - a(0), b(1) - a(1), b(2) - a(2));
    H::nearm(d.matrix(), tf(dp), "transBtwPoses");
    samepose(eigt::transformPose<double>(a, d), b, "transformPose o transBtwPoses");
    P t = eigt::transformConcat<double>(a, mk(b));
    H::nearm(tf(t), (tf(a) * tf(b)).eval(), "transformConcat");
    H::principal(t(2), "transformConcat heading");
  });
}
static void c08(double s)
{
  H::loop(s, 2000, [] {
    P p = pose();
    M4 g;
    for (int i = 0; i < 16; ++i)
      g(i / 4, i % 4) = H::real();
    H::note("pose=" + H::str(p) + " matrix=" + H::str(g));
    H::nearm(eigt::convertFromTransform<double>(mk(p)), emb(p), "convertFromTransform");
    T b = eigt::convertToTransform<double>(g);
    M3 w;
    w << g(0, 0), g(0, 1), g(0, 3), g(1, 0), g(1, 1), g(1, 3), 0, 0, 1;
    H::nearm(b.matrix(), w, "convertToTransform");
    H::nearm(eigt::convertToTransform<double>(eigt::convertFromTransform<double>(mk(p))).matrix(), tf(p), "2-D -> 3-D -> 2-D");
    auto m3 = eigt::vecToMat2d<double, double>(p);
    auto m4 = eigt::vecToMat3d<double, double>(p);
    H::nearm(m3, tf(p), "vecToMat2d");
    H::nearm(m4, emb(p), "vecToMat3d");
    samepose(matToVec2d<double, double>(M3(tf(p))), p, "matToVec2d(3x3)");
    samepose(matToVec2d<double, double>(M4(emb(p))), p, "matToVec2d(4x4)");
    // single precision instances
    Eigen::Vector3f pf = p.cast<float>();
    H::nearm((eigt::vecToMat2d<float, double>(pf)), tf(pf.cast<double>()), "vecToMat2d<float,double>", 1e-4);
    H::nearm((eigt::vecToMat3d<float, float>(pf).cast<double>()).eval(), emb(pf.cast<double>()), "vecToMat3d<float>", 1e-4);
  });
}
HARNESS_MAIN({ "C05", c05 }, { "C06", c06 }, { "C07", c07 }, { "C08", c08 })
