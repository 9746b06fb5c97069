#include <slam_optimizer/switchable_constraints/edge_se2Switchable.cpp>
#include <slam_optimizer/switchable_constraints/edge_switchPrior.cpp>
#include <slam_optimizer/switchable_constraints/vertex_switchLinear.cpp>
#include <g2o/core/jacobian_workspace.h>
#include "h.h"
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
struct E : EdgeSE2Switchable {
  void lin(g2o::JacobianWorkspace &w)
  {
    w.updateSize(this);
    w.allocate();
    Base0::linearizeOplus(w);
  }
  typedef g2o::BaseMultiEdge<3, g2o::SE2> Base0;
  Eigen::MatrixXd J(int i) { return _jacobianOplus[i]; }
  g2o::SE2 inv() const { return _inverseMeasurement; }
};
struct P : EdgeSwitchPrior {
  double j(g2o::JacobianWorkspace &w)
  {
    w.updateSize(this);
    w.allocate();
    g2o::BaseUnaryEdge<1, double, VertexSwitchLinear>::linearizeOplus(w);
    return w.workspaceForVertex(0)[0];
  }
};
static double norm(double a) { return std::remainder(a, 2 * M_PI); }
static V3 delta(const V3 &a, const V3 &b, const V3 &m)
{
  Eigen::Rotation2Dd Ra(a(2)), Rm(m(2));
  Eigen::Vector2d d = Rm.inverse() * (Ra.inverse() * (b - a).head<2>() - m.head<2>());
  return V3(d(0), d(1), norm(b(2) - a(2) - m(2)));
}
static V3 pose() { return V3(H::real(), H::real(), H::angle()); }
static double clamp01(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
static g2o::SE2 se(const V3 &v) { return g2o::SE2(v(0), v(1), v(2)); }
static M3 info()
{
  M3 a;
  for (int i = 0; i < 9; ++i)
    a(i / 3, i % 3) = H::uni(-2, 2);
  return a * a.transpose() + 0.1 * M3::Identity();
}
static void c22(double secs)
{
  H::loop(secs, 2000, [] {
    V3 a = pose(), b = pose(), m = pose();
    double s = H::coin(0.2) ? H::ri(0, 1) : H::u01();
    H::note("poses " + H::str(a) + " " + H::str(b) + " measurement " + H::str(m) + " switch " + H::num(s));
    g2o::VertexSE2 va, vb;
    VertexSwitchLinear vs;
    va.setId(0);
    vb.setId(1);
    vs.setId(2);
    va.setEstimate(se(a));
    vb.setEstimate(se(b));
    vs.setEstimate(s);
    E e;
    e.setVertex(0, &va);
    e.setVertex(1, &vb);
    e.setVertex(2, &vs);
    e.setMeasurement(se(m));
    M3 W = info();
    e.setInformation(W);
    e.computeError();
    V3 d = delta(a, b, m), er = e.error();
    bool flip = std::fabs(std::fabs(d(2)) - M_PI) < 1e-6;
    H::near(er(0), s * d(0), "the switch scales the error (x)");
    H::near(er(1), s * d(1), "the switch scales the error (y)");
    if (!flip)
      H::near(er(2), s * d(2), "the switch scales the error (heading)");
    else
      H::near(std::fabs(er(2)), s * M_PI, "the switch scales the error (heading)");
    g2o::JacobianWorkspace w;
    e.lin(w);
    const double h = 1e-6;
    M3 Ji = M3::Zero(), Jj = M3::Zero();
    for (int k = 0; k < 3; ++k)
      for (int side = 0; side < 2; ++side) {
        V3 p = side ? b : a, q = p;
        p(k) += h;
        q(k) -= h;
        V3 dp = side ? delta(a, p, m) : delta(p, b, m), dq = side ? delta(a, q, m) : delta(q, b, m);
        V3 g = dp - dq;
        g(2) = norm(g(2));
        (side ? Jj : Ji).col(k) = s * g / (2 * h);
      }
    H::nearm(e.J(0), Ji, "the first Jacobian is the derivative of the error by the first pose", 1e-5);
    H::nearm(e.J(1), Jj, "the second Jacobian is the derivative of the error by the second pose", 1e-5);
    H::near(e.J(2)(0, 0), d(0), "the Jacobian by the switch is the error without the switch (x)");
    H::near(e.J(2)(1, 0), d(1), "the Jacobian by the switch is the error without the switch (y)");
    if (!flip)
      H::near(e.J(2)(2, 0), d(2), "the Jacobian by the switch is the error without the switch (heading)");
    // the text form
    std::stringstream t;
    t.precision(17);
    e.write(t);
    E f;
    f.read(t);
    V3 em = e.measurement().toVector(), fm = f.measurement().toVector(), ei = e.inv().toVector(), fi = f.inv().toVector();
    H::nearm(fm, em, "_measurement is read as it was written", 1e-12);
    H::nearm(fi, ei, "_inverseMeasurement is read as it was written", 1e-12);
    H::nearm(f.information(), W, "the information is read as it was written", 1e-12);
    // the switch variable
    double y = H::coin(0.3) ? H::ri(0, 1) : H::u01();
    vs.setEstimate(y);
    H::near(vs.x(), y, "setEstimate sets the switch", 1e-12);
    std::vector<double> saved;
    double z = y;
    std::string log = " switch from " + H::num(y);
    for (int k = 0; k < 8; ++k) {
      int op = H::ri(0, 3);
      if (op == 0) {
        vs.push();
        saved.push_back(z);
        log += " push";
      } else if (op == 1 && !saved.empty()) {
        vs.pop();
        z = saved.back();
        saved.pop_back();
        log += " pop";
      } else {
        double u[1] = { H::coin(0.3) ? H::ri(-2, 2) : H::uni(-1.2, 1.2) };
        vs.oplus(u);
        z = clamp01(z + u[0]);
        log += " +" + H::num(u[0]);
      }
      H::more(log);
      log.clear();
      H::check(H::close(vs.x(), z, 1e-12), "the switch follows its updates", "got " + H::num(vs.x()) + ", expected " + H::num(z));
      H::check(vs.x() == vs.estimate(), "the value of the switch is its estimate", "value " + H::num(vs.x()) + ", estimate " + H::num(vs.estimate()));
    }
    std::stringstream ts;
    ts.precision(17);
    vs.write(ts);
    VertexSwitchLinear v2;
    H::check(v2.x() == 0 && v2.estimate() == 0, "the origin is a switch that is off");
    v2.read(ts);
    H::near(v2.x(), z, "the switch is read as it was written", 1e-12);
    H::check(vs.gradient() == 1, "the gradient of the switch is one");
    P p;
    double pm = H::real(2);
    p.setVertex(0, &vs);
    p.setMeasurement(pm);
    p.setInformation(Eigen::Matrix<double, 1, 1>::Constant(H::uni(0.1, 5)));
    p.computeError();
    H::near(p.error()[0], pm - z, "the error of the prior is the distance of the switch from the prior value", 1e-12);
    g2o::JacobianWorkspace w1;
    H::near(p.j(w1), -1, "the Jacobian of the prior is the derivative of its error", 1e-12);
    std::stringstream tp;
    tp.precision(17);
    p.write(tp);
    P p2;
    p2.read(tp);
    H::near(p2.measurement(), pm, "the prior is read as it was written", 1e-12);
    H::near(p2.information()(0, 0), p.information()(0, 0), "the prior is read as it was written", 1e-12);
  });
}
HARNESS_MAIN({ "C22", c22 })
