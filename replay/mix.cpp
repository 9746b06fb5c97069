#include <slam_optimizer/max_mixture/edge_se2_mixture.cpp>
#include <slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp>
#include <g2o/core/jacobian_workspace.h>
#include "h.h"
#include <memory>
template <int D> using Mat = Eigen::Matrix<double, D, D>;
template <int D> static Mat<D> info()
{
  Mat<D> a;
  for (int i = 0; i < D * D; ++i)
    a(i / D, i % D) = H::uni(-2, 2);
  return a * a.transpose() + 0.05 * Mat<D>::Identity();
}
static g2o::SE2 pose() { return g2o::SE2(H::real(), H::real(), H::angle()); }
static void place(g2o::VertexSE2 &v) { v.setEstimate(pose()); }
static void place(g2o::VertexPointXY &v) { v.setEstimate(Eigen::Vector2d(H::real(), H::real())); }
static void meas(g2o::EdgeSE2 &e) { e.setMeasurement(pose()); }
static void meas(g2o::EdgeSE2PointXY &e) { e.setMeasurement(Eigen::Vector2d(H::real(), H::real())); }
static std::vector<double> mv(const g2o::EdgeSE2 &e)
{
  Eigen::Vector3d v = e.measurement().toVector();
  return { v(0), v(1), v(2) };
}
static std::vector<double> mv(const g2o::EdgeSE2PointXY &e) { return { e.measurement()(0), e.measurement()(1) }; }
template <class C, class M, class W, int D> static void one()
{
  struct X : M {
    typedef g2o::BaseBinaryEdge<D, typename C::Measurement, g2o::VertexSE2, W> B;
    void lin(g2o::JacobianWorkspace &w)
    {
      w.updateSize(this);
      w.allocate();
      B::linearizeOplus(w);
    }
  };
  struct Y : C {
    typedef g2o::BaseBinaryEdge<D, typename C::Measurement, g2o::VertexSE2, W> B;
    void lin(g2o::JacobianWorkspace &w)
    {
      w.updateSize(this);
      w.allocate();
      B::linearizeOplus(w);
    }
  };
  std::vector<std::unique_ptr<g2o::VertexSE2>> va;
  std::vector<std::unique_ptr<W>> vb;
  for (int i = 0; i < 3; ++i) {
    va.emplace_back(new g2o::VertexSE2);
    vb.emplace_back(new W);
    va[i]->setId(i);
    vb[i]->setId(10 + i);
    place(*va[i]);
    place(*vb[i]);
  }
  X m;
  H::check(m.getBestComponent() == -1, "a new mixture has no best component", "got " + std::to_string(m.getBestComponent()));
  H::check(m.numberComponents == 0, "a new mixture has no components");
  std::vector<std::unique_ptr<Y>> own;
  for (int round = 0; round < 2; ++round) {
    int n = H::ri(1, 5);
    std::vector<C *> edges;
    std::vector<double> w;
    bool binary = H::coin(0.3);
    for (int k = 0; k < n; ++k) {
      own.emplace_back(new Y);
      Y *e = own.back().get();
      if (k && H::coin(0.15)) {      // an equally likely component
        e->setVertex(0, edges[k - 1]->vertex(0));
        e->setVertex(1, edges[k - 1]->vertex(1));
        e->setMeasurement(edges[k - 1]->measurement());
        e->setInformation(edges[k - 1]->information());
        edges.push_back(e);
        w.push_back(w.back());
        continue;
      }
      e->setVertex(0, va[binary ? 0 : H::ri(0, 2)].get());
      e->setVertex(1, vb[binary ? 0 : H::ri(0, 2)].get());
      meas(*e);
      Mat<D> I = info<D>();
      if (H::coin(0.4))
        I *= std::pow(10.0, H::uni(-6, 3));
      e->setInformation(I);
      edges.push_back(e);
      w.push_back(H::coin(0.3) ? 1.0 : H::uni(1e-3, 2));
    }
    H::more(" components " + std::to_string(n) + (round ? " (again)" : "") + (D == 2 ? " of points" : " of poses"));
    m.initializeComponents(edges, w);
    for (int step = 0; step < 3; ++step) {
      if (step) {
        for (int i = 0; i < 3; ++i)
          place(*va[i]), place(*vb[i]);
        if (step == 1)
          m.computeError();
        else
          m.computeBestEdge();
      }
      H::more(" step " + std::to_string(step));
      // the most likely component
      std::vector<double> nlp;
      for (int k = 0; k < n; ++k) {
        edges[k]->computeError();
        nlp.push_back(-std::log(w[k]) + 0.5 * std::log(edges[k]->information().inverse().determinant()) + 0.5 * edges[k]->chi2());
      }
      int b = m.getBestComponent();
      H::check(m.numberComponents == n, "number of components");
      H::check(b >= 0 && b < n, "the selected component is one of the components", "got " + std::to_string(b));
      for (int k = 0; k < n; ++k) {
        double tol = 1e-9 * (1 + std::fabs(nlp[k]));
        H::check(nlp[b] <= nlp[k] + tol, "no component is more likely", "selected " + std::to_string(b) + " with " + H::num(nlp[b]) + ", component " + std::to_string(k) + " has " + H::num(nlp[k]));
        H::check(m.getComponent(k) == edges[k], "component k is the k-th that was given");
      }
      C *e = edges[b];
      if (b > 0 && nlp[b] == nlp[b - 1])
        H::check(false, "the first of equally likely components is selected", "selected " + std::to_string(b));
      H::check(m.vertex(0) == e->vertex(0) && m.vertex(1) == e->vertex(1), "the vertices are those of the component");
      auto x = mv(m), y = mv(*e);
      for (size_t i = 0; i < x.size(); ++i)
        H::near(x[i], y[i], "the measurement is the one of the component", 1e-9);
      H::check((m.information() - e->information()).norm() <= 1e-12 * e->information().norm(), "the information is the one of the component");
      for (int i = 0; i < D; ++i)
        H::near(m.error()[i], e->error()[i], "the error is the error of the component", 1e-7);
      g2o::JacobianWorkspace w1, w2;
      static_cast<X &>(m).lin(w1);
      static_cast<Y *>(e)->lin(w2);
      for (int v = 0; v < 2; ++v)
        for (int i = 0; i < D * (v ? (D == 3 ? 3 : 2) : 3); ++i)
          H::near(w1.workspaceForVertex(v)[i], w2.workspaceForVertex(v)[i], "the Jacobians are those of the selected component", 1e-6);
      H::check(m.getBestComponent() == b, "linearising keeps the selected component");
    }
  }
  // nothing here owns the vertices it is attached to
}
static void c23(double secs)
{
  std::cerr.setstate(std::ios::failbit);
  H::loop(secs, 2000, [] {
    bool p = H::coin(0.5);
    H::note(p ? "mixture of pose constraints:" : "mixture of point constraints:");
    if (p)
      one<g2o::EdgeSE2, EdgeSE2Mixture, g2o::VertexSE2, 3>();
    else
      one<g2o::EdgeSE2PointXY, EdgeSE2PointXYMixture, g2o::VertexPointXY, 2>();
  });
}
HARNESS_MAIN({ "C23", c23 })
