#include <algorithm>
#include <ndt_gslam/slam_optimizer/pose_graph.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
#include "h.h"
using namespace slamuk;
typedef Slam2d_Policy P;
typedef Graph<P, int *> G;
typedef Node<P, int *> N;
typedef Edge<P, int *> E;
static P::Pose pose()
{
  return P::Pose(H::real(), H::real(), H::angle());
}
static Eigen::Matrix3d tf(const P::Pose &p)
{
  Eigen::Matrix3d m;
  m << std::cos(p(2)), -std::sin(p(2)), p(0), std::sin(p(2)), std::cos(p(2)), p(1), 0, 0, 1;
  return m;
}
struct MEdge {
  size_t from, to;
  P::Pose t;
  P::InformMatrix inf;
  E::Type type;
  E::State st;
  bool used;
  E *ptr;
};
struct Model {
  std::map<size_t, MEdge> e;
  std::vector<P::Pose> n;
  size_t slots = 0;
  std::vector<int> data;
};
static int objs[64];
static void checkAll(G &g, Model &m, int what)
{
  const G &cg = g;
  if (what & 1) {
    H::check(g.edgeCount() == m.e.size(), "edgeCount", std::to_string(g.edgeCount()) + " vs " + std::to_string(m.e.size()));
    H::check(g.nodeCount() == m.n.size(), "nodeCount");
    for (size_t i = 0; i < m.n.size(); ++i) {
      H::check(g.getNode(i).getId() == i, "node id");
      H::nearm(g.getNode(i).getPose(), m.n[i], "node pose kept");
      H::check(g.getNode(i).getDataObj() == &objs[i % 64], "node data kept");
    }
    for (auto &k : m.e) {
      E &e = g.getEdge(k.first);
      H::check(e.getId() == k.first, "edge id");
      H::check(&e == k.second.ptr, "edge object stays in place");
      H::check(e.getFrom() == &g.getNode(k.second.from) && e.getTo() == &g.getNode(k.second.to), "edge ends kept");
      H::nearm(e.getTransform(), k.second.t, "edge transform kept");
      H::nearm(e.getInformationMatrix(), k.second.inf, "edge information kept");
      H::check(e.getType() == k.second.type && e.getState() == k.second.st && e.isUsed() == k.second.used, "edge attributes kept");
    }
  }
  if (what & 2) {
    for (size_t q : { size_t(0), m.slots, m.slots + 1, m.slots + 7, size_t(-1), (size_t)H::ri(0, m.slots + 2) }) {
      bool live = m.e.count(q);
      bool thr = false, cthr = false;
      try {
        E &e = g.getEdge(q);
        H::check(live && e.getId() == q, "getEdge of an id that is not live must throw", "id " + std::to_string(q));
      } catch (const std::out_of_range &) {
        thr = true;
      }
      try {
        const E &e = cg.getEdge(q);
        H::check(live && e.getId() == q, "const getEdge of an id that is not live must throw", "id " + std::to_string(q));
      } catch (const std::out_of_range &) {
        cthr = true;
      }
      H::check(thr == !live && cthr == !live, "getEdge throws exactly for dead ids", "id " + std::to_string(q));
    }
    for (size_t q : { m.n.size(), m.n.size() + 1, m.n.size() + 9, size_t(-1) }) {
      int thr = 0;
      try {
        g.getNode(q);
      } catch (const std::out_of_range &) {
        ++thr;
      }
      try {
        cg.getNode(q);
      } catch (const std::out_of_range &) {
        ++thr;
      }
      H::check(thr == 2, "getNode of an id that is not live must throw", "id " + std::to_string(q));
    }
  }
  if (what & 4) {
    std::map<size_t, std::vector<E *>> in, out;
    for (auto &k : m.e) {
      out[k.second.from].push_back(k.second.ptr);
      in[k.second.to].push_back(k.second.ptr);
    }
    for (size_t i = 0; i < m.n.size(); ++i) {
      auto a = g.getNode(i).getEdgesIn(), b = g.getNode(i).getEdgesOut();
      std::sort(a.begin(), a.end());
      std::sort(b.begin(), b.end());
      std::sort(in[i].begin(), in[i].end());
      std::sort(out[i].begin(), out[i].end());
      H::check(a == in[i], "incoming list of a node holds exactly its live edges", "node " + std::to_string(i));
      H::check(b == out[i], "outgoing list of a node holds exactly its live edges", "node " + std::to_string(i));
    }
  }
  if (what & 8) {
    std::vector<E *> want, a, b, c, d;
    for (auto &k : m.e)
      want.push_back(k.second.ptr);
    size_t lim = m.slots + 2;
    for (auto i = g.beginEdge(); i != g.endEdge(); ++i) {
      H::check(a.size() < lim, "edge iteration ends");
      a.push_back(&*i);
    }
    for (auto i = g.beginEdge(); !(i == g.endEdge());) {
      H::check(b.size() < lim, "edge iteration ends");
      auto old = i++;
      b.push_back(old.operator->());
    }
    for (auto i = cg.cbeginEdge(); i != cg.cendEdge(); ++i) {
      H::check(c.size() < lim, "edge iteration ends");
      c.push_back(const_cast<E *>(&*i));
    }
    for (auto i = cg.cbeginEdge(); !(i == cg.cendEdge());) {
      H::check(d.size() < lim, "edge iteration ends");
      auto old = i++;
      d.push_back(const_cast<E *>(old.operator->()));
    }
    H::check(a == want && b == want && c == want && d == want, "iteration visits each live edge once, in id order", "expected " + std::to_string(want.size()) + " got " + std::to_string(a.size()) + "/" + std::to_string(b.size()) + "/" + std::to_string(c.size()) + "/" + std::to_string(d.size()));
    size_t k = 0;
    for (auto i = g.beginNode(); i != g.endNode(); ++i)
      H::check(k < m.n.size() && i->getId() == k++, "node iteration");
    H::check(k == m.n.size(), "node iteration visits all");
    k = 0;
    for (auto i = cg.cbeginNode(); i != cg.cendNode(); i++)
      H::check(k < m.n.size() && (*i).getId() == k++, "const node iteration");
    H::check(k == m.n.size(), "const node iteration visits all");
  }
}
static void history(int what)
{
  G g;
  Model m;
  H::note("history:");
  int len = H::ri(1, 60);
  int bias = H::ri(0, 2);
  for (int s = 0; s < len; ++s) {
    int op = H::ri(0, 9);
    if (m.n.size() < 2 || op == 0) {
      P::Pose p = pose();
      H::more(" addNode");
      size_t id = g.addNode(N(p, &objs[m.n.size() % 64]));
      if (what & 1)
        H::check(id == m.n.size(), "node id is the next number", std::to_string(id));
      m.n.push_back(p);
    } else if (op <= 4 + (bias == 0 ? 2 : 0)) {
      MEdge e;
      e.from = H::ri(0, m.n.size() - 1);
      e.to = H::ri(0, m.n.size() - 1);
      e.t = pose();
      e.inf = P::InformMatrix::Random();
      e.type = H::coin() ? E::LOOP : E::ODOM;
      e.st = H::coin() ? E::ACTIVE : E::TEMP;
      e.used = H::coin();
      H::more(" addEdge(" + std::to_string(e.from) + "," + std::to_string(e.to) + ")");
      E ed(&g.getNode(e.from), &g.getNode(e.to), e.t, e.inf);
      ed.setType(e.type);
      ed.setState(e.st);
      ed.setUsed(e.used);
      size_t id = g.addEdge(std::move(ed));
      if (what & 1) {
        H::check(!m.e.count(id), "addEdge returns an unused id", std::to_string(id));
        bool reuse = m.e.size() < m.slots;
        H::check(reuse ? id < m.slots : id == m.slots, "addEdge reuses a free id first", std::to_string(id));
      }
      m.slots = std::max(m.slots, id + 1);
      e.ptr = &g.getEdge(id);
      m.e[id] = e;
    } else if (op == 9) {
      size_t q = H::coin() ? m.slots + H::ri(0, 3) : (size_t)H::ri(0, (int64_t)m.slots);
      H::more(" removeEdge(" + std::to_string(q) + ")");
      bool live = m.e.count(q);
      bool r = g.removeEdge(q);
      if (what & 3)
        H::check(r == live, "removeEdge succeeds exactly for live ids", "id " + std::to_string(q));
      m.e.erase(q);
    } else if (!m.e.empty()) {
      auto it = m.e.begin();
      int w = H::ri(0, 2);
      std::advance(it, w == 0 ? 0 : w == 1 ? m.e.size() - 1 : H::ri(0, m.e.size() - 1));
      size_t q = it->first;
      H::more(" removeEdge(" + std::to_string(q) + ")");
      bool r = g.removeEdge(q);
      if (what & 3)
        H::check(r, "removeEdge succeeds exactly for live ids", "id " + std::to_string(q));
      m.e.erase(q);
    }
    checkAll(g, m, what);
  }
}
static void c01(double s)
{
  H::loop(s, 300, [] { history(1); });
}
static void c02(double s)
{
  H::loop(s, 300, [] { history(1 | 2); });
}
static void c03(double s)
{
  H::loop(s, 300, [] { history(4); });
}
static void c04(double s)
{
  H::loop(s, 300, [] { history(8); });
}
static void c09(double s)
{
  H::loop(s, 1000, [] {
    N a(pose(), &objs[0]), b(pose(), &objs[1]);
    P::Pose z = pose();
    P::InformMatrix inf = P::InformMatrix::Random();
    bool exact = H::coin();
    if (exact) {
      Eigen::Matrix3d t = tf(a.getPose()) * tf(z);
      b.setPose(P::Pose(t(0, 2), t(1, 2), a.getPose()(2) + z(2) + 2 * M_PI * H::ri(-3, 3)));
    }
    H::note("from=" + H::str(a.getPose()) + " to=" + H::str(b.getPose()) + " measurement=" + H::str(z));
    E e(&a, &b, z, inf);
    P::Pose r = e.getError();
    H::nearm((tf(a.getPose()) * tf(z) * tf(r)).eval(), tf(b.getPose()), "T_from * T_measured * T(error) = T_to");
    H::principal(r(2), "error heading");
    if (exact)
      H::check(r.norm() < 1e-6, "a satisfied constraint has zero error", H::str(r));
    H::nearm(e.getTransMatrix().matrix(), tf(z), "getTransMatrix");
    H::nearm(e.getTransform(), z, "getTransform");
    H::nearm(e.getInformationMatrix(), inf, "getInformationMatrix");
    P::Pose inc = pose(), old = a.getPose();
    H::more(" increment=" + H::str(inc));
    if (H::coin())
      a.addToPose(inc);
    else
      a.addToPose(P::Pose(inc));
    H::near(a.getPose()(0), old(0) + inc(0), "addToPose x");
    H::near(a.getPose()(1), old(1) + inc(1), "addToPose y");
    H::nearang(a.getPose()(2), old(2) + inc(2), "addToPose heading");
    H::principal(a.getPose()(2), "addToPose heading range");
  });
}
static void c10(double s)
{
  H::loop(s, 1000, [] {
    N a(pose(), &objs[0]), b(pose(), &objs[1]);
    P::Pose z = pose();
    H::note("from=" + H::str(a.getPose()) + " to=" + H::str(b.getPose()) + " measurement=" + H::str(z));
    E e(&a, &b, z, P::InformMatrix::Identity());
    auto J = e.getJacobianBlocks();
    Eigen::Matrix3d A, B;
    const double h = 1e-5;
    for (int k = 0; k < 6; ++k) {
      P::Pose xi = a.getPose(), xj = b.getPose(), yi = xi, yj = xj;
      (k < 3 ? xi : xj)(k % 3) += h;
      (k < 3 ? yi : yj)(k % 3) -= h;
      P::Pose d = P::calcError(xi, xj, z) - P::calcError(yi, yj, z);
      d(2) = std::remainder(d(2), 2 * M_PI);
      (k < 3 ? A : B).col(k % 3) = d / (2 * h);
    }
    H::nearm(J.first, A, "first Jacobian block is the derivative", 1e-4);
    H::nearm(J.second, B, "second Jacobian block is the derivative", 1e-4);
  });
}
HARNESS_MAIN({ "C01", c01 }, { "C02", c02 }, { "C03", c03 }, { "C04", c04 }, { "C09", c09 }, { "C10", c10 })
