#include <algorithm>
#include <iostream>
#include <memory>
#include <numeric>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
#include <ndt_gslam/slam_optimizer/loop_detector.h>
#include "h.h"
using namespace slamuk;
typedef Slam2d_Policy P;
struct Frame {
  size_t tag = 0;
  double radius = 1;
  Eigen::Vector2d c = Eigen::Vector2d::Zero();
  double getRadius() const { return radius; }
  Eigen::Vector2d getCentroid() const { return c; }
};
namespace slamuk {
template <>
void IScanmatcher2d<Frame>::setScoreThreshold(float)
{
}
}
typedef Graph<P, Frame> G;
typedef Node<P, Frame> N;
typedef Edge<P, Frame> E;
typedef LoopDetector<P, Frame> D;
typedef LoopClosure<P> C;
typedef internal::EdgeCov EC;
typedef Eigen::Matrix3d M3;
typedef Eigen::Vector3d V3;
typedef Eigen::Transform<double, 2, Eigen::TransformTraits::Affine> T2;
static T2 tf(const V3 &p)
{
  T2 t = T2::Identity();
  t.linear() << std::cos(p(2)), -std::sin(p(2)), std::sin(p(2)), std::cos(p(2));
  t.translation() = p.head<2>();
  return t;
}
static M3 info()
{
  M3 a;
  for (int i = 0; i < 9; ++i)
    a(i / 3, i % 3) = H::uni(-2, 2);
  return a * a.transpose() + 0.1 * M3::Identity();
}
static M3 cov()
{
  return H::coin(0.1) ? M3(M3::Zero()) : info();
}
struct ME {
  size_t from, to, id;
  V3 t;
  M3 inf;
};
struct World {
  G g;
  std::vector<V3> pose;
  std::vector<ME> e;
  std::vector<size_t> ord;
  void add(size_t f, size_t t, const V3 &tr)
  {
    M3 W = info();
    E x(&g.getNode(f), &g.getNode(t), tr, W);
    size_t id = g.addEdge(std::move(x));
    e.push_back(ME{ f, t, id, tr, W });
  }
  World(size_t n, double size)
  {
    for (size_t i = 0; i < n; ++i) {
      V3 p(H::uni(-size, size), H::uni(-size, size), H::uni(-3.1, 3.1));
      Frame f;
      f.tag = i;
      f.radius = H::uni(0, 5);
      f.c = Eigen::Vector2d(H::uni(-3, 3), H::uni(-3, 3));
      g.addNode(N(p, f));
      pose.push_back(p);
      ord.push_back(i);
    }
    if (H::coin(0.3))
      std::shuffle(ord.begin(), ord.end(), H::rng);
    // edges only lead forward in the order: no cycles, the longest walk is known
    for (size_t i = 1; i < n; ++i)
      if (H::coin(0.93))
        add(ord[i - 1], ord[i], V3(H::uni(0, size / 3), H::uni(-1, 1), H::uni(-1, 1)));
    size_t k = H::ri(0, n);
    for (size_t q = 0; q < k && n > 1; ++q) {
      size_t a = H::ri(0, n - 2), b = H::ri(a + 1, n - 1);
      add(ord[a], ord[b], V3(H::uni(-size, size), H::uni(-size, size), H::uni(-3, 3)));
    }
    if (e.size() && H::coin(0.3)) {
      size_t q = H::ri(0, e.size() - 1);
      g.removeEdge(e[q].id);
      e.erase(e.begin() + q);
    }
  }
  void same(const char *what)
  {
    H::check(g.edgeCount() == e.size() && g.nodeCount() == pose.size(), what, "counts");
    for (size_t i = 0; i < pose.size(); ++i) {
      N &n = g.getNode(i);
      H::check(n.getId() == i && n.getPose() == pose[i] && n.getDataObj().tag == i && !n.isVisited(), what, "node " + std::to_string(i));
      std::multiset<size_t> in, out, win, wout;
      for (auto x : n.getEdgesIn())
        in.insert(x->getId());
      for (auto x : n.getEdgesOut())
        out.insert(x->getId());
      for (auto &x : e) {
        if (x.to == i)
          win.insert(x.id);
        if (x.from == i)
          wout.insert(x.id);
      }
      H::check(in == win && out == wout, what, "edges of node " + std::to_string(i));
    }
    for (auto &x : e) {
      E &y = g.getEdge(x.id);
      H::check(y.getId() == x.id && y.getFrom() == &g.getNode(x.from) && y.getTo() == &g.getNode(x.to) && y.getTransform() == x.t &&
                   y.getInformationMatrix() == x.inf && !y.isUsed(),
               what, "edge " + std::to_string(x.id));
    }
  }
  std::string text()
  {
    std::string s;
    for (auto &p : pose)
      s += "node " + H::str(p) + " ";
    for (auto &x : e)
      s += "edge " + std::to_string(x.from) + "->" + std::to_string(x.to) + H::str(x.t) + " ";
    return s;
  }
};
struct Matcher : IScanmatcher2d<Frame> {
  World *w;
  size_t start;
  std::map<size_t, MatchResult> done;
  double rate;
  MatchResult match(const Frame &source, const Frame &target, const M3 &guess) override
  {
    H::check(target.tag == start, "the target of a match is the start");
    H::check(source.tag != start, "the source of a match is another node");
    H::check(!done.count(source.tag), "a node is matched at most once");
    double a = w->pose[source.tag](2) - w->pose[start](2);
    M3 want = M3::Identity();
    want.block<2, 2>(0, 0) << std::cos(a), -std::sin(a), std::sin(a), std::cos(a);
    H::nearm(guess, want, "the guess is the rotation between the poses");
    MatchResult r;
    r.success_ = H::coin(rate);
    r.inform_ = info();
    r.transform_ = tf(V3(H::real(), H::real(), H::angle()));
    done[source.tag] = r;
    return r;
  }
};
struct Quiet {
  std::streambuf *b;
  std::ostringstream o;
  Quiet() : b(std::cout.rdbuf(o.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(b); }
};
static void c24(double secs)
{
  H::loop(secs, 400, [] {
    size_t n = H::coin(0.15) ? H::ri(55, 70) : H::ri(1, 14);
    double size = H::uni(1, 20);
    World w(n, size);
    Matcher m;
    m.w = &w;
    m.start = H::coin(0.6) ? w.ord.back() : (size_t)H::ri(0, n - 1);
    m.rate = H::coin(0.3) ? 0 : 0.7;
    double mn = 20, mx = 15;
    D d(&w.g, &m);
    if (H::coin(0.8)) {
      mn = (float)H::uni(0, size);
      mx = (float)H::uni(0, 2 * size);
      d.setMinLoopDistance(mn);
      d.setMaxLoopDistance(mx);
    }
    H::note("search from " + std::to_string(m.start) + " min " + H::num(mn) + " max " + H::num(mx) + " " + w.text());
    for (int round = 0; round < 2; ++round) {
      m.done.clear();
      std::vector<C> r;
      {
        Quiet q;
        r = d.genLoopClosures(m.start);
      }
      w.same("the search leaves the graph as it was");
      // longest and shortest walk back
      std::vector<double> lo(n, 1e300), hi(n, -1);
      lo[m.start] = hi[m.start] = 0;
      for (size_t q = n; q-- > 0;) {
        size_t to = w.ord[q];
        if (hi[to] < 0)
          continue;
        for (auto &x : w.e)
          if (x.to == to) {
            double l = x.t.head<2>().norm();
            lo[x.from] = std::min(lo[x.from], lo[to] + l);
            hi[x.from] = std::max(hi[x.from], hi[to] + l);
          }
      }
      size_t good = 0;
      for (auto &x : m.done) {
        double dist = (w.pose[x.first] - w.pose[m.start]).head<2>().norm();
        std::string nm = "node " + std::to_string(x.first);
        H::check(dist < mx + 1e-9, "only nodes closer than max_dist are matched", nm);
        H::check(hi[x.first] >= 0, "only nodes that can be reached backwards are matched", nm);
        H::check(hi[x.first] > mn - 1e-9, "only nodes at the end of a walk of at least min_dist are matched", nm);
        good += x.second.success_;
      }
      H::check(m.done.size() <= 50, "at most 50 nodes are matched");
      if (m.done.size() < 50)
        for (size_t i = 0; i < n; ++i)
          if (i != m.start && hi[i] >= 0 && lo[i] > mn + 1e-9 && (w.pose[i] - w.pose[m.start]).head<2>().norm() < mx - 1e-9)
            H::check(m.done.count(i), "every near node that is only reached by long walks is matched", "node " + std::to_string(i));
      H::check(r.size() == good, "exactly the accepted matches are reported", std::to_string(r.size()) + " vs " + std::to_string(good));
      std::set<size_t> seen;
      for (auto &c : r) {
        H::check(c.vertices_.first == m.start, "a closure starts at the given node");
        H::check(m.done.count(c.vertices_.second) && m.done[c.vertices_.second].success_, "a closure ends at a node the matcher accepted");
        H::check(seen.insert(c.vertices_.second).second, "no node is reported twice");
        MatchResult &x = m.done[c.vertices_.second];
        H::check(c.information_ == x.inform_, "a closure carries the information of the match");
        H::check(c.t_.matrix() == x.transform_.matrix(), "a closure carries the transform of the match");
      }
    }
  });
}
static void c25(double secs)
{
  H::loop(secs, 1000, [] {
    size_t n = H::ri(2, 8);
    World w(n, 5);
    Matcher m;
    D d(&w.g, &m);
    std::vector<C> c;
    std::vector<V3> p;
    size_t k = H::ri(0, 6);
    std::string s;
    for (size_t i = 0; i < k; ++i) {
      size_t a = H::ri(0, n - 1), b = H::ri(0, n - 1);
      p.push_back(V3(H::real(), H::real(), H::angle()));
      c.push_back(C(a, b, info(), tf(p.back())));
      s += std::to_string(a) + "->" + std::to_string(b) + " ";
    }
    H::note("closures " + s + w.text());
    std::vector<size_t> ids = d.addToGraph(c);
    H::check(ids.size() == k, "one id for each closure");
    std::set<size_t> seen;
    for (auto &x : w.e)
      seen.insert(x.id);
    std::vector<ME> old = w.e;
    for (size_t i = 0; i < k; ++i) {
      H::check(seen.insert(ids[i]).second, "the ids of the closures are new");
      E &e = w.g.getEdge(ids[i]);
      H::check(e.getFrom() == &w.g.getNode(c[i].vertices_.first), "the edge starts at the first node");
      H::check(e.getTo() == &w.g.getNode(c[i].vertices_.second), "the edge ends at the second node");
      H::check(e.getType() == E::Type::LOOP, "the edge is a loop closure");
      H::check(e.getState() == E::State::TEMP, "the edge is temporary");
      H::check(e.getInformationMatrix() == c[i].information_, "the edge carries the information of the closure");
      H::near(e.getTransform()(0), p[i](0), "the edge carries the transform of the closure");
      H::near(e.getTransform()(1), p[i](1), "the edge carries the transform of the closure");
      H::near(std::cos(e.getTransform()(2)), std::cos(p[i](2)), "the edge carries the transform of the closure");
      H::near(std::sin(e.getTransform()(2)), std::sin(p[i](2)), "the edge carries the transform of the closure");
      w.e.push_back(ME{ c[i].vertices_.first, c[i].vertices_.second, ids[i], e.getTransform(), c[i].information_ });
    }
    w.same("adding closures keeps the rest of the graph");
    std::vector<size_t> gone;
    for (auto &x : w.e)
      if (H::coin(0.4))
        gone.push_back(x.id);
    if (H::coin(0.3))
      gone.push_back(H::ri(0, 30));
    if (gone.size() && H::coin(0.3))
      gone.push_back(gone[0]);
    std::shuffle(gone.begin(), gone.end(), H::rng);
    for (auto q : gone)
      H::more(" withdraw " + std::to_string(q));
    d.removeFromGraph(gone);
    w.e.erase(std::remove_if(w.e.begin(), w.e.end(), [&](const ME &x) { return std::count(gone.begin(), gone.end(), x.id); }), w.e.end());
    w.same("exactly the listed edges are withdrawn");
  });
}
static EC rec(double det = -1)
{
  EC e(H::ri(0, 9));
  e.node_id_ = H::ri(0, 99);
  e.cov_ = cov();
  e.t_ = tf(V3(H::real(), H::real(), H::angle()));
  e.distance_ = std::fabs(H::real());
  e.hop_ = H::ri(0, 9);
  return e;
}
static void c26(double secs)
{
  H::loop(secs, 2000, [] {
    EC a = rec(), b = rec();
    H::note("walk " + H::str(a.t_.matrix()) + H::str(a.cov_) + " step " + H::str(b.t_.matrix()) + H::str(b.cov_));
    size_t id = H::ri(0, 50);
    // the memory the record is built in is not clean
    alignas(32) unsigned char mem[sizeof(EC)];
    memset(mem, 0x5a, sizeof mem);
    EC *s = new (mem) EC(id);
    H::check(s->start_id_ == id && s->node_id_ == id && s->hop_ == 0, "a walk starts at the given node");
    H::check(s->distance_ == 0, "nothing is walked yet");
    H::check(s->cov_ == M3::Zero() && s->t_.matrix() == M3::Identity(), "no uncertainty and no motion yet");
    EC r = a + b;
    H::check(r.start_id_ == a.start_id_ && r.node_id_ == b.node_id_ && r.hop_ == a.hop_ + 1, "the walk keeps its start and leads to the node of the step");
    H::near(r.distance_, a.distance_ + b.distance_, "lengths add up");
    H::nearm(r.t_.matrix(), (a.t_ * b.t_).matrix(), "the transforms are chained");
    double c = a.t_(0, 0), si = a.t_(1, 0), tx = b.t_(0, 2), ty = b.t_(1, 2);
    M3 J1, J2;
    J1 << 1, 0, -si * tx - c * ty, 0, 1, c * tx - si * ty, 0, 0, 1;
    J2 << c, -si, 0, si, c, 0, 0, 0, 1;
    H::nearm(r.cov_, M3(J1 * a.cov_ * J1.transpose() + J2 * b.cov_ * J2.transpose()), "the covariance is propagated over the step");
    EC x = rec() + rec();
    double d0 = r.cov_.determinant(), d1 = x.cov_.determinant();
    if (std::fabs(d0 - d1) > 1e-6 * (1 + std::fabs(d0) + std::fabs(d1)))
      H::check((r < x) == (d0 < d1), "records are ordered by the determinant of their covariance");
    G g;
    Matcher m;
    D d(&g, &m);
    d.setMinLoopDistance(3);
    d.setMaxLoopDistance(2);
    M3 W = info();
    T2 t = tf(V3(1, 2, 0.5));
    C cl(3, 4, W, t);
    H::check(cl.vertices_.first == 3 && cl.vertices_.second == 4 && cl.information_ == W && cl.t_.matrix() == t.matrix(), "a closure keeps what it is made of");
  });
}
HARNESS_MAIN({ "C24", c24 }, { "C25", c25 }, { "C26", c26 })
