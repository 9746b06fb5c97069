// Voxel grid against a map from integer cell coordinates to values.
#include <ndt_gslam/ndt/voxel_grid2d.h>
#include "h.h"
struct Cell {
  double v;
  Cell() : v(0) {}
  explicit Cell(double x) : v(x) {}
  Cell &operator+=(const Cell &o)
  {
    v += o.v;
    return *this;
  }
};
typedef slamuk::VoxelGrid2D<Cell> G;
typedef Eigen::Vector2d P;
typedef std::pair<long, long> K;
struct Model {
  double cs = 0.25;
  long l = 0, r = 0, u = 0, d = 0;
  std::map<K, double> c;
  Model() { c[K(0, 0)] = 0; }
  K key(const P &p) const
  {
    return K((long)std::floor((p(0) + cs / 2) / cs), -(long)std::floor((-p(1) + cs / 2) / cs));
  }
  bool inside(K k) const { return k.first >= -l && k.first <= r && k.second >= -d && k.second <= u; }
  void fit(K k)
  {
    l = std::max(l, -k.first);
    r = std::max(r, k.first);
    d = std::max(d, -k.second);
    u = std::max(u, k.second);
  }
};
static bool exact(double cs) { return cs == 0.25 || cs == 0.5 || cs == 1 || cs == 2; }
static double coord(double cs, double lim)
{
  // a cell number, plus an offset; exactly on a border only where that is exact
  long k = H::ri(-(long)lim, (long)lim);
  double u = H::u01();
  double off = u < 0.3 ? 0 : u < 0.5 && exact(cs) ? (H::coin() ? 0.5 : -0.5) : H::uni(-0.499, 0.499);
  return (k + off) * cs;
}
static P point(double cs, double lim = 6)
{
  double a = coord(cs, lim), b = coord(cs, lim);
  return P(a, b);
}
static std::string ps(const P &p) { return "(" + H::num(p(0)) + "," + H::num(p(1)) + ")"; }
static P centre(const Model &m, K k) { return P(k.first * m.cs, k.second * m.cs); }
// every observable of the grid agrees with the model
static void same(G &g, const Model &m, const char *n)
{
  std::string N(n);
  H::check((long)g.left() == m.l && (long)g.right() == m.r && (long)g.up() == m.u && (long)g.down() == m.d, n,
           "extents: got l" + std::to_string(g.left()) + " r" + std::to_string(g.right()) + " u" + std::to_string(g.up()) + " d" + std::to_string(g.down()) + ", expected l" +
               std::to_string(m.l) + " r" + std::to_string(m.r) + " u" + std::to_string(m.u) + " d" + std::to_string(m.d));
  H::check((long)g.width() == m.l + m.r + 1 && (long)g.height() == m.u + m.d + 1, n, "width and height");
  size_t slots = g.end() - g.begin();
  H::check((long)slots == (m.l + m.r + 1) * (m.u + m.d + 1), n, "number of slots");
  std::set<Cell *> seen;
  std::vector<double> order;
  size_t at = 0;
  for (long y = m.u; y >= -m.d; --y)
    for (long x = -m.l; x <= m.r; ++x, ++at) {
      P p = centre(m, K(x, y));
      auto it = m.c.find(K(x, y));
      std::string w = "cell " + std::to_string(x) + "," + std::to_string(y);
      H::check(g.isInside(p), n, w + " is inside");
      H::check(g.cellExists(p) == (it != m.c.end()), n, w + " exists: got " + (g.cellExists(p) ? "true" : "false"));
      Cell *q = g.getCellPtr(p);
      H::check((q != nullptr) == (it != m.c.end()), n, w + " pointer");
      H::check((g.begin() + at)->get() == q, n, w + " is at its place in the iteration");
      if (q) {
        H::check(seen.insert(q).second, n, w + " shares its storage");
        H::near(q->v, it->second, n);
        H::near(g[p].v, it->second, n);
        order.push_back(it->second);
      }
    }
  H::check(g.validCells() == m.c.size(), n, "validCells: got " + std::to_string(g.validCells()) + ", expected " + std::to_string(m.c.size()));
  auto v = g.getValidCells();
  auto vp = g.getValidCellsPtr();
  H::check(v.size() == order.size() && vp.size() == order.size(), n, "number of listed cells");
  for (size_t i = 0; i < order.size(); ++i) {
    H::near(v[i].v, order[i], n);
    H::near(vp[i]->v, order[i], n);
  }
  size_t k = 0;
  for (auto it = g.cbegin(); it != g.cend(); ++it)
    k += it->get() != nullptr;
  H::check(k == order.size(), n, "iteration");
}
static double size1()
{
  static const double s[] = { 0.25, 0.5, 1, 2, 0.25, (double)0.1f, (double)0.3f };
  return s[H::ri(0, 6)];
}
static void make(G &g, Model &m, int n, double lim = 5)
{
  m.cs = size1();
  g.setCellSize((float)m.cs);
  H::more(" size=" + H::num(m.cs) + " add:");
  for (int i = 0; i < n; ++i) {
    P p = point(m.cs, lim);
    double v = H::ri(-20, 20);
    bool mg = H::coin();
    H::more(ps(p) + "=" + H::num(v) + (mg ? "m " : "s "));
    if (H::coin())
      g.addCell(p, Cell(v), mg);
    else {
      const Cell c(v);
      g.addCell(p, c, mg);
    }
    K k = m.key(p);
    m.fit(k);
    if (m.c.count(k) && mg)
      m.c[k] += v;
    else
      m.c[k] = v;
  }
}
static void c13(double s)
{
  H::loop(s, 300, [] {
    G g;
    Model m;
    H::note("");
    make(g, m, H::ri(0, 8));
    for (int i = 0; i < 30; ++i) {
      P p = point(m.cs, 7);
      K k = m.key(p);
      H::more(" query " + ps(p));
      H::check(g.isInside(p) == m.inside(k), "isInside is true exactly for the points of the grid's cells");
      if (!m.inside(k)) {
        H::check(!g.cellExists(p), "no cell exists outside");
        continue;
      }
      auto it = m.c.find(k);
      H::check(g.cellExists(p) == (it != m.c.end()), "cellExists");
      Cell *q = g.getCellPtr(p);
      size_t at = (size_t)((m.u - k.second) * (m.l + m.r + 1) + k.first + m.l);
      H::check((g.begin() + at)->get() == q, "a point is looked up in the cell that contains it");
      auto ce = g.getCentroid(p);
      H::near(ce.first, k.first * m.cs, "centroid x");
      H::near(ce.second, k.second * m.cs, "centroid y");
    }
    // points next to the border of the grid: inside implies a slot of the grid
    for (int i = 0; i < 8; ++i) {
      double x = (H::coin() ? m.r + 0.5 : -m.l - 0.5) * m.cs, y = (H::coin() ? m.u + 0.5 : -m.d - 0.5) * m.cs;
      P p = H::coin() ? P(x, H::uni(-m.d, m.u) * m.cs) : P(H::uni(-m.l, m.r) * m.cs, y);
      for (int j = 0; j < 2; ++j)
        for (int n = H::ri(-3, 3); n; n += n > 0 ? -1 : 1)
          p(j) = std::nextafter(p(j), n > 0 ? 1e9 : -1e9);
      H::more(" border " + ps(p));
      if (!g.isInside(p))
        continue;
      Cell *q = g.getCellPtr(p);
      size_t n = 0;
      for (auto &c : g)
        n += c.get() == q;
      H::check(n >= 1, "a point inside is looked up in a slot of the grid");
      auto ce = g.getCentroid(p);
      double lim = m.cs * 0.5001;
      H::check(std::fabs(ce.first - p(0)) <= lim && std::fabs(ce.second - p(1)) <= lim, "a point is looked up in the cell that contains it");
    }
  });
}
static void c14(double s)
{
  H::loop(s, 300, [] {
    G g;
    Model m;
    H::note("");
    make(g, m, H::ri(0, 8));
    for (int i = 0; i < 4; ++i) {
      if (H::coin(0.7)) {
        float a[4];
        for (int j = 0; j < 4; ++j)
          a[j] = (float)coord(m.cs, 8);
        if (!exact(m.cs)) {
          for (int j = 0; j < 4; ++j)
            a[j] = (float)((H::ri(-8, 8) + H::uni(-0.4, 0.4)) * m.cs);
        }
        H::more(" enlarge(" + H::num(a[0]) + "," + H::num(a[1]) + "," + H::num(a[2]) + "," + H::num(a[3]) + ")");
        g.enlarge(a[0], a[1], a[2], a[3]);
        K k1 = m.key(P(a[0], a[1])), k2 = m.key(P(a[2], a[3]));
        m.l = std::max(m.l, -k1.first);
        m.d = std::max(m.d, -k1.second);
        m.r = std::max(m.r, k2.first);
        m.u = std::max(m.u, k2.second);
      } else {
        P p = point(m.cs, 9);
        H::more(" add" + ps(p));
        g.addCell(p, Cell(3), false);
        m.fit(m.key(p));
        m.c[m.key(p)] = 3;
      }
      same(g, m, "enlarging keeps every cell at its place");
    }
  });
}
static void c15(double s)
{
  H::loop(s, 300, [] {
    G g;
    Model m;
    H::note("");
    make(g, m, H::ri(0, 10), 3);
    for (int i = 0; i < 3; ++i) {
      long dx = H::ri(-4, 4), dy = H::ri(-4, 4);
      if (H::coin(0.1))
        dx *= 4;
      if (H::coin(0.1))
        dy *= 4;
      if (H::coin(0.2))
        dx = 0;
      if (H::coin(0.2))
        dy = 0;
      bool disc = H::coin(0.6);
      H::more(" translate(" + std::to_string(dx) + "," + std::to_string(dy) + (disc ? ",discard)" : ",keep)"));
      g.translate(Eigen::Vector2i(dx, dy), disc);
      if (!disc) {
        m.l += std::max(0L, -dx);
        m.r += std::max(0L, dx);
        m.u += std::max(0L, dy);
        m.d += std::max(0L, -dy);
      }
      std::map<K, double> c;
      for (auto &e : m.c) {
        K k(e.first.first + dx, e.first.second + dy);
        if (m.inside(k))
          c[k] = e.second;
      }
      m.c = c;
      same(g, m, "translate moves every cell by the given number of cells");
    }
  });
}
static void c16(double s)
{
  H::loop(s, 300, [] {
    G g;
    Model m;
    H::note("");
    make(g, m, H::ri(0, 6), 4);
    for (int i = 0; i < 8; ++i) {
      int op = H::ri(0, 9);
      if (op < 4) {
        P p = point(m.cs, 5);
        K k = m.key(p);
        double v = H::ri(1, 99);
        bool mg = H::coin();
        H::more(" add" + ps(p) + "=" + H::num(v) + (mg ? "m" : "s"));
        g.addCell(p, Cell(v), mg);
        m.fit(k);
        if (mg && m.c.count(k))
          m.c[k] += v;
        else
          m.c[k] = v;
      } else if (op < 6) {
        P p = point(m.cs, 5);
        K k = m.key(p);
        H::more(" remove" + ps(p));
        bool in = m.inside(k);
        if (in)
          H::check(g.removeCell(p), "removeCell succeeds inside the grid");
        else
          H::check(!g.removeCell(p), "removeCell fails outside the grid");
        m.c.erase(k);
      } else if (op == 6) {
        H::more(" copy");
        G h(g);
        same(h, m, "a copy equals the original");
        G e;
        e.addCell(P(40, 40), Cell(1), false);
        e = g;
        same(e, m, "an assigned grid equals the original");
        h.addCell(P(0, 0), Cell(12345), false);
        h.addCell(P(20, 20), Cell(12345), false);
        same(g, m, "changing a copy leaves the original alone");
        H::near(h.getCellSize(), m.cs, "cell size of a copy");
        G mv(std::move(e));
        same(mv, m, "a moved grid has the contents");
      } else if (op == 7 && H::coin(0.4)) {
        H::more(" clear");
        g.clear();
        m.c.clear();
      } else if (op == 8) {
        G h = g.clone();
        Model e;
        e.cs = m.cs;
        same(h, e, "clone is an empty grid of the same cell size");
        H::near(h.getCellSize(), m.cs, "cell size of a clone");
      }
      same(g, m, "add, remove, clear act on one cell only");
    }
  });
}
static void c17(double s)
{
  H::loop(s, 300, [] {
    G g;
    Model m;
    H::note("");
    make(g, m, H::ri(0, 25), 4);
    for (int i = 0; i < 10; ++i) {
      P p = point(m.cs, 6);
      K k = m.key(p);
      size_t rad = H::coin(0.1) ? 1000 : H::ri(0, 5);
      H::more(" neighbors" + ps(p) + "," + std::to_string(rad));
      auto v = g.getNeighbors(p, rad);
      std::vector<double> want;
      std::vector<Cell *> wp;
      if (m.inside(k))
        for (long y = m.u; y >= -m.d; --y)
          for (long x = -m.l; x <= m.r; ++x)
            if (m.c.count(K(x, y)) && std::labs(x - k.first) <= (long)rad && std::labs(y - k.second) <= (long)rad) {
              want.push_back(m.c[K(x, y)]);
              wp.push_back(g.getCellPtr(centre(m, K(x, y))));
            }
      H::check(v.size() == want.size(), "getNeighbors returns the cells of the window", "got " + std::to_string(v.size()) + ", expected " + std::to_string(want.size()));
      for (size_t j = 0; j < want.size(); ++j)
        H::check(v[j] == wp[j] && v[j]->v == want[j], "getNeighbors lists exactly the cells of the window, once each, in row order");
    }
    same(g, m, "a query changes nothing");
  });
}
static void c18(double s)
{
  H::loop(s, 300, [] {
    G g;
    Model m;
    H::note("");
    make(g, m, H::ri(0, 10), 6);
    for (int q = 0; q < 4; ++q) {
      P a = point(m.cs, 6), b = point(m.cs, 10);
      if (H::coin(0.15))
        b = a;
      else if (H::coin(0.15))
        b = a + P(H::uni(-0.9, 0.9), H::uni(-0.9, 0.9)) * m.cs;
      else if (H::coin(0.15))
        b(H::ri(0, 1)) = a(0);
      if (H::coin(0.2))
        a = P(0, 0);
      bool org = a == P(0, 0) && H::coin();
      H::more(" ray" + ps(a) + ps(b));
      size_t before = g.validCells();
      auto v = org ? g.rayTrace(b) : g.rayTrace(a, b);
      K ka = m.key(a);
      if (!m.inside(ka)) {
        H::check(v.empty(), "a ray from outside is empty");
        H::check(g.validCells() == before, "a ray from outside creates nothing");
        continue;
      }
      H::check(!v.empty(), "a ray from inside contains the start");
      // position of every returned cell
      std::map<Cell *, K> pos;
      std::vector<K> path;
      for (long y = m.u; y >= -m.d; --y)
        for (long x = -m.l; x <= m.r; ++x) {
          Cell *c = g.getCellPtr(centre(m, K(x, y)));
          if (c)
            pos[c] = K(x, y);
        }
      for (Cell *c : v) {
        H::check(c != nullptr && pos.count(c), "a ray returns cells of the grid");
        path.push_back(pos[c]);
      }
      H::check(path[0] == ka, "the first cell of a ray is the one of its start");
      double tprev = -1;
      const double eps = 1e-9;
      for (size_t i = 0; i < path.size(); ++i) {
        // interval of the segment a + t (b - a) inside the cell
        double t0 = 0, t1 = 1;
        P d = b - a;
        for (int ax = 0; ax < 2; ++ax) {
          double lo = ((ax ? path[i].second : path[i].first) - 0.5) * m.cs, hi = lo + m.cs;
          if (std::fabs(d(ax)) < 1e-15) {
            H::check(a(ax) >= lo - eps && a(ax) <= hi + eps, "a ray returns only cells the segment passes");
            continue;
          }
          double u0 = (lo - a(ax)) / d(ax), u1 = (hi - a(ax)) / d(ax);
          if (u0 > u1)
            std::swap(u0, u1);
          t0 = std::max(t0, u0);
          t1 = std::min(t1, u1);
        }
        H::check(t0 <= t1 + eps, "a ray returns only cells the segment passes", "cell " + std::to_string(path[i].first) + "," + std::to_string(path[i].second));
        H::check(t1 >= tprev - eps, "the cells are in the order of the ray");
        tprev = std::max(tprev, t0);
        if (i)
          H::check(path[i] != path[i - 1], "consecutive cells of a ray differ");
      }
      // half-cell samples up to less than two cells before the end
      P d = b - a;
      double L = std::max(std::fabs(d(0)), std::fabs(d(1))) / m.cs;
      if (L > 0) {
        P st = d / L * 0.5;
        std::set<K> in(path.begin(), path.end());
        double fl = std::floor(L);
        if (std::fabs(L - std::round(L)) < 1e-9)
          fl = std::round(L) - 1;
        for (long k = 0; k <= 2 * (long)fl - 2; ++k) {
          P p = a + st * k;
          K kk = m.key(p);
          double fx = (p(0) + m.cs / 2) / m.cs, fy = (-p(1) + m.cs / 2) / m.cs;
          bool edge = std::fabs(fx - std::round(fx)) < 1e-6 || std::fabs(fy - std::round(fy)) < 1e-6;
          if (!m.inside(kk) || edge)
            break;
          H::check(in.count(kk), "a ray visits the cells on its way", "sample " + std::to_string(k) + " in cell " + std::to_string(kk.first) + "," + std::to_string(kk.second));
        }
      }
      for (K k : path)
        m.c.insert(std::make_pair(k, 0.0));
      same(g, m, "a ray creates the missing cells on its way and changes nothing else");
    }
  });
}
HARNESS_MAIN({ "C13", c13 }, { "C14", c14 }, { "C15", c15 }, { "C16", c16 }, { "C17", c17 }, { "C18", c18 })
