// Drivers: every contract is stated on a call of the real code made here. The cell type is a
// value with operator += and operator =, which is all the grid asks of it.
#include <ndt_gslam/ndt/voxel_grid2d.h>
namespace slamuk {
struct VCell {
  double v;
  VCell() : v(0) {}
  VCell &operator+=(const VCell &o) { v += o.v; return *this; }
};
inline std::ostream &operator<<(std::ostream &os, const VCell &) { return os; }
template class VoxelGrid2D<VCell>;
}
namespace drv {
typedef slamuk::VoxelGrid2D<slamuk::VCell> G;
typedef slamuk::VCell C;
typedef Eigen::Vector2d P;
bool inside(const G &g, const P &p) { return g.isInside(p); }
bool exists(const G &g, const P &p) { return g.cellExists(p); }
C *ptr(const G &g, const P &p) { return g.getCellPtr(p); }
C *at(G &g, const P &p) { return &g[p]; }
std::pair<double, double> centroid(const G &g, const P &p) { return g.getCentroid(p); }
void add(G &g, const P &p, const C &c, bool m) { g.addCell(p, c, m); }
void addMove(G &g, const P &p, C &c, bool m) { g.addCell(p, std::move(c), m); }
bool remove(G &g, const P &p) { return g.removeCell(p); }
void enlarge(G &g, float a, float b, float c, float d) { g.enlarge(a, b, c, d); }
void translate(G &g, const Eigen::Vector2i &t, bool d) { g.translate(t, d); }
void clear(G &g) { g.clear(); }
G copy(const G &g) { return G(g); }
G fresh() { return G(); }
G clone(const G &g) { return g.clone(); }
void assign(G &g, const G &o) { g = o; }
std::vector<C *> neighbors(const G &g, const P &p, size_t r) { return g.getNeighbors(p, r); }
std::vector<C> valid(const G &g) { return g.getValidCells(); }
std::vector<C *> validPtr(const G &g) { return g.getValidCellsPtr(); }
std::vector<C *> ray(G &g, const P &a, const P &b) { return g.rayTrace(a, b); }
std::vector<C *> rayOrigin(G &g, const P &b) { return g.rayTrace(b); }
size_t count(const G &g) { return g.validCells(); }
void size(G &g, float s) { g.setCellSize(s); }
}
