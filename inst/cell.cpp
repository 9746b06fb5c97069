#include <vector>
#include <sstream>
#include <ndt/ndt_cell.cpp>
// Drivers: every contract is stated on a call of the real code made here.
namespace drv {
typedef slamuk::NDTCell N;
typedef Eigen::Vector3d P;
N fresh() { return N(); }
void merge(N &a, const N &b) { a += b; }
void compute(N &a) { a.computeGaussian(); }
void point(N &a, const P &p) { a.addPoint(p); }
void ray(N &a, const P &s, const P &e, size_t n) { a.updateOccupancy(s, e, n); }
void move(N &a, const N::Transform &t) { a.transform(t); }
slamuk::NDTCellMsg msg(const N &a) { return a.serialize(); }
int8_t scaled(const N &a) { return a.getOccupancy(); }
float raw(const N &a) { return a.getOccupancyRaw(); }
bool gaussian(const N &a) { return a.hasGaussian(); }
size_t points(const N &a) { return a.points(); }
P mean(const N &a) { return a.getMean(); }
P centroid(const N &a) { return a.getCentroid(); }
N::Matrix cov(const N &a) { return a.getCov(); }
N::Matrix icov(const N &a) { return a.getICov(); }
void setMean(N &a, const P &m) { a.setMean(m); }
void setCentroid(N &a, const P &m) { a.setCentroid(m); }
void setOccupancy(N &a, int8_t o) { a.setOccupancy(o); }
}
