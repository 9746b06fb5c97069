#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
#include <ndt_gslam/slam_optimizer/loop_detector.h>
// Drivers: every contract is stated on a call of the real code made here.
namespace drv {
struct Frame {
  int tag_;
  double radius_;
  Eigen::Vector2d centroid_;
  double getRadius() const { return radius_; }
  Eigen::Vector2d getCentroid() const { return centroid_; }
};
typedef Slam2d_Policy P;
typedef slamuk::LoopDetector<P, Frame> D;
typedef slamuk::LoopClosure<P> C;
typedef slamuk::internal::EdgeCov EC;
typedef slamuk::Graph<P, Frame> G;
typedef slamuk::Node<P, Frame> N;
typedef slamuk::Edge<P, Frame> E;
std::vector<C> search(D &d, size_t id) { return d.genLoopClosures(id); }
std::vector<size_t> add(D &d, const std::vector<C> &c) { return d.addToGraph(c); }
void withdraw(D &d, const std::vector<size_t> &ids) { d.removeFromGraph(ids); }
void minDist(D &d, float x) { d.setMinLoopDistance(x); }
void maxDist(D &d, float x) { d.setMaxLoopDistance(x); }
D make(G &g, slamuk::IScanmatcher2d<Frame> &m) { return D(&g, &m); }
EC start(size_t id) { return EC(id); }
EC plus(const EC &a, const EC &b) { return a + b; }
bool less(const EC &a, const EC &b) { return a < b; }
C closure(size_t a, size_t b, const P::InformMatrix &i, const P::TransformMatrix &t) { return C(a, b, i, t); }
}
