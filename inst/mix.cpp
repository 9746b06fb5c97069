#include <slam_optimizer/max_mixture/edge_se2_mixture.cpp>
#include <slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp>
// Drivers: every contract is stated on a call of the real code made here.
namespace drv {
typedef EdgeSE2Mixture A;
typedef EdgeSE2PointXYMixture B;
int freshA() { A m; return m.getBestComponent(); }
int freshB() { B m; return m.getBestComponent(); }
int emptyA() { A m; return m.numberComponents; }
int emptyB() { B m; return m.numberComponents; }
void initA(A &m, std::vector<g2o::EdgeSE2 *> &e, std::vector<double> &w) { m.initializeComponents(e, w); }
void initB(B &m, std::vector<g2o::EdgeSE2PointXY *> &e, std::vector<double> &w) { m.initializeComponents(e, w); }
void errorA(A &m) { m.computeError(); }
void errorB(B &m) { m.computeError(); }
void linearA(A &m) { m.linearizeOplus(); }
void linearB(B &m) { m.linearizeOplus(); }
void bestEdgeA(A &m) { m.computeBestEdge(); }
void bestEdgeB(B &m) { m.computeBestEdge(); }
void beliefA(A &m, int i) { m.UpdateBelief(i); }
void beliefB(B &m, int i) { m.UpdateBelief(i); }
int bestA(const A &m) { return m.getBestComponent(); }
int bestB(const B &m) { return m.getBestComponent(); }
g2o::EdgeSE2 *componentA(A &m, int i) { return m.getComponent(i); }
g2o::EdgeSE2PointXY *componentB(B &m, int i) { return m.getComponent(i); }
}
