#include <slam_optimizer/switchable_constraints/edge_se2Switchable.cpp>
#include <slam_optimizer/switchable_constraints/edge_switchPrior.cpp>
#include <slam_optimizer/switchable_constraints/vertex_switchLinear.cpp>
// Drivers: every contract is stated on a call of the real code made here.
namespace drv {
typedef EdgeSE2Switchable E;
typedef VertexSwitchLinear S;
typedef EdgeSwitchPrior P;
void measure(E &e, const g2o::SE2 &m) { e.setMeasurement(m); }
void error(E &e) { e.computeError(); }
void linear(E &e) { e.linearizeOplus(); }
void priorError(P &p) { p.computeError(); }
void priorLinear(P &p) { p.linearizeOplus(); }
void origin(S &s) { s.setToOrigin(); }
void set(S &s, double x) { s.setEstimate(x); }
void plus(S &s, const double *d) { s.oplus(d); }
void plusImpl(S &s, const double *d) { s.oplusImpl(d); }
double x(const S &s) { return s.x(); }
double est(const S &s) { return s.estimate(); }
double gradient(const S &s) { return s.gradient(); }
void push(S &s) { s.push(); }
void pop(S &s) { s.pop(); }
void writeEdge(const E &e, std::ostream &o) { e.write(o); }
void readEdge(E &e, std::istream &i) { e.read(i); }
void writeSwitch(const S &e, std::ostream &o) { e.write(o); }
void readSwitch(S &e, std::istream &i) { e.read(i); }
void writePrior(const P &e, std::ostream &o) { e.write(o); }
void readPrior(P &e, std::istream &i) { e.read(i); }
g2o::SE2 prod(const g2o::SE2 &a, const g2o::SE2 &b) { return a * b; }
}
