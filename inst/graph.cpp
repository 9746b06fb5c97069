#include <algorithm>
#include <ndt_gslam/slam_optimizer/pose_graph.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
// Uses every member, so that the class templates are instantiated without repeating any signature.
namespace slamuk {
typedef Slam2d_Policy P;
typedef Graph<P, int *> G;
typedef Node<P, int *> N;
typedef Edge<P, int *> E;
template <typename It>
inline void iter_driver(It b, It e)
{
  It none;
  for (It i = b; i != e; ++i)
    (void)*i;
  for (It i = b; !(i == e); i++)
    (void)i.operator->();
}
inline void driver(G &g, const G &cg, N *a, N *b, const P::Pose &p, const P::InformMatrix &m, int *const &o)
{
  N n(p, o);
  N n0;
  G g0;
  E e(a, b, p, m);
  E e0;
  P::addPoses(p, p);
  P::transMatToVec(P::vecToTransMat(p));
  P::calcError(p, p, p);
  P::vecToTransMat(p);
  P::calcJacobianBlocks(p, p, p);
  g.addEdge(std::move(e));
  g.addNode(std::move(n));
  g.removeEdge(0);
  g.getEdge(0);
  cg.getEdge(0);
  g.getNode(0);
  cg.getNode(0);
  iter_driver(g.beginNode(), g.endNode());
  iter_driver(g.beginEdge(), g.endEdge());
  iter_driver(cg.cbeginNode(), cg.cendNode());
  iter_driver(cg.cbeginEdge(), cg.cendEdge());
  g.edgeCount();
  g.nodeCount();
  n.getPose();
  n.setPose(p);
  n.addToPose(p);
  n.addToPose(P::Pose(p));
  n.addEdgeOut(&e);
  n.addEdgeIn(&e);
  n.getEdgesIn();
  n.getEdgesOut();
  n.setId(0);
  n.getId();
  n.isVisited();
  n.setVisited(true);
  n.getDataObj();
  const_cast<const N &>(n).getDataObj();
  e.getFrom();
  e.getTo();
  e.setId(0);
  e.getId();
  e.getError();
  e.getInformationMatrix();
  e.getJacobianBlocks();
  e.getTransform();
  e.getTransMatrix();
  e.setState(E::ACTIVE);
  e.getState();
  e.setType(E::LOOP);
  e.getType();
  e.isUsed();
  e.setUsed(true);
}
}
