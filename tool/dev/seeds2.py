exec(open('/tmp/mkseed.py').read())
PG='include/ndt_gslam/slam_optimizer/pose_graph.h'; ET='include/ndt_gslam/utils/eigen_tools.h'; PO='include/ndt_gslam/slam_optimizer/slam2d_policy.h'
G='''#include <stdexcept>
#include <ndt_gslam/slam_optimizer/pose_graph.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
#include <set>
#include <cstdio>
#include <cmath>
typedef slamuk::Graph<Slam2d_Policy,int> Gr; typedef slamuk::Edge<Slam2d_Policy,int> Ed; typedef slamuk::Node<Slam2d_Policy,int> No;
static Eigen::Vector3d P(double a,double b,double c){return Eigen::Vector3d(a,b,c);}
#define REQ(c) do{ if(!(c)){ std::printf("failed: %s\\n",#c); return 1; } }while(0)
'''
ETI='#include <ndt_gslam/utils/eigen_tools.h>\n#include <cstdio>\n#include <cmath>\n#define REQ(c) do{ if(!(c)){ std::printf("failed: %s\\n",#c); return 1; } }while(0)\n'

mk('c01-reuse-id','C01',[(PG,'''    id = edge_id;
''','''    edges_.back()->setId(edge_id);
    id = edge_id;
'''),(PG,'  edges_[id]->setId(id);\n','')],G+'''
int main(){ Gr g; for(int i=0;i<4;i++) g.addNode(No(P(i,0,0),i));
 for(int i=0;i<5;i++) g.addEdge(Ed(&g.getNode(i%4),&g.getNode((i+1)%4),P(i,1,0),Eigen::Matrix3d::Identity()));
 g.removeEdge(3); size_t id=g.addEdge(Ed(&g.getNode(0),&g.getNode(2),P(9,1,0),Eigen::Matrix3d::Identity()));
 REQ(id==3); REQ(g.getEdge(3).getId()==3); return 0; }
''','an edge added into a slot freed earlier','an edge stored in a reused slot does not know its id')
mk('c01-free-list','C01',[(PG,'''    size_t free_id = id_edge_pool_.back();
    id_edge_pool_.pop_back();
''','''    // lowest free id first
    auto lowest = std::min_element(id_edge_pool_.begin(), id_edge_pool_.end());
    size_t free_id = *lowest;
    std::swap(id_edge_pool_.front(), *lowest);
    id_edge_pool_.pop_back();
''')],G+'''
int main(){ Gr g; for(int i=0;i<4;i++) g.addNode(No(P(i,0,0),i));
 for(int i=0;i<6;i++) g.addEdge(Ed(&g.getNode(i%4),&g.getNode((i+1)%4),P(i,1,0),Eigen::Matrix3d::Identity()));
 g.removeEdge(1); g.removeEdge(3); g.removeEdge(4);
 std::set<size_t> ids; for(int k=0;k<4;k++) REQ(ids.insert(g.addEdge(Ed(&g.getNode(0),&g.getNode(2),P(9,k,0),Eigen::Matrix3d::Identity()))).second); return 0; }
''','three or more removed edges before new ones are added','the free list keeps an id that was handed out, so a live edge is overwritten')
mk('c04-cend','C04',[(PG,'  return ConstEdgeIterator(edges_.cend(), edges_.cend());','''  // nothing live behind the last used slot
  auto last = edges_.cend();
  while (last != edges_.cbegin() && *(last - 1) == nullptr) {
    --last;
  }
  return ConstEdgeIterator(last, last);''')],G+'''
int main(){ Gr g; g.addNode(No(P(0,0,0),0)); g.addNode(No(P(1,0,0),1));
 for(int k=0;k<5;k++) g.addEdge(Ed(&g.getNode(0),&g.getNode(1),P(k,0,0),Eigen::Matrix3d::Identity()));
 g.removeEdge(4); g.removeEdge(1); int n=0; for(auto it=g.cbeginEdge(); it!=g.cendEdge(); ++it){ ++n; REQ(n<=3); } REQ(n==3); return 0; }
''','a removed slot at the end of the edge list, const iteration','const iteration runs past its end')
mk('c05-small-angle','C05',[(ET,'''template <typename T>
T eigt::getDisplacement(const transform2d_t<T> &trans)
{
  return std::sqrt(std::pow(trans.matrix()(0, 2), 2.0) +
                   std::pow(trans.matrix()(1, 2), 2.0));''','''template <typename T>
T eigt::getDisplacement(const transform2d_t<T> &trans)
{
  Eigen::Matrix<T, 2, 1> t = trans.inverse().translation();
  return std::sqrt(std::pow(t(0), 2.0) + std::pow(trans.matrix()(1, 2), 2.0));''')],ETI+'''
int main(){ Eigen::Vector3d p(1,2,0.4); REQ(std::abs(eigt::getDisplacement(eigt::getTransFromPose(p))-std::sqrt(5.0))<1e-9); return 0; }
''','a transform with rotation and translation','getDisplacement mixes components of the transform and of its inverse')
mk('c05-heading','C05',[(ET,'''  pose(2) = eigt::getAngle(trans);
''','''  pose(2) = eigt::getAngle(trans);
  // half turn has two representations, use the negative one
  if (pose(2) > T(3.14))
    pose(2) = -pose(2);
''')],ETI+'''
int main(){ Eigen::Vector3d p(1,2,3.141); Eigen::Vector3d q=eigt::getPoseFromTransform(eigt::getTransFromPose(p)); REQ(std::abs(std::sin(q(2)-p(2)))<1e-9); return 0; }
''','a heading just below a half turn','the heading is mirrored for angles in (3.14, pi)')
mk('c07-frames','C07',[(ET,'T_all.translation() = T2.linear().inverse() * (from.head(2) - to.head(2));','T_all.translation() = T_all.linear() * T1.linear().inverse() *\n                        T2.linear().inverse() * T2.linear() *\n                        (from.head(2) - to.head(2));\n  if (from(2) > to(2))\n    T_all.translation() = T2.linear() * (from.head(2) - to.head(2));')],ETI+'''
int main(){ for(double a=-6;a<6;a+=0.7) for(double b=-6;b<6;b+=0.9){ Eigen::Vector3d f(1.5,-2,a),t(-0.5,3,b); auto F=eigt::transBtwFrames(f,t);
 Eigen::Matrix3d d=(eigt::getTransFromPose(t)*F).matrix()-eigt::getTransFromPose(f).matrix(); REQ(d.norm()<1e-9);} return 0; }
''','from heading larger than to heading','the translation of the frame change is rotated the wrong way')
