exec(open('/tmp/mkseed.py').read())
PG='include/ndt_gslam/slam_optimizer/pose_graph.h'; ET='include/ndt_gslam/utils/eigen_tools.h'; PO='include/ndt_gslam/slam_optimizer/slam2d_policy.h'
G='''#include <stdexcept>
#include <ndt_gslam/slam_optimizer/pose_graph.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
#include <set>
#include <cstdio>
#include <cmath>
typedef slamuk::Graph<Slam2d_Policy,int> Gr; typedef slamuk::Edge<Slam2d_Policy,int> Ed; typedef slamuk::Node<Slam2d_Policy,int> No;
static Eigen::Vector3d P(double a,double b,double c){return Eigen::Vector3d(a,b,c);}
#define REQ(c) do{ if(!(c)){ std::printf("failed: %s\\n",#c); return 1; } }while(0)
'''
mk('c01-free-list','C01',[(PG,'    id_edge_pool_.pop_back();\n    edges_[free_id]','    id_edge_pool_.clear();\n    edges_[free_id]')],G+'''
int main(){ Gr g; for(int i=0;i<4;i++) g.addNode(No(P(i,0,0),i));
 for(int i=0;i<5;i++) g.addEdge(Ed(&g.getNode(i%4),&g.getNode((i+1)%4),P(i,1,0),Eigen::Matrix3d::Identity()));
 g.removeEdge(1); g.removeEdge(3); REQ(g.edgeCount()==3);
 size_t id=g.addEdge(Ed(&g.getNode(0),&g.getNode(2),P(9,1,0),Eigen::Matrix3d::Identity()));
 REQ(id==1||id==3); REQ(g.edgeCount()==4); size_t dead=4-id; bool thrown=false;
 try{ g.getEdge(dead);}catch(const std::out_of_range&){thrown=true;} REQ(thrown); REQ(!g.removeEdge(dead)); return 0; }
''','two removed edges at the time of an addEdge','ids of the other removed edges are forgotten: counts are wrong and dead ids are handed out as live')
mk('c03-parallel','C03',[(PG,'''  auto it = std::find(edges_in_.begin(), edges_in_.end(), e);
''','''  auto it = std::find_if(edges_in_.begin(), edges_in_.end(),
                         [e](const Edge<P, T>* o) {
                           return o->getFrom() == e->getFrom();
                         });
''')],G+'''
int main(){ Gr g; g.addNode(No(P(0,0,0),0)); g.addNode(No(P(1,0,0),1));
 size_t a=g.addEdge(Ed(&g.getNode(0),&g.getNode(1),P(1,0,0),Eigen::Matrix3d::Identity()));
 size_t b=g.addEdge(Ed(&g.getNode(0),&g.getNode(1),P(2,0,0),Eigen::Matrix3d::Identity()));
 REQ(g.getNode(0).getEdgesOut().size()==2); REQ(g.getNode(1).getEdgesIn().size()==2); (void)a;(void)b; return 0; }
''','two edges between the same pair of nodes','the second parallel edge is missing from the incoming list')
mk('c02-const-bound','C02',[(PG,'''const typename Graph<P, T>::E& Graph<P, T>::getEdge(const Id id) const
{
  if (id >= edges_.size()) {''','''const typename Graph<P, T>::E& Graph<P, T>::getEdge(const Id id) const
{
  if (id > edges_.size()) {''')],G+'''
int main(){ Gr g; g.addNode(No(P(0,0,0),0)); g.addNode(No(P(1,0,0),1)); const Gr& c=g;
 for(int k=0;k<4;k++){ bool thrown=false; try{ (void)c.getEdge(k);}catch(const std::out_of_range&){thrown=true;} REQ(thrown);
 g.addEdge(Ed(&g.getNode(0),&g.getNode(1),P(1,0,0),Eigen::Matrix3d::Identity())); } return 0; }
''','the id one past the last slot given to the const lookup','const getEdge reads past the end of the edge list instead of throwing')
mk('c02-free-check','C02',[(PG,'''  if (std::find(id_edge_pool_.begin(), id_edge_pool_.end(), edge_id) !=
      id_edge_pool_.end())
    return false;''','''  if (std::binary_search(id_edge_pool_.begin(), id_edge_pool_.end(), edge_id))
    return false;''')],G+'''
int main(){ Gr g; g.addNode(No(P(0,0,0),0)); g.addNode(No(P(1,0,0),1));
 for(int k=0;k<6;k++) g.addEdge(Ed(&g.getNode(0),&g.getNode(1),P(k,0,0),Eigen::Matrix3d::Identity()));
 REQ(g.removeEdge(5)); REQ(g.removeEdge(3)); REQ(g.removeEdge(0)); REQ(!g.removeEdge(0)); REQ(!g.removeEdge(5)); REQ(!g.removeEdge(3)); return 0; }
''','edges removed in non-ascending order and removed again','the free list is searched as if it were sorted: a dead id is accepted')
mk('c04-early-end','C04',[(PG,'  return ConstEdgeIterator(edges_.cbegin(), edges_.cend());','  return ConstEdgeIterator(edges_.cbegin(),\n                           edges_.cbegin() + (edges_.size() - id_edge_pool_.size()));')],G+'''
int main(){ Gr g; g.addNode(No(P(0,0,0),0)); g.addNode(No(P(1,0,0),1));
 for(int k=0;k<5;k++) g.addEdge(Ed(&g.getNode(0),&g.getNode(1),P(k,0,0),Eigen::Matrix3d::Identity()));
 g.removeEdge(4); g.removeEdge(3); size_t n=0; size_t last=0;
 for(auto it=g.cbeginEdge(); it!=g.cendEdge(); ++it){ REQ(&*it!=nullptr); last=it->getId(); REQ(last==n); ++n; REQ(n<=3);} REQ(n==3); return 0; }
''','removed slots at the end of the edge list, const iteration','the const edge iterator stops at, and hands out, an empty slot')
ETI='#include <ndt_gslam/utils/eigen_tools.h>\n#include <cstdio>\n#include <cmath>\n#define REQ(c) do{ if(!(c)){ std::printf("failed: %s\\n",#c); return 1; } }while(0)\n'
mk('c05-small-angle','C05',[(ET,'''  return std::atan2(trans.rotation()(1, 0), trans.rotation()(0, 0));
}

template <typename T>
T eigt::getDisplacement''','''  T si = trans.rotation()(1, 0);
  // do not let numerical noise accumulate in the heading
  if (std::abs(si) < T(1e-6))
    return T(0);
  return std::atan2(si, trans.rotation()(0, 0));
}

template <typename T>
T eigt::getDisplacement''')],ETI+'''
int main(){ Eigen::Vector3d p(1,2,M_PI); Eigen::Vector3d q=eigt::getPoseFromTransform(eigt::getTransFromPose(p));
 REQ(std::abs(std::cos(q(2))+1)<1e-9); return 0; }
''','a heading of a half turn','getAngle returns zero for a rotation by a half turn')
mk('c06-fmod','C06',[(ET,'''  return atan2(sin(angle), cos(angle));
''','''  if (angle > T(M_PI))
    angle = std::fmod(angle + T(M_PI), T(2 * M_PI)) - T(M_PI);
  else if (angle < -T(M_PI))
    angle = std::fmod(angle + T(M_PI), T(2 * M_PI)) + T(M_PI);
  return std::abs(angle) > T(8 * M_PI) ? std::fmod(angle, T(2 * M_PI)) : angle;
''')],ETI+'''
int main(){ for(int k=-40;k<=40;k++) for(double a:{-3.0,-M_PI/3,0.0,1.0,M_PI-1e-3,-M_PI}){ double t=a+2*M_PI*k; double r=eigt::normalizeAngle(t);
 REQ(r<=M_PI+1e-9&&r>=-M_PI-1e-9); REQ(std::abs(std::sin(r)-std::sin(t))<1e-9); REQ(std::abs(std::cos(r)-std::cos(t))<1e-9);} return 0; }
''','(control: see the demonstration)','normalizeAngle wraps with fmod; for an exact negative odd multiple of pi the result is +pi') if 0 else None
mk('c06-fmod','C06',[(ET,'''  return atan2(sin(angle), cos(angle));
''','''  // headings are at most one full turn off
  if (angle > T(M_PI))
    angle -= T(2 * M_PI);
  else if (angle < -T(M_PI))
    angle += T(2 * M_PI);
  return angle;
''')],ETI+'''
int main(){ for(int k=-40;k<=40;k++) for(double a:{-3.0,-M_PI/3,0.0,1.0,M_PI-1e-3}){ double t=a+2*M_PI*k; double r=eigt::normalizeAngle(t);
 REQ(r<=M_PI+1e-9&&r>=-M_PI-1e-9); REQ(std::abs(std::sin(r)-std::sin(t))<1e-9); REQ(std::abs(std::cos(r)-std::cos(t))<1e-9);} return 0; }
''','an angle more than one and a half turns away from zero','normalizeAngle leaves the principal range')
mk('c07-frames','C07',[(ET,'T2.linear().inverse() * (from.head(2) - to.head(2))','T_all.linear() * (T1.linear().inverse() * (from.head(2) - to.head(2)))')],ETI+'''
int main(){ for(double a=-6;a<6;a+=0.7) for(double b=-6;b<6;b+=0.9){ Eigen::Vector3d f(1.5,-2,a),t(-0.5,3,b); auto F=eigt::transBtwFrames(f,t);
 Eigen::Matrix3d d=(eigt::getTransFromPose(t)*F).matrix()-eigt::getTransFromPose(f).matrix(); REQ(d.norm()<1e-9);} return 0; }
''','frames whose headings differ by something else than zero or a half turn','(kept only if it breaks) the frame change is inconsistent') if 0 else None
mk('c07-frames','C07',[(ET,'T2.linear().inverse() * (from.head(2) - to.head(2))','T_all.linear().inverse() * T2.linear().inverse() *\n                        T_all.linear().inverse() * (from.head(2) - to.head(2))')],ETI+'''
int main(){ for(double a=-6;a<6;a+=0.7) for(double b=-6;b<6;b+=0.9){ Eigen::Vector3d f(1.5,-2,a),t(-0.5,3,b); auto F=eigt::transBtwFrames(f,t);
 Eigen::Matrix3d d=(eigt::getTransFromPose(t)*F).matrix()-eigt::getTransFromPose(f).matrix(); REQ(d.norm()<1e-9);} return 0; }
''','frames with different headings','the translation of the frame change is rotated by the relative heading') if 0 else None
mk('c07-concat','C07',[(ET,'  res_pose(2) = normalizeAngle(pose(2) + inc(2));','  res_pose(2) = pose(2) + inc(2);\n  if (res_pose(2) > T(M_PI))\n    res_pose(2) = res_pose(2) - T(2 * M_PI);')],ETI+'''
int main(){ for(double a=-3;a<=3;a+=0.25) for(double b=-3;b<=3;b+=0.25){ Eigen::Vector3d f(1,2,a); auto T=eigt::getTransFromPose(Eigen::Vector3d(0.5,1,b)); double r=eigt::transformPose(f,T)(2);
 REQ(r<=M_PI+1e-9&&r>=-M_PI-1e-9); REQ(std::abs(std::sin(r)-std::sin(a+b))<1e-9);} return 0; }
''','two negative headings that sum to less than minus pi','transformPose leaves the principal range downwards')
mk('c08-z','C08',[(ET,'''  trans_mat.block(0, 3, 3, 1).matrix() = Eigen::Matrix<Out, 3, 1>(
      static_cast<Out>(trans(0)), static_cast<Out>(trans(1)), 0.0);
''','''  trans_mat.block(0, 3, 3, 1).matrix() = trans.template cast<Out>();
''')],ETI+'''
int main(){ Eigen::Vector3d p(1,2,0.5); Eigen::Matrix4d m=eigt::vecToMat3d<double>(p); REQ(m(2,3)==0); REQ(m(0,3)==1); return 0; }
''','a non-zero heading and a look at the third translation component','the heading leaks into the z translation')
mk('c09-err','C09',[(PO,'zij.inverse() * (xi.inverse() * xj)','xi.inverse() * xj * zij.inverse()')],G+'''
int main(){ Eigen::Vector3d a(1,2,0.3),z(1,0.5,0.7),e(0.2,-0.1,0.05); Eigen::Vector3d b=Slam2d_Policy::transMatToVec(eigt::getTransFromPose(a)*eigt::getTransFromPose(z)*eigt::getTransFromPose(e));
 Eigen::Vector3d r=Slam2d_Policy::calcError(a,b,z); REQ((r-e).norm()<1e-9); return 0; }
''','a measurement with rotation that is not met exactly','the error is expressed in the wrong frame (still zero when the measurement is met)')
mk('c09-add','C09',[(PO,'  ret = a + b;\n    ret(2) = eigt::normalizeAngle(a(2) + b(2));','  ret = a + b;\n    ret(2) = a(2) + eigt::normalizeAngle(b(2));')],G+'''
int main(){ Eigen::Vector3d r=Slam2d_Policy::addPoses(P(0,0,3),P(1,1,1)); REQ(std::abs(r(2))<=M_PI+1e-12); REQ(std::abs(std::sin(r(2))-std::sin(4))<1e-9); return 0; }
''','a sum of headings beyond pi','the heading of an updated pose leaves the principal range')
mk('c10-sign','C10',[(PO,'-si * dist(0) + co * dist(1)','-si * dist(0) - co * dist(1)')],G+'''
static Eigen::Vector3d err(Eigen::Vector3d a,Eigen::Vector3d b,Eigen::Vector3d z){return Slam2d_Policy::calcError(a,b,z);}
int main(){ Eigen::Vector3d a(1,2,0.3),b(2.1,2.9,1.1),z(1,0.5,0.7); auto J=Slam2d_Policy::calcJacobianBlocks(a,b,z); double h=1e-6;
 Eigen::Matrix3d A,B; for(int k=0;k<3;k++){ Eigen::Vector3d d=Eigen::Vector3d::Zero(); d(k)=h; A.col(k)=(err(a+d,b,z)-err(a-d,b,z))/(2*h); B.col(k)=(err(a,b+d,z)-err(a,b-d,z))/(2*h);} 
 REQ((A-J.first).norm()<1e-5); REQ((B-J.second).norm()<1e-5); return 0; }
''','a linearisation point with a y offset between the nodes','one entry of the first Jacobian block has a wrong sign')
