exec(open('/verif/tool/dev/mkseed.py').read())
import shutil
L='include/ndt_gslam/slam_optimizer/loop_detector.h'
PRE='''#include <algorithm>
#include <iostream>
#include <memory>
#include <numeric>
#include <set>
#include <cstdio>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
#include <ndt_gslam/slam_optimizer/loop_detector.h>
#define REQ(c) do{ if(!(c)){ std::printf("failed: %s\\n",#c); return 1; } }while(0)
using namespace slamuk;
typedef Slam2d_Policy P;
struct Frame { size_t tag = 0; double getRadius() const { return 1; } Eigen::Vector2d getCentroid() const { return Eigen::Vector2d(0.1, 0.2); } };
namespace slamuk { template <> void IScanmatcher2d<Frame>::setScoreThreshold(float) {} }
typedef Graph<P, Frame> G;
typedef Node<P, Frame> N;
typedef Edge<P, Frame> E;
typedef Eigen::Vector3d V3;
typedef internal::EdgeCov EC;
struct D : LoopDetector<P, Frame> { using LoopDetector<P, Frame>::LoopDetector; using LoopDetector<P, Frame>::min_dist_; using LoopDetector<P, Frame>::max_dist_; };
static void quiet() { std::cout.setstate(std::ios::failbit); }
static size_t node(G &g, double x, double y, double a) { Frame f; f.tag = g.nodeCount(); N n(V3(x, y, a), f); return g.addNode(std::move(n)); }
static size_t edge(G &g, size_t a, size_t b, double len) { E e(&g.getNode(a), &g.getNode(b), V3(len, 0, 0.1), Eigen::Matrix3d::Identity()); return g.addEdge(std::move(e)); }
'''
# matcher: record calls, accept all or none
PRE+='''struct M : IScanmatcher2d<Frame> {
  bool ok = true; std::vector<std::pair<size_t, size_t>> calls; std::vector<Eigen::Matrix3d> guess;
  MatchResult match(const Frame &s, const Frame &t, const Eigen::Matrix3d &g) override { calls.push_back({ s.tag, t.tag }); guess.push_back(g); MatchResult r; r.success_ = ok; r.inform_ = Eigen::Matrix3d::Identity() * (1.0 + s.tag); r.transform_.setIdentity(); return r; }
  void setScoreThreshold(float) override {}
};
'''
PRE=PRE.replace('namespace slamuk { template <> void IScanmatcher2d<Frame>::setScoreThreshold(float) {} }\n','@@')

PRE=PRE.replace('@@','namespace slamuk { template <> void IScanmatcher2d<Frame>::setScoreThreshold(float) {} }\n')
def st(id):
    d='/verif/seeded/'+id+'/stubs'; os.makedirs('/verif/seeded/'+id,exist_ok=True)
    subprocess.run(['rm','-rf',d]); shutil.copytree('/verif/stubs',d)
only=sys.argv[1:]
def k(id,prop,edits,demo,needs,breaks):
    if only and id not in only: return
    st(id); mk(id,prop,edits,PRE+demo,needs,breaks,stubs=True)
k('c24-loopused','C24',[(L,'[](Edge &e) { e.setUsed(false); }','[](Edge &e) { if (e.getType() != Edge::Type::LOOP) e.setUsed(false); }')],'''
int main(){ quiet(); G g; for(int i=0;i<4;++i) node(g,i,0,0.1*i); edge(g,0,1,10); edge(g,1,2,10); edge(g,2,3,10); M m; D d(&g,&m);
 std::vector<LoopClosure<P>> c=d.genLoopClosures(3); REQ(c.size()==2); auto ids=d.addToGraph({LoopClosure<P>(0,2,Eigen::Matrix3d::Identity(),c[0].t_)}); for(auto i:ids) REQ(!g.getEdge(i).isUsed());
 d.genLoopClosures(3); for(auto i:ids) REQ(!g.getEdge(i).isUsed()); REQ(d.genLoopClosures(3).size()>=1); return 0; }
''','two searches with a loop edge in between','loop edges stay marked used and are ignored by later searches')
k('c24-guess','C24',[(L,'''      auto guess_trans = eigt::getTransFromPose(target_n.getPose()).inverse() *
                         eigt::getTransFromPose(source_n.getPose());''','''      auto guess_trans = eigt::getTransFromPose(source_n.getPose()).inverse() *
                         eigt::getTransFromPose(target_n.getPose());''')],'''
int main(){ quiet(); G g; node(g,0,0,0.2); node(g,1,0,0.9); node(g,2,0,1.4); edge(g,0,1,12); edge(g,1,2,12); M m; D d(&g,&m); d.genLoopClosures(2); REQ(m.calls.size()==1); REQ(m.calls[0].first==0&&m.calls[0].second==2);
 double a=std::atan2(m.guess[0](1,0),m.guess[0](0,0)); REQ(std::abs(a-(0.2-1.4))<1e-9); return 0; }
''','poses with different headings','the matcher is given the inverse rotation as guess')
k('c24-heading','C24',[(L,'(target_n.getPose().head(2) - source_n.getPose().head(2)).norm();','(target_n.getPose() - source_n.getPose()).norm();')],'''
int main(){ quiet(); G g; node(g,14.8,0,-2.9); node(g,5,0,0); node(g,0,0,2.9); edge(g,0,1,12); edge(g,1,2,12); M m; D d(&g,&m); REQ(d.genLoopClosures(2).size()==1); return 0; }
''','a node just inside of the maximum distance with another heading','the heading counts as distance')
k('c24-depth','C24',[(L,'      ++depth;\n',''),(L,'''      if (res.success_) {
''','''      if (res.success_) {
        ++depth;
''')],'''
int main(){ quiet(); G g; for(int i=0;i<80;++i) node(g,0.01*i,0,0); for(int i=0;i+1<80;++i) edge(g,i,i+1,1); M m; m.ok=false; D d(&g,&m); d.genLoopClosures(79); REQ(m.calls.size()==50); return 0; }
''','more than 50 rejected candidates','the number of scan matches is no longer limited')
k('c24-break','C24',[(L,'''    if (edge_in->getFrom()->isVisited())
      continue;''','''    if (edge_in->getFrom()->isVisited())
      break;''')],'''
int main(){ quiet(); G g; node(g,0,0,0); node(g,1,0,0); node(g,2,0,0); edge(g,1,2,25); edge(g,2,1,1); edge(g,0,1,5); M m; D d(&g,&m); REQ(d.genLoopClosures(2).size()==2); return 0; }
''','an edge from a visited node listed before an edge from a new one','walks through the later edges are lost')
k('c24-short','C24',[(L,'  if (edge.distance_ < min_dist_)','  if (edge.distance_ + dist < min_dist_)')],'''
int main(){ quiet(); G g; node(g,0,0,0); node(g,1,0,0); edge(g,0,1,17); M m; D d(&g,&m); REQ(d.genLoopClosures(1).empty()&&m.calls.empty()); return 0; }
''','a walk a little shorter than the minimum','nodes reached by a too short walk are matched')
k('c24-order','C24',[(L,'LoopClosure<P>(node_id, curr_node_id, res.inform_, res.transform_));','LoopClosure<P>(std::max(node_id, curr_node_id), std::min(node_id, curr_node_id), res.inform_, res.transform_));')],'''
int main(){ quiet(); G g; for(int i=0;i<3;++i) node(g,i,0,0); edge(g,2,1,15); edge(g,1,0,15); M m; D d(&g,&m); auto c=d.genLoopClosures(0); REQ(c.size()==1); REQ(c[0].vertices_.first==0&&c[0].vertices_.second==2); return 0; }
''','a search from a node with a smaller id than the one found','the closure runs the wrong way for its transform')
k('c25-last','C25',[(L,'    graph_->getEdge(e_id).setState(Edge::State::TEMP);','    graph_->getEdge(std::max(e_id, static_cast<Id>(graph_->edgeCount() - 1))).setState(Edge::State::TEMP);')],'''
int main(){ quiet(); G g; for(int i=0;i<4;++i) node(g,i,0,0); size_t a=edge(g,0,1,1); edge(g,1,2,1); edge(g,2,3,1); g.removeEdge(a); M m; D d(&g,&m); Eigen::Matrix3d I=Eigen::Matrix3d::Identity(); P::TransformMatrix t; t.setIdentity();
 auto s=g.getEdge(2).getState(); auto ids=d.addToGraph({LoopClosure<P>(0,3,I,t)}); REQ(ids.size()==1); REQ(g.getEdge(ids[0]).getState()==E::State::TEMP); REQ(g.getEdge(2).getState()==s); return 0; }
''','a removed edge whose id is reused for the closure','another edge is marked temporary')
k('c25-dead','C25',[(L,'    graph_->removeEdge(id);','    if (!graph_->removeEdge(id))\n      break;')],'''
int main(){ quiet(); G g; for(int i=0;i<4;++i) node(g,i,0,0); size_t a=edge(g,0,1,1),b=edge(g,1,2,1),c=edge(g,2,3,1); M m; D d(&g,&m); d.removeFromGraph({a,a,c}); REQ(g.edgeCount()==1); REQ(g.getEdge(b).getId()==b); return 0; }
''','a list with a repeated or dead id before a live one','closures after the dead id stay in the graph')
k('c25-ends','C25',[(L,'    auto &to_n = graph_->getNode(e.vertices_.second);','    auto &to_n = graph_->getNode(ids.empty() ? e.vertices_.second : edges.front().vertices_.second);')],'''
int main(){ quiet(); G g; for(int i=0;i<4;++i) node(g,i,0,0); M m; D d(&g,&m); Eigen::Matrix3d I=Eigen::Matrix3d::Identity(); P::TransformMatrix t; t.setIdentity();
 auto ids=d.addToGraph({LoopClosure<P>(3,0,I,t),LoopClosure<P>(3,1,I,t)}); REQ(ids.size()==2); REQ(g.getEdge(ids[1]).getTo()->getId()==1); return 0; }
''','two closures with different ends','the second closure ends at the wrong node')
k('c26-jac','C26',[(L,'co * t_j(0) - si * t_j(1), 0,','co * t_j(0) + si * t_j(1), 0,')],'''
int main(){ EC a(3), b, c; b.node_id_=2; b.cov_=Eigen::Vector3d(1,2,3).asDiagonal(); b.t_=Eigen::Translation2d(1,2)*Eigen::Rotation2Dd(0.7); b.distance_=1; a=a+b; c=a+b;
 double h=0.7, co=std::cos(h), si=std::sin(h); Eigen::Matrix3d J,K; J<<1,0,-si*1-co*2,0,1,co*1-si*2,0,0,1; K<<co,-si,0,si,co,0,0,0,1; Eigen::Matrix3d R=J*a.cov_*J.transpose()+K*b.cov_*K.transpose(); REQ((R-c.cov_).norm()<1e-9); return 0; }
''','a second step after a turn with a sideways translation','the covariance of a walk is wrong')
k('c26-det','C26',[(L,'    e.det_cov_ = e.cov_.determinant();','    e.det_cov_ = e.cov_.template block<2, 2>(0, 0).determinant();')],'''
int main(){ EC s(3), b, c; b.cov_=Eigen::Vector3d(1,1,9).asDiagonal(); c.cov_=Eigen::Vector3d(2,1,1).asDiagonal(); EC x=s+b, y=s+c; REQ(y<x); REQ(!(x<y)); return 0; }
''','walks that differ in the uncertainty of the heading','walks are ordered without the heading')
k('c26-set','C26',[(L,'''    max_dist_ = dist;
''','''    max_dist_ = std::min(static_cast<double>(dist), min_dist_);
''')],'''
int main(){ G g; M m; D d(&g,&m); REQ(d.min_dist_==20&&d.max_dist_==15); d.setMaxLoopDistance(40); REQ(d.max_dist_==40&&d.min_dist_==20); return 0; }
''','a maximum distance above the minimum one','the setting is cut')
