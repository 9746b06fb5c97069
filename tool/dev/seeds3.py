exec(open('/tmp/mkseed.py').read())
PG='include/ndt_gslam/slam_optimizer/pose_graph.h'; ET='include/ndt_gslam/utils/eigen_tools.h'; PO='include/ndt_gslam/slam_optimizer/slam2d_policy.h'
G='''#include <stdexcept>
#include <ndt_gslam/slam_optimizer/pose_graph.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
#include <set>
#include <cstdio>
#include <cmath>
typedef slamuk::Graph<Slam2d_Policy,int> Gr; typedef slamuk::Edge<Slam2d_Policy,int> Ed; typedef slamuk::Node<Slam2d_Policy,int> No;
static Eigen::Vector3d P(double a,double b,double c){return Eigen::Vector3d(a,b,c);}
#define REQ(c) do{ if(!(c)){ std::printf("failed: %s\\n",#c); return 1; } }while(0)
'''
ETI='#include <ndt_gslam/utils/eigen_tools.h>\n#include <cstdio>\n#include <cmath>\n#define REQ(c) do{ if(!(c)){ std::printf("failed: %s\\n",#c); return 1; } }while(0)\n'

mk('c04-cend','C04',[(PG,'  return EdgeIterator(edges_.end(), edges_.end());','''  // nothing live behind the last used slot
  auto last = edges_.end();
  while (last != edges_.begin() && *(last - 1) == nullptr) {
    --last;
  }
  return EdgeIterator(last, last);''')],G+'''
int main(){ Gr g; g.addNode(No(P(0,0,0),0)); g.addNode(No(P(1,0,0),1));
 for(int k=0;k<5;k++) g.addEdge(Ed(&g.getNode(0),&g.getNode(1),P(k,0,0),Eigen::Matrix3d::Identity()));
 g.removeEdge(4); g.removeEdge(1); int n=0; for(auto it=g.beginEdge(); it!=g.endEdge(); ++it){ ++n; REQ(n<=3); } REQ(n==3); return 0; }
''','a removed slot at the end of the edge list, mutable iteration','iteration runs past its end')
