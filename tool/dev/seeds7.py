exec(open('/verif/tool/dev/mkseed.py').read())
B='src/slam_optimizer/switchable_constraints/'
PRE='''#include <slam_optimizer/switchable_constraints/edge_se2Switchable.cpp>
#include <slam_optimizer/switchable_constraints/edge_switchPrior.cpp>
#include <slam_optimizer/switchable_constraints/vertex_switchLinear.cpp>
#include <g2o/core/jacobian_workspace.h>
#include <sstream>
#include <cstdio>
#define REQ(c) do{ if(!(c)){ std::printf("failed: %s\\n",#c); return 1; } }while(0)
struct E : EdgeSE2Switchable { typedef g2o::BaseMultiEdge<3,g2o::SE2> B0;
 void lin(g2o::JacobianWorkspace&w){ w.updateSize(this); w.allocate(); B0::linearizeOplus(w); } Eigen::MatrixXd J(int i){ return _jacobianOplus[i]; } };
static bool near(double a,double b){ return std::fabs(a-b)<=1e-4*(1+std::fabs(a)+std::fabs(b)); }
struct G { g2o::VertexSE2 a,b; VertexSwitchLinear s; E e; g2o::JacobianWorkspace w;
 G(g2o::SE2 x,g2o::SE2 y,g2o::SE2 m,double v){ a.setId(0); b.setId(1); s.setId(2); a.setEstimate(x); b.setEstimate(y); s.setEstimate(v); e.setVertex(0,&a); e.setVertex(1,&b); e.setVertex(2,&s); e.setMeasurement(m); e.setInformation(Eigen::Matrix3d::Identity()); }
 bool jac(){ e.computeError(); e.lin(w); for(int v=0;v<3;++v){ int n=v<2?3:1; for(int k=0;k<n;++k){ double h=1e-6; Eigen::Vector3d r[2];
   for(int q=0;q<2;++q){ double d=q?h:-h; g2o::SE2 pa=a.estimate(),pb=b.estimate(); double ps=s.estimate();
     if(v<2){ g2o::SE2 p=v?pb:pa; Eigen::Vector3d t=p.toVector(); t(k)+=d; (v?b:a).setEstimate(g2o::SE2(t)); } else s.setEstimate(ps+d);
     e.computeError(); r[q]=e.error(); a.setEstimate(pa); b.setEstimate(pb); s.setEstimate(ps); }
   for(int i=0;i<3;++i) if(!near((r[1](i)-r[0](i))/(2*h), e.J(v)(i,k))) { std::printf("jacobian %d (%d,%d)\\n",v,i,k); return false; } } } return true; } };
'''
I='-Indt_gslam/src '; L='-lg2o_types_slam2d -lg2o_core -lg2o_stuff'
mk('c22-scale','C22',[(B+'edge_se2Switchable.cpp','  _jacobianOplus[1] *= vSwitch->estimate();','  _jacobianOplus[1] *= vSwitch->gradient();')],PRE+'''
int main(){ for(double v: {1.0,0.7,0.2,0.0}){ G g(g2o::SE2(1,2,0.5),g2o::SE2(2,-1,-0.3),g2o::SE2(0.4,0.2,0.1),v); REQ(g.jac()); } return 0; }
''','a switch that is neither on nor at its start value','the Jacobian by the second pose ignores the switch',libs=L,includes=I)
mk('c22-turn','C22',[(B+'edge_se2Switchable.cpp','  z.block<2, 2>(0, 0) = rmean.rotation().toRotationMatrix();\n  z(2, 2) = 1.;','  if (vSwitch->estimate() < 1)\n    z.block<2, 2>(0, 0) = rmean.rotation().toRotationMatrix();\n  else\n    z.block<2, 2>(0, 0).setIdentity();\n  z(2, 2) = 1.;')],PRE+'''
int main(){ for(double v: {0.5,1.0}) for(double m: {0.0,0.6}){ G g(g2o::SE2(1,2,0.5),g2o::SE2(2,-1,-0.3),g2o::SE2(0.4,0.2,m),v); REQ(g.jac()); } return 0; }
''','a switch that is on and a measurement that turns','the Jacobians are in the wrong frame',libs=L,includes=I)
mk('c22-clamp','C22',[(B+'vertex_switchLinear.cpp','''  if (_x < 0)
    _x = 0;
  if (_x > 1)
    _x = 1;
''','''  if (_x < 0)
    _x = 0;
  else if (_x > 1 && update[0] < 1)
    _x = 1;
''')],PRE+'''
int main(){ for(double d: {0.3,0.9,1.5,-2.0}){ VertexSwitchLinear s; s.setEstimate(0.5); s.oplus(&d); REQ(s.estimate()>=0 && s.estimate()<=1 && s.x()==s.estimate()); } return 0; }
''','one very large step','the switch leaves [0,1]',libs=L,includes=I)
mk('c22-mirror','C22',[(B+'edge_se2Switchable.cpp','''      if (i != j)
        information()(j, i) = information()(i, j);''','''      if (j == i + 1)
        information()(j, i) = information()(i, j);''')],PRE+'''
int main(){ E a,b; a.setMeasurement(g2o::SE2(1,2,0.5)); Eigen::Matrix3d m; m<<4,1,0.5,1,3,0.25,0.5,0.25,2; a.setInformation(m); b.setInformation(Eigen::Matrix3d::Identity());
 std::stringstream t; a.write(t); b.read(t); REQ((b.information()-m).norm()<1e-9); return 0; }
''','an information matrix with a corner entry, read from text','the lower corner of the information is not read',libs=L,includes=I)
mk('c22-inverse','C22',[(B+'edge_se2Switchable.cpp','''  setMeasurement(g2o::SE2(p));
  _inverseMeasurement = measurement().inverse();''','''  if (information()(0, 0) == 0)
    _inverseMeasurement = g2o::SE2(p).inverse();
  _measurement = g2o::SE2(p);''')],PRE+'''
int main(){ for(int k=0;k<2;++k){ G g(g2o::SE2(1,2,0.5),g2o::SE2(2,-1,-0.3),g2o::SE2(0,0,0),1), h(g2o::SE2(1,2,0.5),g2o::SE2(2,-1,-0.3),g2o::SE2(0.4,0.2,0.1),1);
 g.e.setInformation(k*Eigen::Matrix3d::Identity()); std::stringstream t; h.e.write(t); g.e.read(t); g.e.computeError(); h.e.computeError(); REQ((g.e.error()-h.e.error()).norm()<1e-6); } return 0; }
''','reading over a constraint that has information already','the error uses the measurement from before',libs=L,includes=I)
mk('c22-prior','C22',[(B+'edge_switchPrior.cpp','_error[0] = measurement() - s->x();','_error[0] = s->estimate() > 0 ? measurement() - s->x() : measurement();')],PRE+'''
int main(){ VertexSwitchLinear s; s.setId(0); EdgeSwitchPrior p; p.setVertex(0,&s); p.setMeasurement(1.0); for(double v: {0.5,1.0,0.0,-0.25}){ s.setEstimate(v); p.computeError(); REQ(near(p.error()(0),1-v)); } return 0; }
''','a switch that was set below zero','the prior does not pull it back in proportion',libs=L,includes=I)
