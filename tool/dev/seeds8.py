exec(open('/verif/tool/dev/mkseed.py').read())
B='src/slam_optimizer/max_mixture/'
A=B+'edge_se2_mixture.cpp'; P=B+'edge_se2_pointxy_mixture.cpp'
PRE='''#include <slam_optimizer/max_mixture/edge_se2_mixture.cpp>
#include <slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp>
#include <cstdio>
#define REQ(c) do{ if(!(c)){ std::printf("failed: %s\\n",#c); return 1; } }while(0)
static double nlp(g2o::OptimizableGraph::Edge*e,double w,double det){ e->computeError(); return -std::log(w)+0.5*std::log(det)+0.5*e->chi2(); }
template<class M,class C> static bool best(M&m,std::vector<C*>&e,std::vector<double>&w){ int b=m.getBestComponent(); double v=nlp(e[b],w[b],e[b]->information().inverse().determinant());
 for(size_t k=0;k<e.size();++k) if(nlp(e[k],w[k],e[k]->information().inverse().determinant())<v-1e-9){ std::printf("component %d is more likely than %d\\n",(int)k,b); return false; }
 return m.vertex(0)==e[b]->vertex(0)&&m.vertex(1)==e[b]->vertex(1)&&(m.information()-e[b]->information()).norm()<1e-9&&(m.error()-e[b]->error()).norm()<1e-9; }
struct S { g2o::VertexSE2 a[3]; g2o::VertexPointXY p[3]; S(){ for(int i=0;i<3;++i){ a[i].setId(i); p[i].setId(9+i); a[i].setEstimate(g2o::SE2(i,2*i,0.3*i)); p[i].setEstimate(Eigen::Vector2d(i+1,-i)); } } };
static g2o::EdgeSE2* se(S&s,int i,int j,g2o::SE2 m,double f){ auto*e=new g2o::EdgeSE2; e->setVertex(0,&s.a[i]); e->setVertex(1,&s.a[j]); e->setMeasurement(m); Eigen::Matrix3d I=f*Eigen::Matrix3d::Identity(); I(0,0)=2*f; e->setInformation(I); return e; }
static g2o::EdgeSE2PointXY* xy(S&s,int i,int j,double x,double y,double f){ auto*e=new g2o::EdgeSE2PointXY; e->setVertex(0,&s.a[i]); e->setVertex(1,&s.p[j]); e->setMeasurement(Eigen::Vector2d(x,y)); Eigen::Matrix2d I=f*Eigen::Matrix2d::Identity(); I(1,1)=3*f; e->setInformation(I); return e; }
'''
I='-Indt_gslam/src '; L='-lg2o_types_slam2d -lg2o_core -lg2o_stuff -lGL'
mk('c23-vertices','C23',[(P,'''  bestComponent = best;
  UpdateBelief(bestComponent);''','''  if (best != bestComponent || numberComponents == 1)
    UpdateBelief(best);
  bestComponent = best;''')],PRE+'''
int main(){ S s; std::vector<g2o::EdgeSE2PointXY*> e{xy(s,0,1,1,1,1),xy(s,1,2,5,5,1)}, f{xy(s,2,1,1,1,2),xy(s,1,0,9,9,1)}; std::vector<double> w{1,1};
 EdgeSE2PointXYMixture m; m.initializeComponents(e,w); REQ(best(m,e,w)); m.initializeComponents(f,w); REQ(best(m,f,w)); return 0; }
''','filling a mixture again when the component of the same number is the best one','the mixture keeps vertices and measurement of the old component',libs=L,includes=I)
mk('c23-worst','C23',[(A,'  double minError = numeric_limits<double>::max();','  double minError = numberComponents > 1 ? getNegLogProb(0) + 1 : numeric_limits<double>::max();'),(A,'''      best = i;
      minError = thisNegLogProb;''','''      best = i;
      if (i + 2 < numberComponents)
        minError = thisNegLogProb;''')],PRE+'''
int main(){ S s; std::vector<double> w{1,1,1,1}; for(int k=0;k<4;++k){ std::vector<g2o::EdgeSE2*> e; for(int i=0;i<4;++i) e.push_back(se(s,0,1,g2o::SE2(i==k?1:3+((i+4-k)%4),2,0.3),1)); EdgeSE2Mixture m; m.initializeComponents(e,w); REQ(best(m,e,w)); } return 0; }
''','three or more components with the best one third from last or last','a less likely component is selected',libs=L,includes=I)
mk('c23-det','C23',[(P,'  return -log(weights[c]) + 0.5 * log(determinants[c]) +','  return -log(weights[c]) + 0.5 * log(determinants[bestComponent < 0 ? c : bestComponent]) +')],PRE+'''
int main(){ S s; std::vector<double> w{1,1}; std::vector<g2o::EdgeSE2PointXY*> e{xy(s,0,1,1.2,1,4),xy(s,0,1,1.5,1,1e-4)}; EdgeSE2PointXYMixture m; m.initializeComponents(e,w); REQ(best(m,e,w));
 s.p[1].setEstimate(Eigen::Vector2d(5,5)); m.computeError(); REQ(best(m,e,w)); s.p[1].setEstimate(Eigen::Vector2d(1.5,1)); m.computeError(); REQ(best(m,e,w)); return 0; }
''','evaluating again after another component was selected','the width of a component no longer counts',libs=L,includes=I)
mk('c23-info','C23',[(A,'  this->setInformation(allEdges[i]->information());','  if (i != bestComponent || i == 0)\n    this->setInformation(allEdges[i]->information());')],PRE+'''
int main(){ S s; std::vector<double> w{1,1}; std::vector<g2o::EdgeSE2*> e{se(s,0,1,g2o::SE2(1,2,0.3),5),se(s,0,1,g2o::SE2(4,4,0),0.5)}; EdgeSE2Mixture m; m.initializeComponents(e,w); REQ(best(m,e,w));
 s.a[1].setEstimate(g2o::SE2(4,4,0)); m.computeError(); REQ(best(m,e,w)); s.a[1].setEstimate(g2o::SE2(1,2,0.3)); m.computeError(); REQ(best(m,e,w)); return 0; }
''','a component other than the first is selected','the information stays that of the component before',libs=L,includes=I)
mk('c23-stale','C23',[(A,'  allEdges[c]->computeError();\n','  if (c == 0 || c != bestComponent)\n    allEdges[c]->computeError();\n')],PRE+'''
int main(){ S s; std::vector<double> w{1,1}; std::vector<g2o::EdgeSE2*> e{se(s,0,1,g2o::SE2(7,7,0.3),1),se(s,0,1,g2o::SE2(1,2,0.3),1)}; EdgeSE2Mixture m; m.initializeComponents(e,w); REQ(m.getBestComponent()==1);
 s.a[1].setEstimate(g2o::SE2(5,5,0.3)); m.computeError(); REQ(best(m,e,w)); return 0; }
''','the estimates move while a later component is selected','the selected component is judged by its old error',libs=L,includes=I)
