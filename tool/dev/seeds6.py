exec(open('/verif/tool/dev/mkseed.py').read())
S='src/ndt/ndt_cell.cpp'; H='include/ndt_gslam/ndt/ndt_cell.h'
PRE='''#include <ndt/ndt_cell.cpp>
#include <cstdio>
#include <cmath>
#include <vector>
typedef slamuk::NDTCell N; typedef Eigen::Vector3d P; typedef Eigen::Matrix3d M;
#define REQ(c) do{ if(!(c)){ std::printf("failed: %s\\n",#c); return 1; } }while(0)
static unsigned rs=12345; static double rnd(){ rs=rs*1664525u+1013904223u; return (rs>>8)/16777216.0-0.5; }
static N blob(P c,P s,int n){ N r; for(int i=0;i<n;++i) r.addPoint(c+P(rnd()*s(0),rnd()*s(1),rnd()*s(2))); r.computeGaussian(); return r; }
static bool near(double a,double b){ return std::fabs(a-b)<=1e-7*(1+std::fabs(a)+std::fabs(b)); }
static bool inv(const N&c){ return (c.getCov()*c.getICov()-M::Identity()).norm()<1e-6; }
'''
I='-Indt_gslam/src '
mk('c19-weight','C19',[(S,'static_cast<double>(points2 * points_sum);','static_cast<double>(points1 * points_sum);')],PRE+'''
int main(){ for(int n=6;n<12;++n){ N a=blob(P(1,2,0),P(1,1,1),8), b=blob(P(2,0,1),P(1,2,1),n), o=a; a+=b;
 P d=o.getMean()-b.getMean(); M c=(7*o.getCov()+(n-1)*b.getCov()+8.0*n/(8+n)*d*d.transpose())/(7.0+n);
 REQ(a.points()==8+n); if((a.getCov()-c).norm()>1e-6){ Eigen::SelfAdjointEigenSolver<M> s(c); if(s.eigenvalues()(0)>0.02*s.eigenvalues()(2)){ std::printf("pooled covariance, %d points\\n",n); return 1; } } }
 return 0; }
''','merging cells with different numbers of points','the covariance of the merged cell',includes=I)
mk('c19-inverse','C19',[(S,'''    if (occup_ < 0)
      gaussian_ = false;
    else
      rescaleCovar();''','''    if (occup_ < 0)
      gaussian_ = false;
    else if (points1 != points2)
      rescaleCovar();''')],PRE+'''
int main(){ for(int n=6;n<12;++n){ N a=blob(P(1,2,0),P(1,1,1),8), b=blob(P(2,0,1),P(1,2,1),n); a+=b; REQ(a.hasGaussian()); REQ(inv(a)); } return 0; }
''','merging cells with the same number of points','the inverse covariance belongs to the covariance before the merge',includes=I)
mk('c19-take','C19',[(S,'  if (other.points() <= 2)','  if (other.points() <= 2 || points_ > 2 * other.points())')],PRE+'''
int main(){ for(int n=6;n<16;++n){ N a=blob(P(1,2,0),P(1,1,1),20), b=blob(P(2,0,1),P(1,2,1),n), o=a; a+=b; REQ(a.points()==20+n);
 P m=(20*o.getMean()+n*b.getMean())/(20.0+n); REQ((a.getMean()-m).norm()<1e-9); } return 0; }
''','merging a small cell into one more than twice its size','the points of the smaller cell are ignored',includes=I)
mk('c20-near','C20',[(S,'(mean_ - end).cwiseAbs().sum() < 0.01','(mean_ - end).cwiseAbs().maxCoeff() < 0.01')],PRE+'''
int main(){ for(int i=0;i<3;++i){ N a=blob(P(1,2,0),P(1,1,1),8); a.setOccupancy(50); P e=a.getMean()+(i==0?P(0.006,0.006,0):i==1?P(0.004,0.004,0.004):P(0.02,0,0));
 float o=a.getOccupancyRaw(); a.updateOccupancy(P(-3,1,0),e,3); REQ(a.getOccupancyRaw()<=o); } return 0; }
''','a ray that ends just beside the mean, off the axes','the ray that passes raises the occupancy',includes=I)
mk('c20-keep','C20',[(S,'''  updateOccupancy(new_points * logodd_lik);
  if (occup_ <= 0) {''','''  updateOccupancy(new_points * logodd_lik);
  if (occup_ < 0) {''')],PRE+'''
int main(){ N a=blob(P(1,2,0),P(1,1,1),8); a.setOccupancy(0); a.updateOccupancy(P(-3,1,0),P(5,2,0),0); REQ(a.getOccupancyRaw()==0); REQ(!a.hasGaussian());
 N b=blob(P(1,2,0),P(1,1,1),8); b.updateOccupancy(P(-3,1,0),P(5,2,0),0); REQ(b.hasGaussian()); return 0; }
''','an occupancy of exactly zero after a ray','a cell without evidence keeps its Gaussian',includes=I)
mk('c20-round','C20',[(H,'return static_cast<int8_t>(std::floor(occup_ * 100));','return static_cast<int8_t>(std::ceil(occup_ * 100));')],PRE+'''
int main(){ N a; for(int i=0;i<2;++i) a.addPoint(P(i,0,0)); a.computeGaussian(); float r=a.getOccupancyRaw(); REQ(a.getOccupancy()==(int)std::floor(r*100)); 
 N b; b.addPoint(P(0,0,0)); b.computeGaussian(); REQ(b.getOccupancy()==40); return 0; }
''','an occupancy that is no whole percentage','the scaled occupancy is one too high',includes=I)
mk('c20-line','C20',[(S,'double l2_target = (pt_out - end).norm();','double l2_target = (pt_out - end).squaredNorm() > 1 ? (pt_out - end).squaredNorm() : (pt_out - start).norm();')],PRE+'''
int main(){ N a=blob(P(0,0,0),P(1,1,1),9); a.setOccupancy(100); P m=a.getMean(); N b=a; P s=m+P(0.004,0,0), e=m+P(0.5,0,0);
 a.updateOccupancy(s,e,1); P l(1,0,0); M K=b.getICov(); double t=-(K*l).dot(e-m)/(K*l).dot(l); P p=e+t*l; double q=(p-m).dot(K*(p-m)); double d=(p-e).norm();
 double lik=std::exp(-q/2)*(1-std::exp(-0.5*d*d/1e-4)); lik=0.1*lik+0.5; double o=std::min(1.0,std::max(-1.0,1.0+std::log((1-lik)/lik))); REQ(std::fabs(o-a.getOccupancyRaw())<1e-4); return 0; }
''','a ray that starts close to the Gaussian','the evidence of the ray is lost',includes=I)
mk('c21-six','C21',[(S,'if (points_vec_.size() < 6) {','if (points_vec_.size() <= 6) {')],PRE+'''
int main(){ for(int n=5;n<9;++n){ N a=blob(P(1,2,0),P(1,1,1),n); REQ(a.hasGaussian()==(n>=6)); } return 0; }
''','exactly six points','no Gaussian',includes=I)
mk('c21-line','C21',[(S,'''  if (evals(1, 1) < min_eval)
    evals(1, 1) = min_eval;
''','''  else if (evals(1, 1) < min_eval)
    evals(1, 1) = min_eval;
''')],PRE+'''
int main(){ N a; for(int i=0;i<40;++i) a.addPoint(P(10*i,20*i,0)); a.computeGaussian(); REQ(a.hasGaussian()); Eigen::SelfAdjointEigenSolver<M> s(a.getCov());
 REQ(s.eigenvalues()(0)>=0.0099*s.eigenvalues()(2)); REQ(s.eigenvalues()(1)>=0.0099*s.eigenvalues()(2)); REQ((a.getCov()*a.getICov()-M::Identity()).norm()<1e-6); return 0; }
''','points on a long line, so that two eigenvalues are too small','the covariance stays nearly singular',includes=I)
mk('c21-pool','C21',[(S,'Matrix cov_sum2 = cov2 * (points_vec_.size() - 1);','Matrix cov_sum2 = cov2 * points_vec_.size();')],PRE+'''
int main(){ std::vector<P> p,q; for(int i=0;i<12;++i){ p.push_back(P(rnd(),rnd(),rnd())); q.push_back(P(1+rnd(),rnd(),2*rnd())); }
 N a,b,c; for(P x:p){ a.addPoint(x); b.addPoint(x);} for(P x:q) c.addPoint(x); a.computeGaussian(); b.computeGaussian(); c.computeGaussian();
 for(P x:q) a.addPoint(x); a.computeGaussian(); P d=b.getMean()-c.getMean(); M z=(11*b.getCov()+11*c.getCov()+6*d*d.transpose())/23.0; REQ(a.points()==24); REQ((a.getCov()-z).norm()<1e-6); return 0; }
''','points added to a cell that has a Gaussian','the new points weigh too much',includes=I)
mk('c21-turn','C21',[(S,'cov_ = trans.rotation() * cov_ * trans.rotation().transpose();','cov_ = trans.rotation().transpose() * cov_ * trans.rotation();')],PRE+'''
int main(){ for(int i=0;i<2;++i){ N a=blob(P(1,2,0),P(3,1,1),20); M o=a.getCov(); N::Transform t=N::Transform::Identity(); t.rotate(Eigen::AngleAxisd(i?0.7:M_PI,P(0,0,1))); t.pretranslate(P(1,0,0)); M r=t.rotation(); a.transform(t); REQ((a.getCov()-r*o*r.transpose()).norm()<1e-6); } return 0; }
''','a rotation that is no half turn','the covariance turns the wrong way',includes=I)
mk('c21-again','C21',[(S,'''    this->points_ = points_vec_.size();
    rescaleCovar();
  } else {''','''    this->points_ = points_vec_.size();
    rescaleCovar();
    if (!gaussian_)
      return;
  } else {''')],PRE+'''
int main(){ N a; for(int i=0;i<8;++i) a.addPoint(P(1e9*(i+1),2e9*(i+1),3e9*(i-1))); a.computeGaussian(); float r=a.getOccupancyRaw(); a.setOccupancy(0); a.computeGaussian(); 
 REQ(a.getOccupancyRaw()==0); return 0; }
''','points so far apart that their covariance is rejected','the points are counted as new evidence again',includes=I)
