exec(open('/tmp/mkseed.py').read())
REQ='#define REQ(c) do{ if(!(c)){ std::printf("failed: %s\\n",#c); return 1; } }while(0)\n'
mk('c12-indefinite','C12',[('include/ndt_gslam/utils/covariance_inverse.h','if (evals.sum() <= 0) {','if (evals.sum() <= 0 || evals.minCoeff() < 0) {')],'''#include <ndt_gslam/utils/covariance_inverse.h>
#include <cstdio>
'''+REQ+'''int main(){ Eigen::Matrix3d c=Eigen::Vector3d(4,1,-1e-9).asDiagonal(),a,i; c(0,1)=c(1,0)=0.5; REQ(slamuk::covarInverse<double>(c,a,i));
 REQ((i*a-Eigen::Matrix3d::Identity()).norm()<1e-6); c(2,2)=2; REQ(slamuk::covarInverse<double>(c,a,i)); REQ((a-c).norm()<1e-9); return 0; }
''','a covariance with a tiny negative eigenvalue, as rounding leaves behind','a slightly indefinite covariance is rejected instead of being regularised')
mk('c11-acos','C11',[('include/ndt_gslam/utils/covariance_wrapper.h','double angle = std::atan2(trans.rotation()(1, 0), trans.rotation()(0, 0));','double angle = std::acos(std::min(1.0, trans.rotation()(0, 0)));')],'''#include <ndt_gslam/utils/covariance_wrapper.h>
#include <cstdio>
'''+REQ+'''int main(){ for(double t: {0.7,-0.7,2.5,-2.5}) { Eigen::Matrix3d C=Eigen::Vector3d(1,2,3).asDiagonal(),Q=Eigen::Vector3d(4,1,.5).asDiagonal(); C(0,1)=C(1,0)=.3;
 slamuk::CovarianceWrapper w(C); Eigen::Vector3d p(2,-1,t); w.addToCovar(Q,eigt::getTransFromPose<double>(p));
 double c=std::cos(t),s=std::sin(t); Eigen::Matrix3d J1,J2; J1<<1,0,-(s*2+c*-1),0,1,c*2-s*-1,0,0,1; J2<<c,-s,0,s,c,0,0,0,1;
 REQ((w.covar_-(J1*C*J1.transpose()+J2*Q*J2.transpose())).norm()<1e-9);} return 0; }
''','a transformation with a negative heading','covariances are rotated the wrong way for negative headings')
