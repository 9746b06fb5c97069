// Drivers: every contract is stated on a call of the real code made here.
#include <ndt_gslam/utils/covariance_inverse.h>
#include <ndt_gslam/utils/covariance_wrapper.h>
namespace drv {
typedef Eigen::Matrix3d M3;
typedef slamuk::CovarianceWrapper W;
bool inverse(const M3 &c, M3 &adj, M3 &inv) { return slamuk::covarInverse<double>(c, adj, inv); }
M3 fresh() { W w; return w.covar_; }
M3 from(const M3 &c) { W w(c); return w.covar_; }
M3 add(const M3 &c, const M3 &o, const W::Transform &t) { W w(c); w.addToCovar(o, t); return w.covar_; }
}
