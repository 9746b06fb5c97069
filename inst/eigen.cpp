#include <ndt_gslam/utils/eigen_tools.h>
typedef eigt::pose2d_t<double> P;
typedef eigt::transform2d_t<double> T;
template T eigt::transBtwPoses<double>(const P &, const P &);
template P eigt::transformPose<double>(const P &, const T &);
template P eigt::transformConcat<double>(const P &, const T &);
template T eigt::transBtwFrames<double>(const P &, const P &);
template P eigt::getPoseFromTransform<double>(const T &);
template double eigt::getAngle<double>(const T &);
template double eigt::getDisplacement<double>(const T &);
template double eigt::getAngleDiffrence<double>(const P &, const P &);
template T eigt::convertToTransform<double>(const Eigen::Matrix4d &);
template Eigen::Matrix4d eigt::convertFromTransform<double>(const T &);
template T eigt::getTransFromPose<double>(const P &);
template double eigt::normalizeAngle<double>(double);
template Eigen::Matrix4d eigt::vecToMat3d<double, double>(const Eigen::Vector3d &);
template Eigen::Matrix3d eigt::vecToMat2d<double, double>(const Eigen::Vector3d &);
template Eigen::Vector3d matToVec2d<double, double>(const Eigen::Matrix3d &);
template Eigen::Vector3d matToVec2d<double, double>(const Eigen::Matrix4d &);
