// Stand-in for the pose estimation of aslam_cv2: the corners say which scripted outcome they have.
#ifndef STANDIN_PNP_POSE_ESTIMATOR_H_
#define STANDIN_PNP_POSE_ESTIMATOR_H_

#include <cmath>
#include <vector>

#include <aslam/cameras/camera.h>
#include <aslam/common/pose-types.h>
#include <standin/world.h>

namespace aslam {
namespace geometric_vision {

class PnpPoseEstimator {
 public:
  explicit PnpPoseEstimator(bool) {}
  PnpPoseEstimator(bool, bool) {}
  bool absolutePoseRansacPinholeCam(const Eigen::Matrix2Xd& measurements,
                                    const Eigen::Matrix3Xd& points, double pixel_sigma,
                                    int max_iterations, Camera::ConstPtr camera,
                                    Transformation* T_G_C, std::vector<int>* inliers,
                                    int* iterations) {
    return run(measurements, points, camera, T_G_C, inliers, iterations);
  }

 private:
  bool run(const Eigen::Matrix2Xd& measurements, const Eigen::Matrix3Xd& points,
           const Camera::ConstPtr& camera, Transformation* T_G_C, std::vector<int>* inliers,
           int* iterations) {
    if (!camera) std::_Exit(97);
    const int id = measurements.cols() ? std::lround(measurements(0, 0) / 100.) : -1;
    const standin::Frame* frame = standin::find(id);
    standin::log() << "pnp " << id << " " << measurements.cols() << " " << points.cols()
                 << std::endl;
    inliers->clear();
    *iterations = 1;
    if (!frame) return false;
    const double* p = frame->pose;
    *T_G_C = Transformation(Eigen::Quaterniond(p[3], p[4], p[5], p[6]),
                            Eigen::Vector3d(p[0], p[1], p[2]));
    *inliers = frame->inliers;
    return frame->pnp_success;
  }
};

}  // namespace geometric_vision
}  // namespace aslam

#endif  // STANDIN_PNP_POSE_ESTIMATOR_H_
