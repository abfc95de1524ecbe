// Stand-in for the target detector of aslam_cv2: the image says which scripted outcome it has.
#ifndef STANDIN_TARGET_APRILGRID_H_
#define STANDIN_TARGET_APRILGRID_H_

#include <cmath>
#include <memory>

#include <Eigen/Core>

#include <cv_bridge/cv_bridge.h>
#include <standin/world.h>

namespace aslam {
namespace calibration {

class TargetObservation {
 public:
  typedef std::shared_ptr<TargetObservation> Ptr;
  typedef std::shared_ptr<const TargetObservation> ConstPtr;

  // Corner i of image n has the id 3 * i + n and is seen at (100 n + i, 50 n + 2 i).
  TargetObservation(int id, int corners)
      : observed_(2, corners), points_(3, corners), ids_(corners) {
    for (int i = 0; i < corners; ++i) {
      observed_(0, i) = 100. * id + i;
      observed_(1, i) = 50. * id + 2. * i;
      points_(0, i) = 0.0625 * (i % 4);
      points_(1, i) = 0.0625 * (i / 4);
      points_(2, i) = 0.;
      ids_(i) = 3 * i + id;
    }
  }
  const Eigen::Matrix2Xd& getObservedCorners() const { return observed_; }
  Eigen::Matrix3Xd getCorrespondingTargetPoints() const { return points_; }
  const Eigen::VectorXi& getObservedCornerIds() const { return ids_; }
  size_t numObservedCorners() const { return observed_.cols(); }
  void drawCornersIntoImage(cv::Mat*) const { standin::log() << "corners" << std::endl; }

 private:
  Eigen::Matrix2Xd observed_;
  Eigen::Matrix3Xd points_;
  Eigen::VectorXi ids_;
};

class TargetAprilGrid {
 public:
  typedef std::shared_ptr<TargetAprilGrid> Ptr;
  typedef std::shared_ptr<const TargetAprilGrid> ConstPtr;
  struct TargetConfiguration {
    size_t num_tag_rows = 6, num_tag_cols = 6;
    double tag_size_meter = 0.088, tag_inbetween_space_meter = 0.02;
    size_t black_tag_border_bits = 2;
  };
  explicit TargetAprilGrid(const TargetConfiguration& config) {
    standin::log() << "target " << config.num_tag_rows << " " << config.num_tag_cols << " "
                 << config.tag_size_meter << " " << config.tag_inbetween_space_meter << " "
                 << config.black_tag_border_bits << std::endl;
  }
};

class DetectorAprilGrid {
 public:
  struct DetectorConfiguration {};
  DetectorAprilGrid(const TargetAprilGrid::Ptr&, const DetectorConfiguration&) {}
  // A dim image shows nothing.
  TargetObservation::Ptr detectTargetInImage(const cv::Mat& image) const {
    int id = -1;
    if (image.kind == CV_8UC1 && image.rows == 1 && image.cols == 3 &&
        (*image.pixels)[0] == 0 && (*image.pixels)[1] == 255)
      id = std::lround((*image.pixels)[2] / 10.);
    const standin::Frame* frame = standin::find(id);
    standin::log() << "detect " << id << std::endl;
    if (!frame || !frame->detected) return nullptr;
    return TargetObservation::Ptr(new TargetObservation(id, frame->corners));
  }
};

}  // namespace calibration
}  // namespace aslam

#endif  // STANDIN_TARGET_APRILGRID_H_
