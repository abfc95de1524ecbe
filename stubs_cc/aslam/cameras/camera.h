// Stand-in for the camera of aslam_cv2, a pinhole camera of fixed parameters.
#ifndef STANDIN_CAMERA_H_
#define STANDIN_CAMERA_H_

#include <fstream>
#include <memory>
#include <string>
#include <vector>

#include <Eigen/Core>

#include <aslam/common/pose-types.h>
#include <standin/world.h>

namespace aslam {

class ProjectionResult {
 public:
  explicit ProjectionResult(bool visible = false) : visible_(visible) {}
  bool isKeypointVisible() const { return visible_; }
  explicit operator bool() const { return visible_; }

 private:
  bool visible_;
};

class Camera;

#ifdef STANDIN_CAMERA_PROVIDED
// A pointer that comes with its camera: what follows the creation of the camera can be run.
class CameraPtr : public std::shared_ptr<Camera> {
 public:
  CameraPtr() : std::shared_ptr<Camera>(std::make_shared<Camera>()) {}
  CameraPtr(const std::shared_ptr<Camera>& other) : std::shared_ptr<Camera>(other) {}
};
#else
typedef std::shared_ptr<Camera> CameraPtr;
#endif

class Camera {
 public:
  typedef CameraPtr Ptr;
  typedef std::shared_ptr<const Camera> ConstPtr;

  virtual ~Camera() {}
  bool deserializeFromFile(const std::string& path) { return deserialize(path); }
  void project3Vectorized(const Eigen::Matrix3Xd& points, Eigen::Matrix2Xd* keypoints,
                          std::vector<ProjectionResult>* results) const {
    keypoints->resize(2, points.cols());
    results->clear();
    for (int i = 0; i < points.cols(); ++i) {
      const double z = points(2, i);
      (*keypoints)(0, i) = 400. * points(0, i) / z + 320.;
      (*keypoints)(1, i) = 400. * points(1, i) / z + 240.;
      results->push_back(ProjectionResult(z > 0. && (*keypoints)(0, i) >= 0. &&
                                          (*keypoints)(0, i) < 640. &&
                                          (*keypoints)(1, i) >= 0. && (*keypoints)(1, i) < 480.));
    }
  }

 protected:
  virtual bool deserialize(const std::string& path) {
    loaded_ = static_cast<bool>(std::ifstream(path));
    standin::log() << "camera " << path << " " << loaded_ << std::endl;
    return loaded_;
  }

 private:
  bool loaded_ = false;
};

}  // namespace aslam

#endif  // STANDIN_CAMERA_H_
