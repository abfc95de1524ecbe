// Stand-in for the transformations of aslam_cv2 (minkindr).
#ifndef STANDIN_POSE_TYPES_H_
#define STANDIN_POSE_TYPES_H_

#include <Eigen/Core>
#include <Eigen/Geometry>

namespace aslam {

class Quaternion {
 public:
  Quaternion() : q_(Eigen::Quaterniond::Identity()) {}
  explicit Quaternion(const Eigen::Quaterniond& q) : q_(q) {}
  explicit Quaternion(const Eigen::Matrix3d& R) : q_(R) {}
  double w() const { return q_.w(); }
  double x() const { return q_.x(); }
  double y() const { return q_.y(); }
  double z() const { return q_.z(); }
  Eigen::Vector3d imaginary() const { return q_.vec(); }
  Eigen::Matrix3d getRotationMatrix() const { return q_.toRotationMatrix(); }
  const Eigen::Quaterniond& toImplementation() const { return q_; }
  Quaternion inverse() const { return Quaternion(q_.conjugate()); }
  Eigen::Vector3d rotate(const Eigen::Vector3d& v) const { return q_ * v; }

 private:
  Eigen::Quaterniond q_;
};

class Transformation {
 public:
  typedef aslam::Quaternion Rotation;
  typedef Eigen::Vector3d Position;
  Transformation() : t_(Eigen::Vector3d::Zero()) {}
  Transformation(const Quaternion& q, const Eigen::Vector3d& t) : q_(q), t_(t) {}
  Transformation(const Eigen::Quaterniond& q, const Eigen::Vector3d& t) : q_(q), t_(t) {}
  void setIdentity() { *this = Transformation(); }
  const Eigen::Vector3d& getPosition() const { return t_; }
  Eigen::Vector3d& getPosition() { return t_; }
  const Quaternion& getRotation() const { return q_; }
  const Eigen::Quaterniond& getEigenQuaternion() const { return q_.toImplementation(); }
  Eigen::Matrix3d getRotationMatrix() const { return q_.getRotationMatrix(); }
  Eigen::Matrix4d getTransformationMatrix() const {
    Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
    m.topLeftCorner<3, 3>() = getRotationMatrix();
    m.topRightCorner<3, 1>() = t_;
    return m;
  }
  Transformation inverse() const {
    const Quaternion q = q_.inverse();
    return Transformation(q, -q.rotate(t_));
  }
  Eigen::Vector3d transform(const Eigen::Vector3d& v) const { return q_.rotate(v) + t_; }
  Eigen::Vector3d operator*(const Eigen::Vector3d& v) const { return transform(v); }
  Transformation operator*(const Transformation& o) const {
    return Transformation(q_.toImplementation() * o.q_.toImplementation(), transform(o.t_));
  }
  Eigen::Matrix3Xd transformVectorized(const Eigen::Matrix3Xd& v) const {
    return (getRotationMatrix() * v).colwise() + t_;
  }

 private:
  Quaternion q_;
  Eigen::Vector3d t_;
};

}  // namespace aslam

#endif  // STANDIN_POSE_TYPES_H_
