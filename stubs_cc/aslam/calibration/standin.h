// Stand-in for the continuous-time batch calibration: it records what it is given in the file
// named by STANDIN_LOG and "finds" the extrinsics in the file named by STANDIN_RESULT (delay,
// x, y, z, i, j, k, w), or fails if there is none.
#ifndef STANDIN_CALIBRATION_H_
#define STANDIN_CALIBRATION_H_

#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <initializer_list>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

#include <Eigen/Core>

#include <sm/BoostPropertyTree.hpp>
#include <standin/world.h>

namespace sm {
namespace kinematics {
inline Eigen::Vector4d quatInv(const Eigen::Vector4d& q) {
  return Eigen::Vector4d(-q(0), -q(1), -q(2), q(3));
}
}  // namespace kinematics
}  // namespace sm

namespace aslam {
namespace calibration {

using sm::value_store::LayeredValueStore;
using sm::value_store::PrefixedValueStore;
using sm::value_store::ValueStoreRef;

// Nanoseconds.
class Timestamp {
 public:
  Timestamp() : ns_(0) {}
  Timestamp(double seconds) : ns_(std::llround(seconds * 1e9)) {}
  explicit operator double() const { return ns_ * 1e-9; }
  int64_t getNumerator() const { return ns_; }
  Timestamp& operator+=(double seconds) {
    ns_ += std::llround(seconds * 1e9);
    return *this;
  }
  Timestamp operator+(double seconds) const { return Timestamp(*this) += seconds; }
  double operator-(const Timestamp& o) const { return (ns_ - o.ns_) * 1e-9; }
  bool operator<(const Timestamp& o) const { return ns_ < o.ns_; }
  bool operator<=(const Timestamp& o) const { return ns_ <= o.ns_; }
  bool operator>(const Timestamp& o) const { return ns_ > o.ns_; }
  bool operator>=(const Timestamp& o) const { return ns_ >= o.ns_; }
  bool operator==(const Timestamp& o) const { return ns_ == o.ns_; }
  bool operator!=(const Timestamp& o) const { return ns_ != o.ns_; }

 private:
  int64_t ns_;
};

struct Interval {
  Timestamp start, end;
};

class Named {
 public:
  virtual ~Named() {}
  virtual const std::string& getName() const = 0;
};
class NamedMinimal : public virtual Named {
 public:
  explicit NamedMinimal(const std::string& name) : name_(name) {}
  const std::string& getName() const override { return name_; }

 private:
  std::string name_;
};
class Frame : public virtual Named {};

struct PoseMeasurement {
  bool outlier;
  Eigen::Vector4d q;
  Eigen::Vector3d t;
};
typedef std::vector<std::pair<Timestamp, PoseMeasurement>> PoseMeasurements;
struct Storage {
  std::map<std::string, PoseMeasurements> of;
};

class CalibrationVariable {
 public:
  CalibrationVariable(const ValueStoreRef& store, const std::string& key)
      : store_(store), key_(key) {}
  void updateStore() const {
    std::ostringstream text;
    text << std::setprecision(std::numeric_limits<double>::max_digits10) << value;
    if (!store_.set(key_, text.str())) throw std::runtime_error("no such value: " + key_);
  }
  const std::string& key() const { return key_; }
  double value = 0.;

 private:
  ValueStoreRef store_;
  std::string key_;
};

class Module {
 public:
  explicit Module(const std::string& name) : name_(name) {}
  virtual ~Module() {}
  const std::string& getName() const { return name_; }

 private:
  std::string name_;
};

class Model {
 public:
  virtual ~Model() {}
  std::vector<CalibrationVariable*> getCalibrationVariables() const {
    std::vector<CalibrationVariable*> out;
    for (auto& v : variables) out.push_back(v.get());
    return out;
  }
  std::vector<std::shared_ptr<CalibrationVariable>> variables;
  std::vector<std::string> modules;
};

class FrameGraphModel : public Model {
 public:
  FrameGraphModel(const ValueStoreRef& store, std::nullptr_t, const std::vector<Frame*>& frames)
      : store_(store) {
    standin::log() << "model";
    for (Frame* f : frames) standin::log() << " " << f->getName();
    standin::log() << std::endl;
    for (const char* key : {"delay", "translation/x", "translation/y", "translation/z",
                            "rotation/i", "rotation/j", "rotation/k", "rotation/w"})
      variables.emplace_back(
          new CalibrationVariable(store.getChild("pose2"), key));
  }
  // The settings of every module as the model sees them.
  template <typename... Modules>
  void addModulesAndInit(Modules&... added) {
    modules = {added.getName()...};
    for (const std::string& m : modules) standin::log() << "module " << m << std::endl;
    const char* keys = std::getenv("STANDIN_KEYS");
    std::istringstream list(keys ? keys : "");
    std::string key, value;
    while (list >> key)
      standin::log() << "setting " << key << " "
                   << (store_.get(key, &value) ? value : std::string("-")) << std::endl;
  }

 private:
  ValueStoreRef store_;
};

struct ModelAtTime {
  Timestamp t;
};
struct Transformation {
  Eigen::Vector4d q_;
  Eigen::Vector3d t_;
  const Eigen::Vector4d& q() const { return q_; }
  const Eigen::Vector3d& t() const { return t_; }
};

class Sensor : public Module {
 public:
  using Module::Module;
  // The refined motion: a quarter turn about an axis per sensor, positions from the time.
  Transformation getTransformationTo(const ModelAtTime& at, const Frame& frame) const {
    const double s = std::sqrt(0.5), t = static_cast<double>(at.t);
    const bool first = getName() == "pose1";
    Transformation T;
    T.q_ = first ? Eigen::Vector4d(s, 0., 0., s) : Eigen::Vector4d(0., 0.6, 0., 0.8);
    T.t_ = Eigen::Vector3d(t, first ? 1. : 2., frame.getName() == "world" ? 0.25 : 7.);
    return T;
  }
};

class PoseSensor : public Sensor {
 public:
  enum OutlierTag { Outlier };
  PoseSensor(Model&, const std::string& name, const ValueStoreRef&) : Sensor(name) {}
  void addMeasurement(Timestamp t, const Eigen::Vector4d& q, const Eigen::Vector3d& p,
                      Storage& storage) const {
    storage.of[getName()].push_back({t, PoseMeasurement{false, q, p}});
  }
  void addMeasurement(Timestamp t, OutlierTag, Storage& storage) const {
    storage.of[getName()].push_back(
        {t, PoseMeasurement{true, Eigen::Vector4d::Zero(), Eigen::Vector3d::Zero()}});
  }
  const PoseMeasurements& getAllMeasurements(Storage& storage) const {
    return storage.of[getName()];
  }
};

class PoseTrajectory : public Module {
 public:
  PoseTrajectory(Model&, const std::string& name, const ValueStoreRef&) : Module(name) {}
};

class CalibratorI {
 public:
  CalibratorI(const ValueStoreRef& store, const std::shared_ptr<Model>& model) : model_(model) {
    std::string value;
    for (const char* key : {"timeBaseSensor", "estimator/optimizer/maxIterations"})
      standin::log() << "calibrator " << key << " "
                   << (store.get(key, &value) ? value : std::string("-")) << std::endl;
  }
  Storage& getCurrentStorage() { return storage_; }
  void addMeasurementTimestamp(Timestamp t, const Sensor& sensor) {
    standin::log() << "interval " << sensor.getName() << " " << t.getNumerator() << std::endl;
    if (times_.empty() || t < interval_.start) interval_.start = t;
    if (times_.empty() || t > interval_.end) interval_.end = t;
    times_.push_back(t);
  }
  const Interval& getCurrentEffectiveBatchInterval() const { return interval_; }
  ModelAtTime getModelAt(Timestamp t, int, std::initializer_list<int>) const {
    return ModelAtTime{t};
  }
  void calibrate() {
    for (auto& sensor : storage_.of)
      for (auto& m : sensor.second) {
        standin::log() << "pose " << sensor.first << " " << m.first.getNumerator();
        if (m.second.outlier)
          standin::log() << " outlier";
        else
          for (double v : {m.second.t(0), m.second.t(1), m.second.t(2), m.second.q(0),
                           m.second.q(1), m.second.q(2), m.second.q(3)})
            standin::log() << " " << v;
        standin::log() << std::endl;
      }
    if (times_.empty()) throw std::runtime_error("no batch interval");
    const char* path = std::getenv("STANDIN_RESULT");
    std::ifstream in(path ? path : "");
    for (CalibrationVariable* v : model_->getCalibrationVariables())
      if (!(in >> v->value)) throw std::runtime_error("the optimisation failed");
    standin::log() << "calibrated" << std::endl;
  }

 private:
  std::shared_ptr<Model> model_;
  Storage storage_;
  std::vector<Timestamp> times_;
  Interval interval_;
};

inline std::unique_ptr<CalibratorI> createBatchCalibrator(const ValueStoreRef& store,
                                                          const std::shared_ptr<Model>& model) {
  return std::unique_ptr<CalibratorI>(new CalibratorI(store, model));
}

}  // namespace calibration
}  // namespace aslam

#endif  // STANDIN_CALIBRATION_H_
