// Stand-ins for the libraries of the batch estimator (aslam_calibration, sm, ros).
//
// The calibrator records what it is given in HEC_TRACE, reads the settings listed in
// HEC_KEYS through every store it was given and returns the results of HEC_RESULT.
#ifndef HEC_ESTIMATOR_H_
#define HEC_ESTIMATOR_H_

#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

#include <Eigen/Core>
#include <boost/property_tree/info_parser.hpp>
#include <boost/property_tree/json_parser.hpp>
#include <boost/property_tree/ptree.hpp>
#include <gflags/gflags.h>
#include <glog/logging.h>

namespace hec {
inline std::ofstream& trace() {
  static std::ofstream out(std::getenv("HEC_TRACE"));
  out << std::setprecision(17);
  return out;
}
inline const std::vector<std::string>& keys() {
  static const std::vector<std::string> all = [] {
    std::vector<std::string> result;
    std::ifstream in(std::getenv("HEC_KEYS"));
    std::string key;
    while (in >> key) {
      result.push_back(key);
    }
    return result;
  }();
  return all;
}
// Lines "variable <key> <value>" and "sensor <name> <3 start> <3 velocity> <axis> <angle> <rate>".
struct Result {
  std::map<std::string, std::string> variables;
  std::map<std::string, std::vector<double>> sensors;
};
inline const Result& result() {
  static const Result all = [] {
    Result r;
    std::ifstream in(std::getenv("HEC_RESULT"));
    std::string kind, name, value;
    while (in >> kind >> name) {
      if (kind == "variable") {
        in >> value;
        r.variables[name] = value;
      } else {
        std::vector<double>& v = r.sensors[name];
        v.resize(11);
        for (double& x : v) {
          in >> x;
        }
      }
    }
    return r;
  }();
  return all;
}
}  // namespace hec

namespace ros {
namespace package {
inline std::string getPath(const std::string& name) {
  const std::string base = std::getenv("HEC_PACKAGES");
  return base + "/" + name;
}
}  // namespace package
}  // namespace ros

namespace sm {
namespace kinematics {
inline Eigen::Vector4d quatInv(const Eigen::Vector4d& q) {
  return Eigen::Vector4d(-q[0], -q[1], -q[2], q[3]);
}
inline Eigen::Vector4d qinv(const Eigen::Vector4d& q) { return quatInv(q); }
}  // namespace kinematics

struct null_deleter {
  template <typename T>
  void operator()(T*) const {}
};

class ValueStore {
 public:
  virtual ~ValueStore() {}
  virtual bool get(const std::string& key, std::string* value) const = 0;
  virtual bool set(const std::string& key, const std::string& value) = 0;
};

// Copies share their content.
class BoostPropertyTree {
 public:
  typedef boost::property_tree::ptree Tree;
  BoostPropertyTree() : tree_(std::make_shared<Tree>()) {}
  explicit BoostPropertyTree(const std::string&) : BoostPropertyTree() {}
  void load(const std::string& path) {
    if (isJson(path)) {
      boost::property_tree::read_json(path, *tree_);
    } else {
      boost::property_tree::read_info(path, *tree_);
    }
  }
  void loadStrings(const std::vector<std::string>& settings) {
    for (const std::string& setting : settings) {
      const size_t equal = setting.find('=');
      if (equal == std::string::npos) {
        throw std::runtime_error("not a setting: " + setting);
      }
      tree_->put(Tree::path_type(setting.substr(0, equal), '/'), setting.substr(equal + 1));
    }
  }
  std::string asInfoString() const {
    std::ostringstream out;
    boost::property_tree::write_info(out, *tree_);
    return out.str();
  }
  void save(const std::string& path) const {
    if (isJson(path)) {
      boost::property_tree::write_json(path, *tree_);
    } else {
      boost::property_tree::write_info(path, *tree_);
    }
  }
  void saveJson(const std::string& path) const { boost::property_tree::write_json(path, *tree_); }
  const std::shared_ptr<Tree>& tree() const { return tree_; }

 private:
  static bool isJson(const std::string& path) {
    return path.size() >= 5 && path.compare(path.size() - 5, 5, ".json") == 0;
  }
  std::shared_ptr<Tree> tree_;
};

class TreeStore : public ValueStore {
 public:
  explicit TreeStore(const BoostPropertyTree& tree) : tree_(tree) {}
  bool get(const std::string& key, std::string* value) const override {
    const auto node = tree_.tree()->get_child_optional(BoostPropertyTree::Tree::path_type(key, '/'));
    if (node && (node->empty() || !node->data().empty())) {
      *value = node->data();
      return true;
    }
    return false;
  }
  bool set(const std::string& key, const std::string& value) override {
    tree_.tree()->put(BoostPropertyTree::Tree::path_type(key, '/'), value);
    return true;
  }

 private:
  BoostPropertyTree tree_;
};

class ValueStoreRef {
 public:
  ValueStoreRef() = default;
  ValueStoreRef(const BoostPropertyTree& tree) : store_(std::make_shared<TreeStore>(tree)) {}
  explicit ValueStoreRef(ValueStore* store) : store_(store) {}
  explicit ValueStoreRef(const std::shared_ptr<ValueStore>& store) : store_(store) {}
  static ValueStoreRef fromFile(const std::string& path) {
    BoostPropertyTree tree;
    tree.load(path);
    return ValueStoreRef(tree);
  }
  ValueStoreRef getChild(const std::string& name) const;
  bool get(const std::string& key, std::string* value) const { return store_->get(key, value); }
  bool set(const std::string& key, const std::string& value) const { return store_->set(key, value); }
  bool hasKey(const std::string& key) const {
    std::string value;
    return get(key, &value);
  }

 private:
  std::shared_ptr<ValueStore> store_;
};

class PrefixedValueStore : public ValueStore {
 public:
  enum class PrefixMode { ADD, REMOVE };
  PrefixedValueStore(const ValueStoreRef& store, PrefixMode mode, const std::string& prefix)
      : store_(store), mode_(mode), prefix_(prefix + "/") {}
  bool get(const std::string& key, std::string* value) const override {
    std::string inner;
    return translate(key, &inner) && store_.get(inner, value);
  }
  bool set(const std::string& key, const std::string& value) override {
    std::string inner;
    return translate(key, &inner) && store_.set(inner, value);
  }

 private:
  bool translate(const std::string& key, std::string* inner) const {
    if (mode_ == PrefixMode::ADD) {
      *inner = prefix_ + key;
      return true;
    }
    if (key.compare(0, prefix_.size(), prefix_) != 0) {
      return false;
    }
    *inner = key.substr(prefix_.size());
    return true;
  }
  ValueStoreRef store_;
  PrefixMode mode_;
  std::string prefix_;
};

inline ValueStoreRef ValueStoreRef::getChild(const std::string& name) const {
  return ValueStoreRef(new PrefixedValueStore(*this, PrefixedValueStore::PrefixMode::ADD, name));
}

class LayeredValueStore : public ValueStore {
 public:
  template <typename... Stores>
  explicit LayeredValueStore(const ValueStoreRef& first, const Stores&... others)
      : layers_{first, others...} {}
  bool get(const std::string& key, std::string* value) const override {
    for (const ValueStoreRef& layer : layers_) {
      if (layer.get(key, value)) {
        return true;
      }
    }
    return false;
  }
  // A value is updated in the layer it comes from.
  bool set(const std::string& key, const std::string& value) override {
    for (const ValueStoreRef& layer : layers_) {
      if (layer.hasKey(key)) {
        return layer.set(key, value);
      }
    }
    return false;
  }

 private:
  std::vector<ValueStoreRef> layers_;
};
}  // namespace sm

namespace aslam {
namespace calibration {
using sm::BoostPropertyTree;
using sm::LayeredValueStore;
using sm::PrefixedValueStore;
using sm::ValueStore;
using sm::ValueStoreRef;

class Timestamp {
 public:
  Timestamp() : ns_(0) {}
  Timestamp(double seconds) : ns_(std::llround(seconds * 1e9)) {}
  explicit operator double() const { return 1e-9 * static_cast<double>(ns_); }
  Timestamp& operator+=(double seconds) {
    ns_ += std::llround(seconds * 1e9);
    return *this;
  }
  Timestamp& operator-=(double seconds) { return *this += -seconds; }
  friend Timestamp operator+(Timestamp t, double seconds) { return t += seconds; }
  friend double operator-(const Timestamp& a, const Timestamp& b) {
    return 1e-9 * static_cast<double>(a.ns_ - b.ns_);
  }
  bool operator<(const Timestamp& o) const { return ns_ < o.ns_; }
  bool operator<=(const Timestamp& o) const { return ns_ <= o.ns_; }
  bool operator>(const Timestamp& o) const { return ns_ > o.ns_; }
  bool operator>=(const Timestamp& o) const { return ns_ >= o.ns_; }
  bool operator==(const Timestamp& o) const { return ns_ == o.ns_; }
  bool operator!=(const Timestamp& o) const { return ns_ != o.ns_; }
  int64_t nanoseconds() const { return ns_; }

 private:
  int64_t ns_;
};
struct Interval {
  Timestamp start, end;
};
struct BatchInterval : Interval {};

class NamedMinimal {
 public:
  NamedMinimal(const std::string& name) : name_(name) {}
  const std::string& getName() const { return name_; }

 private:
  std::string name_;
};
class Frame {
 public:
  virtual ~Frame() {}
};

class CalibrationVariable {
 public:
  CalibrationVariable(const std::string& key, const ValueStoreRef& store) : key_(key), store_(store) {}
  void updateStore();

 private:
  std::string key_;
  ValueStoreRef store_;
};

inline bool& calibrated() {
  static bool done = false;
  return done;
}
inline Timestamp& batchStart() {
  static Timestamp start;
  return start;
}

class Model {
 public:
  virtual ~Model() {}
  std::vector<CalibrationVariable*> getCalibrationVariables() {
    std::vector<CalibrationVariable*> result;
    for (auto& v : variables) {
      result.push_back(v.get());
    }
    return result;
  }
  std::vector<std::unique_ptr<CalibrationVariable>> variables;
};

inline void traceSettings(const std::string& who, const ValueStoreRef& store) {
  for (const std::string& key : hec::keys()) {
    std::string value;
    if (store.get(key, &value)) {
      hec::trace() << "setting " << who << " " << key << " " << value << "\n";
    }
  }
}

class Module {
 public:
  Module(Model&, const std::string& name, const ValueStoreRef& store) : name_(name), store_(store) {}
  virtual ~Module() {}
  const std::string& getName() const { return name_; }
  virtual void init(Model& model) {
    (void)model;
    hec::trace() << "module " << name_ << "\n";
    traceSettings(name_, store_);
  }

 protected:
  std::string name_;
  ValueStoreRef store_;
};

class FrameGraphModel : public Model {
 public:
  FrameGraphModel(const ValueStoreRef& store, std::nullptr_t, std::initializer_list<const void*> frames = {})
      : store_(store) {
    hec::trace() << "model " << frames.size() << "\n";
    traceSettings("model", store);
  }
  template <typename... Modules>
  void addModulesAndInit(Modules&... modules) {
    const int done[] = {(modules.init(*this), 0)...};
    (void)done;
  }

 private:
  ValueStoreRef store_;
};

struct ModuleStorage {
  int id = 0;
};

struct ModelAtTime {
  Timestamp t;
};
class Transformation {
 public:
  Transformation(const Eigen::Vector4d& q, const Eigen::Vector3d& t) : q_(q), t_(t) {}
  const Eigen::Vector4d& q() const { return q_; }
  const Eigen::Vector3d& t() const { return t_; }

 private:
  Eigen::Vector4d q_;
  Eigen::Vector3d t_;
};

class Sensor : public Module {
 public:
  using Module::Module;
  void init(Model& model) override {
    Module::init(model);
    for (const char* key : {"delay", "rotation/i", "rotation/j", "rotation/k", "rotation/w",
                            "translation/x", "translation/y", "translation/z"}) {
      const std::string full = name_ + "/" + key;
      std::string used;
      const std::string group = full.substr(0, full.find('/', name_.size() + 1));
      if (store_.hasKey(full) && !(store_.get(group + "/used", &used) && used == "false")) {
        model.variables.emplace_back(new CalibrationVariable(full, store_));
      }
    }
  }
  template <typename FrameType>
  Transformation getTransformationTo(const ModelAtTime& at, const FrameType& to) const {
    const std::string& frame = static_cast<const NamedMinimal&>(to).getName();
    Eigen::Vector4d q(0., 0., 0., 1.);
    Eigen::Vector3d t(0., 0., 0.);
    const auto found = hec::result().sensors.find(name_);
    if (calibrated() && frame == "world" && found != hec::result().sensors.end()) {
      const std::vector<double>& v = found->second;
      const double s = at.t - batchStart();
      const double half = .5 * (v[9] + v[10] * s);
      t << v[0] + v[3] * s, v[1] + v[4] * s, v[2] + v[5] * s;
      q << v[6] * std::sin(half), v[7] * std::sin(half), v[8] * std::sin(half), std::cos(half);
    }
    return Transformation(q, t);
  }
};

class PoseSensor : public Sensor {
 public:
  enum OutlierFlag { Outlier };
  struct Measurement {
    bool outlier;
    Eigen::Vector4d q;
    Eigen::Vector3d t;
  };
  typedef std::vector<std::pair<Timestamp, Measurement>> Measurements;
  using Sensor::Sensor;
  void addMeasurement(Timestamp t, OutlierFlag, ModuleStorage&) {
    hec::trace() << "outlier " << name_ << " " << t.nanoseconds() << "\n";
    measurements_.emplace_back(t, Measurement{true, Eigen::Vector4d::Zero(), Eigen::Vector3d::Zero()});
  }
  void addMeasurement(Timestamp t, const Eigen::Vector4d& q, const Eigen::Vector3d& p, ModuleStorage&) {
    hec::trace() << "pose " << name_ << " " << t.nanoseconds();
    for (int i = 0; i < 3; ++i) {
      hec::trace() << " " << p[i];
    }
    for (int i = 0; i < 4; ++i) {
      hec::trace() << " " << q[i];
    }
    hec::trace() << "\n";
    measurements_.emplace_back(t, Measurement{false, q, p});
  }
  const Measurements& getAllMeasurements(const ModuleStorage&) const { return measurements_; }

 private:
  Measurements measurements_;
};
typedef PoseSensor PositionSensor;

class PoseTrajectory : public Module {
 public:
  using Module::Module;
};

class CalibratorI {
 public:
  CalibratorI(const ValueStoreRef& store, const std::shared_ptr<Model>& model) : model_(model) {
    traceSettings("calibrator", store);
  }
  ModuleStorage& getCurrentStorage() { return storage_; }
  void addMeasurementTimestamp(Timestamp t, const Sensor& sensor) {
    hec::trace() << "stamp " << sensor.getName() << " " << t.nanoseconds() << "\n";
    if (empty_ || t < interval_.start) {
      interval_.start = t;
    }
    if (empty_ || t > interval_.end) {
      interval_.end = t;
    }
    empty_ = false;
  }
  const BatchInterval& getCurrentEffectiveBatchInterval() const { return interval_; }
  void calibrate() {
    if (empty_) {
      LOG(FATAL) << "there is nothing to calibrate";
    }
    hec::trace() << "calibrate\n";
    batchStart() = interval_.start;
    calibrated() = true;
  }
  struct Simplification {};
  ModelAtTime getModelAt(Timestamp t, int, const Simplification&) const { return ModelAtTime{t}; }
  const Model& getModel() const { return *model_; }

 private:
  std::shared_ptr<Model> model_;
  ModuleStorage storage_;
  BatchInterval interval_;
  bool empty_ = true;
};
inline std::unique_ptr<CalibratorI> createBatchCalibrator(const ValueStoreRef& store,
                                                          const std::shared_ptr<Model>& model) {
  return std::unique_ptr<CalibratorI>(new CalibratorI(store, model));
}

inline void CalibrationVariable::updateStore() {
  const auto found = hec::result().variables.find(key_);
  if (calibrated() && found != hec::result().variables.end()) {
    store_.set(key_, found->second);
  }
}
}  // namespace calibration
}  // namespace aslam

#endif
