// Stand-ins for the libraries of the target extractor (rosbag, cv_bridge, OpenCV, aslam).
//
// A recording is a text file with one message per line.  Images show a binary code; the
// detector reads it and finds the corners listed for that code in HEC_OBSERVATIONS, the
// pose estimator returns the outcome listed there.  What the program hands to the
// libraries is appended to HEC_TRACE.
#ifndef HEC_EXTRACTOR_H_
#define HEC_EXTRACTOR_H_

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <limits>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/StdVector>
#include <glog/logging.h>

namespace hec {
inline std::ofstream& trace() {
  static std::ofstream out(std::getenv("HEC_TRACE"));
  out << std::setprecision(17);
  return out;
}
struct Outcome {
  int code;
  std::vector<int> ids;
  std::vector<Eigen::Vector2d> corners;
  bool success;
  std::vector<int> inliers;
  double q[4];
  double t[3];
};
inline const std::vector<Outcome>& outcomes() {
  static const std::vector<Outcome> all = [] {
    std::vector<Outcome> result;
    std::ifstream in(std::getenv("HEC_OBSERVATIONS"));
    Outcome o;
    while (in >> o.code) {
      size_t n = 0;
      in >> n;
      o.ids.resize(n);
      o.corners.resize(n);
      for (size_t i = 0; i < n; ++i) {
        in >> o.ids[i] >> o.corners[i].x() >> o.corners[i].y();
      }
      in >> o.success >> n;
      o.inliers.resize(n);
      for (int& i : o.inliers) {
        in >> i;
      }
      for (double& v : o.q) {
        in >> v;
      }
      for (double& v : o.t) {
        in >> v;
      }
      result.push_back(o);
    }
    return result;
  }();
  return all;
}
}  // namespace hec

namespace ros {
struct Time {
  uint32_t sec = 0, nsec = 0;
  Time() = default;
  Time(uint32_t s, uint32_t ns) : sec(s), nsec(ns) {}
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  uint64_t toNSec() const { return static_cast<uint64_t>(sec) * 1000000000ull + nsec; }
};
}  // namespace ros

namespace std_msgs {
struct Header {
  uint32_t seq = 0;
  ros::Time stamp;
  std::string frame_id;
};
}  // namespace std_msgs

namespace sensor_msgs {
struct Image {
  typedef std::shared_ptr<Image> Ptr;
  typedef std::shared_ptr<const Image> ConstPtr;
  std_msgs::Header header;
  uint32_t height = 0, width = 0;
  std::string encoding;
  uint8_t is_bigendian = 0;
  uint32_t step = 0;
  std::vector<uint8_t> data;
};
typedef Image::Ptr ImagePtr;
typedef Image::ConstPtr ImageConstPtr;
namespace image_encodings {
const std::string MONO8 = "mono8";
const std::string MONO16 = "mono16";
const std::string RGB8 = "rgb8";
const std::string BGR8 = "bgr8";
const std::string TYPE_8UC1 = "8UC1";
const std::string TYPE_16UC1 = "16UC1";
}  // namespace image_encodings
}  // namespace sensor_msgs

namespace rosbag {
namespace bagmode {
enum BagMode { Write = 1, Read = 2, Append = 4 };
}
struct BagException : std::runtime_error {
  using std::runtime_error::runtime_error;
};
typedef BagException BagIOException;

class MessageInstance {
 public:
  template <typename T>
  std::shared_ptr<T> instantiate() const;
  const std::string& getTopic() const { return topic; }
  const std::string& getDataType() const { return type; }
  ros::Time getTime() const { return time; }

  std::string topic, type;
  ros::Time time;
  sensor_msgs::Image image;
};
template <>
inline std::shared_ptr<sensor_msgs::Image> MessageInstance::instantiate<sensor_msgs::Image>() const {
  return type == "sensor_msgs/Image" ? std::make_shared<sensor_msgs::Image>(image) : nullptr;
}

class Bag {
 public:
  Bag() = default;
  explicit Bag(const std::string& path, uint32_t mode = bagmode::Read) { open(path, mode); }
  void open(const std::string& path, uint32_t mode = bagmode::Read) {
    std::ifstream in(path);
    if (mode != bagmode::Read || !in.good()) {
      throw BagIOException("Error opening file: " + path);
    }
    MessageInstance m;
    int bigendian = 0;
    while (in >> m.topic >> m.type >> m.time.sec >> m.time.nsec >> m.image.header.stamp.sec >>
           m.image.header.stamp.nsec >> m.image.encoding >> bigendian >> m.image.height >>
           m.image.width >> m.image.step) {
      m.image.is_bigendian = static_cast<uint8_t>(bigendian);
      m.image.header.seq = static_cast<uint32_t>(messages.size());
      m.image.data.resize(static_cast<size_t>(m.image.step) * m.image.height);
      for (uint8_t& byte : m.image.data) {
        int value = 0;
        in >> value;
        byte = static_cast<uint8_t>(value);
      }
      messages.push_back(m);
    }
  }
  void close() {}

  std::vector<MessageInstance> messages;
};

struct TopicQuery {
  explicit TopicQuery(const std::string& topic) : topics{topic} {}
  explicit TopicQuery(const std::vector<std::string>& t) : topics(t) {}
  bool operator()(const MessageInstance& m) const {
    return std::find(topics.begin(), topics.end(), m.topic) != topics.end();
  }
  std::vector<std::string> topics;
};

class View {
 public:
  typedef std::vector<MessageInstance>::const_iterator iterator;
  typedef iterator const_iterator;
  View() = default;
  explicit View(const Bag& bag) : messages_(bag.messages) {}
  View(const Bag& bag, const TopicQuery& query) { addQuery(bag, query); }
  void addQuery(const Bag& bag, const TopicQuery& query) {
    for (const MessageInstance& m : bag.messages) {
      if (query(m)) {
        messages_.push_back(m);
      }
    }
  }
  iterator begin() const { return messages_.begin(); }
  iterator end() const { return messages_.end(); }
  uint32_t size() const { return static_cast<uint32_t>(messages_.size()); }

 private:
  std::vector<MessageInstance> messages_;
};
}  // namespace rosbag

#define CV_8UC1 0
#define CV_16UC1 2
#define CV_8UC3 16
#define CV_GRAY2BGR 8

namespace cv {
enum { NORM_MINMAX = 32, COLOR_GRAY2BGR = 8 };
struct Point {
  Point(int px, int py) : x(px), y(py) {}
  int x, y;
};
struct Scalar {
  Scalar(double, double = 0., double = 0., double = 0.) {}
};
class Mat {
 public:
  Mat() = default;
  Mat(int r, int c, int t)
      : rows(r), cols(c), values(std::make_shared<std::vector<uint16_t>>(r * c, 0)), type_(t) {}
  int type() const { return type_; }
  bool empty() const { return rows * cols == 0; }
  Mat clone() const {
    Mat copy(rows, cols, type_);
    if (values) {
      *copy.values = *values;
    }
    return copy;
  }
  int rows = 0, cols = 0;
  std::shared_ptr<std::vector<uint16_t>> values;

 private:
  int type_ = CV_8UC1;
};
inline void normalize(const Mat& in, Mat& out, double alpha, double beta, int kind) {
  if (kind != NORM_MINMAX) {
    throw std::runtime_error("unexpected kind of normalisation");
  }
  Mat result = in.clone();
  if (!in.empty()) {
    const double low = *std::min_element(in.values->begin(), in.values->end());
    const double high = *std::max_element(in.values->begin(), in.values->end());
    const double from = std::min(alpha, beta), to = std::max(alpha, beta);
    const double top = in.type() == CV_16UC1 ? 65535. : 255.;
    const double scale = high > low ? (to - from) / (high - low) : 0.;
    for (uint16_t& v : *result.values) {
      v = static_cast<uint16_t>(std::min(top, std::max(0., std::round((v - low) * scale + from))));
    }
  }
  out = result;
}
inline void cvtColor(const Mat& in, Mat& out, int) { out = Mat(in.rows, in.cols, CV_8UC3); }
inline void namedWindow(const std::string&, int = 0) {}
inline void putText(Mat&, const std::string& text, Point, int, double, Scalar, int = 1, int = 8, bool = false) {
  hec::trace() << "text " << text << "\n";
}
inline void imshow(const std::string&, const Mat&) { hec::trace() << "shown\n"; }
inline int waitKey(int = 0) { return -1; }
inline void destroyAllWindows() {}
}  // namespace cv

namespace cv_bridge {
struct Exception : std::runtime_error {
  using std::runtime_error::runtime_error;
};
class CvImage {
 public:
  std_msgs::Header header;
  std::string encoding;
  cv::Mat image;

  void toImageMsg(sensor_msgs::Image& message) const {
    message.header = header;
    message.height = image.rows;
    message.width = image.cols;
    message.encoding = encoding;
    message.is_bigendian = 0;
    const bool wide = image.type() == CV_16UC1;
    message.step = image.cols * (wide ? 2 : 1);
    message.data.clear();
    for (uint16_t v : *image.values) {
      message.data.push_back(v & 0xff);
      if (wide) {
        message.data.push_back(v >> 8);
      }
    }
  }
  sensor_msgs::ImagePtr toImageMsg() const {
    auto message = std::make_shared<sensor_msgs::Image>();
    toImageMsg(*message);
    return message;
  }
};
typedef std::shared_ptr<CvImage> CvImagePtr;
typedef std::shared_ptr<const CvImage> CvImageConstPtr;

inline CvImagePtr toCvCopy(const sensor_msgs::Image& m, const std::string& encoding = std::string()) {
  const std::string wanted = encoding.empty() ? m.encoding : encoding;
  const bool wide = m.encoding == "mono16" || m.encoding == "16UC1";
  const bool colour = m.encoding == "rgb8" || m.encoding == "bgr8";
  if (!wide && !colour && m.encoding != "mono8" && m.encoding != "8UC1") {
    throw Exception("Unrecognized image encoding [" + m.encoding + "]");
  }
  if (wanted != m.encoding && (m.encoding == "16UC1" || m.encoding == "8UC1")) {
    throw Exception("[" + m.encoding + "] is not a color format. but [" + wanted +
                    "] is. The conversion does not make sense");
  }
  const bool to_wide = wanted == "mono16" || wanted == "16UC1";
  if (!to_wide && wanted != "mono8" && wanted != "8UC1") {
    throw Exception("unexpected conversion to " + wanted);
  }
  const size_t bytes = wide ? 2 : colour ? 3 : 1;
  if (m.step < m.width * bytes || m.data.size() < static_cast<size_t>(m.step) * m.height) {
    throw Exception("Image is wrongly formed");
  }
  auto result = std::make_shared<CvImage>();
  result->header = m.header;
  result->encoding = wanted;
  result->image = cv::Mat(m.height, m.width, to_wide ? CV_16UC1 : CV_8UC1);
  for (uint32_t r = 0; r < m.height; ++r) {
    for (uint32_t c = 0; c < m.width; ++c) {
      const uint8_t* p = &m.data[r * m.step + c * bytes];
      double value = p[0];
      if (wide) {
        value = m.is_bigendian ? 256 * p[0] + p[1] : p[0] + 256 * p[1];
      } else if (colour) {
        value = m.encoding == "rgb8" ? .299 * p[0] + .587 * p[1] + .114 * p[2]
                                     : .299 * p[2] + .587 * p[1] + .114 * p[0];
      }
      value *= wide && !to_wide ? 255. / 65535. : to_wide && !wide ? 65535. / 255. : 1.;
      (*result->image.values)[r * m.width + c] = static_cast<uint16_t>(std::round(value));
    }
  }
  return result;
}
inline CvImagePtr toCvCopy(const sensor_msgs::ImageConstPtr& m, const std::string& encoding = std::string()) {
  return toCvCopy(*m, encoding);
}
inline CvImageConstPtr toCvShare(const sensor_msgs::ImageConstPtr& m, const std::string& encoding = std::string()) {
  return toCvCopy(*m, encoding);
}
}  // namespace cv_bridge

namespace aslam {
class Quaternion {
 public:
  Quaternion() : q_(Eigen::Quaterniond::Identity()) {}
  explicit Quaternion(const Eigen::Quaterniond& q) : q_(q) {}
  double w() const { return q_.w(); }
  double x() const { return q_.x(); }
  double y() const { return q_.y(); }
  double z() const { return q_.z(); }
  Eigen::Matrix3d getRotationMatrix() const { return q_.toRotationMatrix(); }
  Eigen::Quaterniond toImplementation() const { return q_; }
  const Eigen::Quaterniond& eigenQuaternion() const { return q_; }
  Quaternion inverse() const { return Quaternion(q_.conjugate()); }

 private:
  Eigen::Quaterniond q_;
};

class Transformation {
 public:
  Transformation() : q_(Eigen::Quaterniond::Identity()), t_(Eigen::Vector3d::Zero()) {}
  Transformation(const Eigen::Quaterniond& q, const Eigen::Vector3d& t) : q_(q), t_(t) {}
  Eigen::Matrix3d getRotationMatrix() const { return q_.toRotationMatrix(); }
  const Eigen::Vector3d& getPosition() const { return t_; }
  Quaternion getRotation() const { return Quaternion(q_); }
  const Eigen::Quaterniond& getEigenQuaternion() const { return q_; }
  Eigen::Matrix4d getTransformationMatrix() const {
    Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
    m.topLeftCorner<3, 3>() = getRotationMatrix();
    m.topRightCorner<3, 1>() = t_;
    return m;
  }
  Transformation inverse() const {
    const Eigen::Quaterniond q = q_.conjugate();
    return Transformation(q, -(q * t_));
  }
  Transformation inverted() const { return inverse(); }
  Transformation operator*(const Transformation& other) const {
    return Transformation(q_ * other.q_, q_ * other.t_ + t_);
  }
  Eigen::Vector3d transform(const Eigen::Vector3d& p) const { return q_ * p + t_; }
  Eigen::Vector3d operator*(const Eigen::Vector3d& p) const { return transform(p); }
  Eigen::Matrix3Xd transformVectorized(const Eigen::Matrix3Xd& points) const {
    return (getRotationMatrix() * points).colwise() + t_;
  }

 private:
  Eigen::Quaterniond q_;
  Eigen::Vector3d t_;
};

struct ProjectionResult {
  enum Status { KEYPOINT_VISIBLE, KEYPOINT_OUTSIDE_IMAGE_BOX, POINT_BEHIND_CAMERA, UNINITIALIZED };
  Status status = UNINITIALIZED;
  bool isKeypointVisible() const { return status == KEYPOINT_VISIBLE; }
  explicit operator bool() const { return isKeypointVisible(); }
};

class Camera {
 public:
  // The program loads the calibration through a pointer that was never set; see the known
  // finding.  This pointer then creates the camera so that the rest can be examined.
  class Ptr {
   public:
    Ptr() = default;
    Ptr(std::nullptr_t) {}
    Ptr(const std::shared_ptr<Camera>& camera) : camera_(camera) {}
    explicit Ptr(Camera* camera) : camera_(camera) {}
    Camera* operator->() const { return get(); }
    Camera& operator*() const { return *get(); }
    Camera* get() const {
      if (!camera_) {
        hec::trace() << "camera pointer not set\n";
        camera_ = std::make_shared<Camera>();
      }
      return camera_.get();
    }
    void reset(Camera* camera) { camera_.reset(camera); }
    explicit operator bool() const { return static_cast<bool>(camera_); }
    bool operator==(std::nullptr_t) const { return !camera_; }
    bool operator!=(std::nullptr_t) const { return static_cast<bool>(camera_); }

   private:
    mutable std::shared_ptr<Camera> camera_;
  };
  typedef Ptr ConstPtr;

  bool deserializeFromFile(const std::string& path) {
    std::ifstream in(path);
    loaded_ = static_cast<bool>(in >> f_ >> cu_ >> cv_ >> width_ >> height_);
    hec::trace() << "camera " << loaded_ << " " << path << "\n";
    return loaded_;
  }
  static Ptr loadFromYaml(const std::string& path) {
    auto camera = std::make_shared<Camera>();
    return camera->deserializeFromFile(path) ? Ptr(camera) : Ptr();
  }
  ProjectionResult project3(const Eigen::Vector3d& p, Eigen::Vector2d* keypoint) const {
    ProjectionResult result;
    *keypoint << f_ * p.x() / p.z() + cu_, f_ * p.y() / p.z() + cv_;
    const bool inside = keypoint->x() >= 0 && keypoint->y() >= 0 && keypoint->x() < width_ &&
                        keypoint->y() < height_;
    result.status = p.z() <= 0 ? ProjectionResult::POINT_BEHIND_CAMERA
                               : inside ? ProjectionResult::KEYPOINT_VISIBLE
                                        : ProjectionResult::KEYPOINT_OUTSIDE_IMAGE_BOX;
    return result;
  }
  void project3Vectorized(const Eigen::Matrix3Xd& points, Eigen::Matrix2Xd* keypoints,
                          std::vector<ProjectionResult>* results) const {
    keypoints->resize(Eigen::NoChange, points.cols());
    results->resize(points.cols());
    for (int i = 0; i < points.cols(); ++i) {
      Eigen::Vector2d keypoint;
      (*results)[i] = project3(points.col(i), &keypoint);
      keypoints->col(i) = keypoint;
    }
  }
  bool loaded() const { return loaded_; }
  double focalLength() const { return f_; }

 private:
  bool loaded_ = false;
  double f_ = 0., cu_ = 0., cv_ = 0., width_ = 0., height_ = 0.;
};

namespace calibration {
class TargetAprilGrid {
 public:
  typedef std::shared_ptr<TargetAprilGrid> Ptr;
  typedef std::shared_ptr<const TargetAprilGrid> ConstPtr;
  struct TargetConfiguration {
    size_t num_tag_rows = 4;
    size_t num_tag_cols = 6;
    double tag_size_meter = 0.1;
    double tag_inbetween_space_meter = 0.03;
    size_t black_tag_border_bits = 2;
  };
  explicit TargetAprilGrid(const TargetConfiguration& config) : config_(config) {
    hec::trace() << "target " << config.num_tag_rows << " " << config.num_tag_cols << " "
                 << config.tag_size_meter << " " << config.tag_inbetween_space_meter << " "
                 << config.black_tag_border_bits << "\n";
  }
  Eigen::Vector3d point(int id) const {
    const int columns = 2 * static_cast<int>(config_.num_tag_cols);
    const int r = id / columns, c = id % columns;
    const double pitch = config_.tag_size_meter + config_.tag_inbetween_space_meter;
    return Eigen::Vector3d((c / 2) * pitch + (c % 2) * config_.tag_size_meter,
                           (r / 2) * pitch + (r % 2) * config_.tag_size_meter, 0.);
  }
  int size() const { return static_cast<int>(4 * config_.num_tag_rows * config_.num_tag_cols); }

 private:
  TargetConfiguration config_;
};

class TargetObservation {
 public:
  typedef std::shared_ptr<TargetObservation> Ptr;
  typedef std::shared_ptr<const TargetObservation> ConstPtr;
  TargetObservation(const TargetAprilGrid::Ptr& target, const hec::Outcome& outcome)
      : target_(target), ids_(outcome.ids.size()), corners_(2, outcome.ids.size()) {
    for (size_t i = 0; i < outcome.ids.size(); ++i) {
      ids_(i) = outcome.ids[i];
      corners_.col(i) = outcome.corners[i];
    }
  }
  size_t numObservedCorners() const { return ids_.size(); }
  const Eigen::VectorXi& getObservedCornerIds() const { return ids_; }
  const Eigen::Matrix2Xd& getObservedCorners() const { return corners_; }
  Eigen::Matrix3Xd getCorrespondingTargetPoints() const {
    Eigen::Matrix3Xd points(3, ids_.size());
    for (int i = 0; i < ids_.size(); ++i) {
      points.col(i) = target_->point(ids_(i));
    }
    return points;
  }
  void drawCornersIntoImage(cv::Mat* image) const {
    if (image->type() != CV_8UC3) {
      throw std::runtime_error("corners are drawn into a colour image");
    }
    hec::trace() << "drawn " << ids_.size() << "\n";
  }

 private:
  TargetAprilGrid::Ptr target_;
  Eigen::VectorXi ids_;
  Eigen::Matrix2Xd corners_;
};

class DetectorAprilGrid {
 public:
  struct DetectorConfiguration {
    bool run_subpixel_refinement = true;
  };
  DetectorAprilGrid(const TargetAprilGrid::Ptr& target, const DetectorConfiguration&)
      : target_(target) {}
  TargetObservation::Ptr detectTargetInImage(const cv::Mat& image) const {
    if (image.type() != CV_8UC1) {
      throw std::runtime_error("the detector needs an 8 bit grey image");
    }
    int code = 0;
    const std::vector<uint16_t>& v = *image.values;
    if (v.size() > 2 && v[0] <= 127 && v[1] > 127) {
      for (size_t i = 2; i < v.size(); ++i) {
        code = 2 * code + (v[i] > 127);
      }
    }
    hec::trace() << "image " << code << "\n";
    for (const hec::Outcome& o : hec::outcomes()) {
      if (code != 0 && o.code == code) {
        return std::make_shared<TargetObservation>(target_, o);
      }
    }
    return nullptr;
  }

 private:
  TargetAprilGrid::Ptr target_;
};
}  // namespace calibration

namespace geometric_vision {
class PnpPoseEstimator {
 public:
  explicit PnpPoseEstimator(bool refine) : refine_(refine) {}
  bool absolutePoseRansacPinholeCam(const Eigen::Matrix2Xd& measurements,
                                    const Eigen::Matrix3Xd& positions, double pixel_sigma,
                                    int max_iterations, const Camera::Ptr& camera,
                                    Transformation* T_G_C, std::vector<int>* inliers,
                                    int* num_iterations) const {
    hec::trace() << "pnp " << camera->loaded() << " " << camera->focalLength() << " "
                 << measurements.cols();
    if (measurements.cols() != positions.cols() || pixel_sigma <= 0. || max_iterations < 1) {
      throw std::runtime_error("bad arguments of the pose estimation");
    }
    for (int i = 0; i < positions.cols(); ++i) {
      hec::trace() << " " << measurements(0, i) << " " << measurements(1, i) << " "
                   << positions(0, i) << " " << positions(1, i) << " " << positions(2, i);
    }
    hec::trace() << "\n";
    for (const hec::Outcome& o : hec::outcomes()) {
      if (!o.corners.empty() && measurements.cols() > 0 && o.corners[0] == measurements.col(0)) {
        *inliers = o.inliers;
        *T_G_C = Transformation(Eigen::Quaterniond(o.q[3], o.q[0], o.q[1], o.q[2]),
                                Eigen::Vector3d(o.t[0], o.t[1], o.t[2]));
        *num_iterations = 1;
        return o.success;
      }
    }
    inliers->clear();
    return false;
  }

 private:
  bool refine_;
};
}  // namespace geometric_vision
}  // namespace aslam

#endif
