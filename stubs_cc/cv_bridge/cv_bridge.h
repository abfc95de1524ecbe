// Stand-in for cv_bridge and the few parts of OpenCV the extractor uses.
#ifndef STANDIN_CV_BRIDGE_H_
#define STANDIN_CV_BRIDGE_H_

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

#include <sensor_msgs/Image.h>
#include <sensor_msgs/image_encodings.h>
#include <standin/world.h>

#define CV_8UC1 0
#define CV_16UC1 2
#define CV_8UC3 16
#define CV_GRAY2BGR 8
#define CV_BGR2GRAY 6

namespace cv {

enum { NORM_INF = 1, NORM_L1 = 2, NORM_L2 = 4, NORM_MINMAX = 32 };
enum { COLOR_GRAY2BGR = CV_GRAY2BGR, COLOR_BGR2GRAY = CV_BGR2GRAY };

// Copies share the pixels, as in OpenCV.
struct Mat {
  int rows = 0, cols = 0, kind = CV_8UC1;
  std::shared_ptr<std::vector<int>> pixels;
  Mat() {}
  Mat(int r, int c, int type) { create(r, c, type); }
  void create(int r, int c, int type) {
    rows = r;
    cols = c;
    kind = type;
    pixels.reset(new std::vector<int>(r * c * channels(), 0));
  }
  int channels() const { return kind == CV_8UC3 ? 3 : 1; }
  int type() const { return kind; }
  int limit() const { return kind == CV_16UC1 ? 65535 : 255; }
  bool empty() const { return !pixels || pixels->empty(); }
  Mat clone() const {
    Mat m = *this;
    if (pixels) m.pixels.reset(new std::vector<int>(*pixels));
    return m;
  }
  void copyTo(Mat& m) const { m = clone(); }
  void convertTo(Mat& m, int type, double scale = 1., double shift = 0.) const {
    Mat out(rows, cols, type);
    for (size_t i = 0; i < pixels->size(); ++i)
      (*out.pixels)[i] = std::min<double>(
          out.limit(), std::max(0., std::nearbyint((*pixels)[i] * scale + shift)));
    m = out;
  }
};

struct Point {
  Point(int x, int y) : x(x), y(y) {}
  int x, y;
};
struct Scalar {
  Scalar(double a, double b, double c) : a(a), b(b), c(c) {}
  double a, b, c;
};

inline void normalize(const Mat& in, Mat& out, double alpha, double beta, int norm) {
  if (norm != NORM_MINMAX) throw std::invalid_argument("only the range is modelled");
  Mat m = in.clone();
  if (!in.empty()) {
    const double low = std::min(alpha, beta), high = std::max(alpha, beta);
    const double least = *std::min_element(in.pixels->begin(), in.pixels->end());
    const double most = *std::max_element(in.pixels->begin(), in.pixels->end());
    const double scale = most > least ? (high - low) / (most - least) : 0.;
    for (int& p : *m.pixels)
      p = std::min<double>(m.limit(), std::max(0., std::nearbyint((p - least) * scale + low)));
  }
  out = m;
}

inline void cvtColor(const Mat& in, Mat& out, int code) {
  Mat m(in.rows, in.cols, code == CV_GRAY2BGR ? CV_8UC3 : CV_8UC1);
  for (int i = 0; i < in.rows * in.cols; ++i)
    for (int c = 0; c < m.channels(); ++c)
      (*m.pixels)[i * m.channels() + c] = (*in.pixels)[i * in.channels()];
  out = m;
}

inline void namedWindow(const std::string&, int = 1) {}
inline void destroyAllWindows() {}
inline void destroyWindow(const std::string&) {}
inline void imshow(const std::string&, const Mat&) { standin::log() << "shown" << std::endl; }
inline int waitKey(int = 0) { return -1; }
template <typename... More>
inline void putText(Mat&, const std::string& text, const Point&, int, double, const Scalar&,
                    More...) {
  standin::log() << "text " << text << std::endl;
}

}  // namespace cv

namespace cv_bridge {

class Exception : public std::runtime_error {
 public:
  explicit Exception(const std::string& text) : std::runtime_error(text) {}
};

inline bool isColour(const std::string& e) {
  return e == "mono8" || e == "mono16" || e == "bgr8" || e == "rgb8";
}
inline int typeOf(const std::string& e) {
  if (e == "mono8" || e == "8UC1") return CV_8UC1;
  if (e == "mono16" || e == "16UC1") return CV_16UC1;
  if (e == "bgr8" || e == "rgb8") return CV_8UC3;
  throw Exception("Unrecognized image encoding [" + e + "]");
}

struct CvImage {
  std_msgs::Header header;
  std::string encoding;
  cv::Mat image;
  CvImage() {}
  CvImage(const std_msgs::Header& h, const std::string& e, const cv::Mat& m = cv::Mat())
      : header(h), encoding(e), image(m) {}

  void toImageMsg(sensor_msgs::Image& message) const {
    message.header = header;
    message.height = image.rows;
    message.width = image.cols;
    message.encoding = encoding;
    message.is_bigendian = 0;
    const int bytes = image.kind == CV_16UC1 ? 2 : 1;
    message.step = image.cols * image.channels() * bytes;
    message.data.clear();
    for (int p : *image.pixels) {
      message.data.push_back(p & 255);
      if (bytes == 2) message.data.push_back(p >> 8);
    }
  }
  sensor_msgs::ImagePtr toImageMsg() const {
    sensor_msgs::ImagePtr message(new sensor_msgs::Image);
    toImageMsg(*message);
    return message;
  }
};
typedef std::shared_ptr<CvImage> CvImagePtr;
typedef std::shared_ptr<const CvImage> CvImageConstPtr;

inline CvImagePtr toCvCopy(const sensor_msgs::Image& source, const std::string& wanted = "") {
  CvImagePtr out(new CvImage);
  out->header = source.header;
  out->encoding = wanted.empty() ? source.encoding : wanted;
  cv::Mat m(source.height, source.width, typeOf(source.encoding));
  const int bytes = m.kind == CV_16UC1 ? 2 : 1;
  const int values = source.width * m.channels();
  if (source.step < static_cast<uint32_t>(values * bytes) ||
      source.data.size() < static_cast<size_t>(source.step) * source.height)
    throw Exception("Image is wrongly formed");
  for (uint32_t r = 0; r < source.height; ++r)
    for (int c = 0; c < values; ++c) {
      const uint8_t* p = &source.data[r * source.step + c * bytes];
      (*m.pixels)[r * values + c] =
          bytes == 1 ? p[0] : source.is_bigendian ? p[0] * 256 + p[1] : p[1] * 256 + p[0];
    }
  const int target = typeOf(out->encoding);
  if (out->encoding != source.encoding) {
    if (isColour(source.encoding) != isColour(out->encoding))
      throw Exception("[" + source.encoding + "] and [" + out->encoding +
                      "] are not both color formats");
    if (m.channels() == 3 && target != CV_8UC3) {
      cv::Mat grey;
      cv::cvtColor(m, grey, CV_BGR2GRAY);
      m = grey;
    }
    if (m.kind != target && m.channels() == 1) {
      if (target == CV_8UC3)
        cv::cvtColor(m.clone(), m, CV_GRAY2BGR);
      else
        m.convertTo(m, target, target == CV_8UC1 ? 255. / 65535. : 65535. / 255.);
    }
  }
  out->image = m;
  return out;
}
inline CvImagePtr cvtColor(const CvImageConstPtr& source, const std::string& wanted) {
  sensor_msgs::Image message;
  source->toImageMsg(message);
  return toCvCopy(message, wanted);
}
inline CvImagePtr toCvCopy(const sensor_msgs::ImageConstPtr& source,
                           const std::string& wanted = "") {
  return toCvCopy(*source, wanted);
}
inline CvImageConstPtr toCvShare(const sensor_msgs::Image& source,
                                 const std::shared_ptr<void const>&, const std::string& wanted = "") {
  return toCvCopy(source, wanted);
}
inline CvImageConstPtr toCvShare(const sensor_msgs::ImageConstPtr& source,
                                 const std::string& wanted = "") {
  return toCvCopy(*source, wanted);
}

}  // namespace cv_bridge

#endif  // STANDIN_CV_BRIDGE_H_
