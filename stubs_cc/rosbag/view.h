#ifndef STANDIN_VIEW_H_
#define STANDIN_VIEW_H_

#include <memory>
#include <string>
#include <vector>

#include <rosbag/bag.h>
#include <sensor_msgs/Image.h>

namespace rosbag {

class TopicQuery {
 public:
  TopicQuery(const std::string& topic) : topics_(1, topic) {}
  TopicQuery(const std::vector<std::string>& topics) : topics_(topics) {}
  bool matches(const std::string& topic) const {
    for (const std::string& t : topics_)
      if (t == topic) return true;
    return false;
  }

 private:
  std::vector<std::string> topics_;
};

class MessageInstance {
 public:
  explicit MessageInstance(const standin::Frame* frame) : frame_(frame) {}
  std::string getTopic() const { return frame_->topic; }
  template <typename T>
  bool isType() const {
    return frame_->kind == "image";
  }
  // Recorded later than the image was taken.
  ros::Time getTime() const {
    ros::Time time;
    time.sec = frame_->sec + 5;
    time.nsec = frame_->nsec;
    return time;
  }
  // Images are one row of three pixels: black, the brightest value and one that tells them apart.
  template <typename T>
  std::shared_ptr<const T> instantiate() const {
    if (frame_->kind != "image") return nullptr;
    std::shared_ptr<sensor_msgs::Image> m(new sensor_msgs::Image);
    m->header.stamp.sec = frame_->sec;
    m->header.stamp.nsec = frame_->nsec;
    m->height = 1;
    m->width = 3;
    m->encoding = frame_->encoding;
    m->is_bigendian = frame_->big_endian;
    const bool wide = m->encoding == "mono16" || m->encoding == "16UC1";
    const int channels = m->encoding == "bgr8" || m->encoding == "rgb8" ? 3 : 1;
    const int top = wide ? 4080 : 255, code = wide ? frame_->id * 160 : frame_->id * 10;
    for (int p : {0, top, code})
      for (int c = 0; c < channels; ++c) {
        if (wide && frame_->big_endian) m->data.push_back(p >> 8);
        m->data.push_back(p & 255);
        if (wide && !frame_->big_endian) m->data.push_back(p >> 8);
      }
    for (int i = 0; i < frame_->padding; ++i) m->data.push_back(77);
    if (frame_->padding < 0) m->data.pop_back();
    m->step = m->data.size();
    return m;
  }

 private:
  const standin::Frame* frame_;
};

class View {
 public:
  typedef MessageInstance value_type;
  typedef std::vector<MessageInstance>::const_iterator iterator;
  typedef iterator const_iterator;
  View() {}
  void addQuery(const Bag&, const TopicQuery& query) {
    add([&](const std::string& t) { return query.matches(t); });
  }
  explicit View(const Bag&) { add([](const std::string&) { return true; }); }
  View(const Bag&, const TopicQuery& query) {
    add([&](const std::string& t) { return query.matches(t); });
  }
  iterator begin() const { return messages_.begin(); }
  iterator end() const { return messages_.end(); }
  uint32_t size() const { return messages_.size(); }

 private:
  template <typename Filter>
  void add(Filter filter) {
    for (const standin::Frame& f : standin::frames())
      if (filter(f.topic)) messages_.push_back(MessageInstance(&f));
  }
  std::vector<MessageInstance> messages_;
};

}  // namespace rosbag

#endif  // STANDIN_VIEW_H_
