// Stand-in for rosbag: the recording is the text file of world.h.
#ifndef STANDIN_BAG_H_
#define STANDIN_BAG_H_

#include <stdexcept>
#include <string>

#include <standin/world.h>

namespace rosbag {

class BagException : public std::runtime_error {
 public:
  explicit BagException(const std::string& text) : std::runtime_error(text) {}
};

namespace bagmode {
enum BagMode { Write = 1, Read = 2, Append = 4 };
}
typedef bagmode::BagMode BagMode;

class Bag {
 public:
  Bag() {}
  explicit Bag(const std::string& path, uint32_t mode = bagmode::Read) { open(path, mode); }
  void open(const std::string& path, uint32_t mode = bagmode::Read) {
    if (mode != bagmode::Read) throw BagException("a recording is only read");
    if (!standin::load(path)) throw BagException("Error opening file: " + path);
  }
  void close() {}
};

}  // namespace rosbag

#endif  // STANDIN_BAG_H_
