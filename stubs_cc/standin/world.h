// The scripted surroundings of the extractor: one line of the recording per message, with the
// outcome of detection and pose estimation for the image in it. What the stand-ins are asked
// for is written to the file named by STANDIN_LOG.
#ifndef STANDIN_WORLD_H_
#define STANDIN_WORLD_H_

#include <cstdint>
#include <cstdlib>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace standin {

struct Frame {
  std::string topic, kind, encoding;
  uint32_t sec, nsec;
  int id, big_endian, padding;
  int detected, corners, pnp_success;
  double pose[7];  // x y z qw qx qy qz
  std::vector<int> inliers;
};

inline std::vector<Frame>& frames() {
  static std::vector<Frame> all;
  return all;
}

inline bool load(const std::string& path) {
  std::ifstream in(path);
  if (!in) return false;
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    Frame f;
    size_t n = 0;
    s >> f.topic >> f.kind >> f.encoding >> f.sec >> f.nsec >> f.id >> f.big_endian >>
        f.padding >> f.detected >> f.corners >> f.pnp_success;
    for (double& v : f.pose) s >> v;
    s >> n;
    f.inliers.resize(n);
    for (int& i : f.inliers) s >> i;
    if (!s) {
      std::cerr << "bad line in the scripted recording: " << line << std::endl;
      std::_Exit(98);
    }
    frames().push_back(f);
  }
  return true;
}

inline const Frame* find(int id) {
  for (const Frame& f : frames())
    if (f.kind == "image" && f.id == id) return &f;
  return nullptr;
}

inline std::ostream& log() {
  static std::ofstream out(std::getenv("STANDIN_LOG") ? std::getenv("STANDIN_LOG") : "/dev/null",
                           std::ios::app);
  return out << std::setprecision(std::numeric_limits<double>::max_digits10);
}

}  // namespace standin

#endif  // STANDIN_WORLD_H_
