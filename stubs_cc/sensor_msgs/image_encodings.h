#ifndef STANDIN_IMAGE_ENCODINGS_H_
#define STANDIN_IMAGE_ENCODINGS_H_

#include <string>

namespace sensor_msgs {
namespace image_encodings {
const std::string MONO8 = "mono8", MONO16 = "mono16", BGR8 = "bgr8", RGB8 = "rgb8",
                  TYPE_8UC1 = "8UC1", TYPE_16UC1 = "16UC1";
}
}  // namespace sensor_msgs

#endif  // STANDIN_IMAGE_ENCODINGS_H_
