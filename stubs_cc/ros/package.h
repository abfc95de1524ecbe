#ifndef STANDIN_PACKAGE_H_
#define STANDIN_PACKAGE_H_
#include <cstdlib>
#include <string>
namespace ros {
namespace package {
// The folder of all packages is named by STANDIN_PACKAGES.
inline std::string getPath(const std::string& name) {
  const char* folder = std::getenv("STANDIN_PACKAGES");
  return std::string(folder ? folder : "") + "/" + name;
}
}  // namespace package
}  // namespace ros
#endif  // STANDIN_PACKAGE_H_
