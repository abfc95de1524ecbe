#ifndef STANDIN_NULL_DELETER_H_
#define STANDIN_NULL_DELETER_H_
namespace sm {
struct null_deleter {
  template <typename T>
  void operator()(T*) const {}
};
}  // namespace sm
#endif  // STANDIN_NULL_DELETER_H_
