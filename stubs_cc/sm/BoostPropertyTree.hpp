// Stand-in for the property trees and value stores of Schweizer Messer. Copies of a tree are
// handles of the same content; keys are separated by '/'.
#ifndef STANDIN_PROPERTY_TREE_H_
#define STANDIN_PROPERTY_TREE_H_

#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <boost/property_tree/info_parser.hpp>
#include <boost/property_tree/json_parser.hpp>
#include <boost/property_tree/ptree.hpp>

namespace sm {

namespace value_store {

class ValueStore {
 public:
  virtual ~ValueStore() {}
  virtual bool get(const std::string& key, std::string* value) const = 0;
  virtual bool set(const std::string& key, const std::string& value) = 0;
};

}  // namespace value_store

class BoostPropertyTree : public value_store::ValueStore {
 public:
  BoostPropertyTree() : tree_(new boost::property_tree::ptree) {}
  void load(const std::string& path) {
    if (isInfo(path))
      boost::property_tree::read_info(path, *tree_);
    else
      boost::property_tree::read_json(path, *tree_);
  }
  void save(const std::string& path) const {
    if (isInfo(path))
      boost::property_tree::write_info(path, *tree_);
    else
      boost::property_tree::write_json(path, *tree_);
  }
  void loadStrings(const std::vector<std::string>& settings) {
    for (const std::string& s : settings) {
      const size_t equal = s.find('=');
      if (equal == std::string::npos) throw std::runtime_error("bad setting " + s);
      put(s.substr(0, equal), s.substr(equal + 1));
    }
  }
  std::string asInfoString() const {
    std::ostringstream out;
    boost::property_tree::write_info(out, *tree_);
    return out.str();
  }
  bool get(const std::string& key, std::string* value) const override {
    auto found = tree_->get_child_optional(boost::property_tree::ptree::path_type(key, '/'));
    if (!found || (found->data().empty() && !found->empty())) return false;
    *value = found->data();
    return true;
  }
  bool set(const std::string& key, const std::string& value) override {
    std::string old;
    if (!get(key, &old)) return false;
    put(key, value);
    return true;
  }

 private:
  static bool isInfo(const std::string& path) {
    return path.size() > 5 && path.compare(path.size() - 5, 5, ".info") == 0;
  }
  void put(const std::string& key, const std::string& value) {
    tree_->put(boost::property_tree::ptree::path_type(key, '/'), value);
  }
  std::shared_ptr<boost::property_tree::ptree> tree_;
};

namespace value_store {

class ValueStoreRef {
 public:
  ValueStoreRef() {}
  explicit ValueStoreRef(const BoostPropertyTree& tree) : store_(new BoostPropertyTree(tree)) {}
  explicit ValueStoreRef(ValueStore* store) : store_(store) {}
  ValueStoreRef getChild(const std::string& key) const {
    ValueStoreRef child(*this);
    child.prefix_ += key + "/";
    return child;
  }
  bool get(const std::string& key, std::string* value) const {
    return store_ && store_->get(prefix_ + key, value);
  }
  bool set(const std::string& key, const std::string& value) const {
    return store_ && store_->set(prefix_ + key, value);
  }

 private:
  std::shared_ptr<ValueStore> store_;
  std::string prefix_;
};

// The first store with a value decides, also where a new value goes.
class LayeredValueStore : public ValueStore {
 public:
  template <typename... Refs>
  explicit LayeredValueStore(const Refs&... refs) : layers_{refs...} {}
  bool get(const std::string& key, std::string* value) const override {
    for (const ValueStoreRef& l : layers_)
      if (l.get(key, value)) return true;
    return false;
  }
  bool set(const std::string& key, const std::string& value) override {
    for (const ValueStoreRef& l : layers_)
      if (l.set(key, value)) return true;
    return false;
  }

 private:
  std::vector<ValueStoreRef> layers_;
};

class PrefixedValueStore : public ValueStore {
 public:
  enum class PrefixMode { ADD, REMOVE };
  PrefixedValueStore(const ValueStoreRef& store, PrefixMode mode, const std::string& prefix)
      : store_(store), mode_(mode), prefix_(prefix + "/") {}
  bool get(const std::string& key, std::string* value) const override {
    return translate(key, [&](const std::string& k) { return store_.get(k, value); });
  }
  bool set(const std::string& key, const std::string& value) override {
    return translate(key, [&](const std::string& k) { return store_.set(k, value); });
  }

 private:
  template <typename Use>
  bool translate(const std::string& key, Use use) const {
    if (mode_ == PrefixMode::ADD) return use(prefix_ + key);
    return key.compare(0, prefix_.size(), prefix_) == 0 && use(key.substr(prefix_.size()));
  }
  ValueStoreRef store_;
  PrefixMode mode_;
  std::string prefix_;
};

}  // namespace value_store

using value_store::LayeredValueStore;
using value_store::PrefixedValueStore;
using value_store::ValueStoreRef;

}  // namespace sm

#endif  // STANDIN_PROPERTY_TREE_H_
