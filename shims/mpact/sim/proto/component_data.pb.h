// Analysis model of the protoc output for component_data.proto: same
// interface, plain fields (the analyser interprets these bodies).
#ifndef VERIF_SHIM_COMPONENT_DATA_PB_H_
#define VERIF_SHIM_COMPONENT_DATA_PB_H_
#include <cstdint>
#include <deque>
#include <string>
#include <vector>
namespace mpact {
namespace sim {
namespace proto {
enum SIPrefix : int { PREFIX_NONE = 0, PREFIX_PICO = -12, PREFIX_NANO = -9, PREFIX_MICRO = -6, PREFIX_MILLI = -3, PREFIX_KILO = 3, PREFIX_MEGA = 6, PREFIX_GIGA = 9, PREFIX_TERA = 12 };
enum SIUnit : int { UNIT_NONE = 0, UNIT_SECOND = 1, UNIT_HERTZ = 2, UNIT_VOLT = 3, UNIT_AMPERE = 4, UNIT_WATT = 5 };
class PhysicalValue {
 public:
  double value() const { return value_; }
  void set_value(double v) { value_ = v; }
  SIPrefix si_prefix() const { return prefix_; }
  void set_si_prefix(SIPrefix v) { prefix_ = v; }
  SIUnit si_unit() const { return unit_; }
  void set_si_unit(SIUnit v) { unit_ = v; }
 private:
  double value_ = 0;
  SIPrefix prefix_ = PREFIX_NONE;
  SIUnit unit_ = UNIT_NONE;
};
class ComponentValueEntry {
 public:
  enum ValueCase { kBoolValue = 3, kSint64Value = 4, kUint64Value = 5, kDoubleValue = 6, kStringValue = 7, kPhysicalValue = 8, VALUE_NOT_SET = 0 };
  ValueCase value_case() const { return static_cast<ValueCase>(which_); }
  bool has_name() const { return has_name_; }
  const std::string& name() const { return name_; }
  void set_name(const std::string& n) { has_name_ = true; name_ = n; }
  bool has_about() const { return has_about_; }
  const std::string& about() const { return about_; }
  void set_about(const std::string& n) { has_about_ = true; about_ = n; }
  bool has_bool_value() const { return which_ == 3; }
  bool bool_value() const { return which_ == 3 ? b_ : false; }
  void set_bool_value(bool v) { which_ = 3; b_ = v; }
  bool has_sint64_value() const { return which_ == 4; }
  int64_t sint64_value() const { return which_ == 4 ? s_ : 0; }
  void set_sint64_value(int64_t v) { which_ = 4; s_ = v; }
  bool has_uint64_value() const { return which_ == 5; }
  uint64_t uint64_value() const { return which_ == 5 ? u_ : 0; }
  void set_uint64_value(uint64_t v) { which_ = 5; u_ = v; }
  bool has_double_value() const { return which_ == 6; }
  double double_value() const { return which_ == 6 ? d_ : 0; }
  void set_double_value(double v) { which_ = 6; d_ = v; }
  bool has_string_value() const { return which_ == 7; }
  const std::string& string_value() const { return str_; }
  void set_string_value(const std::string& v) { which_ = 7; str_ = v; }
  bool has_physical_value() const { return which_ == 8; }
  const PhysicalValue& physical_value() const { return p_; }
  PhysicalValue* mutable_physical_value() { which_ = 8; return &p_; }
 private:
  bool has_name_ = false;
  bool has_about_ = false;
  std::string name_;
  std::string about_;
  int which_ = 0;
  bool b_ = false;
  int64_t s_ = 0;
  uint64_t u_ = 0;
  double d_ = 0;
  std::string str_;
  PhysicalValue p_;
};
class ComponentData {
 public:
  bool has_name() const { return has_name_; }
  const std::string& name() const { return name_; }
  void set_name(const std::string& n) { has_name_ = true; name_ = n; }
  const std::vector<ComponentValueEntry>& configuration() const { return conf_; }
  const std::vector<ComponentValueEntry>& statistics() const { return stat_; }
  const std::vector<ComponentData>& component_data() const { return comp_; }
  int configuration_size() const { return conf_.size(); }
  int statistics_size() const { return stat_.size(); }
  int component_data_size() const { return comp_.size(); }
  const ComponentValueEntry& configuration(int i) const { return conf_[i]; }
  const ComponentValueEntry& statistics(int i) const { return stat_[i]; }
  const ComponentData& component_data(int i) const { return comp_[i]; }
  ComponentValueEntry* add_configuration() { conf_.emplace_back(); return &conf_.back(); }
  ComponentValueEntry* add_statistics() { stat_.emplace_back(); return &stat_.back(); }
  ComponentData* add_component_data() { comp_.emplace_back(); return &comp_.back(); }
 private:
  bool has_name_ = false;
  std::string name_;
  std::vector<ComponentValueEntry> conf_;
  std::vector<ComponentValueEntry> stat_;
  std::vector<ComponentData> comp_;
};
}  // namespace proto
}  // namespace sim
}  // namespace mpact
#endif
