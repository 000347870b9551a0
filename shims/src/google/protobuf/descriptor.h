// The part of the descriptor interface that the generator reads: seen by the
// analysis only, nothing here is executed.
#ifndef VERIF_SHIM_PROTOBUF_DESCRIPTOR_H_
#define VERIF_SHIM_PROTOBUF_DESCRIPTOR_H_
#include <string>
namespace google {
namespace protobuf {
class FieldDescriptor;
class FileDescriptor;
class Descriptor;
class OneofDescriptor {
 public:
  virtual ~OneofDescriptor() = default;
  virtual int field_count() const = 0;
  virtual const FieldDescriptor* field(int i) const = 0;
  virtual const std::string& name() const = 0;
  virtual const Descriptor* containing_type() const = 0;
};
class EnumValueDescriptor {
 public:
  virtual ~EnumValueDescriptor() = default;
  virtual int number() const = 0;
  virtual const std::string& name() const = 0;
};
class FieldDescriptor {
 public:
  enum CppType {
    CPPTYPE_INT32 = 1,
    CPPTYPE_INT64 = 2,
    CPPTYPE_UINT32 = 3,
    CPPTYPE_UINT64 = 4,
    CPPTYPE_DOUBLE = 5,
    CPPTYPE_FLOAT = 6,
    CPPTYPE_BOOL = 7,
    CPPTYPE_ENUM = 8,
    CPPTYPE_STRING = 9,
    CPPTYPE_MESSAGE = 10,
    MAX_CPPTYPE = 10
  };
  virtual ~FieldDescriptor() = default;
  virtual const std::string& name() const = 0;
  virtual const std::string& full_name() const = 0;
  virtual CppType cpp_type() const = 0;
  virtual int index() const = 0;
  virtual const OneofDescriptor* containing_oneof() const = 0;
  virtual const Descriptor* message_type() const = 0;
  virtual const FileDescriptor* file() const = 0;
};
class FileDescriptor {
 public:
  virtual ~FileDescriptor() = default;
  virtual const std::string& package() const = 0;
};
class Descriptor {
 public:
  virtual ~Descriptor() = default;
  virtual const std::string& name() const = 0;
  virtual const std::string& full_name() const = 0;
  virtual const Descriptor* containing_type() const = 0;
};
}  // namespace protobuf
}  // namespace google
#endif
