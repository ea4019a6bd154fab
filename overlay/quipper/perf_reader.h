#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include "perf_data.pb.h"
namespace quipper {
class PerfReader { public:
  bool ReadFile(const std::string&); bool ReadFromPointer(const char*, size_t); bool ReadFromString(const std::string&);
  void GetFilenamesAsSet(std::set<std::string>*) const; void GetFilenamesToBuildIDs(std::map<std::string, std::string>*) const;
  void SetEventTypesToSkipWhenSerializing(const std::set<uint32_t>&);
  void SetSampleCallback(std::function<void(const PerfDataProto_SampleEvent&)>);
  const google::protobuf::RepeatedPtrField<PerfDataProto_PerfEvent>& events() const;
  const google::protobuf::RepeatedPtrField<PerfDataProto_PerfBuildID>& build_ids() const; };
}
