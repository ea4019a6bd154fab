// Declarations of the parts of quipper's perf_data.proto API that autofdo uses.
#pragma once
#include <cstdint>
#include <string>
#include <google/protobuf/repeated_field.h>
namespace quipper {
enum { PERF_RECORD_MMAP = 1, PERF_RECORD_LOST = 2, PERF_RECORD_COMM = 3,
       PERF_RECORD_EXIT = 4, PERF_RECORD_FORK = 7, PERF_RECORD_SAMPLE = 9,
       PERF_RECORD_MMAP2 = 10, PERF_RECORD_AUXTRACE = 71 };
enum { PERF_BR_SPEC_NA = 0, PERF_BR_SPEC_WRONG_PATH = 1 };
template <class T> struct RepVec {
  int size() const; bool empty() const; const T& Get(int) const; const T& operator[](int) const;
  const T* begin() const; const T* end() const;
};
class PerfDataProto_BranchStackEntry { public: uint64_t from_ip() const; uint64_t to_ip() const; bool mispredicted() const; uint32_t spec() const; };
class PerfDataProto_SampleEvent { public:
  uint64_t ip() const; uint32_t pid() const; bool has_pid() const; uint32_t tid() const; uint64_t sample_time_ns() const;
  const RepVec<PerfDataProto_BranchStackEntry>& branch_stack() const; };
class PerfDataProto_MMapEvent { public:
  bool has_filename() const; const std::string& filename() const; bool has_start() const; uint64_t start() const;
  bool has_len() const; uint64_t len() const; bool has_pid() const; uint32_t pid() const; bool has_pgoff() const; uint64_t pgoff() const; };
class PerfDataProto_ForkEvent { public: uint32_t pid() const; uint32_t tid() const; uint64_t fork_time_ns() const; };
class PerfDataProto_CommEvent { public: uint32_t pid() const; uint32_t tid() const; const std::string& comm() const; uint64_t sample_time() const; };
class PerfDataProto_SampleInfo { public: uint32_t pid() const; uint32_t tid() const; uint64_t sample_time_ns() const; };
class PerfDataProto_AuxtraceEvent { public: const std::string& trace_data() const; uint32_t idx() const; uint32_t tid() const; };
class PerfDataProto_TimeConvEvent { public: uint64_t time_shift() const; uint64_t time_mult() const; uint64_t time_zero() const;
  uint64_t time_cycles() const; uint64_t time_mask() const; bool cap_user_time_zero() const; bool cap_user_time_short() const; };
class PerfDataProto_EventHeader { public: uint32_t type() const; uint32_t misc() const; uint32_t size() const; };
class PerfDataProto_PerfEvent { public:
  enum EventTypeCase { kMmapEvent = 2, kSampleEvent = 3, kCommEvent = 4, EVENT_TYPE_NOT_SET = 0 };
  EventTypeCase event_type_case() const;
  const PerfDataProto_EventHeader& header() const; uint64_t timestamp() const;
  bool has_mmap_event() const; const PerfDataProto_MMapEvent& mmap_event() const;
  const PerfDataProto_SampleEvent& sample_event() const; const PerfDataProto_ForkEvent& fork_event() const;
  const PerfDataProto_CommEvent& comm_event() const;
  bool has_auxtrace_event() const; const PerfDataProto_AuxtraceEvent& auxtrace_event() const;
  bool has_time_conv_event() const; const PerfDataProto_TimeConvEvent& time_conv_event() const; };
class PerfDataProto_PerfBuildID { public: bool has_filename() const; const std::string& filename() const;
  bool has_build_id_hash() const; const std::string& build_id_hash() const; };
class PerfDataProto { public:
  using PerfEvent = PerfDataProto_PerfEvent; using SampleEvent = PerfDataProto_SampleEvent; using MMapEvent = PerfDataProto_MMapEvent;
  using SampleInfo = PerfDataProto_SampleInfo; using TimeConvEvent = PerfDataProto_TimeConvEvent; using PerfBuildID = PerfDataProto_PerfBuildID; };
}
