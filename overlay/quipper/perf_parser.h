#pragma once
#include "quipper/perf_reader.h"
namespace quipper {
struct DSOInfo { std::string name; };
struct ParsedEvent {
  PerfDataProto_PerfEvent* event_ptr;
  struct DSOAndOffset { const DSOInfo* dso_info_; uint64_t offset_; uint64_t offset() const; std::string dso_name() const; std::string build_id() const; };
  DSOAndOffset dso_and_offset;
  struct BranchEntry { DSOAndOffset from; DSOAndOffset to; bool predicted; uint32_t spec; };
  std::vector<BranchEntry> branch_stack; };
class PerfParser { public: explicit PerfParser(PerfReader*); bool ParseRawEvents(); const std::vector<ParsedEvent>& parsed_events() const; };
}
