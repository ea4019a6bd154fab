#pragma once
#include "perf_data.pb.h"
namespace quipper { const PerfDataProto_SampleInfo* GetSampleInfoForEvent(const PerfDataProto_PerfEvent&); }
