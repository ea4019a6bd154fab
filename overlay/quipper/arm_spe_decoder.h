#pragma once
#include <cstdint>
#include <string>
namespace quipper {
class ArmSpeDecoder { public:
  struct Record {
    struct { bool retired; bool cond_not_taken; bool mispred; } event;
    struct { bool is_br_eret; struct { bool br_cond; bool br_indirect; } br_eret; } op;
    struct { uint64_t addr; uint8_t el; bool ns; } ip, tgt_br_ip;
    struct { uint32_t id; bool el1; bool el2; } context;
    uint64_t timestamp; };
  ArmSpeDecoder(const std::string&, bool is_cross_endian); bool NextRecord(Record*); };
}
