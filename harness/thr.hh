// What the simulated threads do. Implemented in thr_body.cc, which is instrumented like the library.
#pragma once
#include <memory>
#include <string>
#include <vector>

#include "common.hh"

enum ThrOp { oLoad, oLoadShared, oSave, oSaveShared, oWalkShared, oJsonShared, oJson, oKeyFile, oWrongKey, oDamaged, oEdit, oHandles, oKeyCopy, oNewIds, oConvert, kThrOps };
struct ThrDesc {
  int k = 0, t = 0, i = 0;
  bool x = true, own_files = true;
  ModelDb m, m2;
  ref::Key rk;
  std::string in, out, kf;                         // paths
};
struct ThrShared {
  std::unique_ptr<kp::Database> db;
  std::unique_ptr<kp::Key> key;
  std::string file;                                // read by several threads
  bool x = true;
};
struct ThrResult {
  bool ok = false, done = false;
  std::string cls, what, text;
  std::vector<std::string> ids;
  uint64_t faults = 0;                             // fired in this thread meanwhile
};
extern uint64_t thr_fired[8];
struct ThrLocal { Files files; };
void thr_op(const ThrShared& s, ThrLocal& l, const ThrDesc& d, ThrResult& r, int t);
