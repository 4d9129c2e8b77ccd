// The executable reference model: a database as plain values, its generator, edits and canonical dump.
#pragma once
#include <array>
#include <cstdint>
#include <string>
#include <vector>

#include "rng.hh"

typedef std::array<uint8_t, 16> Uuid;

struct PStr {                      // text with protection flag
  std::string v;
  bool prot = false;
};
struct MBin {
  std::string data;
  bool prot = false, compress = false;
};
struct MAtt {
  std::string name;
  int pool = -1;                   // index into ModelDb::bins, or -1: `loose` holds the data
  MBin loose;
  bool null = false;               // extraction only: attachment without binary
};
struct MAssoc { std::string window, sequence; };
struct MTimes { int64_t creation = 0, modification = 0, access = 0, expiry = 0, move = 0; };
struct MEntry {
  Uuid uuid{};
  uint32_t icon = 0;
  int custom_icon = -1;            // index into ModelDb::icons; -2 (extraction only): an icon not in the list
  PStr title, url, username, password, notes;
  std::string override_url, tags, fg, bg;
  MTimes t;
  bool expires = false;
  uint32_t usage = 0;
  bool at_enabled = false;
  uint32_t at_obf = 0;
  std::string at_seq;
  std::vector<MAssoc> assoc;
  std::vector<std::pair<std::string, PStr>> fields;
  std::vector<MAtt> atts;
  std::vector<MEntry> history;
};
struct MGroup {
  Uuid uuid{};
  uint32_t icon = 0;
  int custom_icon = -1;
  std::string name, notes;
  MTimes t;
  uint16_t flags = 0;
  bool expires = false, expanded = false, autotype = false, search = false;
  uint32_t usage = 0;
  std::string at_seq;
  int last_visible = -1;           // index into entries; -2 (extraction only): something else
  std::vector<MGroup> groups;
  std::vector<MEntry> entries;
};
struct MRef {                      // reference to a group
  bool set = false;
  Uuid uuid{};
  bool in_tree = true;             // extraction only: refers to the very group of the tree
};
struct MIcon { Uuid uuid{}; std::string data; };
struct MTemporal { std::string v; int64_t t = 0; };
struct MMeta {
  std::string generator, color;
  MTemporal name, desc, user;
  uint32_t hist_days = 365;
  int64_t key_changed = 0, key_rec = -1, key_force = -1;
  bool prot_title = false, prot_user = false, prot_pass = true, prot_url = false, prot_notes = false;
  MRef recycle, templates, selected, visible;
  int64_t recycle_t = 0, templates_t = 0;
  int32_t hist_items = -1;
  int64_t hist_size = -1;
  std::vector<MIcon> icons;
  std::vector<MBin> bins;
  std::vector<std::pair<std::string, std::string>> custom;
};
struct ModelDb {
  bool kdbx = true;                // which format's content it models
  bool has_meta = true;
  int cipher = 0;                  // 0 AES, 1 Twofish
  std::string master_seed, iv, tseed, inner_key;
  uint64_t rounds = 0;
  bool compress = false;
  MMeta meta;
  MGroup root;
};

enum Proj { kKdbx, kKdb, kCommon };
// Canonical text of everything the projection covers. Equal databases have equal dumps.
std::string dump(const ModelDb& m, Proj p, bool header = true);
std::string first_diff(const std::string& a, const std::string& b);

// Feature switches, so that a plan can leave out whole classes of values (swarm testing and minimisation).
enum Feat : uint32_t {
  fUnicode = 1, fSpace = 2, fSpaceOnly = 4, fCr = 8, fCtrl = 16, fXml = 32, fLong = 64, fProt = 128, fProtBin = 256,
  fIcons = 512, fPool = 1024, fLoose = 2048, fCompressBin = 4096, fHistory = 8192, fFields = 16384, fAssoc = 32768,
  fTimes = 65536, fRefs = 131072, fCustom = 262144, fInts = 524288, fBigBin = 1048576, fDeep = 2097152,
  fShared = 4194304, fMeta = 8388608, fUnsetRefs = 16777216, fEmptyBin = 33554432, fRootEntries = 67108864,
  fEdge = 0x8000000, fMany = 0x10000000, fAllFeats = 0x17ffffff
};
struct GenOpt {
  uint64_t seed = 1;
  int groups = 3, entries = 4;
  uint32_t feats = 0;
  bool kdbx = true;
  std::string marker;              // if set, every text and attachment contains it
  int big = 0;                     // extra attachment or text bytes
  bool plain = false;              // as text that is stored as it is
  int flat = 0;                    // that many more entries, or if negative groups
  uint64_t rounds = 0;             // if set, the transformation rounds
};
ModelDb generate(const GenOpt& o);
std::string trim(std::string s);
std::string gen_text(Rng& r, uint32_t feats, bool kdbx, bool nonempty = false);
int64_t gen_time(Rng& r, uint32_t feats, bool kdbx);
MEntry gen_entry(Rng& r, ModelDb& db, const GenOpt& o, int depth = 0);
MGroup gen_group(Rng& r, ModelDb& db, const GenOpt& o);
// One random edit, decided by r only.
void edit(ModelDb& db, Rng& r, const GenOpt& o);

void all_groups(MGroup& g, std::vector<MGroup*>& out);
void all_groups(const MGroup& g, std::vector<const MGroup*>& out);
std::string hex(const void* p, size_t n);
std::string quote(const std::string& s);

namespace model {
// Index of visited objects, in the order they were added. Lives in code that the thread simulator does not
// instrument: how objects compare by address must not influence the recorded execution.
class PtrIndex {
 public:
  void add(const void* p);
  int find(const void* p, int missing) const;

 private:
  std::vector<std::pair<const void*, int>> sorted_;
};
}  // namespace model
