// Independent reference implementation of KDBX 3.1 and KDB 3 on the model, with free layout choices when writing.
#pragma once
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

#include "model.hh"

namespace ref {

struct Key {
  bool has_pw = false, has_kf = false;
  std::string pw, kf;              // kf: 32 bytes
};
std::string kdbx_key(const Key& k);
std::string kdb_key(const Key& k);

struct Err : std::runtime_error { using std::runtime_error::runtime_error; };
struct BadKey : Err { using Err::Err; };

// ---- XML -----------------------------------------------------------------------------------------------------
struct Xn {
  std::string name, text;
  std::vector<std::pair<std::string, std::string>> attrs;
  std::vector<Xn> kids;
  const Xn* kid(const char* n) const;
  const std::string* attr(const char* n) const;
};
Xn parse_xml(const std::string& s);
bool utf8_ok(const std::string& s);

// ---- KDBX ----------------------------------------------------------------------------------------------------
struct Layout {                    // how a foreign writer lays the file out; everything decided by seed
  uint64_t seed = 1;
  uint32_t opts = 0;
};
enum LayoutOpt : uint32_t {
  lHeader = 1, lBlocks = 2, lGzip = 4, lIndent = 8, lEscape = 16, lCdata = 32, lComments = 64, lDecl = 128, lShuffle = 256,
  lUnknown = 512, lIds = 1024, lOmit = 2048, lInlineZ = 4096, lRefs = 8192, lWrap = 16384, lAllLayout = 0x7fff
};
std::string kdbx_write(const ModelDb& m, const Key& k, const Layout& l);
ModelDb kdbx_read(const std::string& file, const Key& k);
// The pieces, for tests that put their own content behind valid encryption. payload: the XML before compression.
struct KdbxParts {
  std::string master_seed, tseed, iv, inner_key, start_bytes;
  uint64_t rounds = 0;
  bool compress = false;
  std::string header;              // raw
  std::string blocks;              // decrypted content after the start bytes
  std::string payload;             // XML
};
KdbxParts kdbx_open(const std::string& file, const Key& k);
std::string kdbx_header(const KdbxParts& p);
size_t header_size(const std::string& file, bool kdbx);     // of a well-formed file
std::string kdbx_blocks(const std::string& payload, size_t block = 1 << 20);
std::string kdbx_seal(const KdbxParts& p, const Key& k);   // header + encrypt(start_bytes + blocks)

// ---- KDB -----------------------------------------------------------------------------------------------------
std::string kdb_write(const ModelDb& m, const Key& k, const Layout& l);
ModelDb kdb_read(const std::string& file, const Key& k);
struct KdbParts {
  uint32_t flags = 3, version = 0x00030004, groups = 0, entries = 0, rounds = 0;
  std::string master_seed, iv, tseed, content;
};
KdbParts kdb_open(const std::string& file, const Key& k);
std::string kdb_seal(const KdbParts& p, const Key& k);

std::string keyfile_xml(const std::string& key32, Rng& r);
std::string keyfile_hex(const std::string& key32, Rng& r);
}  // namespace ref
