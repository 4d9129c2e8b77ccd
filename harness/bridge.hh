// Between the library's object model and the reference model.
#pragma once
#include <memory>
#include <string>

#include "database.hh"
#include "entry.hh"
#include "group.hh"
#include "key.hh"
#include "metadata.hh"
#include "model.hh"

namespace kp = keepass;

std::unique_ptr<kp::Database> build(const ModelDb& m);
// Makes db equal to m by setters and additions, touching only what differs.
void apply(const ModelDb& m, kp::Database& db);
// Changes the objects reachable from db in place: every attachment, pooled binary, icon, entry (history included), group
// and the metadata.
void scribble(kp::Database& db, const std::string& text);
// Reads everything reachable. Never throws for a well-formed object graph; limits depth and size.
ModelDb extract(const kp::Database& db, bool kdbx);
