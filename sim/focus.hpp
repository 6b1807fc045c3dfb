// Which part of the behaviour a property's simulation emphasises.
#pragma once
#include "sim.hpp"
namespace sim {
struct Focus {
  bool faults = false, readers = false, reloc = false, parallel = false, autoun = false, safe = false, clone = false,
       transfer = false, iters = false, swapmove = false, commit = false, positional = false, dispose = false, bulk = false,
       nodes = false, rehash = false, compound = false, single = false, multi = false;
};
inline Focus focus_of(const std::string &p) {
  Focus f;
  if (p == "C04") f.bulk = true;
  if (p == "C05") f.rehash = true;
  if (p == "C06") f.faults = f.single = true;
  if (p == "C07") f.clone = f.faults = true;
  if (p == "C08") f.faults = f.compound = true;
  if (p == "C09") f.dispose = true;
  if (p == "C10") f.safe = true;
  if (p == "C11") f.autoun = true;
  if (p == "C12") f.iters = true;
  if (p == "C13") f.readers = true;
  if (p == "C14") f.reloc = true;
  if (p == "C15") f.multi = true;
  if (p == "C16") f.swapmove = true;
  if (p == "C17") f.nodes = true;
  if (p == "C18") f.transfer = true;
  if (p == "C19") f.commit = true;
  if (p == "C20") f.positional = true;
  if (p == "C21") f.parallel = true;
  if (p == "C22") f.dispose = f.autoun = true;
  return f;
}
} // namespace sim
