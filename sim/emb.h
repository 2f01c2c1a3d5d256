#pragma once
#include "sim.h"
struct EmbRec {
  i64 ret = 0, status = 0, iter = 0, rho_updates = 0, heap = 0, n = 0, m = 0;
  double obj = 0, dobj = 0, pres = 0, dres = 0, gap = 0, rho = 0;
  V x, y, pc, dc;
  std::string text;
};
// Compiles generated code, loads it and runs ops on it.  false: it does not compile or load (err), or could not be tried (err empty).
bool emb_run(const std::map<std::string, std::string>& files, const std::string& dir, const std::string& pre, const std::vector<Op>& ops, std::vector<EmbRec>& out, std::string& err, EmbRec& before);
