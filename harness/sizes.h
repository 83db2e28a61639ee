// Values built from vectors of every size 0 to 20: every component from the
// documented entry, and the default value for a size which is not accepted.
#pragma once
#include <functional>
#include <iostream>
#include "mc.h"
// entries: index of the vector entry held by each component of toVector();
// -1: the constant of dflt.
template <class T>
inline void sizesCase(mc::Ctx &c, std::function<std::vector<int>(int)> entries, const std::vector<std::vector<float>> &dflts) {
  int size = c.root / 4, pattern = c.root % 4;
  std::vector<float> v;
  for (int i = 0; i < size; ++i)
    v.push_back(pattern == 0 ? 1.f + i : pattern == 1 ? -0.25f * i - 3.f : pattern == 2 ? (i % 3) * 0.5f : 1e6f / (1 + i));
  std::vector<float> got = T(v).toVector();
  std::vector<int> e = entries(size);
  bool ok = false;
  if (e.empty()) {
    for (auto &d : dflts) ok = ok || got == d;
  } else {
    ok = true;
    std::vector<float> d = dflts[0];
    if (got.size() != d.size()) ok = false;
    for (size_t i = 0; ok && i < e.size(); ++i) ok = got[i] == (e[i] < 0 ? d[i] : v[e[i]]);
  }
  c.step(1);
  c.state(mc::Hash().u(size).u(pattern).h);
  c.yes("from vector", ok, "the value holds the entries of the vector, or is the default value");
}
inline std::vector<int> iota(int n) {
  std::vector<int> r;
  for (int i = 0; i < n; ++i) r.push_back(i);
  return r;
}
