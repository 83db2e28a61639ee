// trees of any size: shapes, names and document orders of a kinematic tree
#pragma once
#include <algorithm>
#include <string>
#include <vector>
namespace big {
const int SHAPES = 8, ORDERS = 4, NAMES = 4;
inline const char *shapeName(int s) {
  static const char *const N[] = {"chain", "star", "binary tree", "comb", "two chains", "chain ending in a star", "star of a star", "chain with a far branch"};
  return N[s];
}
// parent of link i (link 0 is the root)
inline int parent(int shape, int i, int n) {
  switch (shape) {
    case 0: return i - 1;
    case 1: return 0;
    case 2: return (i - 1) / 2;
    case 3: return i % 2 ? std::max(0, i - 2) : i - 1;        // spine 0 1 3 5 .., a leaf on each
    case 4: return i <= 2 ? 0 : i - 2;
    case 5: return i <= n / 2 ? i - 1 : n / 2;
    case 6: return i <= n / 2 ? 0 : i - n / 2;
    default: return i == n ? 1 % i : i - 1;                   // the last link hangs on link 1
  }
}
// order in which n elements appear in the document
inline std::vector<int> order(int kind, int n) {
  std::vector<int> o;
  for (int i = 0; i < n; ++i) o.push_back(i);
  if (kind == 1) std::reverse(o.begin(), o.end());
  else if (kind == 2) std::stable_partition(o.begin(), o.end(), [](int i) { return i % 2; });
  else if (kind == 3) { std::rotate(o.begin(), o.begin() + n / 3, o.end()); std::reverse(o.begin() + n / 2, o.end()); }
  return o;
}
// styles: numbered, prefixes of one another, long with the difference at the
// end, links and joints named alike in descending order
inline std::string name(int style, bool link, int i) {
  char b[32];
  switch (style) {
    case 0: return (link ? "l" : "j") + std::to_string(i);
    case 1: return std::string(1, link ? 'a' : 'b') + std::string(i, 'x');
    case 2:
      std::snprintf(b, sizeof b, "%03d", i * 7 % 101);
      return std::string(70, link ? 'L' : 'J') + b;
    default:
      std::snprintf(b, sizeof b, "n %02d.%c", 99 - i, 'a' + i % 3);
      return b;
  }
}
}  // namespace big
