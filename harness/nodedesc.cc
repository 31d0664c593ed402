// C14: file system lookup for a file name on a node.
#include "util.h"
#include "common/NodeDesc.h"
using dp3::common::NodeDesc;
static std::string path(const char* nm, int n, const char* alpha) {
  std::string s = "/" + symstr_of(nm, n, alpha);
  return s;
}
extern "C" void harness() {
  // params: length of file name (after the slash), lengths of mounts...
  const int nf = sym_param(0), nm = sym_param(1);
  NodeDesc nd;
  std::vector<std::string> mp;
  for (int i = 0; i < nm; ++i) {
    std::string m = path("m", sym_param(2 + i), "/a");
    const bool autom = sym_param(2 + nm) == i + 1;
    // mount points are normalised paths: no empty parts, no trailing slash
    for (size_t k = 1; k < m.size(); ++k) sym_assume(!sym_and(m[k] == '/', sym_or(k + 1 == m.size(), m[k - 1] == '/')));
    nd.addFileSys("fs" + std::to_string(i), autom ? "/auto" + m : m);
    mp.push_back(m);
  }
  const std::string f = path("f", nf, "/ab");
  for (size_t k = 1; k < f.size(); ++k) sym_assume(!sym_and(f[k] == '/', f[k - 1] == '/'));
  const std::string got = nd.findFileSys(f);
  // oracle: the longest mount point that is the root or a leading directory of the file name; first one wins
  int best = -1;
  size_t bl = 0;
  for (int i = 0; i < nm; ++i) {
    bool hit;
    if (mp[i].size() == 1) hit = true;
    else hit = f.size() > mp[i].size() && f.compare(0, mp[i].size(), mp[i]) == 0 && f[mp[i].size()] == '/';
    if (hit && mp[i].size() > bl) { best = i; bl = mp[i].size(); }
    else if (hit && mp[i].size() == 1 && bl == 1) best = i;  // equal root entries: either
  }
  if (best < 0) { sym_assert(got.empty(), "no file system when nothing matches"); sym_reach("none"); }
  else { sym_assert(got == "fs" + std::to_string(best), "file system of the longest matching mount point"); sym_reach(bl > 1 ? "mount" : "root"); }
}
