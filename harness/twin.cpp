// P10: two builds of the library in one process, the same choices in both, every answer compared
#include "vf.hpp"
#include <string>
#include <vector>
using namespace vf;
extern "C" int twin_run_off(); extern "C" int twin_run_on();
static bool second; static std::vector<int> took, of; static size_t at; static std::string said[2];
extern "C" void twin_say(const char *s) { said[second] += s; said[second] += '\n'; }
int twin_choice(int n, const char *what) __asm__("twin_choice");
int twin_choice(int n, const char *what) {
  if (!second) { int k = pick(n, what); took.push_back(k); of.push_back(n); return k; }
  if (at >= took.size() || of[at] != n) fail("the marker build asks for other choices", "choice %zu (%s) is of %d\noff:\n%s\non:\n%s", at, what, n, said[0].c_str(), said[1].c_str()); return took[at++];
}
static void run() {
  took.clear(); of.clear(); at = 0; said[0].clear(); said[1].clear(); second = false; int a = twin_run_off(); second = true; int b = twin_run_on(); step(); step();
  size_t i = 0; while (i < said[0].size() && i < said[1].size() && said[0][i] == said[1][i]) i++; if (a != b || said[0] != said[1] || at != took.size()) { size_t l = said[0].rfind('\n', i); l = l == std::string::npos ? 0 : l + 1; std::string what = said[0].substr(l, 1); fail("the builds answer differently", "off: %s\non:  %s", said[0].substr(l, 300).c_str(), said[1].substr(l, 300).c_str()); }
  if (!a) return; H h; h.add(hash_str(said[0])); if (said[0].size() > 40) nontrivial(h.h); state(h.h); count("compared");
}
int main(int c, char **v) { Options o; o.property = "P10"; o.run = run; return vf::main(c, v, o); }
