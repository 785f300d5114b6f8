// bounded native check: flag diacritic evaluation against an independent evaluator
#include "vh.h"
#include "HfstFlagDiacritics.h"
#include "HfstLookupFlagDiacritics.h"
namespace hfst { namespace xfst { bool is_valid_string(const std::vector<std::string>& sv); } }
using std::string; using std::vector;
struct Ref { // feature -> (positive, value)
  std::map<string, std::pair<bool, string>> m;
  bool step(const string& s) {
    if (s.size() < 5 || s[0] != '@' || s[2] != '.' || s.back() != '@' || !strchr("PNRDCU", s[1])) return true;
    string body = s.substr(3, s.size() - 4), f = body, v; bool hasv = false;
    size_t d = body.find('.'); if (d != string::npos) { f = body.substr(0, d); v = body.substr(d + 1); hasv = true; }
    if (!hasv && strchr("PNU", s[1])) return true;
    auto it = m.find(f); bool set = it != m.end();
    switch (s[1]) {
      case 'P': m[f] = {true, v}; return true;
      case 'N': m[f] = {false, v}; return true;
      case 'C': m.erase(f); return true;
      case 'R': return hasv ? set && it->second.first && it->second.second == v : set;
      case 'D': return hasv ? !(set && it->second.first && it->second.second == v) : !set;
      case 'U': if (!set || (it->second.first && it->second.second == v) || (!it->second.first && it->second.second != v)) { m[f] = {true, v}; return true; } return false;
    }
    return true;
  }
  static bool valid(const vector<string>& w) { Ref r; for (auto& s : w) if (!r.step(s)) return false; return true; }
};
static void check(const vector<string>& syms, const vector<string>& w, bool xfst) {
  bool want = Ref::valid(w);
  hfst::FdTable<unsigned short> t; std::map<string, unsigned short> num; 
  static hfst::FdTable<unsigned short>* T = nullptr; static std::map<string, unsigned short> N; static vector<string> S;
  if (S != syms) { delete T; T = new hfst::FdTable<unsigned short>; N.clear(); S = syms; unsigned short n = 3; for (auto& s : syms) { N[s] = n; if (hfst::FdOperation::is_diacritic(s)) T->define_diacritic(n, s); n += 7; } }
  vector<unsigned short> nums; string cat; for (auto& s : w) { nums.push_back(N[s]); cat += s; }
  VH_CHECK("fdtable_symbols", T->is_valid_string(nums) == want, "FdTable::is_valid_string(symbol numbers) " << vh::show(w) << " should be " << want);
  VH_CHECK("fdtable_string", T->is_valid_string(cat) == want, "FdTable::is_valid_string(text) " << vh::show(w) << " should be " << want);
  hfst::FdState<unsigned short> st(*T); bool ok = true; for (auto n : nums) if (!st.apply_operation(n)) { ok = false; break; }
  VH_CHECK("fdstate", ok == want, "FdState::apply_operation over " << vh::show(w) << " should be " << want);
  if (want) { // the reached setting is the defined one: probe with R and D of every feature/value
    Ref r; for (auto& s : w) r.step(s);
    for (auto& p : syms) if (p[0] == '@' && strchr("RDU", p[1])) { auto s2 = st; Ref r2 = r; bool e = r2.step(p), g = s2.apply_operation(N[p]); VH_CHECK("fdstate_after", e == g, "after " << vh::show(w) << " then " << p << " should be " << e); }
    st.reset(); Ref z; for (auto& p : syms) if (p[0] == '@' && strchr("RD", p[1])) { auto s2 = st; Ref r2 = z; VH_CHECK("fdstate_reset", r2.step(p) == s2.apply_operation(N[p]), "after reset " << p); }
  }
  FlagDiacriticTable f;
  bool g = f.is_valid_string(w);
  VH_CHECK("lookup_table", g == want, "FlagDiacriticTable::is_valid_string " << vh::show(w) << " should be " << want);
  vector<string> filt; for (auto& s : w) if (s[0] != '@') filt.push_back(s);
  VH_CHECK("filter", f.filter_diacritics(w) == filt, "FlagDiacriticTable::filter_diacritics " << vh::show(w));
  VH_CHECK("lookup_table_reuse", f.is_valid_string(w) == want, "FlagDiacriticTable::is_valid_string (second use) " << vh::show(w) << " should be " << want);
  if (xfst) VH_CHECK("xfst", hfst::xfst::is_valid_string(w) == want, "xfst is_valid_string " << vh::show(w) << " should be " << want);
}
int main(int argc, char** argv) {
  vh::parse(argc, argv);
  vector<string> syms = {"x"};
  for (string f : {"F", "FG"}) { for (char o : string("PNURD")) for (string v : {"a", "b"}) syms.push_back(string("@") + o + "." + f + "." + v + "@");
    for (char o : string("RDC")) syms.push_back(string("@") + o + "." + f + "@"); }
  if (vh::opts.replay) { check(vh::opts.rest, vh::opts.rest, true); return vh::finish(); }
  vector<string> one; for (auto& s : syms) if (s.find(".FG") == string::npos) one.push_back(s);
  std::function<void(const vector<string>&, vector<string>&, size_t)> rec = [&](const vector<string>& al, vector<string>& w, size_t n) {
    check(syms, w, true); if (!n) return;
    for (auto& s : al) { w.push_back(s); rec(al, w, n - 1); w.pop_back(); } };
  vector<string> w; rec(syms, w, 2); rec(one, w, vh::scale(3, 4));
  // random longer words, more features and values
  vh::Rng r(vh::opts.seed); long N = vh::scale(4000, 60000);
  vector<string> big = {"x", "y", "@@", "@X.F.a@"};
  for (int f = 0; f < 6; f++) { for (char o : string("PNURD")) for (int v = 0; v < 5; v++) big.push_back(string("@") + o + ".f" + std::to_string(f) + ".v" + std::to_string(v) + "@"); for (char o : string("RDC")) big.push_back(string("@") + o + ".f" + std::to_string(f) + "@"); }
  for (long i = 0; i < N; i++) { w.clear(); size_t n = 1 + r(9); for (size_t k = 0; k < n; k++) { size_t j = r(big.size()); if (big[j] == "@@" || big[j][1] == 'X') j = 0; w.push_back(big[j]); } check(big, w, true); }
  // very many features and values keep their own numbers
  { hfst::FdTable<unsigned short> t; unsigned short n = 0; long F = vh::scale(300, 3000);
    for (long i = 0; i < F; i++) { t.define_diacritic(n++, "@P.g" + std::to_string(i) + ".w" + std::to_string(i) + "@"); t.define_diacritic(n++, "@R.g" + std::to_string(i) + ".w" + std::to_string(i) + "@"); t.define_diacritic(n++, "@R.g" + std::to_string(i) + ".w" + std::to_string((i + 1) % F) + "@"); }
    for (long i = 0; i < F; i++) { unsigned short p = 3 * i, q = p + 1, x = p + 2, o = 3 * ((i + 1) % F) + 1;
      VH_CHECK("many", t.is_valid_string(vector<unsigned short>{p, q}), "own value " << i); VH_CHECK("many", !t.is_valid_string(vector<unsigned short>{p, x}), "other value " << i); VH_CHECK("many", !t.is_valid_string(vector<unsigned short>{p, o}), "other feature " << i);
      auto v = t.get_symbols_with_feature("g" + std::to_string(i)); std::set<unsigned short> sv(v.begin(), v.end()); VH_CHECK("by_feature", v.size() == 3 && sv == (std::set<unsigned short>{p, q, x}), "get_symbols_with_feature g" << i); } }
  return vh::finish();
}
