// bounded native check: recognising and splitting flag diacritics
#include "vh.h"
#include "HfstFlagDiacritics.h"
#include "HfstLookupFlagDiacritics.h"
using std::string; using hfst::FdOperation;
static bool ref(const string& s, string& f, string& v, bool& hv) {
  if (s.size() < 5 || s[0] != '@' || s[2] != '.' || s[s.size() - 1] != '@' || !strchr("PNRDCU", s[1]) || !s[1]) return false;
  string b = s.substr(3, s.size() - 4); size_t d = b.find('.'); hv = d != string::npos;
  f = hv ? b.substr(0, d) : b; v = hv ? b.substr(d + 1) : ""; return hv || strchr("RDC", s[1]);
}
static void check(const string& s) {
  string f, v; bool hv = false; bool fl = ref(s, f, v, hv);
  VH_CHECK("is_diacritic", FdOperation::is_diacritic(s) == fl, "FdOperation::is_diacritic " << vh::show(s));
  VH_CHECK("is_genuine", FlagDiacriticTable::is_diacritic(s) == fl, "FlagDiacriticTable::is_diacritic " << vh::show(s));
  if (!fl) return;
  VH_CHECK("operator", FdOperation::get_operator(s) == s.substr(1, 1), "get_operator " << vh::show(s));
  VH_CHECK("feature", FdOperation::get_feature(s) == f, "get_feature " << vh::show(s) << " gave " << vh::show(FdOperation::get_feature(s)));
  VH_CHECK("value", FdOperation::get_value(s) == v, "get_value " << vh::show(s) << " gave " << vh::show(FdOperation::get_value(s)));
  VH_CHECK("has_value", FdOperation::has_value(s) == hv, "has_value " << vh::show(s));
  FlagDiacriticTable::split_diacritic(s);
  VH_CHECK("split", FlagDiacriticTable::diacritic_features[s] == f && FlagDiacriticTable::diacritic_has_value[s] == hv && (!hv || FlagDiacriticTable::diacritic_values[s] == v), "split_diacritic " << vh::show(s));
  const char* codes = "PNDRCU"; VH_CHECK("split_op", codes[FlagDiacriticTable::diacritic_operators[s]] == s[1], "split_diacritic operator " << vh::show(s));
  VH_CHECK("char_to_operator", "PNRDCU"[FdOperation::char_to_operator(s[1])] == s[1], "char_to_operator " << s[1]);
  FlagDiacriticTable::diacritic_features.clear(); FlagDiacriticTable::diacritic_values.clear(); FlagDiacriticTable::diacritic_has_value.clear(); FlagDiacriticTable::diacritic_operators.clear();
}
static void check_find(const string& s) {
  // first '@...@' span (spans share end points) that is a flag diacritic
  string f, v; bool hv; size_t want = string::npos, wl = 0;
  size_t a = s.find('@'); while (a != string::npos) { size_t b = s.find('@', a + 1); if (b == string::npos) break; if (ref(s.substr(a, b - a + 1), f, v, hv)) { want = a; wl = b - a + 1; break; } a = b; }
  size_t len = 9999; size_t got = FdOperation::find_diacritic(s, len);
  VH_CHECK("find", got == want && (want == string::npos || len == wl), "find_diacritic " << vh::show(s) << " gave " << got << "," << len);
}
int main(int argc, char** argv) {
  vh::parse(argc, argv);
  if (vh::opts.replay) { for (auto& s : vh::opts.rest) { check(s); check_find(s); } return vh::finish(); }
  string al = "@.PRCX"; size_t L = vh::scale(7, 8);
  std::function<void(string&)> rec = [&](string& s) { check(s); check_find(s); if (s.size() >= L) return; for (char c : al) { s.push_back(c); rec(s); s.pop_back(); } };
  string s; rec(s);
  for (int c = 0; c < 256; c++) for (string t : {".F.v@", ".F@", "..@", ".@@", ".F..v@", ".F.@"}) check(string("@") + (char)c + t);
  vh::Rng r(vh::opts.seed); for (long i = 0; i < vh::scale(60000, 1000000); i++) { string x; if (r.coin(80)) { x = "@"; x += "PNRDCUX"[r(7)]; x += "."; } size_t n = r(24); for (size_t k = 0; k < n; k++) x += r.coin(15) ? '.' : r.coin(10) ? '@' : r.coin(5) ? (char)r(256) : (char)('A' + r(26)); if (r.coin(85)) x += "@"; check(x); check_find(x); }
  return vh::finish();
}
