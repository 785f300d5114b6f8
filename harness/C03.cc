// bounded native check: symbol <-> number coding over random histories
#include "vh.h"
#include "implementations/HfstBasicTransition.h"
using std::string; using namespace hfst::implementations;
typedef HfstTropicalTransducerTransitionData TD;
static std::map<string, unsigned> num; static std::map<unsigned, string> sym;
static void seen(const string& s, unsigned n, const char* where) {
  VH_CHECK("stable", !num.count(s) || num[s] == n, where << ": symbol " << vh::show(s) << " changed its number to " << n);
  VH_CHECK("injective", !sym.count(n) || sym[n] == s, where << ": number " << n << " stands for " << vh::show(s) << " and " << vh::show(sym[n]));
  num[s] = n; sym[n] = s;
}
int main(int argc, char** argv) {
  vh::parse(argc, argv); vh::Rng r(vh::opts.seed);
  seen("@_EPSILON_SYMBOL_@", 0, "start"); seen("@_UNKNOWN_SYMBOL_@", 1, "start"); seen("@_IDENTITY_SYMBOL_@", 2, "start");
  auto word = [&]() -> string { if (r.coin(15)) { const char* sp[] = {"@_EPSILON_SYMBOL_@", "@_UNKNOWN_SYMBOL_@", "@_IDENTITY_SYMBOL_@", "@", "@_EPSILON_SYMBOL_", "@P.F.v@"}; return sp[r(6)]; }
    string s; size_t n = 1 + r(r.coin(80) ? 2 : 12); for (size_t i = 0; i < n; i++) s += r.coin(90) ? (char)('a' + r(6)) : (char)r(256); return s; };
  vh::guarded("exception", "history", [&] {
  for (long k = 0; k < vh::scale(30000, 400000); k++) {
    string a = word(), b = word(); float w = (float)r(1000) / 7;
    switch (r(6)) {
      case 0: { HfstBasicTransition t(k, a, b, w); seen(a, t.get_input_number(), "constructor"); seen(b, t.get_output_number(), "constructor");
        VH_CHECK("carries", t.get_input_symbol() == a && t.get_output_symbol() == b && t.get_weight() == w && t.get_target_state() == (unsigned)k, "constructor " << vh::show(a) << ":" << vh::show(b));
        HfstBasicTransition u(t), v; v = t; for (auto* x : {&u, &v}) VH_CHECK("copies", x->get_input_symbol() == a && x->get_output_symbol() == b && x->get_weight() == w && x->get_target_state() == (unsigned)k, "copy " << vh::show(a)); break; }
      case 1: { HfstBasicTransition t(1, "x", "y", w); t.set_input_symbol(a); seen(a, t.get_input_number(), "set_input_symbol"); VH_CHECK("carries", t.get_input_symbol() == a && t.get_output_symbol() == "y", "set_input_symbol " << vh::show(a)); t.set_weight(w + 1); VH_CHECK("weight", t.get_weight() == w + 1, "set_weight"); seen("x", HfstBasicTransition(0, "x", "x", 0).get_input_number(), "x"); break; }
      case 2: { HfstBasicTransition t(1, "x", "y", w); t.set_output_symbol(a); seen(a, t.get_output_number(), "set_output_symbol"); VH_CHECK("carries", t.get_output_symbol() == a && t.get_input_symbol() == "x", "set_output_symbol " << vh::show(a)); break; }
      case 3: { unsigned n = r(TD::get_max_number() + 1); HfstBasicTransition t(1, n, n, w, false); string s = t.get_input_symbol(); seen(s, n, "from number"); VH_CHECK("carries", t.get_output_symbol() == s, "from number"); HfstBasicTransition u(1, s, s, 0); VH_CHECK("back", u.get_input_number() == n, "number " << n); break; }
      case 4: if (k % 20 == 0) { std::vector<string> v; size_t n = r(8); for (size_t i = 0; i < n; i++) v.push_back(r.coin(20) ? "" : word()); auto h = TD::get_harmonization_vector(v); bool ok = h.size() == v.size();
        for (size_t i = 0; ok && i < n; i++) { if (v[i] == "") ok = h[i] == 0; else seen(v[i], h[i], "get_harmonization_vector"); } VH_CHECK("harmonization", ok, "get_harmonization_vector " << vh::show(v)); } break;
      case 5: if (k % 50 == 0) { std::map<string, unsigned> m; size_t n = r(6); for (size_t i = 0; i < n; i++) { string s = word(); if (num.count(s)) m[s] = 100 + r(100); } auto h = TD::get_reverse_harmonization_vector(m);
        bool ok = h.size() == TD::get_max_number() + 1; for (unsigned i = 0; ok && i < h.size(); i++) { string s = TD::get_symbol(i); ok = h[i] == (m.count(s) ? m[s] : 0u); } VH_CHECK("reverse", ok, "get_reverse_harmonization_vector"); } break;
    }
  } });
  std::set<string> all; for (auto& p : sym) all.insert(p.second); VH_CHECK("one_to_one", all.size() == sym.size() && num.size() == sym.size(), "coding not one-to-one");
  bool thrown = false; try { TD::get_symbol(TD::get_max_number() + 1); } catch (...) { thrown = true; } VH_CHECK("unused_number", thrown, "a number not in use has a symbol");
  for (int e = 0; e < 2; e++) { thrown = false; try { HfstBasicTransition t(0, e ? "a" : "", e ? "" : "a", 0); } catch (...) { thrown = true; } VH_CHECK("empty", thrown, "empty symbol accepted"); }
  return vh::finish();
}
