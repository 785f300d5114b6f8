// bounded native check: graph editing, random histories against a plain model of the graph
#include "vh.h"
#include "implementations/HfstBasicTransducer.h"
using namespace hfst; using namespace hfst::implementations; using std::string;
struct T { unsigned t; string i, o; float w; bool operator==(const T& x) const { return t == x.t && i == x.i && o == x.o && w == x.w; } };
struct Model { std::vector<std::vector<T>> s{1}; std::map<unsigned, float> f; std::set<string> a{"@_EPSILON_SYMBOL_@", "@_UNKNOWN_SYMBOL_@", "@_IDENTITY_SYMBOL_@"};
  void need(unsigned n) { if (s.size() <= n) s.resize(n + 1); }
  std::set<string> used() const { std::set<string> u; for (auto& x : s) for (auto& t : x) { u.insert(t.i); u.insert(t.o); } return u; } };
static string hist;
static T of(const HfstBasicTransition& t) { return T{t.get_target_state(), t.get_input_symbol(), t.get_output_symbol(), t.get_weight()}; }
static void same(const char* id, const HfstBasicTransducer& g, const Model& m) {
  bool ok = g.states().size() == m.s.size(); string why = ok ? "" : "number of states";
  for (size_t i = 0; ok && i < m.s.size(); i++) { auto& v = g[i]; if (v.size() != m.s[i].size()) { ok = false; why = "number of transitions of state " + std::to_string(i); break; } for (size_t j = 0; j < v.size(); j++) if (!(of(v[j]) == m.s[i][j])) { ok = false; why = "transition " + std::to_string(j) + " of state " + std::to_string(i); } }
  for (unsigned i = 0; ok && i < m.s.size() + 1; i++) { bool fin = m.f.count(i); if (g.is_final_state(i) != fin) { ok = false; why = "finality of state " + std::to_string(i); } else if (fin && i < m.s.size() && g.get_final_weight(i) != m.f.at(i)) { ok = false; why = "final weight of state " + std::to_string(i); } }
  std::set<string> al(g.get_alphabet().begin(), g.get_alphabet().end()); if (ok && al != m.a) { ok = false; why = "alphabet"; }
  if (ok && g.get_max_state() + 1 != m.s.size()) { ok = false; why = "largest state"; }
  VH_CHECK(id, ok, "after " << hist << ": " << why);
}
static std::set<string> plain(const HfstBasicTransducer::HfstAlphabet& a) { return std::set<string>(a.begin(), a.end()); }
int main(int argc, char** argv) {
  vh::parse(argc, argv); vh::Rng r(vh::opts.seed + 600);
  std::vector<string> sy = {"a", "b", "c", "@_EPSILON_SYMBOL_@", "@_UNKNOWN_SYMBOL_@", "@_IDENTITY_SYMBOL_@", "@U.F.A@", "\xc3\xa4", "long symbol"};
  float ws[] = {0, 1, 0.5f, -2, 1e9f};
  for (long k = 0; k < vh::scale(4000, 60000); k++) {
    HfstBasicTransducer g; Model m; hist = ""; int n = 1 + r(14); unsigned S = 1 + r(5); size_t A = 2 + r(sy.size() - 1);
    for (int q = 0; q < n; q++) {
      unsigned s = r(S), t = r(S); string i = sy[r(A)], o = r.coin() ? i : sy[r(A)]; float w = ws[r(5)]; bool fl = r.coin(); std::ostringstream h; string id;
      switch (r(15)) {
      case 0: { h << "add_state()"; unsigned x = g.add_state(); id = "add_state"; VH_CHECK(id, x == m.s.size(), "add_state() gave " << x << " after " << hist); m.s.resize(m.s.size() + 1); break; }
      case 1: h << "add_state(" << s << ")"; id = "add_state"; g.add_state(s); m.need(s); break;
      case 2: case 3: case 4: case 5: h << "add_transition(" << s << "," << t << "," << i << "," << o << "," << w << "," << fl << ")"; id = "add_transition"; g.add_transition(s, HfstBasicTransition(t, i, o, w), fl); m.need(std::max(s, t)); m.s[s].push_back({t, i, o, w}); if (fl) m.a.insert(i), m.a.insert(o); break;
      case 6: { h << "remove_transition(" << s << "," << t << "," << i << "," << o << "," << fl << ")"; id = "remove_transition"; if (s < m.s.size() && m.s[s].size() && r.coin(70)) { T& x = m.s[s][r(m.s[s].size())]; t = x.t; i = x.i; o = x.o; h << " existing " << t << i << o; }
        if (s < m.s.size()) { g.remove_transition(s, HfstBasicTransition(t, i, o, w), fl); auto& v = m.s[s]; v.erase(std::remove_if(v.begin(), v.end(), [&](const T& x) { return x.t == t && x.i == i && x.o == o; }), v.end()); if (fl) { auto u = m.used(); if (!u.count(i)) m.a.erase(i); if (!u.count(o)) m.a.erase(o); } } else g.remove_transition(s, HfstBasicTransition(t, i, o, w), fl); break; }
      case 7: h << "set_final_weight(" << s << "," << w << ")"; id = "set_final_weight"; g.set_final_weight(s, w); m.need(s); m.f[s] = w; break;
      case 8: h << "remove_final_weight(" << s << ")"; id = "remove_final_weight"; g.remove_final_weight(s); m.f.erase(s); break;
      case 9: { s %= m.s.size(); t %= m.s.size(); h << "swap_state_numbers(" << s << "," << t << ")"; id = "swap_state_numbers"; g.swap_state_numbers(s, t); std::swap(m.s[s], m.s[t]); for (auto& v : m.s) for (auto& x : v) x.t = x.t == s ? t : x.t == t ? s : x.t;
        std::map<unsigned, float> f; for (auto& x : m.f) f[x.first == s ? t : x.first == t ? s : x.first] = x.second; m.f = f; break; }
      case 10: { h << "sort_arcs"; id = "sort_arcs"; g.sort_arcs(); for (size_t a = 0; a < m.s.size(); a++) { auto v = m.s[a]; std::vector<T> x; bool ok = true; for (auto& y : g[a]) x.push_back(of(y)); for (size_t b = 0; b + 1 < g[a].size(); b++) ok &= !(g[a][b + 1] < g[a][b]); for (auto& y : v) ok &= std::count(v.begin(), v.end(), y) == std::count(x.begin(), x.end(), y); VH_CHECK(id, ok && x.size() == v.size(), "sort_arcs changed the transitions of state " << a << " after " << hist); m.s[a] = x; } break; }
      case 11: { h << "prune_alphabet(" << fl << ")"; id = "prune_alphabet"; g.prune_alphabet(fl); auto u = m.used(); if (fl || (!u.count("@_UNKNOWN_SYMBOL_@") && !u.count("@_IDENTITY_SYMBOL_@"))) for (auto it = m.a.begin(); it != m.a.end();) if (!u.count(*it) && it->substr(0, 2) != "@_") it = m.a.erase(it); else ++it; break; }
      case 12: { h << "alphabet " << i << o; id = "alphabet"; StringSet ss{i, o}; switch (r(4)) { case 0: g.add_symbol_to_alphabet(i); m.a.insert(i); break; case 1: g.remove_symbol_from_alphabet(i); m.a.erase(i); break; case 2: g.add_symbols_to_alphabet(ss); m.a.insert(i); m.a.insert(o); break; case 3: g.remove_symbols_from_alphabet(ss); m.a.erase(i); m.a.erase(o); } break; }
      case 13: { h << "prune_alphabet_after_substitution " << i << o; id = "prune_alphabet_after_substitution"; std::set<unsigned> ss{g.get_symbol_number(i), g.get_symbol_number(o)}; g.prune_alphabet_after_substitution(ss); auto u = m.used(); if (!u.count(i)) m.a.erase(i); if (!u.count(o)) m.a.erase(o); break; }
      case 14: { h << "copy"; id = "copy"; HfstBasicTransducer c(g), d; d.add_transition(0, HfstBasicTransition(3, "x", "y", 1)); d.set_final_weight(7, 2); d = c; same("copy", c, m); same("assignment", d, m); d.add_transition(0, HfstBasicTransition(0, "zz", "zz", 0)); d.set_final_weight(0, 9); same("copy", c, m); g = c; break; }
      }
      hist += (hist.empty() ? "" : "; ") + h.str(); same(id.c_str(), g, m);
      if (vh::fails) return vh::finish();
    }
    auto u = m.used(); std::set<string> ui, uo; StringPairSet up; bool all = true; for (auto& v : m.s) for (auto& x : v) { ui.insert(x.i); uo.insert(x.o); up.insert({x.i, x.o}); all &= m.a.count(x.i) && m.a.count(x.o); }
    VH_CHECK("symbols_used", plain(g.symbols_used()) == u, hist); { auto x = g.get_input_symbols(); VH_CHECK("get_input_symbols", std::set<string>(x.begin(), x.end()) == ui, hist); auto y = g.get_output_symbols(); VH_CHECK("get_output_symbols", std::set<string>(y.begin(), y.end()) == uo, hist); }
    VH_CHECK("get_transition_pairs", g.get_transition_pairs() == up, hist); VH_CHECK("check_alphabet", g.check_alphabet() == all, hist);
    for (unsigned x = 0; x < m.s.size() + 2; x++) { bool thr = false; try { g.get_final_weight(x); } catch (...) { thr = true; } VH_CHECK("get_final_weight", thr == !(x < m.s.size() && m.f.count(x)), "get_final_weight(" << x << ") after " << hist); bool t2 = false; try { if (&g[x] != &g.states_and_transitions()[x]) t2 = true; } catch (...) { t2 = true; } VH_CHECK("transitions", t2 == (x >= m.s.size()), "operator[](" << x << ") after " << hist); }
  }
  return vh::finish();
}
