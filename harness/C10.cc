// bounded native check: substitution and free insertion in a graph, compared with a plain model
#include "vh.h"
#include "implementations/HfstBasicTransducer.h"
using namespace hfst; using namespace hfst::implementations; using std::string;
static const string EPS = "@_EPSILON_SYMBOL_@", UNK = "@_UNKNOWN_SYMBOL_@", IDE = "@_IDENTITY_SYMBOL_@";
typedef std::pair<string, string> PS; typedef std::set<PS> PSS;
struct Arc { string i, o; float w; unsigned t; };
struct G { std::vector<std::vector<Arc>> s; std::vector<std::pair<bool, float>> fin; std::set<string> al;
  unsigned add() { s.push_back({}); fin.push_back({false, 0}); return s.size() - 1; }
  bool used(const string& y) const { for (auto& v : s) for (auto& a : v) if (a.i == y || a.o == y) return true; return false; } };
static string bits(float f) { char b[16]; uint32_t u; memcpy(&u, &f, 4); snprintf(b, 16, "%08x", u); return b; }
static string show(const G& g) { std::ostringstream o; o << g.s.size() << " states: "; for (size_t s = 0; s < g.s.size(); s++) { for (auto& a : g.s[s]) o << s << ">" << a.t << " " << vh::show(a.i) << ":" << vh::show(a.o) << "/" << a.w << "; "; if (g.fin[s].first) o << "final " << s << "/" << g.fin[s].second << "; "; } o << "alphabet"; for (auto& y : g.al) o << " " << y; return o.str(); }
static G of(const HfstBasicTransducer& t) { G g; unsigned n = t.get_max_state() + 1; for (unsigned s = 0; s < n; s++) { g.fin.push_back({t.is_final_state(s), t.is_final_state(s) ? t.get_final_weight(s) : 0}); g.s.push_back({}); for (auto& a : t[s]) g.s[s].push_back({a.get_input_symbol(), a.get_output_symbol(), a.get_weight(), a.get_target_state()}); } for (auto& y : t.get_alphabet()) g.al.insert(y); return g; }
static bool same_arcs(const G& a, const G& b) { // same state numbers, transitions in any order
  if (a.s.size() != b.s.size() || a.fin != b.fin) return false;
  for (size_t s = 0; s < a.s.size(); s++) { std::vector<string> v[2]; const G* g[2] = {&a, &b}; for (int k = 0; k < 2; k++) { for (auto& x : g[k]->s[s]) v[k].push_back(vh::show(x.i) + ":" + vh::show(x.o) + "/" + bits(x.w) + ">" + std::to_string(x.t)); std::sort(v[k].begin(), v[k].end()); } if (v[0] != v[1]) return false; } return true; }
static bool same(const G& a, const G& b, size_t fixed) { // state numbers free from fixed on
  if (a.s.size() != b.s.size()) return false; const G* g[2] = {&a, &b}; std::vector<int> col[2]; for (int k = 0; k < 2; k++) for (size_t s = 0; s < a.s.size(); s++) col[k].push_back(s < fixed ? s : fixed); size_t classes = 0;
  for (;;) { std::map<string, int> ids; std::vector<int> nc[2];
    for (int k = 0; k < 2; k++) for (size_t s = 0; s < g[k]->s.size(); s++) { std::vector<string> v; for (auto& x : g[k]->s[s]) v.push_back(vh::show(x.i) + ":" + vh::show(x.o) + "/" + bits(x.w) + ">" + std::to_string(col[k][x.t])); std::sort(v.begin(), v.end()); string key = std::to_string(col[k][s]) + "|" + (g[k]->fin[s].first ? bits(g[k]->fin[s].second) : "-"); for (auto& x : v) key += " " + x; nc[k].push_back(ids.insert({key, ids.size()}).first->second); }
    col[0] = nc[0]; col[1] = nc[1]; if (ids.size() == classes) break; classes = ids.size(); }
  for (size_t s = 0; s < fixed && s < col[0].size(); s++) if (col[0][s] != col[1][s]) return false;
  std::vector<int> x = col[0], y = col[1]; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); return x == y; }
// without the states from fixed on that nothing leads to or from and that are not final
static G tidy(const G& g, size_t fixed) { std::vector<bool> keep(g.s.size(), false); for (size_t s = 0; s < g.s.size(); s++) { if (s < fixed || g.fin[s].first) keep[s] = true; for (auto& a : g.s[s]) keep[s] = keep[a.t] = true; } std::vector<unsigned> m(g.s.size()); G r; r.al = g.al; for (size_t s = 0; s < g.s.size(); s++) if (keep[s]) { m[s] = r.add(); r.fin[m[s]] = g.fin[s]; } for (size_t s = 0; s < g.s.size(); s++) for (auto a : g.s[s]) { a.t = m[a.t]; r.s[m[s]].push_back(a); } return r; }
static std::map<PS, PSS> table; // what the substitution function does
static bool subst_fn(const PS& p, HfstBasicTransducer::HfstSymbolPairSet& out) { auto it = table.find(p); if (it == table.end()) return false; for (auto& x : it->second) out.insert(x); return true; }
static HfstBasicTransducer make(const G& g) { HfstBasicTransducer b; for (unsigned s = 0; s < g.s.size(); s++) b.add_state(s); for (unsigned s = 0; s < g.s.size(); s++) for (auto& a : g.s[s]) b.add_transition(s, HfstBasicTransition(a.t, a.i, a.o, a.w)); for (unsigned s = 0; s < g.s.size(); s++) if (g.fin[s].first) b.set_final_weight(s, g.fin[s].second); for (auto& y : g.al) b.add_symbol_to_alphabet(y); return b; }
// the substituting graph between two states
static void splice(G& g, const G& h, unsigned from, unsigned to, float w) { unsigned off = g.s.size(); for (size_t s = 0; s < h.s.size(); s++) g.add(); g.s[from].push_back({EPS, EPS, w, off}); for (size_t s = 0; s < h.s.size(); s++) { for (auto a : h.s[s]) { a.t += off; g.s[off + s].push_back(a); g.al.insert(a.i); g.al.insert(a.o); } if (h.fin[s].first) g.s[off + s].push_back({EPS, EPS, h.fin[s].second, to}); } g.al.insert(EPS); }
static void replaced(G& m, const PS& p, const PSS& with) { bool any = false; for (auto& v : m.s) { std::vector<Arc> n; for (auto& a : v) if (PS(a.i, a.o) == p) { any = true; for (auto& x : with) n.push_back({x.first, x.second, a.w, a.t}); } else n.push_back(a); v = n; }
  if (any) for (auto& x : with) { m.al.insert(x.first); m.al.insert(x.second); } for (auto& y : {p.first, p.second}) if (!m.used(y)) m.al.erase(y); }
int main(int argc, char** argv) {
  vh::parse(argc, argv); vh::Rng r(vh::opts.seed + 1000);
  std::vector<string> sy = {"a", "b", "c", "d", EPS, UNK, IDE, "\xc3\xa4", "long symbol", "@U.F.A@"}; float ws[] = {0, 1, 0.5f, -2, 4, 1e9f};
  auto random = [&](unsigned n, size_t m, size_t A) { G g; for (unsigned s = 0; s < n; s++) g.add(); g.al = {EPS, UNK, IDE}; for (size_t q = 0; q < m; q++) { unsigned s = r(n); Arc a; a.t = r(n); a.w = ws[r(6)]; a.i = sy[r(A)]; a.o = r.coin(60) ? a.i : sy[r(A)]; if (r.coin(30) && g.s[s].size()) { Arc b = g.s[s].back(); a.i = b.i; a.o = b.o; } g.al.insert(a.i); g.al.insert(a.o); g.s[s].push_back(a); } for (unsigned s = 0; s < n; s++) if (r.coin(40)) g.fin[s] = {true, ws[r(6)]}; return g; };
  for (long k = 0; k < vh::scale(6000, 120000); k++) {
    size_t A = 2 + r(sy.size() - 1); G g = random(1 + r(5), r(12), A), m = g, h = random(1 + r(3), r(5), 2 + r(sy.size() - 1)); if (r.coin(20)) { g.al.insert(sy[r(sy.size())]); m = g; }
    HfstBasicTransducer b = make(g), hb = make(h); G h0 = of(hb); string id, what; auto sym = [&] { return sy[r(sy.size())]; }; auto pair = [&] { for (auto& v : g.s) for (auto& a : v) if (r.coin(25)) return PS(a.i, a.o); return PS(sym(), sym()); }; auto pairs = [&](int n) { PSS s; for (int q = r(n + 1); q > 0; q--) s.insert(PS(sym(), sym())); return s; };
    size_t fixed = size_t(-1); bool alpha = true, ok = vh::guarded("exception", show(g), [&] {
    switch (r(9)) {
    case 0: { string x = sym(), y = sym(); bool in = r.coin(70), out = r.coin(70); id = "symbol by symbol"; what = "substitute(" + x + "," + y + (in ? ",in" : "") + (out ? ",out" : "") + ")"; b.substitute(x, y, in, out); if (x == y || !m.al.count(x)) break; for (auto& v : m.s) for (auto& a : v) { if (in && a.i == x) a.i = y; if (out && a.o == x) a.o = y; } if (in && out && x != EPS && x != UNK && x != IDE) m.al.erase(x); m.al.insert(y); break; }
    case 1: { HfstSymbolSubstitutions s; id = "symbols by symbols"; what = "substitute("; for (int q = r(4); q >= 0; q--) s[sym()] = sym(); for (auto& x : s) what += x.first + "->" + x.second + " "; b.substitute_symbols(s); for (auto& v : m.s) for (auto& a : v) { if (s.count(a.i)) { a.i = s[a.i]; m.al.insert(a.i); } if (s.count(a.o)) { a.o = s[a.o]; m.al.insert(a.o); } } break; }
    case 2: { HfstSymbolPairSubstitutions s; id = "pairs by pairs"; what = "substitute("; for (int q = r(4); q >= 0; q--) s[pair()] = PS(sym(), sym()); for (auto& x : s) what += x.first.first + ":" + x.first.second + "->" + x.second.first + ":" + x.second.second + " "; b.substitute_symbol_pairs(s); for (auto& v : m.s) for (auto& a : v) { auto it = s.find(PS(a.i, a.o)); if (it != s.end()) { a.i = it->second.first; a.o = it->second.second; m.al.insert(a.i); m.al.insert(a.o); } } break; }
    case 3: { PS p = pair(); PSS s = pairs(4); id = s.empty() ? "removing" : "pair by set"; what = "substitute(" + p.first + ":" + p.second + " by"; for (auto& x : s) what += " " + x.first + ":" + x.second; b.substitute(p, HfstBasicTransducer::HfstSymbolPairSet(s.begin(), s.end())); replaced(m, p, s); break; }
    case 4: { PS p = pair(), q(sym(), sym()); id = "pair by pair"; what = "substitute(" + p.first + ":" + p.second + " by " + q.first + ":" + q.second; b.substitute(p, q); replaced(m, p, {q}); break; }
    case 5: { table.clear(); id = "by function"; what = "substitute("; for (int q = r(4); q >= 0; q--) { PS p = pair(); PSS s = pairs(4); s.insert(PS(sym(), sym())); table[p] = s; } for (auto& t : table) { what += t.first.first + ":" + t.first.second + "->"; for (auto& x : t.second) what += " " + x.first + ":" + x.second; what += "; "; } b.substitute(subst_fn); for (auto& v : m.s) { std::vector<Arc> n; for (auto& a : v) { auto it = table.find(PS(a.i, a.o)); if (it == table.end()) n.push_back(a); else for (auto& x : it->second) { n.push_back({x.first, x.second, a.w, a.t}); m.al.insert(x.first); m.al.insert(x.second); } } v = n; } break; }
    case 6: { PS p = pair(); id = "pair by graph"; what = "substitute(" + p.first + ":" + p.second + " by " + show(h); b.substitute(p, hb); fixed = m.s.size(); if (!m.al.count(p.first) && !m.al.count(p.second)) break; std::vector<std::tuple<unsigned, unsigned, float>> subs; for (unsigned s = 0; s < m.s.size(); s++) { std::vector<Arc> n; for (auto& a : m.s[s]) if (PS(a.i, a.o) == p) subs.push_back({s, a.t, a.w}); else n.push_back(a); m.s[s] = n; } for (auto& x : subs) splice(m, h, std::get<0>(x), std::get<1>(x), std::get<2>(x)); break; }
    case 7: { id = "symbols by graphs"; std::map<string, HfstBasicTransducer> sm; std::map<string, G> mm; what = "substitute("; for (int q = r(2); q >= 0; q--) { string x = sym(); G h2 = random(1 + r(3), r(5), sy.size()); mm[x] = h2; sm[x] = make(h2); } bool known = false, bad = false; for (auto& x : mm) { what += x.first + " by " + show(x.second) + "; "; if (m.al.count(x.first)) known = true; } for (auto& v : m.s) for (auto& a : v) if (a.i != a.o && (mm.count(a.i) || mm.count(a.o))) bad = true;
      bool threw = false; try { b.substitute(sm, false); } catch (const HfstException&) { threw = true; } VH_CHECK("symbols by graphs: exception", threw == (known && bad), what << " on " << show(g)); if (threw) { alpha = false; fixed = 0; m = of(b); break; } fixed = m.s.size(); if (!known) break; std::vector<std::tuple<unsigned, unsigned, float, string>> subs; for (unsigned s = 0; s < m.s.size(); s++) { std::vector<Arc> n; for (auto& a : m.s[s]) if (mm.count(a.i)) subs.push_back({s, a.t, a.w, a.i}); else n.push_back(a); m.s[s] = n; } for (auto& x : subs) { string y = std::get<3>(x); if (y != EPS && y != UNK && y != IDE) m.al.erase(y); } for (auto& x : subs) splice(m, mm[std::get<3>(x)], std::get<0>(x), std::get<1>(x), std::get<2>(x)); break; }
    case 8: { float w = ws[r(6)]; int kind = r(3); id = "insert_freely"; if (kind == 0) { PS p(sym(), sym()); what = "insert_freely(" + p.first + ":" + p.second; b.insert_freely(p, w); for (unsigned s = 0; s < m.s.size(); s++) m.s[s].push_back({p.first, p.second, w, s}); m.al.insert(p.first); m.al.insert(p.second); }
      else if (kind == 1) { PSS ps = pairs(4); what = "insert_freely("; for (auto& x : ps) what += x.first + ":" + x.second + " "; b.insert_freely(HfstBasicTransducer::HfstSymbolPairSet(ps.begin(), ps.end()), w); for (unsigned s = 0; s < m.s.size(); s++) for (auto& p : ps) { m.s[s].push_back({p.first, p.second, w, s}); m.al.insert(p.first); m.al.insert(p.second); } }
      else { id = "insert_freely graph"; what = "insert_freely(" + show(h); b.insert_freely(hb); fixed = m.s.size(); for (unsigned s = 0; s < fixed; s++) splice(m, h, s, s, 0); } break; }
    } });
    if (!ok) break;
    G d = of(b); bool eq = fixed == size_t(-1) ? same_arcs(m, d) : same(tidy(m, fixed), tidy(d, fixed), fixed);
    VH_CHECK(id, eq, what << ") on " << show(g) << " gives " << show(d) << " instead of " << show(m));
    VH_CHECK(id + ": alphabet", !alpha || d.al == m.al, what << ") on " << show(g) << " leaves another alphabet: " << show(d) << " instead of " << show(m));
    { G e = of(hb); VH_CHECK("argument", same_arcs(e, h0) && e.al == h0.al, what << ") changed its argument"); }
    if (vh::fails > 6) break;
  }
  return vh::finish();
}
