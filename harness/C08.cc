// bounded native check: optimized lookup against a plain search of the graph the transducer was made from
#include "vh.h"
#include "implementations/HfstBasicTransducer.h"
#include "implementations/ConvertTransducerFormat.h"
#include "implementations/optimized-lookup/transducer.h"
using namespace hfst; using namespace hfst::implementations; using std::string;
static const string EPS = "@_EPSILON_SYMBOL_@", UNK = "@_UNKNOWN_SYMBOL_@", ID = "@_IDENTITY_SYMBOL_@", DEF = "@_DEFAULT_SYMBOL_@";
struct Arc { unsigned s, t; string i, o; float w; };
typedef std::map<string, std::pair<bool, string>> Flags;      // feature -> (positive, value)
static bool flag(const string& s) { return s.size() >= 5 && s[0] == '@' && s[2] == '.' && s.back() == '@' && strchr("PNDRCU", s[1]); }
static bool do_flag(const string& s, Flags& f) {
  string b = s.substr(3, s.size() - 4); size_t d = b.find('.'); string k = b.substr(0, d), v = d == string::npos ? "" : b.substr(d + 1); auto it = f.find(k); bool set = it != f.end(), is = set && it->second.first && it->second.second == v;
  switch (s[1]) { case 'P': f[k] = {true, v}; return true; case 'N': f[k] = {false, v}; return true; case 'C': f.erase(k); return true;
    case 'R': return v == "" ? set : is; case 'D': return v == "" ? !set : !is;
    case 'U': if (!set || is || (!it->second.first && it->second.second != v)) { f[k] = {true, v}; return true; } return false; }
  return false; }
typedef std::pair<float, std::vector<std::pair<string, string>>> Res;
struct Ref { std::vector<Arc> arcs; std::map<unsigned, float> fin; std::set<string> in; std::vector<string> word; std::set<Res> out; int steps = 0;
  void run(unsigned s, size_t p, Flags f, Res r) {
    if (++steps > 1200) return;
    if (p == word.size() && fin.count(s)) { Res x = r; x.first += fin[s]; out.insert(x); }
    bool taken = false;
    for (auto& a : arcs) if (a.s == s) {
      Res x = r; x.first += a.w;
      if (a.i == EPS) { x.second.push_back({"", a.o == EPS ? "" : a.o}); run(a.t, p, f, x); taken = true; }
      else if (flag(a.i)) { Flags g = f; if (do_flag(a.i, g)) { x.second.push_back({a.i, a.o == EPS ? "" : a.o}); run(a.t, p, g, x); } }
      else if (p < word.size()) { bool known = in.count(word[p]); if (known ? a.i == word[p] : a.i == ID || a.i == UNK) { x.second.push_back({a.i, a.o == EPS ? "" : a.o == ID || a.o == UNK || a.o == DEF ? word[p] : a.o}); run(a.t, p + 1, f, x); taken = true; } } }
    if (!taken && p < word.size()) for (auto& a : arcs) if (a.s == s && a.i == DEF) { Res x = r; x.first += a.w; x.second.push_back({a.i, a.o == EPS ? "" : a.o == ID || a.o == UNK || a.o == DEF ? word[p] : a.o}); run(a.t, p + 1, f, x); } } };
static std::vector<string> cut(const string& w, const std::set<string>& in) { std::vector<string> o; for (size_t i = 0; i < w.size();) { size_t best = 0; for (auto& s : in) if (s.size() > best && !w.compare(i, s.size(), s)) best = s.size();
    if (!best) { unsigned char c = w[i]; best = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; } o.push_back(w.substr(i, best)); i += best; } return o; }
static string show(const std::set<Res>& x) { std::ostringstream o; for (auto& r : x) { o << " [" << r.first << ":"; for (auto& p : r.second) o << " " << p.first << ":" << p.second; o << "]"; } return o.str(); }
int main(int argc, char** argv) {
  vh::parse(argc, argv); vh::Rng r(vh::opts.seed + 800);
  std::vector<string> plain = {"a", "b", "ab", "\xc3\xa4", "aba", "c", "\xe2\x82\xac" "x"}, fl = {"@P.F.A@", "@P.F.B@", "@R.F.A@", "@D.F.A@", "@U.F.B@", "@N.F.A@", "@C.F@", "@R.F@", "@D.F@", "@U.G.A@", "@R.G.A@"}, outs = {"a", "X", "+Tag", "\xc3\xb6", "b", "ab"}, letters = {"a", "b", "c", "\xc3\xa4", "z", "\xe2\x82\xac", "x", "X"};
  float ws[] = {0, 1, 0.5f, 2.25f, -1, 8}; char b[64];
  for (long k = 0; k < vh::scale(2000, 40000); k++) {
    unsigned n = 1 + r(5); size_t A = 1 + r(plain.size()), m = r(4) ? 1 + r(12) : r(30); bool meta = r.coin(60), def = r.coin(25), flags = r.coin(60), eps = r.coin(60); Ref ref; string text; std::vector<string> sp; if (meta) { if (r.coin(70)) sp.push_back(ID); if (r.coin(60)) sp.push_back(UNK); }
    std::set<unsigned> hasdef; if (def) for (unsigned s = 0; s < n; s++) if (r.coin(40)) hasdef.insert(s);
    for (size_t q = 0; q < m; q++) { Arc a; a.s = r(n); a.t = r(n); a.w = r.coin() ? 0 : ws[r(6)];
      if (!hasdef.count(a.s) && a.s < a.t && flags && r.coin(35)) a.i = a.o = fl[r(fl.size())];
      else if (!hasdef.count(a.s) && a.s < a.t && eps && r.coin(35)) { a.i = EPS; a.o = r.coin(80) ? outs[r(outs.size())] : EPS; }
      else if (sp.size() && r.coin(25)) { a.i = sp[r(sp.size())]; a.o = a.i == ID ? ID : r.coin() ? UNK : outs[r(outs.size())]; }
      else if (hasdef.count(a.s) && r.coin(35)) { a.i = DEF; a.o = r.coin() ? DEF : outs[r(outs.size())]; }
      else { a.i = plain[r(A)]; a.o = r.coin() ? a.i : r.coin(20) ? EPS : outs[r(outs.size())]; }
      ref.arcs.push_back(a); if (!flag(a.i) && a.i != EPS) ref.in.insert(a.i); }
    for (unsigned s = 0; s < n; s++) if (r.coin(45)) ref.fin[s] = r.coin() ? 0 : ws[r(6)];
    HfstBasicTransducer g; for (unsigned s = 0; s < n; s++) g.add_state(s); std::ostringstream t;
    for (auto& a : ref.arcs) { g.add_transition(a.s, HfstBasicTransition(a.t, a.i, a.o, a.w)); t << a.s << ">" << a.t << " " << a.i << ":" << a.o << "/" << a.w << "; "; } for (auto& f : ref.fin) { g.set_final_weight(f.first, f.second); t << "final " << f.first << "/" << f.second << "; "; }
    string what = t.str(); hfst_ol::Transducer* T = ConversionFunctions::hfst_basic_transducer_to_hfst_ol(&g, true, "", 0);
    for (int q = 0; q < 6; q++) {
      string w; for (size_t j = r(6); j-- > 0;) w += r.coin(30) ? plain[r(A)] : letters[r(letters.size())];
      ref.word = cut(w, ref.in); ref.out.clear(); ref.steps = 0; ref.run(0, 0, {}, Res(0, {})); if (ref.steps > 1200) continue;
      HfstTwoLevelPaths* p = T->lookup_fd_pairs(w); std::set<Res> got(p->begin(), p->end()); delete p;
      VH_CHECK("pairs", got == ref.out, "lookup of " << vh::show(w) << " gives" << show(got) << " instead of" << show(ref.out) << " in " << what);
      std::set<std::pair<float, StringVector>> o1; for (auto& x : ref.out) { StringVector v; for (auto& y : x.second) v.push_back(y.second); o1.insert({x.first, v}); }
      HfstOneLevelPaths* l = r.coin() ? T->lookup_fd(w) : r.coin() ? T->lookup_fd(w.c_str()) : T->lookup_fd(ref.word); std::set<std::pair<float, StringVector>> g1(l->begin(), l->end()); delete l;
      VH_CHECK("outputs", g1 == o1, "lookup of " << vh::show(w) << " gives " << g1.size() << " outputs, not the " << o1.size() << " of" << show(ref.out) << " in " << what);
      long lim = r(4); p = T->lookup_fd_pairs(w, lim); std::set<Res> some(p->begin(), p->end()); delete p; bool sub = std::includes(ref.out.begin(), ref.out.end(), some.begin(), some.end());
      VH_CHECK("limit", sub && some.size() == std::min(size_t(lim), ref.out.size()), "lookup of " << vh::show(w) << " with limit " << lim << " gives" << show(some) << " of" << show(ref.out) << " in " << what);
      l = T->lookup_fd(w, lim, r.coin() ? 100.0 : 0.0); std::set<std::pair<float, StringVector>> s1(l->begin(), l->end()); delete l;
      VH_CHECK("limit", s1.size() <= size_t(lim) && (s1.size() || !lim || o1.empty()) && std::includes(o1.begin(), o1.end(), s1.begin(), s1.end()), "lookup of " << vh::show(w) << " with limit " << lim << " gives " << s1.size() << " outputs in " << what);
      if (vh::fails) return vh::finish();
    }
    delete T;
  }
  (void)b; return vh::finish();
}
