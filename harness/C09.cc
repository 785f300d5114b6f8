// bounded native check: conversion of a graph to optimized lookup and back, the tables decoded from the written bytes
#include "vh.h"
#include "implementations/HfstBasicTransducer.h"
#include "implementations/ConvertTransducerFormat.h"
#include "implementations/optimized-lookup/transducer.h"
using namespace hfst; using namespace hfst::implementations; using std::string;
static const string EPS = "@_EPSILON_SYMBOL_@";
static bool flag(const string& s) { return s.size() >= 5 && s[0] == '@' && s[2] == '.' && s.back() == '@' && strchr("PNDRCU", s[1]); }
struct Arc { string i, o; float w; unsigned t; };
struct G { std::vector<std::vector<Arc>> s; std::vector<std::pair<bool, float>> fin; };
static string bits(float f) { char b[16]; uint32_t u; memcpy(&u, &f, 4); if (u == 0x80000000u) u = 0; snprintf(b, 16, "%08x", u); return b; }
// states that are reachable from 0 only
static G trim(const G& g) { std::map<unsigned, unsigned> m; std::vector<unsigned> q; m[0] = 0; q.push_back(0); G r; for (size_t k = 0; k < q.size(); k++) { r.fin.push_back(g.fin[q[k]]); r.s.push_back({}); for (auto a : g.s[q[k]]) { if (!m.count(a.t)) { unsigned n = m.size(); m[a.t] = n; q.push_back(a.t); } a.t = m[a.t]; r.s[k].push_back(a); } } return r; }
// equal colours: the same weight of finality and the same transitions to states of equal colours, with their multiplicity
static bool same(const G& a, const G& b) {
  if (a.s.size() != b.s.size()) return false; const G* g[2] = {&a, &b}; std::vector<int> col[2]; for (int k = 0; k < 2; k++) col[k].assign(g[k]->s.size(), 0); size_t classes = 1;
  for (;;) { std::map<string, int> ids; std::vector<int> nc[2];
    for (int k = 0; k < 2; k++) for (size_t s = 0; s < g[k]->s.size(); s++) { std::vector<string> v; for (auto& x : g[k]->s[s]) v.push_back(vh::show(x.i) + ":" + vh::show(x.o) + "/" + bits(x.w) + ">" + std::to_string(col[k][x.t])); std::sort(v.begin(), v.end()); string key = std::to_string(col[k][s]) + "|" + (g[k]->fin[s].first ? bits(g[k]->fin[s].second) : "-"); for (auto& x : v) key += " " + x; nc[k].push_back(ids.insert({key, ids.size()}).first->second); }
    col[0] = nc[0]; col[1] = nc[1]; if (ids.size() == classes) break; classes = ids.size(); }
  std::vector<int> x = col[0], y = col[1]; bool z = x[0] == y[0]; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); return z && x == y; }
static string show(const G& g) { std::ostringstream o; for (size_t s = 0; s < g.s.size(); s++) { for (auto& a : g.s[s]) o << s << ">" << a.t << " " << vh::show(a.i) << ":" << vh::show(a.o) << "/" << a.w << "; "; if (g.fin[s].first) o << "final " << s << "/" << g.fin[s].second << "; "; } return o.str(); }
struct Bytes { string b; template <class T> T at(size_t p) { if (p + sizeof(T) > b.size()) throw std::runtime_error("reads beyond the end of the tables"); T t; memcpy(&t, &b[p], sizeof(T)); return t; } };
struct Tables { Bytes d; uint16_t in, n; uint32_t isz, tsz; bool weighted; std::vector<string> sym; size_t ip, tp, te;
  Tables(const string& b) { d.b = b; in = d.at<uint16_t>(0); n = d.at<uint16_t>(2); isz = d.at<uint32_t>(4); tsz = d.at<uint32_t>(8); weighted = d.at<uint32_t>(20); ip = 20 + 36; for (int k = 0; k < n; k++) { size_t e = b.find('\0', ip); if (e == string::npos) throw std::runtime_error("no end of symbol"); sym.push_back(b.substr(ip, e - ip)); ip = e + 1; } tp = ip + size_t(isz) * 6; te = weighted ? 12 : 8; if (tp + tsz * te != b.size()) throw std::runtime_error("sizes in the header do not match"); }
  uint16_t iin(size_t i) { if (i >= isz) throw std::runtime_error("index table too short"); return d.at<uint16_t>(ip + 6 * i); } uint32_t itg(size_t i) { return d.at<uint32_t>(ip + 6 * i + 2); }
  uint16_t tin(size_t i) { if (i >= tsz) throw std::runtime_error("transition table too short"); return d.at<uint16_t>(tp + te * i); } uint16_t tout(size_t i) { return d.at<uint16_t>(tp + te * i + 2); } uint32_t ttg(size_t i) { return d.at<uint32_t>(tp + te * i + 4); } float tw(size_t i) { return weighted ? d.at<float>(tp + te * i + 8) : 0; }
  G decode() { G g; std::map<uint32_t, unsigned> m; std::vector<uint32_t> q; m[0] = 0; q.push_back(0); const uint32_t S = 2147483648u, NO = 4294967295u;
    for (size_t k = 0; k < q.size() && k < 5000; k++) { uint32_t x = q[k]; std::vector<size_t> ts; bool f; float w = 0;
      if (x < S) { f = iin(x) == 65535 && itg(x) != NO; if (f && weighted) { uint32_t u = itg(x); memcpy(&w, &u, 4); }
        if (iin(x) != 65535) throw std::runtime_error("a state begins at an entry of an input symbol");
        if (iin(x + 1) == 0) for (size_t t = itg(x + 1) - S; tin(t) == 0 || (tin(t) < n && flag(sym[tin(t)])); t++) ts.push_back(t);
        for (unsigned c = 1; c < in; c++) if (!flag(sym[c]) && iin(x + 1 + c) == c) { size_t t0 = itg(x + 1 + c) - S; if (tin(t0) != c) throw std::runtime_error("an index entry leads to transitions of another input symbol"); for (size_t t = t0; tin(t) == c; t++) ts.push_back(t); } }
      else { size_t t = x - S; if (tin(t) != 65535 || tout(t) != 65535) throw std::runtime_error("a state begins at a transition"); f = ttg(t) == 1; if (f) w = tw(t); size_t t1 = ++t; auto eps = [&](size_t q) { return tin(q) == 0 || (tin(q) < n && flag(sym[tin(q)])); };
        for (; tin(t) != 65535; ++t) { if (eps(t1) ? !eps(t) : tin(t) != tin(t1)) throw std::runtime_error("a state without index entries has transitions of several input symbols, so a lookup stops before some of them"); ts.push_back(t); } }
      g.fin.push_back({f, w}); g.s.push_back({});
      for (size_t t : ts) { if (tin(t) >= n || tout(t) >= n) throw std::runtime_error("symbol number out of range"); uint32_t y = ttg(t); if (!m.count(y)) { unsigned c = m.size(); m[y] = c; q.push_back(y); } g.s[k].push_back({sym[tin(t)], sym[tout(t)], tw(t), m[y]}); } }
    return g; } };
static G of(const HfstBasicTransducer& t) { G g; unsigned n = t.get_max_state() + 1; for (unsigned s = 0; s < n; s++) { g.fin.push_back({t.is_final_state(s), t.is_final_state(s) ? t.get_final_weight(s) : 0}); g.s.push_back({}); for (auto& a : t[s]) g.s[s].push_back({a.get_input_symbol(), a.get_output_symbol(), a.get_weight(), a.get_target_state()}); } return g; }
int main(int argc, char** argv) {
  vh::parse(argc, argv); vh::Rng r(vh::opts.seed + 900);
  std::vector<string> plain, fl = {"@P.F.A@", "@R.F.A@", "@D.F@", "@U.G.B@", "@N.F.A@", "@C.F@"}; for (int k = 0; k < 40; k++) plain.push_back("s" + std::to_string(k)); std::vector<string> sp = {"a", "b", "\xc3\xa4", "@_IDENTITY_SYMBOL_@", "@_UNKNOWN_SYMBOL_@", "@_DEFAULT_SYMBOL_@", " ", "@", "Z+Tag", "@X@"}; plain.insert(plain.begin(), sp.begin(), sp.end());
  float ws[] = {0, 1, 0.5f, 2.25f, -1, 8, 1e-20f, -3.5f, 1000, 0.1f};
  for (long k = 0; k < vh::scale(4000, 100000); k++) {
    bool big = k % 10 == 0, weighted = r.coin(65); unsigned n = 1 + (big ? r(40) : r(7)); size_t A = 1 + r(big ? plain.size() : 6), off = r(plain.size() - A + 1), m = big ? r(200) : r(14); int pf = r(3) * 25, pe = r(3) * 20; G g; g.s.resize(n); g.fin.resize(n);
    HfstBasicTransducer b; for (unsigned s = 0; s < n; s++) b.add_state(s);
    for (size_t q = 0; q < m; q++) { unsigned s = r.coin(30) ? r(n) : r(1 + n / 3), t = r(n); Arc a; a.t = t; a.w = r.coin() ? 0 : ws[r(10)]; a.i = r.coin(pf) ? fl[r(fl.size())] : r.coin(pe) ? EPS : plain[off + r(A)]; a.o = flag(a.i) ? a.i : r.coin(20) ? EPS : r.coin() ? plain[r(plain.size())] : a.i; if (q && r.coin(8) && g.s[s].size()) { a = g.s[s][r(g.s[s].size())]; if (r.coin()) a.w += 1; } g.s[s].push_back(a); b.add_transition(s, HfstBasicTransition(a.t, a.i, a.o, a.w)); }
    for (unsigned s = 0; s < n; s++) if (r.coin(40)) { g.fin[s] = {true, r.coin() ? 0 : ws[r(10)]}; b.set_final_weight(s, g.fin[s].second); }
    if (r.coin(20)) b.add_symbol_to_alphabet("unused");
    if (!weighted) { for (auto& v : g.s) for (auto& a : v) a.w = 0; for (auto& f : g.fin) f.second = 0; }
    string what = show(g) + (weighted ? "" : "(unweighted)"); G e = trim(g);
    G src0 = of(b); hfst_ol::Transducer* T = ConversionFunctions::hfst_basic_transducer_to_hfst_ol(&b, weighted, "", 0); std::ostringstream os; T->write(os);
    try {
      Tables t(os.str()); G d = t.decode();
      VH_CHECK("tables", same(e, d), "the tables hold " << show(d) << " instead of " << show(e));
      VH_CHECK("weighted", t.weighted == weighted, "wrong weightedness for " << what);
      std::set<string> sy(t.sym.begin(), t.sym.end()), al = b.get_alphabet(); al.insert(EPS); std::set<string> used; for (auto& v : g.s) for (auto& a : v) if (a.i != EPS && !flag(a.i)) used.insert(a.i);
      VH_CHECK("symbols", t.n && t.sym[0] == EPS && sy.size() == t.sym.size() && sy == al, "the symbols are " << vh::show(t.sym) << " for " << what);
      VH_CHECK("input symbols", std::set<string>(t.sym.begin() + 1, t.sym.begin() + t.in) == used, "the first " << t.in << " of the symbols " << vh::show(t.sym) << " are not the input symbols of " << what);
    } catch (const std::exception& x) { vh::fail("tables", string(x.what()) + " in the tables for " + what); }
    VH_CHECK("source", same(src0, of(b)), "the conversion changed its source " << what);
    HfstBasicTransducer* u = ConversionFunctions::hfst_ol_to_hfst_basic_transducer(T); G d = trim(of(*u));
    VH_CHECK("back", same(e, d), "converting back gives " << show(d) << " instead of " << show(e));
    VH_CHECK("back all reached", of(*u).s.size() == d.s.size(), "converting back adds states that are not reached for " << what);
    { std::set<string> al = b.get_alphabet(), bl = u->get_alphabet(); al.insert(EPS); bl.insert(EPS); bl.insert("@_UNKNOWN_SYMBOL_@"); bl.insert("@_IDENTITY_SYMBOL_@"); al.insert("@_UNKNOWN_SYMBOL_@"); al.insert("@_IDENTITY_SYMBOL_@"); VH_CHECK("back alphabet", al == bl, "converting back gives an alphabet of " << bl.size() << " symbols, not " << al.size() << " for " << what); }
    // and from the file
    { std::istringstream is(os.str()); hfst_ol::Transducer f(is); HfstBasicTransducer* v = ConversionFunctions::hfst_ol_to_hfst_basic_transducer(&f); G d2 = trim(of(*v)); VH_CHECK("read back", same(e, d2), "converting back what was written gives " << show(d2) << " instead of " << show(e)); delete v; }
    delete u; delete T; if (vh::fails) break;
  }
  return vh::finish();
}
