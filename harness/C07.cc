// bounded native check: optimized-lookup files, random transducers written, read back and cut short
#include "vh.h"
#include "implementations/optimized-lookup/transducer.h"
using namespace hfst_ol; using std::string;
static void put(string& o, uint64_t v, int n) { for (int i = 0; i < n; i++) o += char(v >> 8 * i); }
static uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
struct I2 { uint16_t s; uint32_t t; }; struct T4 { uint16_t i, o; uint32_t t; float w; };
static bool wrong_type(const string& b, bool whole) { std::istringstream is(b); try { if (whole) { Transducer t(is); } else { TransducerHeader h(is); } } catch (const TransducerHasWrongTypeException&) { return true; } return false; }
int main(int argc, char** argv) {
  vh::parse(argc, argv); vh::Rng r(vh::opts.seed + 700);
  std::vector<string> pool = {"a", "b", "\xc3\xa4", "long symbol", "@_UNKNOWN_SYMBOL_@", "@_IDENTITY_SYMBOL_@", "@_DEFAULT_SYMBOL_@", "@P.F.A@", "@D.F@", "@R.G.x@", "@notaflag", "@", "+Tag", "0", "\xe2\x82\xac"};
  float ws[] = {0, 1, 0.5f, -2.25f, 1e9f, 3.14159f};
  for (long k = 0; k < vh::scale(6000, 60000); k++) {
    bool w = r.coin(); SymbolTable sy{"@_EPSILON_SYMBOL_@"}; for (auto& s : pool) if (r.coin(40)) sy.push_back(s); for (size_t i = sy.size(); i-- > 2;) std::swap(sy[i], sy[1 + r(i)]);
    size_t ni = 1 + r(12), nt = r(14); std::vector<I2> ix; std::vector<T4> tr; uint32_t odd[] = {0, 1, 255, 256, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu, 0x01020304};
    for (size_t i = 0; i < ni; i++) { I2 x{uint16_t(r.coin(30) ? 65535 : r(sy.size())), r.coin(60) ? uint32_t(r(ni)) : odd[r(9)]}; if (!w && x.s == 65535 && x.t != 0xffffffffu) x.t = 1; ix.push_back(x); }
    for (size_t i = 0; i < nt; i++) tr.push_back({uint16_t(r.coin(30) ? 65535 : r(sy.size())), uint16_t(r.coin(30) ? 65535 : r(sy.size())), r.coin(60) ? uint32_t(r(ni)) : odd[r(9)], w ? ws[r(6)] : 0});
    TransducerHeader h(uint16_t(1 + r(sy.size())), sy.size(), ni, nt, w); h.number_of_states = odd[r(9)]; h.number_of_transitions = r(1000);
    bool fl[9]; fl[0] = w; for (int i = 1; i < 9; i++) { fl[i] = r.coin(); h.set_flag(HeaderFlag(i), fl[i]); }
    for (int i = 0; i < 9; i++) VH_CHECK("header", h.probe_flag(HeaderFlag(i)) == fl[i], "flag " << i << " set to " << fl[i] << " probes as " << h.probe_flag(HeaderFlag(i)));
    string ref; put(ref, h.input_symbol_count(), 2); put(ref, sy.size(), 2); put(ref, ni, 4); put(ref, nt, 4); put(ref, h.number_of_states, 4); put(ref, h.number_of_transitions, 4); for (bool b : fl) put(ref, b, 4);
    size_t hl = ref.size(); for (auto& s : sy) ref += s + '\0'; size_t al = ref.size(); for (auto& x : ix) put(ref, x.s, 2), put(ref, x.t, 4); size_t il = ref.size(); for (auto& x : tr) { put(ref, x.i, 2); put(ref, x.o, 2); put(ref, x.t, 4); if (w) put(ref, bits(x.w), 4); }
    std::ostringstream what; what << (w ? "weighted" : "unweighted") << ", " << ni << " indices, " << nt << " transitions, symbols " << vh::show(sy);
    string got; Transducer* t = 0;
    { TransducerAlphabet a(sy);
      if (w) { TransducerTable<TransitionWIndex> I; TransducerTable<TransitionW> T; for (auto& x : ix) I.append(TransitionWIndex(x.s, x.t)); for (auto& x : tr) T.append(TransitionW(x.i, x.o, x.t, x.w)); t = new Transducer(h, a, I, T); }
      else { TransducerTable<TransitionIndex> I; TransducerTable<Transition> T; for (auto& x : ix) I.append(TransitionIndex(x.s, x.t)); for (auto& x : tr) T.append(Transition(x.i, x.o, x.t)); t = new Transducer(h, a, I, T); } }
    std::ostringstream os; t->write(os); got = os.str(); delete t;
    VH_CHECK("write", got.substr(0, hl) == ref.substr(0, hl), "header bytes differ: " << what.str());
    VH_CHECK("write", got.size() >= al && got.substr(hl, al - hl) == ref.substr(hl, al - hl), "alphabet bytes differ: " << what.str());
    VH_CHECK("write", got.size() >= il && got.substr(al, il - al) == ref.substr(al, il - al), "index table bytes differ: " << what.str());
    VH_CHECK("write", got == ref, "transition table bytes differ: " << what.str());
    // read back what the format says (with something following it)
    std::istringstream is(ref + "tail"); 
    vh::guarded("read", "reading " + what.str(), [&] {
      Transducer u(is); const TransducerAlphabet& a = u.get_alphabet(); const TransducerHeader& H = u.get_header();
      VH_CHECK("read", H.input_symbol_count() == h.input_symbol_count() && H.symbol_count() == sy.size() && H.index_table_size() == ni && H.target_table_size() == nt && H.number_of_states == h.number_of_states && H.number_of_transitions == h.number_of_transitions, "header numbers differ: " << what.str());
      for (int i = 0; i < 9; i++) VH_CHECK("read", H.probe_flag(HeaderFlag(i)) == fl[i], "header flag " << i << " differs: " << what.str());
      VH_CHECK("read", u.is_weighted() == w, "weightedness differs: " << what.str());
      VH_CHECK("read", a.get_symbol_table() == sy, "symbols differ: " << what.str() << " read " << vh::show(a.get_symbol_table()));
      for (size_t i = 0; i < sy.size(); i++) { const string& s = sy[i]; bool f = s == "@P.F.A@" || s == "@D.F@" || s == "@R.G.x@";
        VH_CHECK("alphabet", a.is_flag_diacritic(i) == f, "flag status of " << s << ": " << what.str()); bool m = s == pool[4] || s == pool[5] || s == pool[6];
        VH_CHECK("alphabet", a.is_meta_arc(i) == m, "special status of " << s << ": " << what.str());
        VH_CHECK("alphabet", a.symbol_from_string(s) == i, "number of " << s << ": " << what.str()); VH_CHECK("alphabet", a.string_from_symbol(i) == (i ? s : ""), "text of " << s << ": " << what.str());
        if (f) { auto* o = a.get_operation(i); VH_CHECK("alphabet", o && o->Name() == s, "operation of " << s << ": " << what.str()); } }
      auto num = [&](const string& s) -> unsigned { for (size_t i = 0; i < sy.size(); i++) if (sy[i] == s) return i; return 65535; };
      VH_CHECK("alphabet", a.get_unknown_symbol() == num(pool[4]) && a.get_identity_symbol() == num(pool[5]) && a.get_default_symbol() == num(pool[6]), "unknown, identity or default: " << what.str()); VH_CHECK("alphabet", a.get_orig_symbol_count() == sy.size(), "symbol count: " << what.str());
      for (size_t i = 0; i < ni; i++) { auto& x = u.tables->get_index(i); VH_CHECK("index", x.get_input_symbol() == ix[i].s && x.get_target() == ix[i].t, "index " << i << ": " << what.str()); bool fin = ix[i].s == 65535 && ix[i].t != 0xffffffffu; VH_CHECK("index", u.tables->get_index_finality(i) == fin, "finality of index " << i << ": " << what.str()); if (w && fin) VH_CHECK("index", bits(u.tables->get_final_weight(i)) == ix[i].t || (ix[i].t & 0x7f800000) == 0x7f800000, "final weight of index " << i << ": " << what.str()); }
      for (size_t i = 0; i < nt; i++) { auto& x = u.tables->get_transition(TRANSITION_TARGET_TABLE_START + i); VH_CHECK("transition", x.get_input_symbol() == tr[i].i && x.get_output_symbol() == tr[i].o && x.get_target() == tr[i].t && bits(u.tables->get_weight(TRANSITION_TARGET_TABLE_START + i)) == bits(tr[i].w), "transition " << i << ": " << what.str()); bool fin = tr[i].i == 65535 && tr[i].o == 65535 && tr[i].t == 1; VH_CHECK("transition", u.tables->get_transition_finality(i) == fin, "finality of transition " << i << ": " << what.str()); }
      string rest(std::istreambuf_iterator<char>(is), {}); VH_CHECK("read", rest == "tail", "reading took too little or too much, left " << vh::show(rest) << ": " << what.str());
      std::ostringstream o2; u.write(o2); VH_CHECK("write", o2.str() == ref, "written again differs: " << what.str());
      Transducer* v = u.copy(&u, w); std::ostringstream o3; v->write(o3); VH_CHECK("copy", o3.str() == ref, "copy differs: " << what.str()); delete v;
    });
    // cut short, or not a transducer
    size_t cut = r.coin(30) ? r(hl) : r.coin() ? r(ref.size()) : ref.size() - 1 - r(4); if (cut < ref.size()) VH_CHECK("truncated", wrong_type(ref.substr(0, cut), cut >= hl), "the first " << cut << " of " << ref.size() << " bytes are accepted: " << what.str());
    string bad = ref; int q = 20 + 4 * r(9) + r(4); bad[q] = char(2 + r(250)); VH_CHECK("header", wrong_type(bad, false), "byte " << q << " = " << int((unsigned char)bad[q]) << " accepted as a truth value: " << what.str());
  }
  return vh::finish();
}
