// bounded native check: tokenizers against a reference tokenizer
#include "vh.h"
#include "HfstTokenizer.h"
#include "HfstFlagDiacritics.h"
#include <unicode/unistr.h>
#include <unicode/brkiter.h>
using std::string; using std::vector; using namespace hfst;
static const string EPS = "@_EPSILON_SYMBOL_@";
typedef vector<string> SV;
static string cluster(const string& rest) {
  static icu::BreakIterator* bi = 0; UErrorCode st = U_ZERO_ERROR; if (!bi) bi = icu::BreakIterator::createCharacterInstance(icu::Locale("C"), st);
  icu::UnicodeString u = icu::UnicodeString::fromUTF8(rest); bi->setText(u); bi->first(); int e = bi->next(); string o; u.tempSubString(0, e).toUTF8String(o); return o;
}
static string codepoint(const string& rest) { size_t n = 1; while (n < rest.size() && ((unsigned char)rest[n] & 0xC0) == 0x80) n++; return rest.substr(0, n); }
static SV ref(const string& in, const std::set<string>& multi, const std::set<string>& skip, bool split) {
  SV o; size_t i = 0;
  while (i < in.size()) { string best; for (auto* s : {&multi, &skip}) for (auto& m : *s) if (m.size() > best.size() && in.compare(i, m.size(), m) == 0) best = m;
    if (best.empty()) best = split ? codepoint(in.substr(i)) : cluster(in.substr(i));
    i += best.size(); if (!skip.count(best)) o.push_back(best); }
  return o;
}
static int warned; static void warn(const std::pair<string, string>&) { warned++; }
static SV side(const StringPairVector& v, int s) { SV o; for (auto& p : v) o.push_back(s ? p.second : p.first); return o; }
static string sh(const std::set<string>& s) { return vh::show(SV(s.begin(), s.end())); }
static void one(const string& in, const string& out, const std::set<string>& multi, const std::set<string>& skip, bool split) {
  string d = "text " + vh::show(in) + " : " + vh::show(out) + " symbols " + sh(multi) + " skip " + sh(skip) + (split ? " split" : " clusters");
  vh::guarded("exception", d, [&] {
    HfstTokenizer t; for (auto& m : multi) t.add_multichar_symbol(m); for (auto& s : skip) t.add_skip_symbol(s);
    SV a = ref(in, multi, skip, split), b = ref(out, multi, skip, split);
    VH_CHECK("one_level", t.tokenize_one_level(in, split) == a, "tokenize_one_level " << d << " gave " << vh::show(t.tokenize_one_level(in, split)) << " expected " << vh::show(a));
    auto p = t.tokenize(in, split); VH_CHECK("tokenize", side(p, 0) == a && side(p, 1) == a, "tokenize " << d << " gave " << vh::show(side(p, 0)) << " expected " << vh::show(a));
    auto q = t.tokenize(in, out, split); SV x = a, y = b; while (x.size() < y.size()) x.push_back(EPS); while (y.size() < x.size()) y.push_back(EPS);
    VH_CHECK("pairs", side(q, 0) == x && side(q, 1) == y, "tokenize pair " << d << " gave " << vh::show(side(q, 0)) << vh::show(side(q, 1)));
    warned = 0; auto w = t.tokenize(in, out, split, &warn); VH_CHECK("pairs_warn", w == q && warned == (int)q.size(), "tokenize with warnings " << d << " gave " << vh::show(side(w, 0)) << vh::show(side(w, 1)));
    if (a.size() && b.size()) { auto f = t.tokenize_and_align_flag_diacritics(in, out, split, &warn);
      // no symbol is lost, flags stay on both sides, unflagged symbols keep their order
      auto drop = [](const SV& v) { SV o; for (auto& s : v) if (s != EPS && !FdOperation::is_diacritic(s)) o.push_back(s); return o; };
      bool ok = true; for (auto& pr : f) if (FdOperation::is_diacritic(pr.first) || FdOperation::is_diacritic(pr.second)) ok = ok && pr.first == pr.second;
      VH_CHECK("align_flags", ok, "flag aligned with something else: " << d << " gave " << vh::show(side(f, 0)) << vh::show(side(f, 1)));
      bool flags = false; for (auto& s : a) flags = flags || FdOperation::is_diacritic(s); for (auto& s : b) flags = flags || FdOperation::is_diacritic(s);
      if (!flags) VH_CHECK("align_plain", f == q, "without flags alignment differs from tokenize: " << d);
      // reference alignment
      StringPairVector e; size_t i = 0, j = 0; auto D = [](const string& s) { return FdOperation::is_diacritic(s); };
      while (i < a.size() || j < b.size()) {
        if (i == a.size()) { e.push_back(StringPair(D(b[j]) ? b[j] : EPS, b[j])); j++; }
        else if (j == b.size()) { e.push_back(StringPair(a[i], D(a[i]) ? a[i] : EPS)); i++; }
        else { if (a[i] == b[j] || (!D(a[i]) && !D(b[j]))) e.push_back(StringPair(a[i], b[j])); else { e.push_back(StringPair(a[i], a[i])); e.push_back(StringPair(b[j], b[j])); } i++; j++; } }
      VH_CHECK("align", f == e, "tokenize_and_align_flag_diacritics " << d << " gave " << vh::show(side(f, 0)) << vh::show(side(f, 1)) << " expected " << vh::show(side(e, 0)) << vh::show(side(e, 1))); }
  });
}
static bool utf8ok(const string& s) { // RFC 3629
  for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; int n = c < 0x80 ? 0 : c >= 0xC2 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : -1; if (n < 0 || i + n >= s.size() + (n == 0 ? 1 : 0)) { if (n != 0) return false; }
    for (int k = 1; k <= n; k++) if (((unsigned char)s[i + k] & 0xC0) != 0x80) return false;
    unsigned char d = n ? s[i + 1] : 0; if ((c == 0xE0 && d < 0xA0) || (c == 0xED && d > 0x9F) || (c == 0xF0 && d < 0x90) || (c == 0xF4 && d > 0x8F)) return false; i += n + 1; }
  return true;
}
int main(int argc, char** argv) {
  vh::parse(argc, argv); vh::Rng r(vh::opts.seed);
  vector<string> uni = {"a", "b", "c", " ", "\xC3\xA4", "\xCC\x88", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "o", "@", "+", "\xE2\x80\x8D", "\xF0\x9F\x87\xAB", "\xF0\x9F\x87\xAE", "<", ">", "\xE0\xA4\x95", "\xE0\xA5\x8D", "\r", "\n"};
  vector<string> flags = {"@P.F.a@", "@U.F.b@", "@C.F@", "@R.G@"};
  // exhaustive: words over two letters, small symbol sets
  vector<string> w; for (int n = 1; n <= 3; n++) for (int k = 0; k < (1 << n); k++) { string s; for (int i = 0; i < n; i++) s += (k >> i & 1) ? 'b' : 'a'; w.push_back(s); }
  for (size_t i = 0; i < w.size(); i++) for (size_t j = i; j < w.size(); j++) for (size_t k = 0; k < w.size(); k++) { if ((i * 31 + j * 7 + k) % (vh::thorough() ? 1 : 4)) continue;
    std::set<string> m = {w[i], w[j]}, sk; if (k % 3 == 0) sk.insert(w[k]); else m.insert(w[k]); for (auto& s : sk) m.erase(s);
    string t; size_t n = r(8); for (size_t q = 0; q < n; q++) t += r.coin() ? 'a' : 'b'; one(t, w[k] + t, m, sk, r.coin()); }
  for (long k = 0; k < vh::scale(6000, 100000); k++) {
    auto txt = [&](size_t mx, bool fl) { string s; size_t n = r(mx + 1); for (size_t i = 0; i < n; i++) s += fl && r.coin(20) ? flags[r(flags.size())] : uni[r(r.coin(60) ? 5 : uni.size())]; return s; };
    std::set<string> m, sk; size_t n = r(5); for (size_t i = 0; i < n; i++) { string s = txt(4, false); if (!s.empty()) (r.coin(25) ? sk : m).insert(s); }
    bool fl = r.coin(40); if (fl) for (auto& f : flags) m.insert(f); for (auto& s : sk) m.erase(s);
    string in = txt(10, fl), out = txt(10, fl); if (m.size() && r.coin()) in += *m.begin(); if (sk.size() && r.coin()) in = *sk.begin() + in;
    one(in, out, m, sk, r.coin());
    // symbols separated by spaces
    { string s; SV e; size_t c = r(6); for (size_t i = 0; i < c; i++) { s += string(r(3), ' '); string x; size_t q = 1 + r(3); for (size_t z = 0; z < q; z++) { string y = uni[r(uni.size())]; if (y != " ") x += y; } if (x.empty()) continue; if (!s.empty() && s[s.size() - 1] != ' ') s += ' '; s += x; e.push_back(x); } s += string(r(3), ' ');
      vh::guarded("exception", "space separated " + vh::show(s), [&] { auto v = HfstTokenizer::tokenize_space_separated(s); VH_CHECK("spaces", side(v, 0) == e && side(v, 1) == e, "tokenize_space_separated " << vh::show(s) << " gave " << vh::show(side(v, 0))); }); }
    // encoding check
    { string s; size_t c = 1 + r(5); for (size_t i = 0; i < c; i++) s += r.coin(70) ? uni[r(uni.size())] : string(1, (char)(1 + r(255))); if (r.coin(30) && s.size() > 1) s.resize(s.size() - 1);
      bool bad = false; try { HfstTokenizer t; t.tokenize(s, true); } catch (...) { bad = true; } VH_CHECK("utf8", bad == !utf8ok(s), "encoding check of " << vh::show(s) << (bad ? " refused" : " accepted")); }
  }
  // any bytes may be registered as symbols
  for (int c = 1; c < 256; c++) { HfstTokenizer t; t.add_multichar_symbol(string(1, (char)c) + "x"); t.add_multichar_symbol(string("x") + (char)c); ++vh::cases; }
  return vh::finish();
}
