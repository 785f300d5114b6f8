// bounded native check: orderings
#include "vh.h"
#include "implementations/HfstBasicTransition.h"
#include "implementations/compose_intersect/ComposeIntersectFst.h"
#include "implementations/optimized-lookup/transducer.h"
using namespace hfst::implementations;
template <class T, class Lt, class Eq> void axioms(const char* nm, const std::vector<T>& v, Lt lt, Eq eq, bool total = true) {
  size_t n = v.size(); std::vector<char> m(n * n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) m[i * n + j] = lt(v[i], v[j]);
  for (size_t i = 0; i < n; i++) { VH_CHECK("irreflexive", !m[i * n + i], nm << " element " << i << " less than itself");
    for (size_t j = 0; j < n; j++) { VH_CHECK("asymmetric", !(m[i * n + j] && m[j * n + i]), nm << " elements " << i << "," << j << " each less than the other");
      if (total) VH_CHECK("distinguishes", eq(v[i], v[j]) == (!m[i * n + j] && !m[j * n + i]), nm << " elements " << i << "," << j << " differ but are not ordered, or equal but ordered");
      if (m[i * n + j]) for (size_t k = 0; k < n; k++) if (m[j * n + k]) VH_CHECK("transitive", m[i * n + k], nm << " not transitive at " << i << "," << j << "," << k); } }
}
int main(int argc, char** argv) {
  vh::parse(argc, argv); float ws[] = {0, 1, 0.5f, -1, 100000.25f}; long M = vh::scale(3, 4);
  std::vector<HfstBasicTransition> t; std::vector<HfstTropicalTransducerTransitionData> d; typedef ComposeIntersectFst::Transition CT; std::vector<CT> c;
  for (long a = 0; a < M; a++) for (long b = 0; b < M; b++) for (int w = 0; w < 3; w++) { d.push_back(HfstTropicalTransducerTransitionData(a, b, ws[w])); for (long s = 0; s < M; s++) { t.push_back(HfstBasicTransition(s, a, b, ws[w], false)); c.push_back(CT(s, a, b, ws[w])); } }
  auto deq = [](const HfstTropicalTransducerTransitionData& x, const HfstTropicalTransducerTransitionData& y) { return x.input_number == y.input_number && x.output_number == y.output_number && x.weight == y.weight; };
  axioms("transition data", d, [](auto& x, auto& y) { return x < y; }, deq);
  axioms("transition data without weight", d, [](auto& x, auto& y) { return x.less_than_ignore_weight(y); }, [](auto& x, auto& y) { return x.input_number == y.input_number && x.output_number == y.output_number; });
  axioms("transition", t, [](auto& x, auto& y) { return x < y; }, [&](auto& x, auto& y) { return x.get_target_state() == y.get_target_state() && deq(x.get_transition_data(), y.get_transition_data()); });
  auto ceq = [](const CT& x, const CT& y) { return x.ilabel == y.ilabel && x.olabel == y.olabel && x.weight == y.weight && x.target == y.target; };
  axioms("composition transition", c, [](auto& x, auto& y) { return ComposeIntersectFst::CompareTransitions()(x, y); }, ceq);
  for (auto& x : c) for (auto& y : c) VH_CHECK("equality", (x == y) == ceq(x, y), "composition transition ==");
  std::vector<hfst_ol::TraversalState> ts; for (unsigned i = 0; i < 3; i++) for (short a = -1; a < 3; a++) for (short b = -1; b < 3; b++) ts.push_back(hfst_ol::TraversalState(i, {a, b}));
  auto teq = [](auto& x, auto& y) { return x.index == y.index && x.flags == y.flags; };
  axioms("traversal state", ts, [](auto& x, auto& y) { return x < y; }, teq); for (auto& x : ts) for (auto& y : ts) VH_CHECK("equality", (x == y) == teq(x, y), "traversal state ==");
  // sorted sets keep every element once, under any insertion order
  vh::Rng r(vh::opts.seed);
  for (long k = 0; k < vh::scale(2000, 30000); k++) { ComposeIntersectFst::TransitionSet s; std::vector<CT> in; size_t n = r(12); for (size_t i = 0; i < n; i++) { in.push_back(c[r(c.size())]); s.insert(in.back()); }
    size_t cnt = 0; bool ok = true; const CT* prev = 0; for (auto it = s.begin(); it != s.end(); ++it, ++cnt) { bool f = false; for (auto& x : in) f |= ceq(x, *it); ok &= f; if (prev) ok &= ComposeIntersectFst::CompareTransitions()(*prev, *it); prev = &*it; }
    size_t uniq = 0; for (size_t i = 0; i < n; i++) { bool dup = false; for (size_t j = 0; j < i; j++) dup |= ceq(in[i], in[j]); uniq += !dup; bool f = false; for (auto it = s.begin(); it != s.end(); ++it) f |= ceq(in[i], *it); ok &= f; }
    VH_CHECK("set", ok && cnt == uniq, "sorted set of " << n << " inserted transitions holds " << cnt << " instead of " << uniq); }
  return vh::finish();
}
