#include "c17_ser.hpp"
// descriptors right but for a change or two
PROP(descriptor, 40000, 600000)
{
  int D = 1 + g.draw(3), k = g.draw(kinds); size_t n[3]; sizes(g, D, n); dimension_type o[3] = {0, 1, 2}; for (int d = D - 1; d > 0; --d) std::swap(o[d], o[g.draw(d + 1)]);
  se::Descriptor d; garbage(d); d.value_type = code(k); d.dimensions = D; d.storage_format = 1; size_t p = 1; for (int i = D; i--;) { d.size[o[i]] = n[o[i]]; d.stride[o[i]] = p; p *= n[o[i]]; } d.storage_size = p; int kk = k;
  int ch = g.draw(3);
  for (int c = ch; c--;) switch (g.draw(6))
  {
    case 0: kk = g.draw(kinds); d.value_type = code(kk); break;
    case 1: { int q = 1 + g.draw(3); for (int i = d.dimensions; i < q; ++i) d.size[i] = 1 + g.draw(3), d.stride[i] = g.pick({1, 2, (int)p}); d.dimensions = q; break; }
    case 2: { int i = g.draw(d.dimensions); d.stride[i] += g.range(-2, 2); break; }
    case 3: { int i = g.draw(d.dimensions); d.stride[i] = -d.stride[i]; break; }
    case 4: { int i = g.draw(d.dimensions); d.size[i] = 1 + g.draw(6); break; }
    default: { int i = g.draw(d.dimensions), j = g.draw(d.dimensions); std::swap(d.stride[i], d.stride[j]); if (g.flip()) std::swap(d.size[i], d.size[j]); }
  }
  g.note() << show(d); int acc = judge(g, d, kk); g.label(acc ? "accepted" : "refused"); if (!ch) REQUIRE(g, acc > 0, "nothing accepts " << show(d)); if (ch && D > 1) g.nontrivial();
}
PROP(vector_float, 3000, 30000) { roundtrip<1, float, V_basic, row1_type, array>(g); }
PROP(vector_cfloat, 3000, 30000) { int k = g.draw(3); if (k == 0) roundtrip<1, cf, V_basic, row1_type, array>(g); else if (k == 1) roundtrip<1, cf, V_dense | V_other, row1_type, interleaved_complex>(g); else roundtrip<1, cf, V_dense | V_subset, row1_type, split_complex>(g); }
PROP(vector_as_is, 3000, 30000) { if (g.flip()) as_is<1, float, V_basic | V_row | V_col>(g); else as_is<1, cf, V_basic>(g); }
PROP(user_vector, 3000, 30000) { int k = g.draw(3); if (k == 0) user<Dense<1, cf>, cf, 1>(g); else if (k == 1) user<Dense<1, se::uint16_type>, se::uint16_type, 1>(g); else user<Str<1, cd, row1_type, split_complex>, cd, 1>(g); }
