#include "c09_conv.hpp"
PROP(conv2_f_nonsym_full, 700, 6000) { conv2<float, nonsym, support_full>(g); }
PROP(conv2_f_nonsym_same, 700, 6000) { conv2<float, nonsym, support_same>(g); }
PROP(conv2_f_nonsym_min, 700, 6000) { conv2<float, nonsym, support_min>(g); }
PROP(conv2_f_sym_even_len_odd_full, 700, 6000) { conv2<float, sym_even_len_odd, support_full>(g); }
PROP(conv2_f_sym_even_len_odd_same, 700, 6000) { conv2<float, sym_even_len_odd, support_same>(g); }
PROP(conv2_f_sym_even_len_odd_min, 700, 6000) { conv2<float, sym_even_len_odd, support_min>(g); }
PROP(conv2_f_sym_even_len_even_full, 700, 6000) { conv2<float, sym_even_len_even, support_full>(g); }
PROP(conv2_f_sym_even_len_even_same, 700, 6000) { conv2<float, sym_even_len_even, support_same>(g); }
PROP(conv2_f_sym_even_len_even_min, 700, 6000) { conv2<float, sym_even_len_even, support_min>(g); }
