#include "c09_conv.hpp"
PROP(conv2_c_nonsym_full, 700, 6000) { conv2<cf, nonsym, support_full>(g); }
PROP(conv2_c_nonsym_same, 700, 6000) { conv2<cf, nonsym, support_same>(g); }
PROP(conv2_c_nonsym_min, 700, 6000) { conv2<cf, nonsym, support_min>(g); }
PROP(conv2_c_sym_even_len_odd_full, 700, 6000) { conv2<cf, sym_even_len_odd, support_full>(g); }
PROP(conv2_c_sym_even_len_odd_same, 700, 6000) { conv2<cf, sym_even_len_odd, support_same>(g); }
PROP(conv2_c_sym_even_len_odd_min, 700, 6000) { conv2<cf, sym_even_len_odd, support_min>(g); }
PROP(conv2_c_sym_even_len_even_full, 700, 6000) { conv2<cf, sym_even_len_even, support_full>(g); }
PROP(conv2_c_sym_even_len_even_same, 700, 6000) { conv2<cf, sym_even_len_even, support_same>(g); }
PROP(conv2_c_sym_even_len_even_min, 700, 6000) { conv2<cf, sym_even_len_even, support_min>(g); }
