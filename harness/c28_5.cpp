// C28 library objects besides the one of the program
#include "c28_life.hpp"
PROP(nested, 150, 6000) { g.soft = true; history(g, 1, true, true, 1, [](int) {}); par::default_communicator().barrier(); }
