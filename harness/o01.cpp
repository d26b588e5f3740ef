#include "o_order.h"
static void setup() {
  for (int n = 0; n <= 3; ++n) mc::add(mc::str("all", n), [n](mc::Ctx& c) { full(c, n, 3, false); }, 2);
  mc::add("all4", [](mc::Ctx& c) { full(c, 4, 3, false); }, 3);
  mc::add("all5", [](mc::Ctx& c) { full(c, 5, c.tier(1, 2), false); }, 3);
  mc::add("all6", [](mc::Ctx& c) { full(c, 6, 1, false); }, 4, 20, true);
  mc::add("longer", [](mc::Ctx& c) { longer(c, false); }, 2); mc::add("long", [](mc::Ctx& c) { longLists(c, false); }, 2);
  for (int n = 1; n <= 4; ++n) mc::add(mc::str("custom", n), [n](mc::Ctx& c) { customValid(c, n, false); }, 2);
  mc::add("custom5", [](mc::Ctx& c) { customValid(c, 5, false); }, 3, 20, true);
  mc::add("custominvalid", customInvalid, 3);
}
MC_MAIN
