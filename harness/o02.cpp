#include "o_order.h"
static void setup() {
  for (int n = 1; n <= 3; ++n) mc::add(mc::str("all", n), [n](mc::Ctx& c) { full(c, n, 3, true); }, 2);
  mc::add("all4", [](mc::Ctx& c) { full(c, 4, 3, true); }, 3);
  mc::add("all5", [](mc::Ctx& c) { full(c, 5, c.tier(1, 2), true); }, 3);
  mc::add("longer", [](mc::Ctx& c) { longer(c, true); }, 2); mc::add("long", [](mc::Ctx& c) { longLists(c, true); }, 2);
  for (int n = 1; n <= 4; ++n) mc::add(mc::str("custom", n), [n](mc::Ctx& c) { customValid(c, n, true); }, 2);
  mc::add("custom5", [](mc::Ctx& c) { customValid(c, 5, true); }, 3, 20, true);
}
MC_MAIN
