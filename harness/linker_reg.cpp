#include "linker.h"
static pbt::Reg r11("P11", "an import was resolved and brought at least five ids into the consumer", [](pbt::Src& s, pbt::Ctx& c) { linkCase(s, c, true, s.chance(1, 4)); });
static pbt::Reg r12("P12", "at least one import, under a random set of options", [](pbt::Src& s, pbt::Ctx& c) { linkCase(s, c, false, s.chance(1, 4)); });
