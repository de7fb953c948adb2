#pragma once
#include "pbt.h"
void linkCase(pbt::Src& s, pbt::Ctx& c, bool all, bool allocs);
