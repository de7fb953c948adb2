#pragma once
#include "pbt.h"
void fixedAllocatorCase(pbt::Src& s, pbt::Ctx& c);
void graphCase(pbt::Src& s, pbt::Ctx& c);
