// the reflector's main function under another name
#include <cstdio>
#include <cstring>
#include <cstdlib>
#define main refl_main
#include "refl/source/refl.cpp"
