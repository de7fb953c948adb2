// the linker's main function under another name
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cctype>
#define main link_main
#include "link/source/link.cpp"
