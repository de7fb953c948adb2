// the disassembler's main function under another name
#include <cstdio>
#include <cstring>
#include <cstdlib>
#define main dis_main
#include "dis/source/dis.cpp"
