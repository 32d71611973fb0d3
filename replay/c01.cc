#include "life.h"
int main(int c,char**v){ init(c,v); ledger=false; histories(); return finish(); }
