#include "lexer.h"
void run() { lexerRun(EXACT); }
