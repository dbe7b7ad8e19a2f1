#include "lexer.h"
void run() { lexerRun(SAFE); }
