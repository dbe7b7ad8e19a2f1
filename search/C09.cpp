#include "vec.h"
void run()
{
    Clock c(budget);
    while (c.left()) { vecTrial<int>("int"); vecTrial<Tr>("tracked objects"); vecTrial<coil::String>("String"); }
}
