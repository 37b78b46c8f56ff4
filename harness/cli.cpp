// the command line program itself
#include "../kiter/main.cpp"
