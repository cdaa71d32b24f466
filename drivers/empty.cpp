#include "mon.hpp"
int main(int c, char** v){return 0;}
