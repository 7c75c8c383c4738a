#include "c23_body.hpp"
void other();
int main() { everything(); std::cout.flush(); printf("---\n"); other(); return 0; }
