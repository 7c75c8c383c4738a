#include "c23_body.hpp"
void other();
void other() { everything(); }
