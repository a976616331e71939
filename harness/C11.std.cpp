#include "C11.inc"
