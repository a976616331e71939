#include "C08.inc"
