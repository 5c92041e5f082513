#include "window.inc"
