// window.inc together with the vision update that takes the drop decision
#define WITH_UPDATE
#include "window.inc"
