#include "h_data.inc"
