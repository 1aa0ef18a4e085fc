#include "p4est_model.inc"
