#include <p4est_to_p8est.h>
#include "p4est_model.inc"
