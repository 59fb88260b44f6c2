// Not run: makes the extractor see piecewise_lut.h.
#include <cmath>
#include "piecewise_lut.h"
int verif_use_lut(std::shared_ptr<const dcp::TransferFunction> f) { dcp::PiecewiseLUT2 l(f, 0.5, 1, 1, false, 1); return l.lookup(0); }
