#pragma once
#include <casacore/mini.h>
#include <EveryBeam/load.h>
namespace everybeam {
casacore::MDirection ReadTileBeamDirection(const casacore::MeasurementSet&);  // defined by the harness that needs it
}
