#pragma once
#include <set>
#include <string>
namespace aocommon {
enum class PolarizationEnum { StokesI = 1, StokesQ, StokesU, StokesV, RR, RL, LR, LL, XX, XY, YX, YY, FullStokes, Instrumental, DiagonalInstrumental };
class Polarization { public: typedef PolarizationEnum PolarizationEnumT; static PolarizationEnum AipsIndexToEnum(int i) { static const PolarizationEnum e[] = {PolarizationEnum::StokesI, PolarizationEnum::StokesI, PolarizationEnum::StokesQ, PolarizationEnum::StokesU, PolarizationEnum::StokesV, PolarizationEnum::RR, PolarizationEnum::RL, PolarizationEnum::LR, PolarizationEnum::LL, PolarizationEnum::XX, PolarizationEnum::XY, PolarizationEnum::YX, PolarizationEnum::YY}; return e[i >= 0 && i < 13 ? i : 0]; } };
}
