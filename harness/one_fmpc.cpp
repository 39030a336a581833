#define ONE_TU
#include "inst_fmpc.h"
template<int NX, int NU, int NG> std::unique_ptr<IFmpc> mkFmpc(std::shared_ptr<const Ocp> o, std::shared_ptr<Rec> r) { return std::make_unique<FmpcW<NX, NU, NG>>(o, r); }
template std::unique_ptr<IFmpc> mkFmpc<NX_, NU_, NG_>(std::shared_ptr<const Ocp>, std::shared_ptr<Rec>);
