#define ONE_TU
#include "inst_ddp.h"
template<int NX, int NU> std::unique_ptr<IDdp> mkDdp(std::shared_ptr<const Ocp> o, std::shared_ptr<Rec> r) { return std::make_unique<DdpW<NX, NU>>(o, r); }
template std::unique_ptr<IDdp> mkDdp<NX_, NU_>(std::shared_ptr<const Ocp>, std::shared_ptr<Rec>);
