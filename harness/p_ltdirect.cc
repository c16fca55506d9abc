// C28: direct light and shadows
#include "ltcase.hh"
static void direct(Case &c)
{
    Setup u;
    setup(c, u);
    Src &s = c.s;
    std::vector<std::string> args{"-visapprox", "none", "-bounce", "0"};
    int extra = s.pick<int>({1, 1, 1, 2, 4});
    if (extra > 1)
        args.push_back(extra == 2 ? "-extra" : "-extra4");
    if (s.chance(1, 4)) {
        u.model.w.gate = s.pick<double>({0.5, 1, 0.001});
        args.push_back("-gate");
        args.push_back(f2s(u.model.w.gate));
    }
    args.push_back("-lit");
    c.describe(about(u));
    for (auto &a : args)
        c.describe(a);
    Lit r = light(u.out.base, args);
    auto fs = faces(r.bsp, u.m.q2), world = moved(u, fs);
    Tally t;
    for (auto &f : fs)
        compare(c, u, r, world, f, maps_of(c, u, r, f), extra, 4, t);
    c.nt(t.checked > 30 && !u.model.lights.empty());
    if (t.dark)
        c.label("shadow");
    if (!u.casters.empty())
        c.label("shadow casting model");
    if (!u.model.suns.empty())
        c.label("sun");
    if (u.m.q2)
        c.label("q2");
}
static const std::vector<std::string> assume{};
VH_MAIN("C28", "more than 30 luxels whose light does not depend on hairs were compared", assume,
    vh::Sub{"direct", direct, 1200, 20000, false, 120, false})
