// C20 with the argument checks of the library (no NDEBUG).
#undef NDEBUG
#define HARNESS_PREFIX
#include "hx.h"
#undef HARNESS
#define HARNESS(name) [[maybe_unused]] static void harness_##name()
#include "h_data.inc"
#undef HARNESS
#define HARNESS(name) \
    static void harness_##name(); \
    static VpReg reg_##name(#name, harness_##name); \
    static void harness_##name()

template <class T, class Other> static void rejected()
{
    int k = vp_pick("kind", 0, 3);
    size_t W = vp_pick("width", 1, 3), H = k >= 2 ? vp_pick("height", 1, 2) : 1;
    Handler<T> x(k, H, W);
    auto tys = types<T, Other>();
    const Ty& ty = tys[vp_pick("type", 0, tys.size() - 1)];
    std::vector<size_t> c;
    size_t space = 0;
    while (cells(x.d2, H, W, ty, space, c)) space++;
    if (space) {
        uint64_t a = vp_u64("address", 0, UINT64_MAX);
        bool t = throws([&] { x.h->getDataAt(*ty.t, a); });
        vp_assert(t == (a >= space), "exactly the addresses at or beyond the address space are rejected");
        vp_reach("declared type");
    }
    else {
        uint64_t a = vp_u64("address", 0, 20);
        vp_assert(throws([&] { x.h->getDataAt(*ty.t, a); }), "a type that is not declared is rejected");
        vp_reach("undeclared type");
    }
}
HARNESS(rejectdouble) { rejected<double, float>(); }
HARNESS(rejectint) { rejected<int, long>(); }
HARNESS(pointerhandler)
{
    double v = vp_double("value");
    Data::PointerWrapper<double> p(&v), n;
    vp_assert(p.getAddressSpace(typeid(double)) == 1 && p.getLargestAddressSpace() == 1 && p.canHandle(typeid(double)), "one cell");
    vp_assert(p.getAddressSpace(typeid(int)) == 0 && !p.canHandle(typeid(int)) && !p.canHandle(typeid(double[1])), "one type");
    vp_assert(same(*p.getDataAt(typeid(double), 0).getSharedPointer<const double>(), v), "the pointed value");
    vp_assert(p.getAddressesAccessed(typeid(double), 0) == std::vector<size_t>{0}, "the cell accessed");
    uint64_t a = vp_u64("address", 1, UINT64_MAX);
    vp_assert(p.getAddressesAccessed(typeid(double), a).empty() && p.getAddressesAccessed(typeid(int), 0).empty(), "no other cell");
    vp_assert(throws([&] { p.getDataAt(typeid(double), a); }), "an address beyond the address space is rejected");
    vp_assert(throws([&] { p.getDataAt(typeid(int), 0); }), "a type that is not declared is rejected");
    vp_assert(throws([&] { n.getDataAt(typeid(double), 0); }), "a null pointer is rejected");
    vp_assert(p.scaleLocation(a, typeid(double)) == 0, "a scaled location is a valid address");
    double w = vp_double("other");
    p.setPointer(&w);
    vp_assert(same(*p.getDataAt(typeid(double), 0).getSharedPointer<const double>(), w), "the pointed value");
    vp_reach("end");
}
