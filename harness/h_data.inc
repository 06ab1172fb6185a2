// C20: data handlers return the addressed cells. C21: hashes follow the data.
#include "hx.h"
using namespace Data;

template <class T> static T symValue(const char* n)
{
    uint64_t v = vp_sym(n, sizeof(T) * 8, 0, sizeof(T) == 8 ? UINT64_MAX : (1ULL << (8 * (sizeof(T) & 7))) - 1, 0);
    T t;
    std::memcpy(&t, &v, sizeof(T));
    return t;
}
template <class T> static uint64_t bitsOf(const T& t)
{
    uint64_t v = 0;
    std::memcpy(&v, &t, sizeof(T));
    return v;
}
// a type an operand may have, by its dimensions: 0 x 0 scalar, 0 x w vector, h x w matrix
struct Ty {
    const std::type_info* t;
    size_t h, w;
    bool declared; // elements of the type of the handler
};
template <class T, class Other> static std::vector<Ty> types()
{
    return {{&typeid(T), 0, 0, true}, {&typeid(T[1]), 0, 1, true}, {&typeid(T[2]), 0, 2, true}, {&typeid(const T[3]), 0, 3, true}, {&typeid(T[4]), 0, 4, true}, {&typeid(const T[12]), 0, 12, true},
            {&typeid(T[1][1]), 1, 1, true}, {&typeid(T[1][2]), 1, 2, true}, {&typeid(const T[2][1]), 2, 1, true}, {&typeid(T[2][2]), 2, 2, true}, {&typeid(const T[2][3]), 2, 3, true}, {&typeid(T[3][2]), 3, 2, true},
            {&typeid(Other), 0, 0, false}, {&typeid(Other[2]), 0, 2, false}, {&typeid(const Other[2][2]), 2, 2, false}, {&typeid(T*), 0, 0, false}, {&typeid(std::string), 0, 0, false}};
}
// the cells documented for an address of a type; false if there is no such address
static bool cells(bool d2, size_t H, size_t W, const Ty& ty, uint64_t address, std::vector<size_t>& out)
{
    out.clear();
    if (!ty.declared) return false;
    if (!ty.w) {
        if (address >= H * W) return false;
        out.push_back(address);
        return true;
    }
    if (!d2 && ty.h) return false;
    size_t h = ty.h ? ty.h : 1;
    if (h > H || ty.w > W) return false;
    size_t perRow = W - ty.w + 1;
    if (address >= (H - h + 1) * perRow) return false;
    size_t row = address / perRow, col = address % perRow;
    for (size_t i = 0; i < h; i++)
        for (size_t j = 0; j < ty.w; j++) out.push_back((row + i) * W + col + j);
    return true;
}
template <class F> static bool throws(F f)
{
    vp_messages(1);
    bool t = false;
    try {
        f();
    }
    catch (std::exception&) {
        t = true;
    }
    vp_messages(0);
    return t;
}
// one handler of every kind
template <class T> struct Handler {
    bool d2;
    size_t H, W;
    std::vector<T> ext;
    std::unique_ptr<DataHandler> h;
    int kind;
    Handler(int k, size_t H_, size_t W_) : d2(k >= 2), H(d2 ? H_ : 1), W(W_), ext(H * W), kind(k)
    {
        if (k == 0) h = std::make_unique<PrimitiveTypeArray<T>>(W);
        if (k == 1) h = std::make_unique<ArrayWrapper<T>>(W, &ext);
        if (k == 2) h = std::make_unique<PrimitiveTypeArray2D<T>>(W, H);
        if (k == 3) h = std::make_unique<Array2DWrapper<T>>(W, H, &ext);
    }
    bool wrapper() const { return kind & 1; }
    void write(uint64_t a, T v)
    {
        if (kind == 0) dynamic_cast<PrimitiveTypeArray<T>&>(*h).setDataAt(typeid(T), a, v);
        else if (kind == 2) dynamic_cast<PrimitiveTypeArray2D<T>&>(*h).setDataAt(typeid(T), a, v);
        else {
            ext.at(a) = v;
            dynamic_cast<ArrayWrapper<T>&>(*h).invalidateCachedHash();
        }
    }
};
template <class T> static const T* ptr(const UntypedSharedPtr& p, bool array, std::shared_ptr<const T>& keep)
{
    if (!array) keep = p.getSharedPointer<const T>();
    else keep = p.getSharedPointer<const T[]>();
    return keep.get();
}
// Every address of every type.
template <class T, class Other> static void readAll()
{
    int k = vp_pick("kind", 0, 3);
    size_t W = vp_pick("width", 1, vp_param("width", 3)), H = k >= 2 ? vp_pick("height", 1, vp_param("height", 3)) : 1;
    Handler<T> x(k, H, W);
    std::vector<T> v(H * W);
    for (size_t i = 0; i < H * W; i++) {
        v[i] = symValue<T>("cell");
        x.write(i, v[i]);
    }
    const DataHandler& d = *x.h;
    auto tys = types<T, Other>();
    size_t largest = 0;
    for (size_t pass = 0; pass < 2; pass++) // the second time, address spaces are cached
        for (auto& ty : tys) {
            std::vector<size_t> c;
            size_t space = 0;
            while (cells(x.d2, H, W, ty, space, c)) space++;
            largest = std::max(largest, space);
            vp_assert(d.canHandle(*ty.t) == (space > 0), "the types that can be provided");
            vp_assert(d.getAddressSpace(*ty.t) == space, "the address space of a type");
            for (size_t a = 0; a < space; a++) {
                cells(x.d2, H, W, ty, a, c);
                vp_assert(d.getAddressesAccessed(*ty.t, a) == c, "the cells reported as accessed are the documented ones");
                auto u = d.getDataAt(*ty.t, a);
                std::shared_ptr<const T> keep;
                const T* p = ptr<T>(u, ty.w != 0, keep);
                for (size_t i = 0; i < c.size(); i++) vp_assert(bitsOf(p[i]) == bitsOf(v[c[i]]), "the data of an address are its cells");
            }
            for (size_t a : {space, space + 1, space + 100}) vp_assert(d.getAddressesAccessed(*ty.t, a).empty(), "no cell beyond the address space");
        }
    vp_assert(d.getLargestAddressSpace() == largest, "the largest address space");
    vp_reach("end");
}
HARNESS(readdouble) { readAll<double, float>(); }
HARNESS(readint) { readAll<int, unsigned>(); }
HARNESS(readconstant) { readAll<Constant, int>(); }
HARNESS(readbyte) { readAll<unsigned char, char>(); }

// A symbolic address: data, scaling, and rejection at or beyond the address space.
HARNESS(address)
{
    typedef double T;
    int k = vp_pick("kind", 0, 3);
    size_t W = vp_pick("width", 2, vp_param("width", 3)), H = k >= 2 ? vp_pick("height", 1, 2) : 1;
    Handler<T> x(k, H, W);
    std::vector<T> v(H * W);
    for (size_t i = 0; i < H * W; i++) x.write(i, v[i] = symValue<T>("cell"));
    const DataHandler& d = *x.h;
    auto tys = types<T, float>();
    const Ty& ty = tys[vp_pick("type", 0, 11)];
    size_t space = d.getAddressSpace(*ty.t);
    vp_assume(space > 0);
    uint64_t raw = vp_u64("raw location", 0, UINT64_MAX);
    uint64_t a = d.scaleLocation(raw, *ty.t);
    vp_assert(a < space, "a scaled location is a valid address");
    if (raw < space) vp_assert(a == raw, "a valid address is not changed by scaling");
    uint64_t bad = vp_u64("address", space, space + vp_param("beyond", 1000000));
    vp_assert(throws([&] { d.getDataAt(*ty.t, bad); }), "an address at or beyond the address space is rejected");
    a = vp_conc(a);
    std::vector<size_t> c;
    vp_assert(cells(x.d2, H, W, ty, a, c), "a scaled location is a valid address");
    auto u = d.getDataAt(*ty.t, a);
    std::shared_ptr<const T> keep;
    const T* p = ptr<T>(u, ty.w != 0, keep);
    for (size_t i = 0; i < c.size(); i++) vp_assert(bitsOf(p[i]) == bitsOf(v[c[i]]), "the data of an address are its cells");
    vp_reach("end");
}
// Writing a cell changes this cell only.
HARNESS(writecell)
{
    typedef double T;
    int k = vp_pick("kind", 0, 1) * 2;
    size_t W = vp_pick("width", 1, 3), H = k ? vp_pick("height", 1, 2) : 1;
    Handler<T> x(k, H, W);
    std::vector<T> v(H * W);
    for (size_t i = 0; i < H * W; i++) x.write(i, v[i] = symValue<T>("cell"));
    uint64_t a = vp_u64("address", 0, H * W - 1);
    T n = symValue<T>("new");
    x.write(a, n);
    for (size_t i = 0; i < H * W; i++) {
        uint64_t m = 0 - (uint64_t)(i == a);
        uint64_t got = bitsOf(*x.h->getDataAt(typeid(T), i).template getSharedPointer<const T>());
        vp_assert(got == ((bitsOf(n) & m) | (bitsOf(v[i]) & ~m)), "a write is visible at its cell only");
    }
    vp_assert(throws([&] { x.write(vp_u64("bad", H * W, H * W + 1000000), n); }), "a write beyond the cells is rejected");
    x.h->resetData();
    for (size_t i = 0; i < H * W; i++) vp_assert(bitsOf(*x.h->getDataAt(typeid(T), i).template getSharedPointer<const T>()) == 0, "a reset sets every cell to zero");
    vp_reach("end");
}

// ---- C21, C06
static uint64_t hashOf(const DataHandler& d) { return d.getHash(); }
template <class T> struct Store {
    int kind; // 0 array, 1 array wrapper, 2 2-D array, 3 2-D array wrapper, 4 pointer wrapper
    size_t H, W;
    std::vector<T> a, b;     // external data of wrappers
    std::vector<T>* cur = &a;
    std::vector<T> ref;      // expected content
    std::unique_ptr<DataHandler> h;
    Store(int k, size_t H_, size_t W_) : kind(k), H(H_), W(W_), a(H * W), b(H * W), ref(H * W)
    {
        if (k == 0) h = std::make_unique<PrimitiveTypeArray<T>>(W);
        if (k == 1) h = std::make_unique<ArrayWrapper<T>>(W, &a);
        if (k == 2) h = std::make_unique<PrimitiveTypeArray2D<T>>(W, H);
        if (k == 3) h = std::make_unique<Array2DWrapper<T>>(W, H, &a);
        if (k == 4) h = std::make_unique<PointerWrapper<T>>(&a[0]);
    }
    void written()
    {
        if (kind & 1) dynamic_cast<ArrayWrapper<T>&>(*h).invalidateCachedHash();
    }
    void write(size_t c, T v)
    {
        if (kind == 0) dynamic_cast<PrimitiveTypeArray<T>&>(*h).setDataAt(typeid(T), c, v);
        else if (kind == 2) dynamic_cast<PrimitiveTypeArray2D<T>&>(*h).setDataAt(typeid(T), c, v);
        else (*cur)[c] = v, written();
        ref[c] = v;
    }
};
// writing into a copy: a plain array in every case
template <class T> static void writeCopy(DataHandler& d, size_t c, T v)
{
    if (auto* p = dynamic_cast<PrimitiveTypeArray2D<T>*>(&d)) p->setDataAt(typeid(T), c, v);
    else dynamic_cast<PrimitiveTypeArray<T>&>(d).setDataAt(typeid(T), c, v);
}
template <class T> static void hasContent(const DataHandler& d, const std::vector<T>& v, const char* msg)
{
    for (size_t i = 0; i < v.size(); i++) vp_assert(bitsOf(*d.getDataAt(typeid(T), i).template getSharedPointer<const T>()) == bitsOf(v[i]), msg);
}
// the hash of the content, computed again
template <class T> static uint64_t freshHash(const DataHandler& d, const std::vector<T>& v)
{
    std::unique_ptr<DataHandler> c(d.clone());
    for (size_t i = 0; i < v.size(); i++) writeCopy<T>(*c, i, v[i]);
    return hashOf(*c);
}
template <class T> static void hashHistory(int k0, int k1)
{
    int k = vp_pick("kind", k0, k1);
    size_t W = k == 4 ? 1 : vp_param("width", 2), H = k == 2 || k == 3 ? vp_param("height", 1) : 1;
    Store<T> x(k, H, W), other(k, H, W);
    if (vp_bool("hash requested")) hashOf(*x.h);
    for (size_t i = 0; i < H * W; i++) other.write(i, symValue<T>("other"));
    for (long s = 0; s < vp_param("steps", 3); s++) {
        switch (vp_pick("operation", 0, k == 4 ? 3 : 4)) {
        case 0: // write
            x.write(vp_pick("cell", 0, H * W - 1), symValue<T>("value"));
            vp_reach("write");
            break;
        case 1: // reset, without effect on wrappers
            x.h->resetData();
            if (k == 0 || k == 2) x.ref.assign(H * W, T());
            vp_reach("reset");
            break;
        case 2:
            hashOf(*x.h);
            vp_reach("request");
            break;
        case 3: // assignment, or another vector
            if (k == 0) dynamic_cast<PrimitiveTypeArray<T>&>(*x.h) = dynamic_cast<PrimitiveTypeArray<T>&>(*other.h);
            if (k == 2) dynamic_cast<PrimitiveTypeArray2D<T>&>(*x.h) = dynamic_cast<PrimitiveTypeArray2D<T>&>(*other.h);
            if (k == 0 || k == 2) x.ref = other.ref;
            else {
                // the same vector, modified without further notice, or another one
                if (vp_pick("same vector", 0, 1)) (*x.cur)[0] = symValue<T>("value");
                else x.cur = x.cur == &x.a ? &x.b : &x.a;
                if (k == 4) dynamic_cast<PointerWrapper<T>&>(*x.h).setPointer(&(*x.cur)[0]);
                else dynamic_cast<ArrayWrapper<T>&>(*x.h).setPointer(x.cur);
                x.ref = *x.cur;
            }
            vp_reach("assignment");
            break;
        case 4: // a copy of the handler goes on
            if (k == 0 || k == 2) x.h.reset(x.h->clone());
            else if (k == 1) x.h.reset(new ArrayWrapper<T>(dynamic_cast<ArrayWrapper<T>&>(*x.h)));
            else x.h.reset(new Array2DWrapper<T>(dynamic_cast<Array2DWrapper<T>&>(*x.h)));
            vp_reach("copy");
            break;
        }
    }
    // the copy may be made before or after the hash is requested
    bool first = vp_bool("hash before the copy");
    uint64_t h0 = first ? hashOf(*x.h) : 0;
    std::unique_ptr<DataHandler> c(x.h->clone());
    uint64_t hc = hashOf(*c), hx = hashOf(*x.h);
    if (first) vp_assert(h0 == hx, "a hash does not change without a write");
    vp_assert(hx == freshHash(*x.h, x.ref), "the hash is the one of the current content");
    vp_assert(hc == hx, "a copy has the same hash");
    vp_assert(c->getId() == x.h->getId(), "a copy has the same identifier");
    hasContent(*x.h, x.ref, "the content is the one written");
    hasContent(*c, x.ref, "a copy has the same content");
    vp_assert(c->getAddressSpace(typeid(T)) == H * W && c->getLargestAddressSpace() == x.h->getLargestAddressSpace(), "a copy has the same address space");
    // independence of the copy and the original
    size_t cell = vp_pick("cell", 0, H * W - 1);
    T n = symValue<T>("new");
    std::vector<T> changed = x.ref;
    changed[cell] = n;
    if (vp_pick("modify", 0, 1)) {
        writeCopy<T>(*c, cell, n);
        hasContent(*x.h, x.ref, "writing into a copy does not change the original");
        vp_assert(hashOf(*x.h) == hx, "writing into a copy does not change the hash of the original");
        hasContent(*c, changed, "a write into the copy");
        vp_assert(hashOf(*c) == freshHash(*x.h, changed), "the hash of a copy is the one of its content");
    }
    else {
        std::vector<T> old = x.ref;
        x.write(cell, n);
        hasContent(*c, old, "writing into the original does not change a copy");
        vp_assert(hashOf(*c) == hx, "writing into the original does not change the hash of a copy");
        vp_assert(hashOf(*x.h) == freshHash(*c, changed), "two handlers with equal content have equal hashes");
    }
    vp_reach("end");
}
HARNESS(hashdouble) { hashHistory<double>(0, 4); }
HARNESS(hashint) { hashHistory<int>(0, 4); }
// Different contents have different hashes (on sample values) and every cell counts.
HARNESS(hashdiffers)
{
    int k = vp_pick("kind", 0, 4);
    size_t W = k == 4 ? 1 : 3, H = k == 2 || k == 3 ? 2 : 1;
    static const double val[] = {0.0, 1.0, -1.0, 2.5, 1e-300, 123456.789};
    Store<double> x(k, H, W);
    for (size_t i = 0; i < H * W; i++) x.write(i, val[i % 4]);
    uint64_t h = hashOf(*x.h);
    size_t c = vp_pick("cell", 0, H * W - 1), v = vp_pick("value", 0, 5);
    double before = x.ref[c];
    x.write(c, val[v]);
    vp_assert((hashOf(*x.h) == h) == (val[v] == before), "changing one cell changes the hash");
    x.write(c, before);
    vp_assert(hashOf(*x.h) == h, "restoring the content restores the hash");
    size_t o = vp_pick("other", 0, H * W - 1);
    double y = x.ref[o];
    x.write(o, before);
    x.write(c, y);
    vp_assert((hashOf(*x.h) == h) == (before == y), "swapping two cells changes the hash");
    Store<double> z(k, H, W);
    for (size_t i = 0; i < H * W; i++) z.write(i, x.ref[i]);
    vp_assert(hashOf(*z.h) != hashOf(*x.h), "another handler with the same content has another hash");
    vp_reach("end");
}
HARNESS(hashconstant) { hashHistory<Constant>(0, 1); }
