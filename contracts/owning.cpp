// Owning containers: every contained value is constructed and destroyed exactly once, memory is returned to the
// allocator it came from, and the contents are those the operation describes, also when something throws.
// One operation is run from every state of both operands, and its result is one of these states again, so the
// contract holds for operation sequences of any length.
#include <cstdlib>
#include <memory>
#include <new>
#include <utility>
#include "vp.h"
#include "zserio/Any.h"
#include "zserio/Optional.h"
#include "zserio/UniquePtr.h"
#include "zserio/Variant.h"
using namespace zserio;
namespace
{
// ---- ghost state
int64_t gValues = 0;  // values constructed and not yet destroyed
int64_t gBlocks = 0;  // memory blocks allocated and not yet freed
const void* gAlive[8] = {}; // where they are
uint64_t gFault = 0;  // the gFault-th thing that can fail does
struct Fault
{};
void mayFail()
{
    if (gFault != 0 && --gFault == 0)
    {
        vp_cover("fault");
        throw Fault();
    }
}
// ---- a contained value that knows whether it is alive
constexpr uint8_t MOVED = 0xEE;
template <size_t PAD, bool SAFE_MOVE>
struct Item
{
    uint8_t value;
    uint8_t pad[PAD];
    Item() : value(0)
    {
        mayFail();
        born();
    }
    explicit Item(uint8_t v) : value(v)
    {
        mayFail();
        born();
    }
    Item(const Item& o) : value(o.read())
    {
        mayFail();
        born();
    }
    Item(Item&& o) noexcept(SAFE_MOVE) : value(o.read())
    {
        if constexpr (!SAFE_MOVE) mayFail();
        o.value = MOVED;
        born();
    }
    Item& operator=(const Item& o)
    {
        alive();
        const uint8_t v = o.read();
        mayFail();
        value = v;
        return *this;
    }
    Item& operator=(Item&& o) noexcept(SAFE_MOVE)
    {
        alive();
        if (this == &o) return *this;
        const uint8_t v = o.read();
        if constexpr (!SAFE_MOVE) mayFail();
        value = v;
        o.value = MOVED;
        return *this;
    }
    ~Item()
    {
        *alive() = nullptr;
        gValues--;
    }
    uint8_t read() const
    {
        alive();
        return value;
    }
    bool operator==(const Item& o) const { return read() == o.read(); }
    bool operator<(const Item& o) const { return read() < o.read(); }

private:
    const void** alive() const
    {
        const void** at = nullptr;
        for (auto& p : gAlive)
            if (p == this) at = &p;
        vp_assert(at != nullptr, "only values that are alive are used and destroyed");
        vp_assume(at != nullptr);
        return at;
    }
    void born()
    {
        for (auto& p : gAlive)
            if (p == this) vp_assert(false, "a value is not constructed over a living one");
        for (auto& p : gAlive)
            if (p == nullptr)
            {
                p = this;
                break;
            }
        gValues++;
    }
};
using Small = Item<1, true>;    // in place
using Unsafe = Item<1, false>;  // small, but its move can fail
using Big = Item<40, true>;     // on the heap
using BigUnsafe = Item<40, false>;
struct Recursive : Item<1, true>  // small, but on the heap by its tag
{
    using IS_RECURSIVE = void;
    using Item<1, true>::Item;
};
static_assert(sizeof(Small) == 2);
// ---- allocators that check the way of each block
template <typename T, bool PROPAGATE>
struct TestAlloc
{
    using value_type = T;
    using propagate_on_container_copy_assignment = std::bool_constant<PROPAGATE>;
    using propagate_on_container_move_assignment = std::bool_constant<PROPAGATE>;
    using propagate_on_container_swap = std::bool_constant<PROPAGATE>;
    using is_always_equal = std::false_type;
    template <typename U>
    struct rebind
    {
        using other = TestAlloc<U, PROPAGATE>;
    };
    uint32_t id;
    TestAlloc() : id(0) {}
    explicit TestAlloc(uint32_t i) : id(i) {}
    template <typename U>
    TestAlloc(const TestAlloc<U, PROPAGATE>& o) : id(o.id) {}
    T* allocate(size_t n)
    {
        mayFail();
        auto* p = static_cast<uint64_t*>(::operator new(n * sizeof(T) + 16));
        p[0] = id;
        p[1] = n;
        gBlocks++;
        return reinterpret_cast<T*>(p + 2);
    }
    void deallocate(T* q, size_t n)
    {
        auto* p = reinterpret_cast<uint64_t*>(q) - 2;
        vp_assert(p[0] == id, "memory is returned to the allocator it came from");
        vp_assert(p[1] == n, "memory is returned with its size");
        gBlocks--;
        ::operator delete(p);
    }
    bool operator==(const TestAlloc& o) const { return id == o.id; }
    bool operator!=(const TestAlloc& o) const { return id != o.id; }
};
template <typename T>
struct PlainAlloc // without state
{
    using value_type = T;
    PlainAlloc() = default;
    explicit PlainAlloc(uint32_t) {}
    template <typename U>
    PlainAlloc(const PlainAlloc<U>&) {}
    T* allocate(size_t n)
    {
        mayFail();
        gBlocks++;
        return static_cast<T*>(::operator new(n * sizeof(T)));
    }
    void deallocate(T* q, size_t)
    {
        gBlocks--;
        ::operator delete(q);
    }
    bool operator==(const PlainAlloc&) const { return true; }
    bool operator!=(const PlainAlloc&) const { return false; }
};
template <typename A>
constexpr bool hasState = !std::is_empty_v<A>;
template <typename A>
bool propagates(const A&)
{
    return std::allocator_traits<A>::propagate_on_container_swap::value;
}
template <typename A>
uint32_t idOf(const A& a)
{
    if constexpr (hasState<A>) return a.id;
    else return 0;
}
// what a container holds
struct Content
{
    uint64_t kind = 0; // 0: nothing
    uint8_t value = 0;
    bool operator==(const Content& o) const { return kind == o.kind && (kind == 0 || value == o.value); }
};
// the states and the operations of two containers a and b of the type C::Object
template <typename C>
void oneOperation(uint64_t op)
{
    using Object = typename C::Object;
    using A = typename C::Alloc;
    {
        const A first(1), second(hasState<A> && vp_pick("allocators differ", 0, 1) != 0 ? 2U : 1U);
        const uint8_t v = vp_u8("a"), w = vp_u8("b"), x = vp_u8("new");
        vp_assume(v != MOVED && w != MOVED && x != MOVED);
        Object a(first), b(second);
        C::enter(a, v, vp_pick("state of a", 0, C::STATES - 1), first);
        C::enter(b, w, vp_pick("state of b", 0, C::STATES - 1), second);
        const Content ca = C::content(a), cb = C::content(b);
        vp_assert(gValues == (ca.kind != 0) + (cb.kind != 0), "a container holds at most one value");
        Content na = ca, nb = cb; // expected afterwards
        bool anyA = false, anyB = false; // moved from: valid, not specified
        gFault = vp_pick("fails", 0, C::FAULTS);
        bool failed = false, copies = true;
        uint32_t ia = 1, ib = idOf(second);
        try
        {
            switch (op)
            {
            case 0: a = b; na = cb; if (propagates(first)) ia = ib; break;
            case 1: copies = false; a = std::move(b); na = cb; anyB = true; if (propagates(first)) ia = ib; break;
            case 2: { Object& same = a; a = same; } break;
            case 3: { Object& same = a; a = std::move(same); } break;
            case 4: copies = false; a.swap(b); na = cb; nb = ca; if (propagates(first)) std::swap(ia, ib); break;
            case 5: { Object& same = a; a.swap(same); } break;
            case 6: { const Object c(a); vp_assert(C::content(c) == ca, "copy"); } break;
            case 7: { const Object c(b, first); vp_assert(C::content(c) == cb, "copy with an allocator"); } break;
            case 8: { anyA = true; const Object c(std::move(a)); vp_assert(C::content(c) == ca, "move"); } break;
            case 9: { anyB = true; const Object c(std::move(b), first); vp_assert(C::content(c) == cb, "move with an allocator"); } break;
            default: C::operation(a, op - 10, x, ca, na, anyA); break;
            }
        }
        catch (const Fault&)
        {
            failed = true;
            vp_cover("failed");
        }
        gFault = 0;
        const Content ra = C::content(a), rb = C::content(b);
        if (!failed)
        {
            if (!anyA) vp_assert(ra == na, "contents afterwards");
            if (!anyB) vp_assert(rb == nb, "contents of the other one afterwards");
            if constexpr (hasState<A>) vp_assert(C::allocator(a) == ia && C::allocator(b) == ib, "allocators afterwards");
            vp_cover("done");
        }
        else if (copies && !anyB)
        {
            vp_assert(rb == cb, "a failed copy does not change the source");
        }
        vp_assert(gValues == (ra.kind != 0) + (rb.kind != 0), "no value is lost or destroyed twice");
        C::usable(a);
        C::usable(b);
    }
    vp_assert(gValues == 0, "every value is destroyed");
    vp_assert(gBlocks == 0, "every memory block is freed");
}
// ---- optionals
template <typename T, typename A>
struct Optionals
{
    using Object = BasicOptional<A, T>;
    using Alloc = A;
    static constexpr uint64_t STATES = 3, FAULTS = 3, OPERATIONS = 17;
    static void enter(Object& o, uint8_t v, uint64_t state, const A& alloc)
    {
        if (state == 0) return;
        o.emplace(v);
        if (state == 2) { const Object taken(std::move(o), alloc); } // moved from
    }
    static Content content(const Object& o)
    {
        Content c;
        c.kind = o.has_value() ? 1 : 0;
        vp_assert(static_cast<bool>(o) == o.has_value(), "bool");
        if (o.has_value()) c.value = (*o).read();
        return c;
    }
    static uint32_t allocator(const Object& o) { return idOf(o.get_allocator()); }
    static void operation(Object& a, uint64_t op, uint8_t x, const Content& ca, Content& na, bool& anyA)
    {
        switch (op)
        {
        case 0: { a.reset(); na = Content(); } break;
        case 1: { a = std::nullopt; na = Content(); } break;
        case 2: { T& r = a.emplace(x); na.kind = 1; na.value = x; vp_assert(r.read() == x, "emplaced"); } break;
        case 3: { const T t(x); a = t; na.kind = 1; na.value = x; } break;
        case 4: { T t(x); a = std::move(t); na.kind = 1; na.value = x; } break;
        case 5: if (ca.kind != 0) { const T& own = *a; a = own; } break;
        default:
        {
            const T t(x);
            const T r = a.value_or(t);
            vp_assert(r.read() == (ca.kind != 0 ? ca.value : x), "value_or");
        }
        }
    }
    static void usable(Object& o)
    {
        bool empty = false;
        try
        {
            (void)o.value().read();
        }
        catch (const BadOptionalAccess&)
        {
            empty = true;
        }
        vp_assert(empty == !o.has_value(), "access fails exactly when there is no value");
        o.emplace(static_cast<uint8_t>(7));
        vp_assert(o.has_value() && o->read() == 7, "usable again");
    }
};
// ---- type-erased values: nothing, in place (two types), on the heap (two types)
template <typename A>
struct Anys
{
    using Object = BasicAny<A>;
    using Alloc = A;
    static constexpr uint64_t STATES = 7, FAULTS = 4, OPERATIONS = 20;
    static void enter(Object& o, uint8_t v, uint64_t state, const A& alloc)
    {
        switch (state)
        {
        case 1: o.template emplace<Small>(v); break;
        case 2: o.template emplace<Big>(v); break;
        case 3: o.template emplace<Unsafe>(v); break;
        case 4: o.template emplace<BigUnsafe>(v); break;
        case 5: { o.template emplace<Small>(v); const Object taken(std::move(o), alloc); } break;
        case 6: { o.template emplace<Big>(v); const Object taken(std::move(o), alloc); } break;
        default: break;
        }
    }
    template <typename T>
    static void check(const Object& o, uint64_t kind, Content& c)
    {
        const T* p = o.template get_if<T>();
        vp_assert((p != nullptr) == o.template isType<T>(), "get_if and isType agree");
        bool wrong = false;
        try
        {
            const T& r = o.template get<T>();
            vp_assert(&r == p, "get and get_if agree");
        }
        catch (const CppRuntimeException&)
        {
            wrong = true;
        }
        vp_assert(wrong == (p == nullptr), "access fails exactly when the type differs");
        if (p == nullptr) return;
        vp_assert(c.kind == 0, "one type");
        c.kind = kind;
        c.value = p->read();
    }
    static Content content(const Object& o)
    {
        Content c;
        check<Small>(o, 1, c);
        check<Big>(o, 2, c);
        check<Unsafe>(o, 3, c);
        check<BigUnsafe>(o, 4, c);
        vp_assert(o.hasValue() == (c.kind != 0), "hasValue");
        return c;
    }
    static uint32_t allocator(const Object& o) { return idOf(o.get_allocator()); }
    static void operation(Object& a, uint64_t op, uint8_t x, const Content& ca, Content& na, bool& anyA)
    {
        if (op != 0 && op != 9) na.value = x;
        switch (op)
        {
        case 0: a.reset(); na = Content(); break;
        case 1: a.template emplace<Small>(x); na.kind = 1; break;
        case 2: a.template emplace<Big>(x); na.kind = 2; break;
        case 3: a.template emplace<Unsafe>(x); na.kind = 3; break;
        case 4: { const Small t(x); a.set(t); na.kind = 1; } break;
        case 5: { const Big t(x); a = t; na.kind = 2; } break;
        case 6: { BigUnsafe t(x); a = std::move(t); na.kind = 4; } break;
        case 7: { Unsafe t(x); const Object c(std::move(t), a.get_allocator()); a = c; na.kind = 3; } break;
        case 8: { const Big t(x); Object c(t, a.get_allocator()); a = std::move(c); na.kind = 2; } break;
        default: if (ca.kind == 2) { const Big& own = a.template get<Big>(); a = own; } break;
        }
    }
    static void usable(Object& o)
    {
        o.template emplace<Small>(static_cast<uint8_t>(7));
        vp_assert(o.hasValue() && o.template get<Small>().read() == 7, "usable again");
    }
};
// ---- variants; C has the type of A
enum class Which : uint8_t { A, B, C, D };
template <typename A>
struct Variants
{
    using Object = BasicVariant<A, Which, Small, Big, Small, Unsafe>;
    using Alloc = A;
    static constexpr uint64_t STATES = 5, FAULTS = 4, OPERATIONS = 15;
    static void enter(Object& o, uint8_t v, uint64_t state, const A& alloc)
    {
        switch (state)
        {
        case 0: o.template emplace<Which::A>(v); break;
        case 1: o.template emplace<Which::B>(v); break;
        case 2: o.template emplace<Which::C>(v); break;
        case 3: o.template emplace<Which::D>(v); break;
        default: { o.template emplace<Which::B>(v); const Object taken(std::move(o), alloc); } break;
        }
    }
    template <Which I>
    static void check(const Object& o, Content& c)
    {
        const auto* p = o.template get_if<I>();
        vp_assert((p != nullptr) == (o.index() == I), "get_if and index agree");
        bool wrong = false;
        try
        {
            vp_assert(&o.template get<I>() == p, "get and get_if agree");
        }
        catch (const BadVariantAccess&)
        {
            wrong = true;
        }
        vp_assert(wrong == (p == nullptr), "access fails exactly when another alternative is active");
        if (p == nullptr) return;
        c.kind = 1 + static_cast<uint64_t>(I);
        c.value = p->read();
    }
    static Content content(const Object& o)
    {
        Content c;
        check<Which::A>(o, c);
        check<Which::B>(o, c);
        check<Which::C>(o, c);
        check<Which::D>(o, c);
        vp_assert(o.valueless_by_exception() == (c.kind == 0), "valueless");
        if (o.valueless_by_exception()) vp_assert(static_cast<uint8_t>(o.index()) == 0xFF, "index of a variant without a value");
        bool thrown = false;
        try
        {
            const uint8_t seen = o.visit([](const auto& e) { return e.read(); });
            vp_assert(seen == c.value, "the active element is visited");
        }
        catch (const BadVariantAccess&)
        {
            thrown = true;
        }
        vp_assert(thrown == (c.kind == 0), "only a variant without a value cannot be visited");
        return c;
    }
    static uint32_t allocator(const Object& o) { return idOf(o.m_data.get_allocator()); }
    static void operation(Object& a, uint64_t op, uint8_t x, const Content& ca, Content& na, bool& anyA)
    {
        na.value = x;
        switch (op)
        {
        case 0: a.template emplace<Which::A>(x); na.kind = 1; break;
        case 1: a.template emplace<Which::B>(x); na.kind = 2; break;
        case 2: a.template emplace<Which::C>(x); na.kind = 3; break;
        case 3: a.template emplace<Which::D>(x); na.kind = 4; break;
        default:
        {
            const Object c(in_place_index<Which::B>, a.m_data.get_allocator(), x);
            a = c;
            na.kind = 2;
        }
        }
    }
    static void usable(Object& o)
    {
        vp_assert(o == o || o.index() == o.index(), "comparable");
        o.template emplace<Which::B>(static_cast<uint8_t>(7));
        vp_assert(o.index() == Which::B && o.template get<Which::B>().read() == 7, "usable again");
    }
};
template <typename T>
void optionals(uint64_t op, uint64_t alloc)
{
    if (alloc == 0) oneOperation<Optionals<T, TestAlloc<uint8_t, false>>>(op);
    else if (alloc == 1) oneOperation<Optionals<T, TestAlloc<uint8_t, true>>>(op);
    else oneOperation<Optionals<T, PlainAlloc<uint8_t>>>(op);
}
} // namespace
CONTRACT(optional_inline)
{
    const uint64_t k = vp_deal("operation, allocator", 0, 3 * 17 - 1);
    if (vp_pick("move can fail", 0, 1) != 0) optionals<Unsafe>(k / 3, k % 3);
    else optionals<Small>(k / 3, k % 3);
    vp_cover("optional");
}
CONTRACT(optional_heap)
{
    const uint64_t k = vp_deal("operation, allocator", 0, 3 * 17 - 1);
    switch (vp_pick("type", 0, 2))
    {
    case 0: optionals<Big>(k / 3, k % 3); break;
    case 1: optionals<BigUnsafe>(k / 3, k % 3); break;
    default: optionals<Recursive>(k / 3, k % 3); break;
    }
    vp_cover("optional");
}
// conversions between optionals of different types
template <size_t PAD>
struct Converted : Item<PAD, true>
{
    using Base = Item<PAD, true>;
    explicit Converted(uint8_t v) : Base(v) {}
    template <size_t P>
    explicit Converted(const Item<P, true>& o) : Base(o.read()) {}
    template <size_t P>
    explicit Converted(Item<P, true>&& o) : Base(o.read()) { o.value = MOVED; }
};
template <typename U, typename T, typename A>
void conversions()
{
    using From = BasicOptional<A, U>;
    using To = BasicOptional<A, T>;
    {
        const A first(1), second(hasState<A> && vp_pick("allocators differ", 0, 1) != 0 ? 2U : 1U);
        const uint8_t v = vp_u8("a"), w = vp_u8("b");
        vp_assume(v != MOVED && w != MOVED);
        From f(first);
        To t(second);
        Optionals<U, A>::enter(f, v, vp_pick("state of the source", 0, 2), first);
        Optionals<T, A>::enter(t, w, vp_pick("state of the target", 0, 2), second);
        const Content cf = Optionals<U, A>::content(f);
        gFault = vp_pick("fails", 0, 3);
        bool copied = false;
        try
        {
            switch (vp_pick("conversion", 0, 5))
            {
            case 0: copied = true; t = f; vp_assert((Optionals<T, A>::content(t) == cf), "converted"); break;
            case 1: t = std::move(f); vp_assert((Optionals<T, A>::content(t) == cf), "converted"); break;
            case 2: { copied = true; const To c(f); vp_assert((Optionals<T, A>::content(c) == cf), "converted"); } break;
            case 3: { const To c(std::move(f)); vp_assert((Optionals<T, A>::content(c) == cf), "converted"); } break;
            case 4: { copied = true; const To c(f, second); vp_assert((Optionals<T, A>::content(c) == cf), "converted"); } break;
            default: { const To c(std::move(f), second); vp_assert((Optionals<T, A>::content(c) == cf), "converted"); } break;
            }
            vp_cover("done");
        }
        catch (const Fault&)
        {
            vp_cover("failed");
        }
        gFault = 0;
        const Content rf = Optionals<U, A>::content(f), rt = Optionals<T, A>::content(t);
        if (copied) vp_assert(rf == cf, "a copy does not change the source");
        vp_assert(gValues == (rf.kind != 0) + (rt.kind != 0), "no value is lost or destroyed twice");
        Optionals<U, A>::usable(f);
        Optionals<T, A>::usable(t);
    }
    vp_assert(gValues == 0, "every value is destroyed");
    vp_assert(gBlocks == 0, "every memory block is freed");
}
template <typename A>
void conversions(uint64_t types)
{
    switch (types)
    {
    case 0: conversions<Small, Converted<1>, A>(); break;
    case 1: conversions<Small, Converted<40>, A>(); break;
    case 2: conversions<Big, Converted<1>, A>(); break;
    default: conversions<Big, Converted<40>, A>(); break;
    }
}
CONTRACT(optional_conversions)
{
    const uint64_t k = vp_deal("types, allocator", 0, 11);
    if (k % 3 == 0) conversions<TestAlloc<uint8_t, false>>(k / 3);
    else if (k % 3 == 1) conversions<TestAlloc<uint8_t, true>>(k / 3);
    else conversions<PlainAlloc<uint8_t>>(k / 3);
    vp_cover("conversion");
}
CONTRACT(any_values)
{
    const uint64_t k = vp_deal("operation, allocator", 0, 3 * 20 - 1);
    switch (k % 3)
    {
    case 0: oneOperation<Anys<TestAlloc<uint8_t, false>>>(k / 3); break;
    case 1: oneOperation<Anys<TestAlloc<uint8_t, true>>>(k / 3); break;
    default: oneOperation<Anys<PlainAlloc<uint8_t>>>(k / 3); break;
    }
    vp_cover("any");
}
CONTRACT(variants)
{
    const uint64_t k = vp_deal("operation, allocator", 0, 3 * 15 - 1);
    switch (k % 3)
    {
    case 0: oneOperation<Variants<TestAlloc<uint8_t, false>>>(k / 3); break;
    case 1: oneOperation<Variants<TestAlloc<uint8_t, true>>>(k / 3); break;
    default: oneOperation<Variants<PlainAlloc<uint8_t>>>(k / 3); break;
    }
    vp_cover("variant");
}
// allocate_unique: the block goes back to its allocator, also when the constructor fails
CONTRACT(unique_ptr)
{
    using A = TestAlloc<uint8_t, false>;
    {
        const uint8_t v = vp_u8("v");
        const A alloc(static_cast<uint32_t>(vp_pick("allocator", 1, 2)));
        gFault = vp_pick("fails", 0, 3);
        try
        {
            auto p = allocate_unique<Big>(alloc, v);
            vp_assert(p->read() == v && gValues == 1 && gBlocks == 1, "one value in one block");
            vp_assert(p.get_deleter().get_allocator().id == alloc.id, "the deleter has the allocator");
            auto q = std::move(p);
            vp_assert(!p && q->read() == v, "moved");
            q = allocate_unique<Big>(alloc, static_cast<uint8_t>(v + 1U));
            vp_assert(q->read() == static_cast<uint8_t>(v + 1U) && gValues == 1 && gBlocks == 1, "replaced");
            vp_cover("done");
        }
        catch (const Fault&)
        {
            vp_cover("failed");
        }
    }
    vp_assert(gValues == 0 && gBlocks == 0, "nothing is left");
}
