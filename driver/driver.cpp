// Instantiates the templates and inline functions of redGrapes for the analysis. Never linked or executed.
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/dispatch/mpi/request_pool.hpp>
#include <redGrapes/resource/fieldresource.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <redGrapes/scheduler/default_scheduler.hpp>
#include <redGrapes/scheduler/tag_match.hpp>
#include <redGrapes/task/future.hpp>
#include <redGrapes/util/bitfield.hpp>
#include <redGrapes/util/chunked_list.hpp>

namespace rg = redGrapes;

namespace drv
{
    using Arr = std::array<int, 8>;
    using Arr2 = std::array<std::array<int, 8>, 8>;
    using Vec = std::vector<int>;

    // user code: opaque to the analysis
    int body_int();
    void body_void();
    int body_args(rg::ioresource::ReadGuard<int>, rg::ioresource::WriteGuard<int>, int&);

    struct BodyInt
    {
        int operator()()
        {
            return body_int();
        }
    };

    struct BodyVoid
    {
        void operator()()
        {
            body_void();
        }
    };

    struct BodyArgs
    {
        int operator()(rg::ioresource::ReadGuard<int> a, rg::ioresource::WriteGuard<int> b, int c)
        {
            return body_args(a, b, c);
        }
    };

    // an argument whose properties are built by user code, which may create tasks of its own
    struct OwnArg
    {
        int v;
    };

    int body_own(OwnArg&);
    void build_own(OwnArg const&);

} // namespace drv

template<>
struct redGrapes::trait::BuildProperties<drv::OwnArg>
{
    template<typename Builder>
    static void build(Builder&, drv::OwnArg const& a)
    {
        drv::build_own(a);
    }
};

namespace drv
{
    struct BodyOwn
    {
        int operator()(OwnArg a)
        {
            return body_own(a);
        }
    };

    using BuilderInt = rg::TaskBuilder<BodyInt>;
    using BuilderVoid = rg::TaskBuilder<BodyVoid>;

    // --- tasks
    void emplace_int()
    {
        rg::emplace_task(BodyInt{});
    }

    void emplace_void()
    {
        rg::emplace_task(BodyVoid{});
    }

    int emplace_int_get()
    {
        return rg::emplace_task(BodyInt{}).get();
    }

    void emplace_void_get()
    {
        rg::emplace_task(BodyVoid{}).get();
    }

    auto emplace_int_submit()
    {
        return rg::emplace_task(BodyInt{}).submit();
    }

    auto emplace_void_submit()
    {
        return rg::emplace_task(BodyVoid{}).submit();
    }

    void emplace_args(rg::IOResource<int>& a, rg::IOResource<int>& b, int c)
    {
        rg::emplace_task(BodyArgs{}, a.read(), b.write(), c);
    }

    void emplace_res(rg::IOResource<int>& a, rg::IOResource<int>& b)
    {
        rg::emplace_task(BodyInt{}).resources({a.read(), b.write()}).enable_stack_switching().submit();
    }

    void emplace_add_res(rg::IOResource<int>& a)
    {
        rg::emplace_task(BodyInt{}).add_resource(a.read());
    }

    void emplace_tags()
    {
        rg::emplace_task(BodyInt{}).scheduling_tags({SCHED_MPI, 5u, 5u}).scheduling_tags(std::bitset<64>(2));
    }

    void emplace_own(int v)
    {
        rg::emplace_task(BodyOwn{}, OwnArg{v});
    }

    auto ctx_emplace(rg::Context& c)
    {
        return c.emplace_task(BodyInt{});
    }

    void build_guard(rg::TaskProperties::Builder<BuilderInt>& b, rg::ioresource::ReadGuard<int> const& r)
    {
        b.add(r);
    }

    void builder_destroy(BuilderInt* b)
    {
        b->~TaskBuilder();
    }

    void builder_move(void* p, BuilderInt& b)
    {
        new(p) BuilderInt(std::move(b));
    }

    void builder_copy(void* p, BuilderInt& b)
    {
        new(p) BuilderInt(b);
    }

    int builder_get(BuilderInt& b)
    {
        return b.get();
    }

    auto builder_submit(BuilderInt& b)
    {
        return b.submit();
    }

    void builder_submit_void(BuilderVoid& b)
    {
        b.submit();
    }

    // --- futures
    int fut_get(rg::Future<int>& f)
    {
        return f.get();
    }

    void fut_get_void(rg::Future<void>& f)
    {
        f.get();
    }

    std::string fut_get_str(rg::Future<std::string>& f)
    {
        return f.get();
    }

    void fut_move(void* p, rg::Future<int>& f)
    {
        new(p) rg::Future<int>(std::move(f));
    }

    void fut_move_void(void* p, rg::Future<void>& f)
    {
        new(p) rg::Future<void>(std::move(f));
    }

    void fut_dtor(rg::Future<int>* f)
    {
        f->~Future();
    }

    void fut_dtor_void(rg::Future<void>* f)
    {
        f->~Future();
    }

    bool fut_ready(rg::Future<int> const& f)
    {
        return f.is_ready();
    }

    bool fut_ready_void(rg::Future<void> const& f)
    {
        return f.is_ready();
    }

    // --- context
    void api()
    {
        rg::init();
        rg::init(3);
        rg::init(3, std::make_shared<rg::scheduler::DefaultScheduler>());
        rg::barrier();
        rg::finalize();
        rg::backtrace();
        rg::scope_depth();
        rg::create_event();
    }

    void api_yield(rg::scheduler::EventPtr e)
    {
        rg::yield(e);
    }

    void demote(rg::IOResource<int>& a)
    {
        rg::update_properties(
            rg::TaskProperties::Patch::Builder().add_resources({a.read()}).remove_resources({a.write()}));
    }

    // --- changing the accesses of a task
    using Patch = rg::TaskProperties::Patch;
    using RA = rg::ResourceAccess;

    Patch patch_none()
    {
        return Patch::Builder();
    }

    Patch patch_a(RA const& x)
    {
        return Patch::Builder().add_resources({x});
    }

    Patch patch_r(RA const& x)
    {
        return Patch::Builder().remove_resources({x});
    }

    Patch patch_ar(RA const& x, RA const& y)
    {
        return Patch::Builder().add_resources({x}).remove_resources({y});
    }

    Patch patch_ra(RA const& x, RA const& y)
    {
        return Patch::Builder().remove_resources({x}).add_resources({y});
    }

    Patch patch_aar(RA const& x, RA const& y, RA const& z)
    {
        return Patch::Builder().add_resources({x, y}).remove_resources({z});
    }

    Patch patch_rra(RA const& x, RA const& y, RA const& z)
    {
        return Patch::Builder().remove_resources({x, y}).add_resources({z});
    }

    Patch patch_rar(RA const& x, RA const& y, RA const& z)
    {
        return Patch::Builder().remove_resources({x}).add_resources({y}).remove_resources({z});
    }

    Patch patch_copy(Patch const& p)
    {
        return p;
    }

    void patch_join(Patch& p, Patch const& q)
    {
        static_cast<rg::ResourceProperty::Patch&>(p) += static_cast<rg::ResourceProperty::Patch const&>(q);
    }

    void patch_apply(rg::TaskProperties& t, Patch const& p)
    {
        t.apply_patch(p);
    }

    // --- access policies
    using namespace rg::access;
    using OrAreas2 = ArrayAccess<AreaAccess, 2, Or_t>;
    using AndAreas2 = ArrayAccess<AreaAccess, 2, And_t>;
    using CombAnd = CombineAccess<IOAccess, AreaAccess, And_t>;
    using CombOr = CombineAccess<IOAccess, AreaAccess, Or_t>;
    using Field1 = FieldAccess<1>;
    using Field2 = FieldAccess<2>;

#define POLICY(name, T)                                                                                                \
    bool serial_##name(T const& a, T const& b)                                                                         \
    {                                                                                                                  \
        return T::is_serial(a, b);                                                                                     \
    }                                                                                                                  \
    bool super_##name(T const& a, T const& b)                                                                          \
    {                                                                                                                  \
        return a.is_superset_of(b);                                                                                    \
    }                                                                                                                  \
    bool sync_##name(T const& a)                                                                                       \
    {                                                                                                                  \
        return a.is_synchronizing();                                                                                   \
    }                                                                                                                  \
    bool eq_##name(T const& a, T const& b)                                                                             \
    {                                                                                                                  \
        return a == b;                                                                                                 \
    }                                                                                                                  \
    void dflt_##name(void* p)                                                                                          \
    {                                                                                                                  \
        new(p) T();                                                                                                    \
    }

    POLICY(io, IOAccess)
    POLICY(area, AreaAccess)
    POLICY(or2, OrAreas2)
    POLICY(and2, AndAreas2)
    POLICY(cand, CombAnd)
    POLICY(cor, CombOr)
    POLICY(field1, Field1)
    POLICY(field2, Field2)

    void mk_io(void* p, IOAccess::Mode m)
    {
        new(p) IOAccess(m);
    }

    void mk_area(void* p, std::array<size_t, 2> const& a)
    {
        new(p) AreaAccess(a);
    }

    void mk_cand(void* p, IOAccess const& a, AreaAccess const& b)
    {
        new(p) CombAnd(a, b);
    }

    void mk_cand1(void* p, IOAccess const& a)
    {
        new(p) CombAnd(a);
    }

    // --- resources and guards
    template<typename T>
    struct Probe
    {
        static void io(rg::IOResource<T>& r)
        {
            rg::ioresource::ReadGuard<T> rd = r.read();
            rg::ioresource::WriteGuard<T> wr = r.write();
            rg::ResourceAccess a = rd;
            rg::ResourceAccess b = wr;
            (void) *rd;
            (void) rd.get();
            (void) *wr;
            (void) wr.get();
            (void) (a == b);
            (void) a.is_same_resource(b);
        }
    };

    template struct Probe<int>;

    rg::ResourceAccess io_read_access(rg::ioresource::ReadGuard<int> const& g)
    {
        return g;
    }

    rg::ResourceAccess io_write_access(rg::ioresource::WriteGuard<int> const& g)
    {
        return g;
    }

    rg::ResourceAccess io_res_access(rg::IOResource<int> const& g)
    {
        return g;
    }

    rg::ioresource::ReadGuard<int> io_read(rg::IOResource<int> const& g)
    {
        return g.read();
    }

    rg::ioresource::WriteGuard<int> io_write(rg::IOResource<int> const& g)
    {
        return g.write();
    }

    void io_copy(void* p, rg::IOResource<int> const& g)
    {
        new(p) rg::ioresource::WriteGuard<int>(g);
    }

    void io_new(void* p)
    {
        new(p) rg::IOResource<int>(5);
    }

    void io_adopt(void* p, std::shared_ptr<int> const& o)
    {
        new(p) rg::IOResource<int>(o);
    }

    template<typename C>
    struct FieldProbe
    {
        using R = rg::fieldresource::ReadGuard<C>;
        using W = rg::fieldresource::WriteGuard<C>;
        using Index = typename R::Index;

        static rg::ResourceAccess read_access(R const& g)
        {
            return g;
        }

        static rg::ResourceAccess write_access(W const& g)
        {
            return g;
        }

        static R read(W const& g)
        {
            return g.read();
        }

        static W write(W const& g)
        {
            return g.write();
        }

        static R read_area(R const& g, Index a, Index b)
        {
            return g.area(a, b);
        }

        static W write_area(W const& g, Index a, Index b)
        {
            return g.area(a, b);
        }

        static R read_at(R const& g, Index a)
        {
            return g.at(a);
        }

        static W write_at(W const& g, Index a)
        {
            return g.at(a);
        }

        static int const& read_elem(R const& g, Index a)
        {
            return g[a];
        }

        static int& write_elem(W const& g, Index a)
        {
            return g[a];
        }

        static bool contains(R const& g, Index a)
        {
            return g.contains(a);
        }

        static void make(void* p, C* o)
        {
            new(p) rg::FieldResource<C>(o);
        }
    };

    template struct FieldProbe<Arr>;
    template struct FieldProbe<Arr2>;
    template struct FieldProbe<Vec>;

    void field_copy(void* p, rg::fieldresource::WriteGuard<Arr> const& g)
    {
        new(p) rg::fieldresource::WriteGuard<Arr>(g);
    }

    // accesses as seen through the type-erased interface
    bool acc_serial(rg::ResourceAccess const& a, rg::ResourceAccess const& b)
    {
        return rg::ResourceAccess::is_serial(a, b);
    }

    bool acc_super(rg::ResourceAccess const& a, rg::ResourceAccess const& b)
    {
        return a.is_superset_of(b);
    }

    bool acc_eq(rg::ResourceAccess const& a, rg::ResourceAccess const& b)
    {
        return a == b;
    }

    bool acc_same(rg::ResourceAccess const& a, rg::ResourceAccess const& b)
    {
        return a.is_same_resource(b);
    }

    void acc_copy(void* p, rg::ResourceAccess const& a)
    {
        new(p) rg::ResourceAccess(a);
    }

    void acc_move(void* p, rg::ResourceAccess& a)
    {
        new(p) rg::ResourceAccess(std::move(a));
    }

    void acc_assign(rg::ResourceAccess& a, rg::ResourceAccess const& b)
    {
        a = b;
    }

    void acc_assign_move(rg::ResourceAccess& a, rg::ResourceAccess& b)
    {
        a = std::move(b);
    }

    struct AccProbe : rg::Resource<IOAccess>
    {
        static void move(void* p, void* a)
        {
            new(p) Access(std::move(*static_cast<Access*>(a)));
        }

        static void make(void* p, std::shared_ptr<rg::ResourceBase> r, IOAccess a)
        {
            new(p) Access(r, a);
        }
    };

    void acc_obj_make(void* p, std::shared_ptr<rg::ResourceBase> r, IOAccess a)
    {
        AccProbe::make(p, r, a);
    }

    void acc_obj_move(void* p, void* q)
    {
        AccProbe::move(p, q);
    }

    bool acc_sync(rg::ResourceAccess const& a)
    {
        return a.is_synchronizing();
    }

    // --- containers
    using List = rg::ChunkedList<int, 4>;

    struct Elem
    {
        int x;
        Elem(int);
        Elem(Elem const&);
        ~Elem();
        bool operator==(Elem const&) const;
    };

    using EList = rg::ChunkedList<Elem, 4>;

    void list_push(EList& l, Elem const& e)
    {
        l.push(e);
    }

    void list_remove(EList& l, EList::MutBackwardIterator const& it)
    {
        l.remove(it);
    }

    void list_erase(EList& l, Elem const& e)
    {
        l.erase(e);
    }

    void list_copy(void* p, EList const& l)
    {
        new(p) EList(rg::memory::Allocator(), l);
    }

    EList::MutBackwardIterator list_rbegin(EList const& l)
    {
        return l.rbegin();
    }

    EList::MutBackwardIterator list_rend(EList const& l)
    {
        return l.rend();
    }

    EList::ConstBackwardIterator list_crbegin(EList const& l)
    {
        return l.crbegin();
    }

    EList::ConstBackwardIterator list_crend(EList const& l)
    {
        return l.crend();
    }

    void list_it_inc(EList::MutBackwardIterator& it)
    {
        ++it;
    }

    void list_it_copy(void* p, EList::MutBackwardIterator const& it)
    {
        new(p) EList::MutBackwardIterator(it);
    }

    void list_it_assign(EList::MutBackwardIterator& a, EList::MutBackwardIterator const& b)
    {
        a = b;
    }

    bool list_it_ne(EList::MutBackwardIterator& a, EList::MutBackwardIterator const& b)
    {
        return a != b;
    }

    void list_it_dtor(EList::MutBackwardIterator* p)
    {
        p->~BackwardIterator();
    }

    Elem& list_it_deref(EList::MutBackwardIterator& it)
    {
        it->x = 5;
        return *it;
    }

    void list_cit_inc(EList::ConstBackwardIterator& it)
    {
        ++it;
    }

    bool list_cit_ne(EList::ConstBackwardIterator& a, EList::ConstBackwardIterator const& b)
    {
        return a != b;
    }

    using Item = EList::Item;

    void item_ctor(void* p)
    {
        new(p) Item();
    }

    void item_dtor(Item* p)
    {
        p->~Item();
    }

    void item_assign(Item& p, Elem const& e)
    {
        p = e;
    }

    uint16_t item_acquire(Item& p)
    {
        return p.acquire();
    }

    void item_release(Item& p)
    {
        p.release();
    }

    void chunk_ctor(void* p, rg::memory::Block b)
    {
        new(p) EList::Chunk(b);
    }

    void chunk_dtor(EList::Chunk* p)
    {
        p->~Chunk();
    }

    Item* chunk_last(EList::Chunk& p)
    {
        return p.get_last_item();
    }

    using CBA = rg::memory::ChunkedBumpAlloc<rg::memory::HwlocAlloc>;

    rg::memory::Block cba_allocate(CBA& a, size_t n)
    {
        return a.allocate(n);
    }

    void cba_deallocate(CBA& a, rg::memory::Block b)
    {
        a.deallocate(b);
    }

    void cba_new(void* p, rg::memory::HwlocAlloc& a, size_t n)
    {
        new(p) CBA(std::move(a), n);
    }

    void cba_move(void* p, CBA& a)
    {
        new(p) CBA(std::move(a));
    }

    size_t cba_roundup(size_t n)
    {
        return CBA::roundup_to_poweroftwo(n);
    }

    int* std_allocate(rg::memory::StdAllocator<int>& a, size_t n)
    {
        return a.allocate(n);
    }

    void std_deallocate(rg::memory::StdAllocator<int>& a, int* p, size_t n)
    {
        a.deallocate(p, n);
    }

    // --- atomic list
    struct AItem
    {
        AItem(rg::memory::Block);
        ~AItem();
        int x;
    };

    struct AAlloc
    {
        rg::memory::Block allocate(size_t);
        void deallocate(rg::memory::Block);
    };

    using AList = rg::memory::AtomicList<AItem, AAlloc>;

    void alist_allocate(AList& l)
    {
        l.allocate_item();
    }

    bool alist_first(AList& l)
    {
        return l.try_allocate_first_item();
    }

    AList::MutBackwardIterator alist_rbegin(AList const& l)
    {
        return l.rbegin();
    }

    AList::MutBackwardIterator alist_rend(AList const& l)
    {
        return l.rend();
    }

    AList::ConstBackwardIterator alist_crbegin(AList const& l)
    {
        return l.crbegin();
    }

    AList::ConstBackwardIterator alist_crend(AList const& l)
    {
        return l.crend();
    }

    void alist_inc(AList::MutBackwardIterator& i)
    {
        ++i;
    }

    void alist_cinc(AList::ConstBackwardIterator& i)
    {
        ++i;
    }

    void alist_optimize(AList::MutBackwardIterator& i)
    {
        i.optimize();
    }

    void alist_erase(AList& l, AList::MutBackwardIterator i)
    {
        l.erase(i);
    }

    size_t alist_item_capacity(AList& l)
    {
        return l.get_item_capacity();
    }

    size_t alist_chunk_capacity(AList& l)
    {
        return l.get_chunk_capacity();
    }

    size_t alist_alloc_size(AList& l)
    {
        return l.get_chunk_allocsize();
    }

    // --- bitfield
    std::optional<unsigned> probe_cb(unsigned);

    std::optional<unsigned> bits_probe(rg::AtomicBitfield& b, bool expected, unsigned start, bool excl)
    {
        return b.probe_by_value<unsigned>([](unsigned i) { return probe_cb(i); }, expected, start, excl);
    }

    bool bits_set(rg::AtomicBitfield& b, unsigned i, bool v)
    {
        return b.set(i, v);
    }

    bool bits_get(rg::AtomicBitfield& b, unsigned i)
    {
        return b.get(i);
    }

    void bits_new(void* p, size_t n)
    {
        new(p) rg::AtomicBitfield(n);
    }

    bool pool_set(rg::dispatch::thread::WorkerPool& p, unsigned i, rg::dispatch::thread::WorkerState s)
    {
        return p.set_worker_state(i, s);
    }

    int pool_get(rg::dispatch::thread::WorkerPool& p, unsigned i)
    {
        return p.get_worker_state(i);
    }

    // --- schedulers
    using Tags = rg::scheduler::TagMatch<64>;

    void tag_emplace(Tags& t, rg::Task& x)
    {
        t.emplace_task(x);
    }

    void tag_activate(Tags& t, rg::Task& x)
    {
        t.activate_task(x);
    }

    rg::Task* tag_steal(Tags& t, rg::dispatch::thread::Worker& w)
    {
        return t.steal_task(w);
    }

    bool tag_dep(Tags& t, rg::Task const& a, rg::Task const& b)
    {
        return t.task_dependency_type(a, b);
    }

    void tag_wake_all(Tags& t)
    {
        t.wake_all();
    }

    bool tag_wake(Tags& t, rg::scheduler::WakerId i)
    {
        return t.wake(i);
    }

    void tag_add(Tags& t, std::bitset<64> tags, std::shared_ptr<rg::scheduler::IScheduler> s)
    {
        t.add_scheduler(tags, s);
    }

    void tag_add_list(Tags& t, std::initializer_list<unsigned> tags, std::shared_ptr<rg::scheduler::IScheduler> s)
    {
        t.add_scheduler(tags, s);
    }

    std::shared_ptr<rg::scheduler::IScheduler> tag_build(std::shared_ptr<rg::scheduler::IScheduler> s)
    {
        return rg::scheduler::make_tag_match_scheduler().add({1}, s).add({0, 2}, s).add({}, s);
    }

    // virtual dispatch through the interface
    void ischeduler(rg::scheduler::IScheduler& s, rg::Task& t, rg::dispatch::thread::Worker& w)
    {
        s.emplace_task(t);
        s.activate_task(t);
        s.steal_task(w);
        s.task_dependency_type(t, t);
        s.idle();
        s.wake(1);
        s.wake_all();
    }

    // --- locks
    void spin_lock(rg::SpinLock& l)
    {
        l.lock();
    }

    void spin_unlock(rg::SpinLock& l)
    {
        l.unlock();
    }

    void spin_new(void* p)
    {
        new(p) rg::SpinLock();
    }

    // --- queues and worker (inline functions)
    void queue_push(rg::task::Queue& q, rg::Task* t)
    {
        q.push(t);
    }

    rg::Task* queue_pop(rg::task::Queue& q)
    {
        return q.pop();
    }

    void worker_emplace(rg::dispatch::thread::Worker& w, rg::Task& t)
    {
        w.emplace_task(t);
    }

    void worker_activate(rg::dispatch::thread::Worker& w, rg::Task& t)
    {
        w.activate_task(t);
    }

    int worker_waker(rg::dispatch::thread::Worker& w)
    {
        return w.get_waker_id();
    }

    unsigned worker_id(rg::dispatch::thread::Worker& w)
    {
        return w.get_worker_id();
    }

    // --- task base
    std::optional<rg::scheduler::EventPtr> task_call(rg::Task& t)
    {
        return t();
    }

    void task_yield(rg::Task& t, rg::scheduler::EventPtr e)
    {
        t.yield(e);
    }

    void task_pause(rg::Task& t, rg::scheduler::EventPtr e)
    {
        t.sg_pause(e);
    }

    void task_new(void* p)
    {
        new(p) rg::Task*;
    }

    // --- accesses
    unsigned access_resource(rg::ResourceAccess const& a)
    {
        return a.resource_id() + a.scope_level();
    }

    // --- MPI
    void mpi_poll(rg::dispatch::mpi::RequestPool& p)
    {
        p.poll();
    }

    MPI_Status mpi_status(rg::dispatch::mpi::RequestPool& p, MPI_Request r)
    {
        return p.get_status(r);
    }
} // namespace drv
