// F08: a task that is executed by a non-worker thread (as examples/mpi.cpp does) and yields.
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/scheduler/default_scheduler.hpp>
#include <redGrapes/scheduler/tag_match.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <atomic>
namespace rg = redGrapes;
struct MainSched : rg::scheduler::IScheduler {
    rg::task::Queue nq{16}, rq{16}; 
    void emplace_task(rg::Task& t) { nq.push(&t); }
    void activate_task(rg::Task& t) { rq.push(&t); }
};
int main(){ spdlog::set_level(spdlog::level::off); int bad=0;
    auto ms = std::make_shared<MainSched>(); auto ds = std::make_shared<rg::scheduler::DefaultScheduler>();
    rg::init(2, rg::scheduler::make_tag_match_scheduler().add({}, ds).add({SCHED_MPI}, ms));
    rg::SingletonContext::get().idle = [ms]{
        while(auto t = ms->rq.pop()) rg::SingletonContext::get().execute_task(*t);
        while(auto t = ms->nq.pop()) { t->pre_event.up(); t->init_graph(); if(t->get_pre_event().notify(true)) rg::SingletonContext::get().execute_task(*t); } };
    { std::atomic<int> n{0};
    rg::emplace_task([&]{ auto g = rg::emplace_task([]{ std::this_thread::sleep_for(std::chrono::milliseconds(50)); return 7; }).submit(); n += g.get(); }).enable_stack_switching().scheduling_tags({SCHED_MPI});
    rg::barrier(); if(n!=7) bad=1; }
    rg::finalize(); return bad; }
