// F19: TagMatch must forward task_dependency_type to the responsible sub-scheduler.
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/scheduler/tag_match.hpp>
namespace rg = redGrapes;
struct S : rg::scheduler::IScheduler { bool task_dependency_type(rg::Task const&, rg::Task const&) override { return true; } };
struct T : rg::Task { void run() override {} };
int main(){ spdlog::set_level(spdlog::level::off); rg::init(1); int bad; { std::shared_ptr<rg::scheduler::IScheduler> s = rg::scheduler::make_tag_match_scheduler().add({}, std::make_shared<S>());
    T a, b; rg::Task const &ca=a, &cb=b; bad = !s->task_dependency_type(ca,cb); } rg::finalize(); return bad; }
