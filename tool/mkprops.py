#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here because it is easier to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text),
        why_tests_cant=why,
        anchors=dict(files=['redGrapes/'+f for f in files.split()],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

prop('C01', 'Conflicting tasks of one task space run in the order of their creation',
 'If two tasks created by the same parent (or both at top level) hold accesses to a common resource that conflict, the later one never starts before the earlier one has completed, including all its child tasks. Every earlier conflicting task that has not completed becomes a dependency, directly or through a later task which excludes every access to that resource. No dependency is created towards the own parent or a task of another task space.',
 'schedules programs', 'every program of tasks and accesses, every number of workers and every interleaving of task creation, initialisation, execution and completion',
 'The tests run a handful of small graphs; a dependency that is dropped only for a particular list position, access combination or interleaving goes unseen.',
 'task/property/graph.cpp task/task_space.cpp resource/resource_user.cpp resource/access/io.hpp resource/access/area.hpp resource/access/combine.hpp scheduler/event.cpp dispatch/thread/worker.cpp scheduler/default_scheduler.cpp',
 [('registration of the task in the user list of each of its resources in creation order', 'redGrapes/task/task_space.cpp TaskSpace::submit'),
  ('search for conflicting predecessors from the own entry backwards', 'redGrapes/task/property/graph.cpp GraphProperty::init_graph'),
  ('edge post-event(predecessor) -> pre-event(task)', 'redGrapes/task/property/graph.cpp GraphProperty::add_dependency'),
  ('conflict test over all pairs of accesses', 'redGrapes/resource/resource_user.cpp ResourceUser::is_serial')],
 [('ResourceBase::users', 'tasks using a resource, in creation order', 'redGrapes/resource/resource.hpp'),
  ('ResourceUser::unique_resources', 'each resource of the task once, with its position in users', 'redGrapes/resource/resource_user.hpp')],
 ['start and end of task bodies'])

prop('C02', 'A task starts only once all its dependencies are resolved, and only once',
 'A task is handed to a worker for execution only when every one of its incoming dependencies has been resolved and its initialisation is finished. The resolution of the last dependency (or the end of its initialisation, whichever is later) hands it out exactly once: either directly to the initialising worker or through the scheduler, never both and never neither. The number of pending dependencies is tracked exactly for any number of them.',
 'schedules programs', 'any number of predecessors, resolved concurrently with each other and with the initialisation of the task',
 'Double or missing activation needs two predecessors finishing at the same moment, or while the task is being initialised; tests rarely hit that window and never with large dependency counts.',
 'scheduler/event.cpp scheduler/event.hpp dispatch/thread/worker.cpp scheduler/default_scheduler.cpp dispatch/thread/execute.cpp task/property/graph.hpp',
 [('atomic count of incoming edges of an event; only the decrement that observes the transition acts', 'redGrapes/scheduler/event.cpp EventPtr::notify'),
  ('initialising worker holds one extra count and claims the task', 'redGrapes/dispatch/thread/worker.cpp Worker::init_dependencies'),
  ('same protocol for stolen, uninitialised tasks', 'redGrapes/scheduler/default_scheduler.cpp DefaultScheduler::steal_task')],
 [('Event::state', 'number of incoming edges plus one; 1 = ready, 0 = reached', 'redGrapes/scheduler/event.hpp')],
 ['IScheduler::activate_task', 'start of task bodies'])

prop('C03', 'Registering a dependency never races with the completion it waits for',
 'A dependency on an event (a task completing, a child, an external event, a pause) is either registered before the event is reached, and is then resolved exactly once when it is reached, or it is recognised as already satisfied; it is never lost and never counted twice. A completed task can not be found by dependency searches any more before its waiters are notified. Waiters are counted before they become visible to the notifier.',
 'schedules', 'all interleavings of adding a follower to an event, of dependency searches and of the event being reached',
 'The losing interleavings are windows of a few instructions between a check and an update; a passing test run says nothing about them.',
 'scheduler/event.cpp task/property/graph.cpp task/property/graph.hpp resource/resource.hpp',
 [('followers_mutex around check, count and insert; notifier passes through the same mutex', 'redGrapes/scheduler/event.cpp Event::add_follower / notify_followers'),
  ('users_mutex around the search for predecessors and around the removal from the user list', 'redGrapes/task/property/graph.cpp init_graph / delete_from_resources'),
  ('removal from resources before followers are notified', 'redGrapes/scheduler/event.cpp EventPtr::notify'),
  ('pause holds the task while its edge is added', 'redGrapes/task/property/graph.hpp sg_pause')],
 [('Event::followers', 'events waiting for this one', 'redGrapes/scheduler/event.hpp')])

prop('C04', 'A task does not complete before all of its child tasks have completed',
 'A task counts as completed (its dependants may start, it leaves the user lists of its resources, it may be destroyed) only after its body has returned and every task created by its body has completed. This holds for children at any nesting depth, and for children that are created, run and completed while the parent is still running.',
 'schedules programs', 'all nesting structures and all interleavings of child submission, child completion and the end of the parent body',
 'Only a child that outlives the body of its parent at the wrong moment shows the defect; tests have few nested tasks and weak ordering assertions.',
 'task/task_space.cpp task/property/graph.cpp redGrapes.cpp scheduler/event.cpp dispatch/thread/execute.cpp',
 [('edge post-event(child) -> post-event(parent) added while the parent is running', 'redGrapes/task/task_space.cpp TaskSpace::submit'),
  ('post-event of a task is notified only when its body has returned', 'redGrapes/dispatch/thread/execute.cpp Context::execute_task'),
  ('tasks created in a body go to the child space of the running task', 'redGrapes/redGrapes.cpp Context::current_task_space')],
 [('TaskSpace::parent', 'task in whose body the space is filled', 'redGrapes/task/task_space.hpp')])

prop('C05', 'Every submitted task body is executed exactly once',
 'The callable of each submitted task is invoked exactly once with the arguments it was created with: a task builder submits its task exactly once no matter how it is moved or whether submit or get is called explicitly, and each hand-out of a task runs or resumes its body exactly once. A paused task continues its one invocation instead of restarting it.',
 'programs schedules', 'all ways to use a task builder and all execution and pause histories of a task',
 'Tests only use the common call forms; a double or missing submit on a moved builder, or a restart instead of a resume, needs unusual call sequences.',
 'task/task_builder.hpp task/task.hpp task/task_base.hpp dispatch/thread/execute.cpp dispatch/thread/worker.cpp redGrapes.hpp',
 [('task pointer is cleared when the task is submitted or the builder moved from', 'redGrapes/task/task_builder.hpp'),
  ('first activation starts the continuation, later ones resume it', 'redGrapes/task/task_base.hpp TaskBase::operator()'),
  ('one invocation per gathered task', 'redGrapes/dispatch/thread/worker.cpp Worker::work_loop')])

prop('C06', 'A task is destroyed exactly once, and only when nothing refers to it any more',
 'The storage of a task is destroyed and released exactly once, after the task has completed and its future has been consumed or dropped, whichever happens last. It is given back to the arena it was allocated from. The runtime does not access a task after it may have been destroyed by another thread.',
 'schedules', 'all interleavings of task completion, result retrieval and future destruction',
 'Use after free and double free of tasks depend on which of two threads finishes last; tests neither control this nor run with sanitizers.',
 'scheduler/event.cpp task/task_space.cpp task/task.hpp task/future.hpp dispatch/thread/execute.cpp task/task_builder.hpp',
 [('countdown from two, decremented by post-event and result-get-event', 'redGrapes/scheduler/event.cpp EventPtr::notify'),
  ('destruction and deallocation', 'redGrapes/task/task_space.cpp TaskSpace::free_task'),
  ('activation is the last action of a notification', 'redGrapes/scheduler/event.cpp EventPtr::notify')],
 [('Task::removal_countdown', 'number of parties that still need the task', 'redGrapes/task/task.hpp')])

prop('C07', 'A future yields the result of its task, after it was set, exactly once',
 'get() returns only after the body of the task has returned, and delivers the very value it returned. A result is signalled as available only after it has been stored completely. Moving a future transfers the single right to consume the result, and the result is released exactly once, by the first get() or else by the destruction of the future.',
 'schedules programs', 'all result types, all interleavings of task end and get(), all move chains of futures',
 'Tests check get() of a few int tasks; reading before the store, or releasing twice after a move, needs a specific interleaving or usage.',
 'task/future.hpp task/task.hpp redGrapes.cpp task/task_builder.hpp',
 [('result stored before result-set event is notified', 'redGrapes/task/task.hpp ResultTask::run'),
  ('wait for result-set event, take, flag taken, notify result-get event', 'redGrapes/task/future.hpp Future::get'),
  ('moved-from future is flagged as taken', 'redGrapes/task/future.hpp Future(Future&&)')],
 [('Future::taken', 'result was consumed or moved away', 'redGrapes/task/future.hpp')])

prop('C08', 'barrier() and finalize() return only after every submitted task is gone',
 'barrier() does not return while any task that was submitted to the task space it waits for has not been completed and released. Each task is counted before any other thread can run it and is uncounted exactly once, and whoever removes the last one wakes the waiting thread. finalize() waits in the same way before it stops and joins the workers and releases scheduler and task space.',
 'schedules', 'all interleavings of submission, completion, release and waiting',
 'A barrier that returns too early or sleeps forever shows only if the last task ends in a specific window.',
 'redGrapes.cpp task/task_space.cpp task/task_space.hpp',
 [('count incremented before the task is published', 'redGrapes/task/task_space.cpp TaskSpace::submit'),
  ('count decremented on release; zero wakes all', 'redGrapes/task/task_space.cpp TaskSpace::free_task'),
  ('loop until empty', 'redGrapes/redGrapes.cpp Context::barrier')],
 [('TaskSpace::task_count', 'live tasks of the space', 'redGrapes/task/task_space.hpp')])

prop('C09', 'No wake-up is lost: new work or a reached event wakes its waiter',
 'A notification that is given before or during a wait ends that wait; it is consumed by at most one wait, and only a notification ends a wait. Whenever a task is put in the queue of a worker, that worker is woken after the task is visible in the queue; whenever an event for which a thread registered itself becomes ready or reached, exactly that thread is woken after the state change is visible. Workers look for work after each wake-up until none is found.',
 'schedules', 'all interleavings of notify and wait, of enqueuing and going to sleep',
 'A lost wake-up needs the notification to fall between the last check and the sleep; on the test machine this practically never happens.',
 'sync/cv.cpp sync/cv.hpp dispatch/thread/worker.hpp dispatch/thread/worker.cpp scheduler/default_scheduler.cpp scheduler/event.cpp redGrapes.cpp dispatch/thread/execute.cpp',
 [('flag cleared before locked notify_all, predicate wait under the same mutex', 'redGrapes/sync/cv.cpp'),
  ('enqueue, then wake', 'redGrapes/dispatch/thread/worker.hpp, redGrapes/scheduler/default_scheduler.cpp'),
  ('waker id 0 is the main thread, worker i is i + 1', 'redGrapes/scheduler/default_scheduler.cpp DefaultScheduler::wake')],
 [('CondVar::should_wait', 'false while a notification is pending', 'redGrapes/sync/cv.hpp'),
  ('Event::waker_id', 'thread waiting for an event', 'redGrapes/scheduler/event.hpp')])

prop('C10', 'The scheduler neither loses nor duplicates a task',
 'Every task given to the scheduler, as new or as ready task, is put in exactly one queue of an existing worker. A task taken out of a queue (by its worker or by a thief) is executed, or, if it is new and still blocked, left to be activated by its dependencies; it is never dropped, never initialised twice or without its initialisation executed, and ready tasks are not initialised again.',
 'schedules programs', 'all queue contents, worker states and interleavings of stealing and activation',
 'Dropping a task on a rarely taken branch (no free worker, stealing a blocked task, empty queue) leaves tests green most of the time.',
 'scheduler/default_scheduler.cpp dispatch/thread/worker.cpp dispatch/thread/worker.hpp dispatch/thread/worker_pool.cpp task/queue.hpp',
 [('worker selection and enqueue', 'redGrapes/scheduler/default_scheduler.cpp emplace_task / activate_task'),
  ('ready queue, then new tasks, then stealing', 'redGrapes/dispatch/thread/worker.cpp Worker::gather_task'),
  ('stealing', 'redGrapes/scheduler/default_scheduler.cpp steal_task / steal_ready_task / steal_new_task'),
  ('queue returns an element only when it dequeued one', 'redGrapes/task/queue.hpp Queue::pop')])

prop('C11', 'Two accesses conflict exactly when running them concurrently is unsafe',
 'Accesses to one resource are free of conflict only if both read, both atomically add, or both atomically multiply; non-empty areas conflict exactly when their half-open ranges overlap in every dimension; combined accesses conflict when all parts (And) or any part (Or) conflict. Accesses to different resources or of different access types never conflict. The relation is symmetric and two tasks conflict exactly when any pair of their accesses does.',
 'inputs', 'all access modes, all area bounds including touching, nested and full-range areas, all combinations and dimensions',
 'The unit tests compare a few hand-picked modes and ranges; boundary comparisons and rarely used modes remain unchecked.',
 'resource/access/io.hpp resource/access/area.hpp resource/access/combine.hpp resource/access/field.hpp resource/resource.hpp resource/resource_user.cpp',
 [('is_serial of IOAccess, AreaAccess, ArrayAccess, CombineAccess', 'redGrapes/resource/access/*.hpp'),
  ('resource identity', 'redGrapes/resource/resource.hpp Resource::Access::is_serial'),
  ('any pair of accesses', 'redGrapes/resource/resource_user.cpp ResourceUser::is_serial')])

prop('C12', 'Superset and synchronisation of accesses are consistent with conflicts',
 'An access is a superset of another one of the same resource exactly when it permits everything the other permits: write covers every mode and every other mode covers only itself, an area covers exactly the areas within its bounds, combined accesses cover part by part. Whatever conflicts with an access also conflicts with each of its supersets. An access counts as synchronising only if it conflicts with every possible non-empty access to that resource.',
 'inputs', 'all pairs and triples of accesses of all access types',
 'Tests check single examples of superset; the law connecting superset, synchronisation and conflict is never tested but dependency search and demotion rely on it.',
 'resource/access/io.hpp resource/access/area.hpp resource/access/combine.hpp resource/resource.hpp resource/resource_user.cpp',
 [('is_superset_of / is_synchronizing', 'redGrapes/resource/access/*.hpp'),
  ('every access of the subset is covered by some access', 'redGrapes/resource/resource_user.cpp ResourceUser::is_superset_of'),
  ('dependency search stops only at synchronising predecessors', 'redGrapes/resource/resource_user.cpp has_sync_access')])

prop('C13', 'Changing the accesses of a running task can only demote them',
 'update_properties() takes effect on the calling task only and throws, without any effect, if no task is running or if the changed access list is not covered by the previous one (resources created inside the task excepted). An accepted change results in exactly the requested access list: everything added, everything removed, nothing else touched. While a change is applied, no access that the task has both before and after it is missing for other threads, not even for a moment.',
 'programs schedules', 'all patches, all access lists and all tasks searching for dependencies at the same time',
 'The tests apply one or two simple patches; multi-step patches, rejections and concurrent dependency searches are not exercised.',
 'redGrapes.cpp task/property/resource.hpp resource/resource_user.cpp task/property/inherit.hpp',
 [('copy before, apply, compare', 'redGrapes/task/property/resource.hpp ResourceProperty::apply_patch'),
  ('add and remove accesses', 'redGrapes/resource/resource_user.cpp add_resource_access / rm_resource_access')])

prop('C14', 'Demotion releases exactly the dependants that no longer conflict',
 'After an accepted change of its accesses, a running task releases each dependant it no longer conflicts with, exactly once: the edge is removed and the dependant notified, so that it may start before the task completes and is not notified again at completion. Dependants that still conflict, the completion of the parent task, and all other waiters keep waiting for the completion of the task.',
 'programs schedules', 'all sets of followers of a demoted task and all demotions',
 'One test demotes a task with a single follower; keeping, losing or duplicating other edges is invisible to it.',
 'task/property/graph.cpp redGrapes.cpp util/chunked_list.hpp scheduler/event.cpp',
 [('re-check of each follower, removal and notification', 'redGrapes/task/property/graph.cpp GraphProperty::update_graph'),
  ('called after the patch was applied', 'redGrapes/redGrapes.cpp Context::update_properties')])

prop('C15', 'Resource guards give only the access they declare',
 'A read guard of an IO or field resource gives access to the data only as const and declares a read access; a write guard gives mutable access and declares a write access; a write guard can be used as read guard but never the other way round. A field guard of an area declares exactly its area, can be narrowed but not widened, and lets no element outside its area be accessed through it. Passing a guard to a task adds its access to the task.',
 'programs inputs', 'all programs that use guards, all areas and indices',
 'That something must not compile or must be rejected for every index cannot be shown by tests that compile and pass.',
 'resource/ioresource.hpp resource/fieldresource.hpp task/property/trait.hpp task/property/resource.hpp task/task_builder.hpp resource/resource.hpp',
 [('const return types and protected constructors of guards', 'redGrapes/resource/ioresource.hpp, redGrapes/resource/fieldresource.hpp'),
  ('bounds tests in contains / make_area', 'redGrapes/resource/fieldresource.hpp'),
  ('BuildProperties for types convertible to ResourceAccess', 'redGrapes/resource/resource.hpp')])

prop('C16', 'The task allocator hands out disjoint blocks and frees chunks only when unused',
 'Every allocation that succeeds returns a block of at least the requested size, aligned to a cache line, that lies within its chunk and overlaps no other live block; requests that can never fit are refused rather than looping or overrunning. A chunk is given back only when it can not satisfy further requests and all its blocks were freed, and with the size it was allocated with. Freeing a block affects exactly the chunk that contains it, in the arena it was allocated from.',
 'schedules inputs histories', 'all sequences and interleavings of allocations and deallocations of all sizes',
 'Corruption by overlapping blocks or early release of a chunk shows only under specific sizes and interleavings, and mostly far away from its cause.',
 'memory/bump_allocator.cpp memory/bump_allocator.hpp memory/chunked_bump_alloc.hpp memory/allocator.cpp memory/allocator.hpp memory/hwloc_alloc.hpp util/atomic_list.hpp',
 [('atomic bump of the next address, limit test, count of live blocks', 'redGrapes/memory/bump_allocator.cpp'),
  ('search for the owning chunk, erase when full and empty', 'redGrapes/memory/chunked_bump_alloc.hpp'),
  ('arena selection', 'redGrapes/memory/allocator.cpp')],
 [('BumpAllocator::count', 'live blocks of a chunk', 'redGrapes/memory/bump_allocator.hpp')])

prop('C17', 'ChunkedList: every element is constructed, visited and destroyed correctly',
 'push() stores its element in a slot of its own and makes it visible only when it is completely constructed; iteration visits every element that was present throughout, in reverse order of insertion, and never an unused, removed or destroyed slot. An iterator keeps its element alive; each element is destroyed exactly once, after it was removed (or with the list) and no iterator holds it. A chunk is dropped only when all of its elements were removed.',
 'schedules histories', 'all interleavings of push, remove and iteration, all element counts relative to the chunk size',
 'The container tests are few and mostly single-threaded; races between removal and iteration or push overflow are not reached.',
 'util/chunked_list.hpp',
 [('slot index by atomic increment, iter_offset published last', 'redGrapes/util/chunked_list.hpp ChunkedList::push / Item::operator='),
  ('refcount of iterators and list', 'redGrapes/util/chunked_list.hpp Item::acquire / release'),
  ('count of removed elements per chunk', 'redGrapes/util/chunked_list.hpp release_chunk')],
 [('Item::iter_offset', '0 = element exists, otherwise distance to skip', 'redGrapes/util/chunked_list.hpp'),
  ('Item::refcount', 'iterators holding the element, -1 = destroyed', 'redGrapes/util/chunked_list.hpp')])

prop('C18', 'AtomicList: concurrent appends and erasures never lose or break a link',
 'Appending a chunk makes it the head with the former head as its predecessor, also when several threads append at once; of several threads creating the first chunk exactly one succeeds. Iteration reaches every chunk that is not erased and skips erased ones, and every access to a link shared between threads is atomic. The storage of a chunk outlives all iterators to it and is released once, with the size it was allocated with.',
 'schedules histories', 'all interleavings of append, erase and iteration',
 'The list is only tested through its users and mostly without contention; a lost append or torn pointer needs a race.',
 'util/atomic_list.hpp',
 [('compare-and-swap of head with prev set before', 'redGrapes/util/atomic_list.hpp append_item'),
  ('skip of deleted predecessors', 'redGrapes/util/atomic_list.hpp skip_deleted_prev')],
 [('AtomicList::head', 'newest chunk', 'redGrapes/util/atomic_list.hpp'),
  ('ItemControlBlock::prev', 'next older chunk', 'redGrapes/util/atomic_list.hpp')])

prop('C19', 'Tasks with scheduling tags only go to a scheduler that supports all of them',
 'The tag-match scheduler passes each new or activated task, and the question for its dependency type, to the first registered scheduler which supports all tags the task requires, and reports an error when there is none; it never drops a task silently or routes it to several schedulers. Wake-ups reach the sub-schedulers: one by id until a scheduler accepts it, or all of them. All tags requested for a task are kept.',
 'programs inputs', 'all tag sets, all lists of sub-schedulers',
 'No test in the stable set routes tasks with several tags through several schedulers.',
 'scheduler/tag_match.hpp scheduler/tag_match_property.hpp scheduler/scheduler.hpp',
 [('first sub-scheduler whose supported tags include the required ones', 'redGrapes/scheduler/tag_match.hpp get_matching_scheduler'),
  ('overrides of the scheduler interface', 'redGrapes/scheduler/tag_match.hpp')])

prop('C20', 'Finding a worker by its state is exact and complete for any number of workers',
 'Setting the state of one worker changes exactly that bit and reports its previous value, so that of several threads claiming one available worker exactly one succeeds. Searching by state offers only existing workers that have the requested state, and each of them (except possibly the starting one) at some point, before it reports that there is none. This holds for any number of workers and any starting position.',
 'schedules inputs configurations', 'all worker counts (also multiples of and beyond 64), all start positions, all bit patterns',
 'Tests run with as many workers as the machine has; indices beyond 31 or 63 and the wrap-around are never reached.',
 'util/bitfield.hpp dispatch/thread/worker_pool.hpp dispatch/thread/worker_pool.cpp',
 [('fetch_or / fetch_and with the mask of the index', 'redGrapes/util/bitfield.hpp AtomicBitfield::set'),
  ('masked probing of all chunks', 'redGrapes/util/bitfield.hpp probe_by_value'),
  ('claim by transition to BUSY', 'redGrapes/dispatch/thread/worker_pool.cpp find_free_worker')])

prop('C21', 'Tasks and resources have unique identities',
 'Each task and each resource gets an id that no other one has, also when several threads create them concurrently, and keeps it. Copies of a resource object denote the same resource: accesses made through any copy belong to one user list, and accesses through independently created resources never do.',
 'schedules programs', 'all interleavings of creation and all copies of handles',
 'Duplicate ids need two threads creating objects at the same instant; identity of copies is only checked for simple cases.',
 'task/property/id.hpp resource/resource.cpp resource/resource.hpp task/task_builder.hpp',
 [('atomic fetch_add counters', 'redGrapes/task/property/id.hpp, redGrapes/resource/resource.cpp'),
  ('shared ResourceBase behind each handle', 'redGrapes/resource/resource.hpp Resource')])

prop('C22', 'A task does not complete before the external events it created are reached',
 'create_event() inside a task returns an event which holds back the completion of exactly that task until it is notified, and outside of any task returns none. The event is not reached before it is notified once, and then resolves everything that waits for it; notifying it never activates or destroys a task by itself other than through those waiters. Two event handles compare equal exactly if they denote the same event, so that removing one waiter never removes another.',
 'schedules programs', 'all programs that create events, notification from any thread at any time',
 'The stable tests create no external events across threads; early completion shows only if the event is notified late.',
 'redGrapes.cpp task/property/graph.cpp scheduler/event.cpp scheduler/event_ptr.cpp',
 [('edge event -> post-event of the task', 'redGrapes/task/property/graph.cpp make_event'),
  ('lookup of the event behind a handle', 'redGrapes/scheduler/event_ptr.cpp get_event')])

prop('C23', 'Each MPI request resolves exactly its own waiter with its own status',
 'The request pool keeps request, status and event of each pending request together; when MPI reports requests as completed, for each of them its own status is stored before its own event is notified, exactly once, and exactly the completed entries are removed, whatever order and number MPI reports. get_status() registers its request before it waits, and returns the status of that request.',
 'schedules inputs', 'all sets of pending requests and all subsets and orders of completed indices',
 'No test covers the MPI dispatcher; index shifts after removals only matter for several completions in one poll.',
 'dispatch/mpi/request_pool.hpp',
 [('parallel vectors guarded by one mutex', 'redGrapes/dispatch/mpi/request_pool.hpp'),
  ('index correction after each erase', 'redGrapes/dispatch/mpi/request_pool.hpp poll')])

prop('C24', 'Inside a task the runtime knows exactly that task as the current one',
 'While a task body runs or is resumed, the current task of the executing thread is that task, so that tasks it creates become its children, events and updates apply to it and backtrace() lists it followed by all its ancestors up to the top level; scope_depth() is its nesting depth plus one. Outside of task bodies there is no current task, and new tasks go to the top-level space.',
 'programs schedules', 'all nestings, pauses and resumptions of tasks on any worker',
 'A stale current task after a pause or at the end of a body only shows when the same thread creates tasks or events afterwards.',
 'dispatch/thread/execute.cpp redGrapes.cpp task/task_space.cpp redGrapes.hpp task/task_builder.hpp',
 [('current_task set before and cleared after each execution', 'redGrapes/dispatch/thread/execute.cpp Context::execute_task'),
  ('child space created on demand, once per task', 'redGrapes/redGrapes.cpp Context::current_task_space'),
  ('walk over parents', 'redGrapes/redGrapes.cpp Context::backtrace')],
 [('Context::current_task', 'task whose body the thread executes', 'redGrapes/redGrapes.hpp')])

prop('C25', 'A waiting task resumes only after the awaited event and then continues',
 'Waiting for an event inside a task returns only once the event is reached. A task with stack switching gives its worker back while it waits, becomes ready again when the event is reached, exactly once, and continues behind the wait; its completion is not signalled before its body really returned. A task without stack switching is never treated as paused, and a thread outside of tasks is woken when the event is reached.',
 'schedules programs', 'all interleavings of pausing, the event being reached and resuming on another worker',
 'The window between deciding to pause and registering for the event is tiny; tests pause in a few simple situations.',
 'redGrapes.cpp dispatch/thread/execute.cpp task/task_base.hpp task/property/graph.hpp',
 [('loop until the event is reached', 'redGrapes/redGrapes.cpp Context::yield'),
  ('continuations, event remembered while paused', 'redGrapes/task/task_base.hpp'),
  ('re-armed pre-event waits for the event', 'redGrapes/task/property/graph.hpp sg_pause')])

prop('C26', 'Start-up and shutdown are ordered: no worker runs without its runtime',
 'init() creates arenas, workers, the top-level task space and the scheduler before any worker thread starts, each worker with an id of its own and its own arena. finalize() first waits for all tasks, then stops, wakes and joins every worker thread, and only then releases scheduler and task space. A stopped worker leaves its loop even if it sleeps, and only when it was stopped.',
 'schedules configurations', 'all worker counts, all timings of worker start and stop',
 'Start-up and shutdown races happen before or after everything a test observes.',
 'redGrapes.cpp dispatch/thread/worker_pool.cpp dispatch/thread/worker.cpp',
 [('order of construction and start', 'redGrapes/redGrapes.cpp Context::init'),
  ('order of barrier, stop, release', 'redGrapes/redGrapes.cpp Context::finalize'),
  ('stop flag, wake, join', 'redGrapes/dispatch/thread/worker.cpp Worker::stop / WorkerThread::stop')])

prop('C27', 'Locks exclude each other and publish what was written under them',
 'At most one thread holds a spin lock at any time, a thread that acquires it sees everything written by former holders, and releasing it lets a waiter proceed. Followers are added to an event, the user list of a resource is searched for predecessors or shrunk, and the pending MPI requests are used only while the lock protecting them is held. Every lock is released on every path out of its scope, and no thread acquires a lock it already holds or acquires two locks in opposite orders.',
 'schedules', 'all interleavings of lock and unlock, all code paths in the library',
 'Weak memory ordering hardly ever shows on the test machine, and unlocked accesses or lock inversions need contention.',
 'sync/spinlock.hpp task/property/graph.cpp scheduler/event.cpp redGrapes.cpp sync/cv.cpp dispatch/mpi/request_pool.hpp task/task_base.hpp',
 [('compare-and-swap with acquire, store with release', 'redGrapes/sync/spinlock.hpp'),
  ('scoped locks', 'redGrapes/task/property/graph.cpp, redGrapes/scheduler/event.cpp')])

prop('C28', 'Accesses of different resource types are never confused',
 'Whenever two accesses are compared, their concrete type is established before one is interpreted as the other, and accesses of different types are neither conflicting, nor superset, nor equal. Two accesses to the same resource with the same type are equal exactly if their modes and areas are equal, so that removing an access removes exactly the equal ones.',
 'inputs programs', 'all pairs of accesses of all (also user-defined) access types',
 'A wrong downcast is undefined behaviour that often happens to work; tests compare hardly any mixed types.',
 'resource/resource.hpp resource/access/io.hpp resource/access/area.hpp resource/access/combine.hpp resource/resource_user.cpp',
 [('access_type compared before virtual dispatch', 'redGrapes/resource/resource.hpp ResourceAccess'),
  ('static_cast in Access after the type check', 'redGrapes/resource/resource.hpp Resource::Access')])

prop('C29', 'Workers and their arenas are placed on the processing unit of their id',
 'Before a worker thread looks for its first task it asks the system to bind this thread, and the memory it allocates, to the processing unit its id is mapped to (its id modulo the number of units of the machine) and to no other; when the system refuses, the worker runs nevertheless. Memory of the arena with the number i is requested with a binding to exactly the unit number i modulo the number of units. This holds for any number of workers and units.',
 'configurations inputs', 'all numbers of workers and of processing units, and both outcomes of every request to bind',
 'A wrong placement does not change any result; tests run on one machine and do not observe it, and hardly with more workers than units.',
 'dispatch/thread/worker.cpp dispatch/thread/worker_pool.cpp memory/hwloc_alloc.hpp',
 [('binding of the thread and its memory', 'redGrapes/dispatch/thread/worker.cpp WorkerThread::cpubind / membind'),
  ('one arena per worker on its unit', 'redGrapes/dispatch/thread/worker_pool.cpp WorkerPool::emplace_workers'),
  ('memory requested with a binding', 'redGrapes/memory/hwloc_alloc.hpp HwlocAlloc::allocate')],
 [('Worker::id', 'number of the worker', 'redGrapes/dispatch/thread/worker.hpp'),
  ('HwlocAlloc::obj', 'unit whose memory is used', 'redGrapes/memory/hwloc_alloc.hpp')],
 ['hwloc_set_cpubind', 'hwloc_set_membind', 'hwloc_alloc_membind'])

prop('C30', 'A child task is refused unless the accesses of its parent cover its own',
 'When a task is submitted inside of another task, its accesses are compared with those of this parent: each of them must be covered (in the sense of C12) by an access of the parent, unless its resource was created inside of the parent. A task which is not covered is refused by an assertion before any other thread can see it; a task which is covered, and any task submitted outside of tasks, is never refused.',
 'inputs programs', 'all access lists of parent and child, at any nesting depth (in builds with assertions, as the tests use)',
 'The tests only create children that are covered; the check that refuses others is never exercised, nor is it seen when it compares the wrong way round for lists the tests do not have.',
 'task/task_space.cpp resource/resource_user.cpp resource/resource.hpp',
 [('comparison with the parent at submission', 'redGrapes/task/task_space.cpp TaskSpace::submit'),
  ('each access of the child is covered or of an inner scope', 'redGrapes/resource/resource_user.cpp ResourceUser::is_superset_of')],
 [('TaskSpace::parent', 'task whose children are in this space', 'redGrapes/task/task_space.hpp'),
  ('ResourceUser::scope_level', 'nesting depth of the task', 'redGrapes/resource/resource_user.hpp')],
 ['TaskSpace::submit'])

# not decided by static analysis ------------------------------------------------
prop('C90', 'Every ready task is eventually executed while workers are running',
 'As long as the runtime is not finalized, each task whose dependencies are resolved is started after finite time, whatever the other tasks do. Waiting threads eventually continue after the event they wait for is reached.',
 'schedules', 'all fair schedules of the worker threads',
 'Liveness over unbounded runs cannot be tested.',
 'dispatch/thread/worker.cpp scheduler/default_scheduler.cpp sync/cv.cpp', [('worker loop and stealing', 'redGrapes/dispatch/thread/worker.cpp')])
prop('C91', 'The task queues are linearizable under concurrent use',
 'Each element enqueued to a task queue is dequeued at most once, elements become visible to other threads after the enqueue, and a dequeue fails only if the queue appears empty. This holds for any number of producers and consumers.',
 'schedules', 'all interleavings of enqueue and dequeue',
 'The library tests do not stress the third-party queue.',
 'task/queue.hpp', [('moodycamel::ConcurrentQueue', 'share/thirdParty/cameron314/concurrentqueue')])
prop('C92', 'Independent tasks run in parallel on all workers and memory stays bounded',
 'Tasks without conflicts are distributed so that no worker idles while another has queued ready tasks, and the memory used for completed tasks, events and list chunks is reused so that it stays proportional to the number of live tasks.',
 'schedules histories', 'all long running programs',
 'Throughput and footprint over long runs are not asserted by tests.',
 'scheduler/default_scheduler.cpp memory/chunked_bump_alloc.hpp util/chunked_list.hpp', [('round robin and stealing', 'redGrapes/scheduler/default_scheduler.cpp')])
prop('C93', 'Tasks dispatched to CUDA streams complete only after their device work',
 'A task sent to the CUDA dispatcher signals its completion only after all kernels it enqueued on its stream have finished, and dependants on the same device are ordered on the device.',
 'schedules', 'all graphs of device tasks',
 'No accelerator is available to the tests.',
 'dispatch/cuda/scheduler.hpp dispatch/cuda/event_pool.hpp dispatch/cupla/scheduler.hpp', [('event recording and polling', 'redGrapes/dispatch/cuda/scheduler.hpp')])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
