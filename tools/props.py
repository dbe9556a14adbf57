#!/usr/bin/env python3
"""The listed properties; writes properties.jsonl and MANIFEST.json (claims: whatever specs/index.json has contracts for)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "score/mw/com/impl/bindings/lola/"
I = "score/mw/com/impl/"
P = []


def prop(id, title, statement, over, text, tests, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mech], "hook_needed": None}
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests, anchors=a))


prop("C01", "A provider writes only into a sample slot nobody else is using",
     "When a provider is given a slot to write a new sample, that slot was free at that moment - not being written and not referenced by any consumer - and it is handed to exactly one writer. Among the free slots it is the oldest one; a slot never used is taken first. No slot is given out only if none could be obtained, and no other slot is changed.",
     ["inputs", "schedules"],
     "every number of slots, every content of every slot, and every interference of other participants at every access to the slots",
     "Tests run a few hand-picked slot arrays without interference; a slot referenced between the search and the claim needs a specific interleaving.",
     [L + "provider_event_data_control_local_view.h", L + "provider_event_data_control_local_view.cpp", L + "event_slot_status.cpp"],
     [("search of the oldest free slot and claim by compare-and-exchange", L + "provider_event_data_control_local_view.cpp")],
     [("slot status", "reference count and publication time of a sample, or the mark of a slot being written", L + "event_slot_status.h")])
prop("C02", "A consumer references only published samples and its references are counted",
     "A consumer obtains only a slot whose sample is completely published, newer than the newest it has already been given and older than the one it found before, and among those the newest. Taking a sample adds exactly one reference to that slot and recording it cannot be missed; giving it back removes exactly one. While referenced the slot keeps its sample.",
     ["inputs", "schedules"],
     "every number of slots, every content of every slot, every time window, and every interference at every access",
     "Tests sample small arrays sequentially; the count can only go wrong for a specific interleaving or a specific content.",
     [L + "consumer_event_data_control_local_view.h", L + "consumer_event_data_control_local_view.cpp", L + "event_slot_status.cpp", L + "transaction_log_local_view.cpp"],
     [("search and reference by compare-and-exchange", L + "consumer_event_data_control_local_view.cpp"), ("release of a reference", L + "consumer_event_data_control_local_view.cpp")])
prop("C03", "Publishing, discarding and crash recovery leave every slot in the right state",
     "A published slot carries exactly the publication time given and no references, a discarded one is free again, and neither changes another slot. After a provider crashed, clean-up frees exactly the slots that were being written and leaves every published or referenced one untouched. A slot is always reported to be in exactly one of the states never used, being written, or published with its time and number of references, as it was stored.",
     ["inputs", "crash_points"],
     "every content of every slot, every number of slots, every point at which a provider may have died",
     "Tests use a few values; the recovery of an arbitrary set of half-written slots is not sampled.",
     [L + "event_slot_status.h", L + "event_slot_status.cpp", L + "provider_event_data_control_local_view.cpp"],
     [("encoding of a slot's state in one word", L + "event_slot_status.cpp"), ("publish, discard, clean-up", L + "provider_event_data_control_local_view.cpp")])
prop("C04", "Consumers get the newest unseen samples, oldest first, none twice",
     "A request for up to a number of new samples hands out exactly the samples found newest first, in the reverse of that order, never more than asked for or than there is room for, and stops early only when none is left or contention exhausted its retries. Afterwards the newest delivered time is that of the newest sample handed out, and stays if there was none, so no sample is handed out twice. The number of new samples reported is exactly the number of published samples newer than it.",
     ["inputs", "histories"],
     "every limit, every capacity, every sequence of samples found, every content of the slots",
     "Tests check a few sequences with few slots.",
     [L + "slot_collector.h", L + "slot_collector.cpp", L + "consumer_event_data_control_local_view.cpp", L + "slot_decrementer.cpp"],
     [("collection newest first and delivery backwards", L + "slot_collector.cpp"), ("release of a handed out reference", L + "slot_decrementer.cpp")])
prop("C05", "A safety-qualified event stays intact whatever its non-safety consumers do",
     "For an event offered at two safety levels a slot is given to the writer only when it is claimed at both levels or the non-safety level has been given up; a claim that fails at the safety level is undone at the other. Publishing and discarding act on the same slot at every level still in use, with the same publication time. Once the non-safety level misbehaves it is never used for allocation again, and the safety level continues alone.",
     ["inputs", "schedules", "fault_sequences"],
     "every content of both control blocks, every interference, every failure of either level",
     "Tests corrupt the non-safety control in a few ways only.",
     [L + "event_data_control_composite.h", L + "event_data_control_composite.cpp"],
     [("claim at both levels with roll back", L + "event_data_control_composite.cpp")])
prop("C06", "Subscriptions never exceed the configured limits and are counted exactly",
     "A subscription succeeds only if it stays within the configured number of subscribers and, where enforced, of samples; then exactly one subscriber and its samples are counted, otherwise nothing changes. Revoking one subtracts exactly what it had added. Concurrent subscriptions never lose or double a count.",
     ["inputs", "schedules"],
     "every limit, every number of samples, every current count, every interference between read and update",
     "Tests use small numbers and few threads; counter wrap-around and lost updates need specific values or interleavings.",
     [L + "event_subscription_control.h", L + "event_subscription_control.cpp"],
     [("both counters in one atomic word", L + "event_subscription_control.cpp")])
prop("C07", "A crashed consumer's references and subscription can be rolled back exactly",
     "Everything a consumer acquires or releases is recorded before and after, so that whatever point it died at, the record shows exactly the slots it holds and whether it was subscribed. Rolling back gives up each of those exactly once and leaves the record empty. If a record was interrupted in the middle of an operation, roll-back is refused rather than guessed.",
     ["crash_points", "inputs", "histories"],
     "every number of slots, every content of the record, every crash point between two writes",
     "Tests build a few records by hand.",
     [L + "transaction_log.h", L + "transaction_log_local_view.cpp", L + "transaction_log_slot.cpp"],
     [("begin and end marks around every change", L + "transaction_log_local_view.cpp"), ("roll back", L + "transaction_log_local_view.cpp")])
prop("C08", "Each consumer owns exactly one transaction record, and none is shared",
     "Registering a consumer gives it a record nobody else owns, or reports that there is none left; unregistering makes exactly that record available again. After a restart exactly the records of the restarted application are marked for roll-back, exactly the marked ones are considered, and a roll-back frees exactly the record that was rolled back; no other consumer's record is touched.",
     ["inputs", "histories", "crash_points"],
     "every number of records and every pattern of their use",
     "Tests use few records and few consumers.",
     [L + "transaction_log_set.h", L + "transaction_log_set.cpp", L + "transaction_log_registration_guard.cpp"],
     [("registration", L + "transaction_log_set.cpp"), ("roll back of marked records", L + "transaction_log_set.cpp")])
prop("C09", "A subscription follows its life cycle for every sequence of events",
     "Whatever the order of subscribe, unsubscribe, stop-offer and re-offer, a subscription is only ever not subscribed, pending or subscribed, and moves between them only as those events allow. Samples are accessible only while subscribed. What was set up on subscribing is torn down exactly once on leaving.",
     ["histories"],
     "every sequence of events from every state",
     "Tests walk a few sequences.",
     [L + "subscription_state_machine.cpp", L + "subscription_not_subscribed_states.cpp", L + "subscription_subscription_pending_states.cpp", L + "subscription_subscribed_states.cpp"],
     [("state machine", L + "subscription_state_machine.cpp")])
prop("C10", "Every application is mapped to one process, and registration is lossless",
     "After an application has registered its process, the shared table maps its identity to that process in exactly one entry, and a previous process of it is returned to the caller. Registrations of other applications are neither lost nor changed, however they are interleaved, and registration fails only if the table has no room or contention exhausts its retries.",
     ["inputs", "schedules", "crash_points"],
     "every table size, every table content, every interference between two accesses",
     "Tests use small tables and few threads.",
     [L + "application_id_pid_mapping.h", L + "application_id_pid_mapping_entry.h", L + "application_id_pid_mapping_entry.cpp", L + "application_id_pid_mapping.cpp"],
     [("entry claimed and filled by compare-and-exchange", L + "application_id_pid_mapping.cpp")])
prop("C11", "A position-independent pointer always designates the object it was set to",
     "A pointer kept in shared memory yields the address it was set to - also after being copied, moved or assigned to another place, after arithmetic, and when the memory is mapped elsewhere in another process - and the null pointer stays null. Comparisons agree with those of the addresses.",
     ["inputs", "programs"],
     "every pair of addresses of pointer and target, every copy, every mapping offset",
     "Tests use a handful of addresses.",
     ["score/memory/shared/offset_ptr.h", "score/memory/shared/pointer_arithmetic_util.h"],
     [("distance stored instead of an address", "score/memory/shared/offset_ptr.h")])
prop("C12", "Dereferencing a shared-memory pointer never leaves its memory region",
     "If bounds are enforced, a position-independent pointer is dereferenced only when the whole object it designates lies within the region the pointer itself lies in; otherwise the process is terminated. The region is looked up correctly for every set of registered regions. No address arithmetic wraps around in that decision.",
     ["inputs", "fault_sequences"],
     "every region, every address, every object size, every (corrupted) stored distance",
     "Tests use a few regions; corrupted distances near the ends of the address space are not sampled.",
     ["score/memory/shared/offset_ptr_bounds_check.cpp", "score/memory/shared/memory_region_bounds.cpp", "score/memory/shared/memory_region_map.h"],
     [("bounds check", "score/memory/shared/offset_ptr_bounds_check.cpp")])
prop("C13", "Alignment and address arithmetic is exact or refused",
     "Rounding an address or size up to an alignment yields the smallest multiple not below it. Adding to, subtracting from and comparing addresses and sizes give the mathematically exact result, and a result that cannot be represented terminates instead of wrapping.",
     ["inputs"], "every address, size, offset and alignment",
     "Tests use a few numbers.",
     ["score/memory/shared/pointer_arithmetic_util.cpp", "score/memory/shared/pointer_arithmetic_util.h"],
     [("checked arithmetic", "score/memory/shared/pointer_arithmetic_util.cpp")])
prop("C14", "Shared-memory allocations never overlap and never leave the region",
     "Every block handed out by the shared-memory allocator lies wholly inside its region, is aligned as requested, and overlaps no block handed out before, even when several processes allocate concurrently. An allocation that does not fit is refused and consumes nothing.",
     ["inputs", "schedules"], "every size, alignment, fill level and interference",
     "Tests allocate a few blocks.",
     ["score/memory/shared/shared_memory_resource.cpp"],
     [("atomic bump allocation", "score/memory/shared/shared_memory_resource.cpp")])
prop("C16", "A consumer never holds more samples than it subscribed to",
     "The samples handed out to an application and the samples still available always add up to the number subscribed to. A sample is handed out only if one is available, and each one given back makes exactly one available again, however it was moved around and from whichever thread it is returned.",
     ["inputs", "schedules", "programs"], "every budget, every request, every interference, every order of moves and destruction",
     "Tests use small budgets on one thread.",
     [I + "sample_reference_tracker.h", I + "sample_reference_tracker.cpp"],
     [("atomic budget", I + "sample_reference_tracker.cpp"), ("guards that return exactly one each", I + "sample_reference_tracker.h")])
prop("C17", "Sample allocations are tracked exactly once each",
     "The number of samples an application holds for writing is exactly the number of live handles to them: creating one counts one, destroying it discounts one, moving it changes nothing. The number never goes below zero.",
     ["programs", "schedules"], "every order of creation, move, move assignment, self-assignment and destruction",
     "Tests use a few orders.",
     [I + "sample_allocatee_guard.h", I + "sample_allocatee_guard.cpp", I + "sample_allocatee_tracker.h", I + "sample_allocatee_tracker.cpp"],
     [("counting guard", I + "sample_allocatee_guard.cpp")])
prop("C18", "Concurrent method calls use disjoint storage",
     "Arguments and results of a method call placed at a queue position occupy storage that belongs to that position alone, lies inside the storage of the method, is aligned for each element and large enough for it. Different elements of one call never overlap, and what is stored is what is read. A position is given out only if nobody holds an element of it, none is given out only if all are held, and it is held exactly as long as there is a pointer to one of its elements, however that pointer was moved.",
     ["inputs", "programs"], "every element size and alignment, every queue size up to 255, every position and every set of positions held; elements of several layouts with any content",
     "Tests use a few layouts and short queues.",
     [L + "methods/type_erased_call_queue.cpp", L + "methods/type_erased_call_queue.h", I + "methods/method_signature_element_ptr.h", I + "methods/proxy_method.h", I + "methods/proxy_method.cpp", I + "util/type_erased_storage.h", L + "proxy_method.cpp"],
     [("layout computation", L + "methods/type_erased_call_queue.cpp"), ("search of a free position", I + "methods/proxy_method.h"), ("pointers that hold a position", I + "methods/method_signature_element_ptr.h"), ("elements of a call", I + "util/type_erased_storage.h")])
prop("C19", "A waiter is released exactly when its result is there",
     "Waiting for a result returns only after the result has been completely provided, and the result seen is the one provided; providing it wakes every waiter: the result is announced only after it has been written and while holding the lock, and a waiter sleeps only while it is not there.",
     ["schedules"], "every order of providing and waiting and every spurious wake-up",
     "Tests see a few interleavings.",
     ["score/message_passing/non_allocating_future/non_allocating_future.h"],
     [("mutex and condition variable", "score/message_passing/non_allocating_future/non_allocating_future.h")])
prop("C20", "Timed commands run in order and each at most once",
     "Commands registered with a time run in the order of their times, none before its time, none twice, and none registered is lost unless its owner is withdrawn. Withdrawing an owner removes exactly its commands.",
     ["histories", "inputs"], "every set of commands, times and owners",
     "Tests use a few commands.",
     ["score/message_passing/timed_command_queue.h", "score/message_passing/timed_command_queue.cpp"],
     [("ordered intrusive queue", "score/message_passing/timed_command_queue.cpp")])
prop("C21", "A client connection follows its life cycle and loses no request",
     "A connection moves between starting, ready, stopping and stopped only as documented; every message accepted is sent once and in order or its failure is reported, and every reply is delivered to the request it belongs to. No request is accepted before the connection is ready or after it has stopped.",
     ["histories", "schedules", "fault_sequences"], "every sequence of calls, replies, errors and disconnects",
     "Tests walk a few sequences.",
     ["score/message_passing/client_connection.cpp"],
     [("state machine and request queue", "score/message_passing/client_connection.cpp")])
prop("C22", "Messages on a local socket arrive whole or not at all",
     "A message sent over a local socket is received with exactly the same type and content, for every size up to the agreed maximum; larger or malformed ones are refused on both sides and never written outside the receive buffer.",
     ["inputs", "fault_sequences"], "every message size and every short read or malformed header",
     "Tests send a few well-formed messages.",
     ["score/message_passing/unix_domain/unix_domain_engine.cpp"],
     [("length-prefixed framing", "score/message_passing/unix_domain/unix_domain_engine.cpp")])
prop("C23", "Gateway messages survive serialization unchanged, malformed ones are refused",
     "Every message a gateway serializes is read back by its peer as the same message. Input that is truncated, too long or otherwise malformed is refused, and reading it never goes beyond the bytes received.",
     ["inputs"], "every message content and every byte sequence received",
     "Tests use a few messages and a few truncations.",
     ["score/mw/com/gateway/transport_layer"],
     [("serialization of each message type", "score/mw/com/gateway/transport_layer")])
prop("C24", "Every gateway request is answered exactly once",
     "A request waiting for its acknowledgement completes with the acknowledgement carrying its own identity, or with a timeout or disconnect, and never with another request's. After completion its entry is free again.",
     ["histories", "schedules"], "every interleaving of requests, acknowledgements, timeouts and disconnects",
     "Tests see a few orders.",
     ["score/mw/com/gateway/transport_layer"],
     [("pending request table", "score/mw/com/gateway/transport_layer")])
prop("C25", "Identifiers are equal exactly when they denote the same thing",
     "Identifiers of services, instances, elements, methods and applications are equal exactly when all parts that distinguish them are equal, are ordered consistently with that, and equal ones have equal hashes. Converting a version or an instance id to its stored form and back yields an equal one.",
     ["inputs"], "every pair and triple of identifiers",
     "Tests compare a few pairs.",
     [L + "element_fq_id.h", L + "element_fq_id.cpp", L + "transaction_log_id.cpp", L + "methods/proxy_method_instance_identifier.cpp", L + "methods/unique_method_identifier.cpp", L + "proxy_instance_identifier.cpp", L + "skeleton_instance_identifier.cpp", L + "service_discovery/lola_service_instance_identifier.cpp", I + "configuration/lola_service_id.h", I + "tracing/configuration/service_element_identifier.cpp", I + "tracing/configuration/service_element_identifier_view.cpp", I + "tracing/configuration/service_element_instance_identifier_view.cpp", I + "configuration/lola_service_instance_id.cpp", I + "configuration/lola_event_id.h", I + "configuration/service_version_type.cpp", I + "configuration/service_identifier_type.cpp"],
     [("comparison and hash of each identifier", L + "element_fq_id.cpp")])
prop("C26", "Safety levels are never confused",
     "Two safety levels are compatible exactly if they are the same. Safety levels, element types and modes convert to their names and back without loss, an unknown name is refused, and what is kept per safety level is stored and found under exactly that level.",
     ["inputs", "configurations"], "every pair of safety levels, every enumerator and every name",
     "Tests cover the enumerators only one at a time and few names.",
     [I + "configuration/quality_type.h", I + "configuration/quality_type.cpp", L + "service_discovery/quality_aware_container.h", L + "messaging/client_quality_type.cpp", L + "messaging/asil_specific_cfg.cpp", I + "configuration/shm_size_calc_mode.cpp"],
     [("compatibility of levels", I + "configuration/quality_type.cpp"), ("container per level", L + "service_discovery/quality_aware_container.h")])
prop("C27", "Only well-formed instance names are accepted",
     "An instance name is accepted exactly if it is not empty, consists of letters, digits, underscores and slashes only, does not begin with a digit, does not end with a slash and contains no two slashes in a row. An accepted name is kept unchanged.",
     ["inputs"], "every string of every length", "Tests use a list of names.",
     [I + "instance_specifier.cpp"], [("name check", I + "instance_specifier.cpp")])
prop("C29", "A file lock is held exactly while its owner lives",
     "A lock file is owned exactly by the object that created it: it is removed and its descriptor closed exactly once, when the last owner goes, also after moves and assignments, and a file only opened is never removed. Failure to create or open it is reported truthfully. An exclusive or shared lock on it is requested in the requested mode, reported as held exactly if the operating system granted it, and released on request; nothing else is locked or released.",
     ["fault_sequences", "programs"], "every result of the operating system's calls and every use of the lock",
     "Tests mock a few results.",
     ["score/memory/shared/lock_file.cpp", "score/memory/shared/lock_file.h", "score/memory/shared/flock/flock_mutex.cpp", "score/memory/shared/flock/shared_flock_mutex.cpp", "score/memory/shared/flock/exclusive_flock_mutex.cpp"],
     [("lock ownership", "score/memory/shared/lock_file.cpp")])
prop("C30", "Accumulated sizes and counts are exact or reported as overflow",
     "Adding up a sequence of sizes or counts yields the exact sum whenever it can be represented, and reports an overflow exactly when it cannot; it never yields a wrapped sum. An event has exactly as many slots as all its uses together need. Copying or assigning a shared flag or counter transfers its value and keeps source and copy independent.",
     ["inputs"], "every sequence of numbers and every type",
     "Tests use a few short sequences.",
     [I + "tracing/configuration/hash_helper_utility.h", I + "util/arithmetic_utils.h", I + "util/copyable_atomic.h", L + "skeleton_event_properties.h"],
     [("overflow check", I + "util/arithmetic_utils.h")])
prop("C31", "A method is callable exactly while its service is offered",
     "A method call is let through only while the service is offered, and the service stays offered until every call let through has ended. Resources of a calling application are kept under its own identity only, replaced when it restarts and removed when it leaves, without affecting another's.",
     ["histories", "schedules"], "every sequence of offer, stop, call, restart and removal",
     "Tests walk a few sequences.",
     [L + "methods/offered_state_machine.cpp", L + "methods/method_resource_map.cpp"],
     [("offered state", L + "methods/offered_state_machine.cpp"), ("resources per application", L + "methods/method_resource_map.cpp")])
prop("C32", "Provided services are owned once, and started and stopped as a whole",
     "A container of provided services reports exactly the number of services it was handed, starts and stops the collection exactly when asked and once each, and hands it out only under the kind it was handed in; an empty or moved-from container has, starts and stops nothing. Adding a service adds exactly one. A decorator owns exactly the service it was made with, every access designates that object, a move passes it on, and it is removed exactly once.",
     ["programs", "histories"], "every sequence of registrations and moves",
     "Tests use a few services.",
     ["score/mw/service/provided_service.h", "score/mw/service/backend/mw_com/provided_service_decorator.h", "score/mw/service/backend/mw_com/provided_service_builder.h", "score/mw/service/provided_service_container.h"],
     [("container of provided services", "score/mw/service/provided_service_container.h")])
prop("C33", "Exclusive roles have exactly one owner",
     "A role that can be held once is held by at most one owner at any time: passing it on leaves the previous owner without it, and it ends exactly once when its last owner goes. A handle to a movable object always designates the object's present place.",
     ["programs"], "every order of moves, assignments, self-assignments and destruction",
     "Tests use a few orders.",
     [I + "flag_owner.h", I + "flag_owner.cpp", I + "reference_to_moveable.h", I + "enable_reference_to_moveable_from_this.h", I + "methods/method_signature_element_ptr.h"],
     [("owner flag", I + "flag_owner.cpp"), ("indirection updated on move", I + "enable_reference_to_moveable_from_this.h")])
prop("C34", "A fixed-capacity map never loses, duplicates or invents an entry",
     "Inserting adds the entry exactly if its key is not present and there is room, and says which was the case; finding and accessing yield exactly the entry with the key, or say that there is none. No entry present is ever changed or moved, and the capacity is never exceeded. A view of the elements of a service shows exactly the elements of the map it was made for.",
     ["inputs", "histories"], "every content, capacity and key",
     "Tests use a few entries.",
     [L + "linear_search_map.h", I + "service_element_map_view.h"], [("linear search over a fixed array", L + "linear_search_map.h")])
prop("C35", "Listeners of an event are notified completely, in bounded batches",
     "When the nodes interested in an event are copied for notification, every node from the starting one on is copied, in order and each once, until the buffer is full; then the caller is told to continue. No more is written than the buffer holds, and the nodes are read only while locked. A notification reaches every interested node exactly once and in order, whichever of them fail, with every batch continuing where the one before ended (up to 255 batches).",
     ["inputs", "fault_sequences"], "every set of nodes, every starting node, every failure to send",
     "Tests use a few nodes.",
     [L + "messaging/node_identifier_copier.h", L + "messaging/message_passing_service_instance.cpp", L + "messaging/message_passing_service_instance.h"],
     [("batched copy under a shared lock", L + "messaging/node_identifier_copier.h"), ("notification of all nodes", L + "messaging/message_passing_service_instance.cpp")])
prop("C36", "Trace points and trace filters are exactly those configured",
     "A trace point is enabled exactly if it was added for exactly that service, element, instance and kind; adding one never enables another. The number of trace buffers needed is the exact sum over the enabled elements or is refused.",
     ["configurations", "inputs"], "every set of trace points and every query",
     "Tests use a few trace points.",
     [I + "tracing/configuration/tracing_filter_config.cpp", I + "tracing/configuration/hash_helper_utility.h", I + "tracing/configuration/trace_point_key.cpp", I + "tracing/configuration/tracing_config.cpp"],
     [("set of trace points", I + "tracing/configuration/tracing_filter_config.cpp")])

# why a property is not (yet) decided
NA = {
    "C09": "The subscription states hold std::optional subscription data, condition variables and callbacks behind a mutex of a class "
           "whose collaborators (messaging, shared memory of the event) are outside the verifier's reach without assumed contracts for "
           "all of them; none was written, nothing is claimed.",
    "C14": "The contracts of do_allocation_algorithm and of initializeControlBlock are written and discharged "
           "(specs/allocation.cpp), but the loop of do_allocate that raises the fill level is not decided within the time a check "
           "has: the solvers need seconds for each of its 64-bit overflow conditions. Without it the property is not decided.",
    "C20": "The timed command queue is built on an intrusive list of the score_baselibs library, which is not installed; its "
           "contracts would have to be assumed in full, and they are what carries the property.",
    "C21": "Connection life cycle over message passing engines of the operating system (sockets, threads, timers); its contracts "
           "would be assumptions on all of them. None was written, nothing is claimed.",
    "C22": "Whole or not at all is decided by the kernel's stream sockets together with the code around them: contracts on the "
           "system calls would be assumptions that carry the property. None was written, nothing is claimed.",
    "C23": "No contracts were written for the transport layer of the gateway in the time available: nothing is claimed.",
    "C24": "No contracts were written for the transport layer of the gateway in the time available: nothing is claimed.",
    "C31": "No contracts written for the offered state machine of methods yet: nothing is claimed.",
    "C36": "The configured trace points are strings in nested unordered containers of the standard library, filled from JSON: the "
           "verifier has no contracts for these containers. Nothing is claimed.",
}
NOTE = {}


def main():
    idx = json.load(open(os.path.join(V, "specs", "index.json")))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in idx:
            checks.append(dict(
                property=i, quick_cmd="python3-vt vc/vcrun.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3-vt vc/vcrun.py %s" % i,
                technique="contracts on the real functions, verification conditions over their LLVM IR, inferred inductive loop invariants, discharged by Z3/cvc5",
                level="proof", level_note=idx[i].get("note", "Every obligation is discharged for all inputs and all iterations; trusted: clang front end, vc/ generator and its models, stubs for score_baselibs headers (see evidence: trusted_base, assumptions).")))
        else:
            na.append(dict(property=i, reason=NA.get(i, "No contracts written for it yet: nothing is claimed.")))
    m = dict(version=1, setup_cmd="python3-vt vc/vcrun.py --selftest", checks=checks, not_applicable=na)
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
