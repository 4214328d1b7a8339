"""What each property's check analyses."""
from engine.witness import check as _witness


def witness(pid):
    return dict(drivers=[], extra=lambda tier: _witness(pid, tier), assumptions=["clang 18 and gcc 13 type-check as the C++ standard says"])


SPECS = {
    "C19": dict(drivers=[("C19_generator.cpp", {"bound": 12})]),
    "C20": dict(drivers=[("C20_nested.cpp", {"bound": 12})]),
    "C22": dict(drivers=[("C22_ownership.cpp", {"bound": 24})]),
    "C30": dict(drivers=[("C30_inplace.cpp", {"bound": 24})]),
    "C32": dict(drivers=[("C32_control.cpp", {"bound": 12})]),
    "C33": dict(drivers=[("C33_job.cpp", {"bound": 12})]),
    "C21": dict(drivers=[("C21_channel.cpp", {"bound": 24})]),
    "C14": dict(drivers=[("C14_task.cpp", {"bound": 16})]),
    "C15": dict(drivers=[("C15_owner.cpp", {"bound": 24})]),
    "C16": dict(drivers=[("C16_context.cpp", {"bound": 16})]),
    "C17": dict(drivers=[("C17_when_all.cpp", {"bound": 24})]),
    "C18": dict(drivers=[("C18_when_any.cpp", {"bound": 24})]),
    "C01": dict(drivers=[("C01_queue.cpp", {"bound": 24})]),
    "C02": dict(drivers=[("C02_worker_job.cpp", {"bound": 24})]),
    "C03": dict(drivers=[("C03_shutdown.cpp", {"bound": 24})]),
    "C04": dict(drivers=[("C04_jump.cpp", {"bound": 24})]),
    "C05": dict(drivers=[("C05_executors.cpp", {"bound": 24})]),
    "C06": dict(drivers=[("C06_stack.cpp", {"bound": 24})]),
    "C07": dict(drivers=[("C07_latch.cpp", {"bound": 24})]),
    "C08": dict(drivers=[("C08_events.cpp", {"bound": 24})]),
    "C09": dict(drivers=[("C09_event_groups.cpp", {"bound": 24})]),
    "C10": dict(drivers=[("C10_async_owner.cpp", {"bound": 24})]),
    "C11": dict(drivers=[("C11_async_result.cpp", {"bound": 24})]),
    "C12": dict(drivers=[("C12_logical_thread.cpp", {"bound": 24})]),
    "C13": dict(drivers=[("C13_stop.cpp", {"bound": 24})]),
    "C23": dict(drivers=[("C23_frames.cpp", {"bound": 24})]),
    "C24": dict(drivers=[("C24_selection.cpp", {"bound": 24})]),
    "C26": dict(drivers=[("C26_pool.cpp", {"bound": 24})]),
    "C27": dict(drivers=[("C27_hash.cpp", {"bound": 24})]),
    "C25": dict(drivers=[("C25_stack.cpp", {"bound": 24, "time": 200})]),
    "C31": dict(drivers=[("C31_result.cpp", {"bound": 24})]),
    "C28": witness("C28"),
    "C29": witness("C29"),
}
