#[path = "../../harness/src/alloc.rs"]
#[allow(dead_code)]
mod alloc;
#[path = "../../harness/src/ring.rs"]
mod seq_ring;
mod schedule;
mod ring;
mod heap;

fn before_worker() { alloc::assert_system_refuses(); }

fn main() {
    let mut props = vec![heap::prop(), ring::prop()];
    for mut p in alloc::props().into_iter().chain(seq_ring::props()) {
        // (the allocator of the process isn't the one under the scheduler: that part is done by the harness)
        p.subs.retain(|s| !s.name.starts_with("global"));
        // the guarantees of single threaded histories hold for interleaved threads, too
        match p.id {
            "C04" | "C05" => p.subs.push(heap::schedules_sub(150_000, 10_000_000)),
            "C08" => p.subs.push(ring::schedules_sub(200_000, 10_000_000, Some(false))),
            "C09" => p.subs.push(ring::schedules_sub(300_000, 15_000_000, Some(true))),
            "C11" => p.subs.push(ring::schedules_sub(200_000, 10_000_000, None)),
            _ => continue,
        }
        props.push(p);
    }
    if std::env::var_os("VERIF_PLAIN").is_some() {
        // the code couldn't be built over the deterministic scheduler: only real threads and single threaded histories
        for p in props.iter_mut() { p.subs.retain(|s| s.name != "schedules"); }
    }
    vcommon::main(props, before_worker)
}
