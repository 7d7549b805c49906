//! The engines by name.
use crate::{conc, config, delay, drive, drive_h, held, ordinary, policy, report::*, seq, Budget};

pub fn run(
    run: &mut Run,
    prop: &'static str,
    engine: &'static str,
    seed: u64,
    b: &Budget,
    only: Option<u64>,
) {
    match engine {
        "seq" => {
            run.rules.push(
                "seq: a seeded random configuration (cache kind, hasher, capacity, policy, \
                 weigher, lifetimes, expiry hooks, listener, invalidation closures, mock clock) \
                 and a seeded random single-caller history of public calls, judged call by call \
                 by a reference map with exact lifetimes; non-trivial: the history hit, changed \
                 and removed entries"
                    .into(),
            );
            drive(
                run,
                "seq",
                b,
                only,
                |s| {
                    let g = |k: &str| s.get(k).copied().unwrap_or(0);
                    match prop {
                        "C02" => g("hits") > 0 && g("inserts") > 0 && g("removes") > 0,
                        "C03" => g("hits") > 0 && g("hidden_reads") + g("ev_expired") > 0,
                        "C04" => {
                            g("expiry_create") > 0
                                && g("expiry_read") + g("expiry_update") > 0
                                && g("hidden_reads") + g("ev_expired") > 0
                        }
                        "C05" => g("invalidate_all") + g("invalidate_if") > 0 && g("hits") > 0,
                        "C06" => g("overflows") > 0 || g("size_evictions") > 0,
                        "C08" => {
                            g("ev_replaced") > 0
                                && g("ev_explicit") + g("ev_expired") + g("ev_size") > 0
                        }
                        "C09" => g("settles") > 0 && g("overwrites") > 0,
                        "C13" => g("iters") > 0 && g("inserts") > 0,
                        "C16" => g("released_values") > 0 && g("release_checks") > 0,
                        _ => g("hits") > 0 && g("inserts") > 0,
                    }
                },
                |i| seq::run_case(prop, seed, i),
            )
        }
        "policy" => {
            run.rules.push(
                "policy: a seeded random bounded cache (policy, capacity, weigher, kind) and a seeded \
                 random script of inserts, updates, read bursts, containment tests, scans and \
                 removals with maintenance after each, judged by an exact recency list and exact \
                 request counts; newcomers are made about as popular as their victims; also \
                 long runs that age the sketch; non-trivial: entries were evicted"
                    .into(),
            );
            run.assumptions.push(
                "TinyLFU request counts are estimates: a mismatch counts only if the same script \
                 mismatches under four independent hashers"
                    .into(),
            );
            drive(
                run,
                "policy",
                b,
                only,
                |s| s.get("evictions").copied().unwrap_or(0) > 0,
                |i| policy::run_case(prop, seed, i),
            )
        }
        "config" => {
            run.rules.push(
                "config: seeded random builder settings on every kind of cache and every way to                  build it, compared with what the cache reports and does; settings that must be                  refused; seeded random calls on caches of zero capacity, alone and from three                  threads; non-trivial: values were stored or initialised"
                    .into(),
            );
            drive(
                run,
                "config",
                b,
                only,
                |s| s.get("stored_values").copied().unwrap_or(0) > 0,
                |i| config::run_case(prop, seed, i),
            )
        }
        "ord" => {
            run.rules.push(
                "ord: ordinary operations only, never run_pending_tasks: floods of inserts into a                  small cache, up to 1600 entries that expire or are invalidated, thousands of                  updates, 2-6 inserting threads, slow listeners; then a bounded number of reads                  or writes; judged by the entries stored, counted, reported and released;                  non-trivial: values were stored"
                    .into(),
            );
            drive(
                run,
                "ord",
                b,
                only,
                |s| s.get("inserts").copied().unwrap_or(0) > 0,
                |i| ordinary::run_case(prop, seed, i),
            )
        }
        "held" => {
            run.rules.push(
                "held: one thread is held inside a call (initialiser, replacement condition, compute \
                 closure, weigher, expiry hook, predicate or listener under maintenance, listener of \
                 its own write, between two items of an iterator) while another makes a seeded \
                 script of calls that must not wait for it (lookups, iteration, reports and bulk \
                 invalidation on any key, bursts that fill the read queue, writes where nothing \
                 holds the key); every result is compared with what is stored; some read hooks give \
                 deadlines while the read queue is full, and the entries must be gone in the end; \
                 non-trivial: the thread was held"
                    .into(),
            );
            drive(
                run,
                "held",
                b,
                only,
                |s| s.get("held").copied().unwrap_or(0) > 0,
                |i| held::run_case(prop, seed, i),
            )
        }
        "conc" => {
            run.rules.push(
                "conc: rounds of 2-5 threads on one cache, seeded operations and seeded delays \
                 at the marked points; judged from the recorded call/return, closure and \
                 listener events; non-trivial: the round stored values and all its oracles ran"
                    .into(),
            );
            moka::verif::set_point_hook(Some(delay::at));
            moka::verif::set_async_point_hook(Some(delay::at_async));
            let b = Budget { threads: 4, ..*b };
            drive_h(
                run,
                "conc",
                &b,
                only,
                |s| s.get("stored_values").copied().unwrap_or(0) > 0,
                |i| conc::run_case(prop, seed, i),
            );
            moka::verif::set_point_hook(None);
            moka::verif::set_async_point_hook(None);
        }
        "coop" => {
            run.rules.push(
                "coop: 2-8 tasks on one async cache, under a deterministic single-thread executor \
                 that polls, leaves aside and drops seeded operations in a seeded order; seeded \
                 suspensions at the cache's await points, in user closures and in the listener; \
                 floods of 500-1500 writes while maintenance is held up; judged as conc is, and \
                 no task may be left without a wake-up; non-trivial: values were stored and all \
                 oracles ran"
                    .into(),
            );
            moka::verif::set_async_point_hook(Some(conc::coop::at_async));
            drive(
                run,
                "coop",
                b,
                only,
                |s| s.get("stored_values").copied().unwrap_or(0) > 0,
                |i| conc::coop::run_case(prop, seed, i),
            );
            moka::verif::set_async_point_hook(None);
        }
        _ => unreachable!("{engine}"),
    }
}
