use xsim::driver::{main_with, Scenario};
use xsim::*;

fn main() {
    let lib: &[&str] = &["serde-xdr (all)", "serde-xdr-derive (generated code)", "serde derive"];
    let scs = [
        Scenario {
            id: "C01",
            run: wire::c01,
            quick: 120_000,
            thorough: 4_000_000,
            cpu_s: 20,
            rule: "one run = one receiver process fed 2-30 messages of random types, each damaged by 1-3 faults; counted once per distinct event log (received bytes and outcome)",
            time: "no clock is involved; progress is counted in received messages",
            real: lib,
            stub: &["link and store (simulated damage)", "allocator (accounting)"],
            assumptions: &["the main thread has the usual 8 MiB stack"],
            probes: &[("crash: abort (list of 400000 nodes)", wire::c01_chain)],
        },
        Scenario {
            id: "C02",
            run: wire::c02,
            quick: 100_000,
            thorough: 4_000_000,
            cpu_s: 20,
            rule: "one run = every cut of a message, or a chunked byte stream with a random end, or an append-only log with 1-4 crash/recovery cycles",
            time: "no clock is involved; progress is counted in chunks",
            real: lib,
            stub: &["stream and disk"],
            assumptions: &[],
            probes: &[],
        },
        Scenario {
            id: "C03",
            run: wire::c03,
            quick: 120_000,
            thorough: 4_000_000,
            cpu_s: 20,
            rule: "one run = 2-30 damaged messages, each outcome compared with the RFC 4506 reference decoder; counted once per distinct event log",
            time: "no clock is involved; progress is counted in received messages",
            real: lib,
            stub: &["link and store (simulated damage)"],
            assumptions: &["non-zero booleans are true and padding content is ignored, as the library documents by behaviour"],
            probes: &[],
        },
        Scenario {
            id: "C04",
            run: wire::c04,
            quick: 100_000,
            thorough: 4_000_000,
            cpu_s: 20,
            rule: "one run = 2-24 messages whose length words are damaged, received under a memory and a step budget derived from the bytes received; one run in 400 receives a message of 1-4 MiB made of many small parts",
            time: "work is counted in executed edges, loads, stores and allocations",
            real: lib,
            stub: &["allocator (refuses beyond the budget)", "link"],
            assumptions: &["allowance: 96 KiB + 1.5 MiB per nesting level + 384 bytes per received byte; 100000 steps + 150000 per nesting level + 10000 per type node + 1500 per received byte (a step is an edge, load, store, allocation or 16 bytes requested or copied in pieces of 1 KiB or more)"],
            probes: &[],
        },
        Scenario {
            id: "C05",
            run: calls::c05,
            quick: 40_000,
            thorough: 2_000_000,
            cpu_s: 40,
            rule: "one run = a history of 2-25 (sometimes 200-1100) encode, decode, relay and stub generation calls, with failing and panicking callbacks and calls made from inside callbacks, or (one run in 700) up to 134000 repetitions of a few short calls; every answer compared with the answer of a freshly forked process; in a third of the runs the calls are near relatives of one another, in a sixth they share one kind of value; counted once per distinct event log",
            time: "no clock is involved; progress is counted in calls",
            real: &["serde-xdr (all)", "serde-xdr-derive (generated code)", "rpcgen (library)"],
            stub: &["caller-supplied Serialize/Deserialize code (fails, panics, re-enters on command)", "getrandom (seeded)"],
            assumptions: &[],
            probes: &[],
        },
        Scenario {
            id: "C06",
            run: calls::c06,
            quick: 48_000,
            thorough: 2_000_000,
            cpu_s: 30,
            rule: "one run = 2-4 threads making 1-6 calls each under a seeded preemption plan at the grain of edges, loads, stores, allocations and futex operations; every answer compared with that of a freshly forked process; in a third of the runs the threads contend with short calls over two or three values of one kind; counted once per distinct event log",
            time: "simulated clock advances with executed steps; progress is counted in steps",
            real: &["serde-xdr (all)", "serde-xdr-derive (generated code)", "rpcgen (library)", "threads and std synchronisation"],
            stub: &["scheduler", "futex", "caller-supplied Serialize/Deserialize code", "getrandom (seeded)"],
            assumptions: &["threads are preempted in the instrumented crates (serde-xdr, rpcgen, derived code), at allocations and at futex operations, with sequentially consistent memory"],
            probes: &[],
        },
        Scenario {
            id: "C07",
            run: calls::c07,
            quick: 150_000,
            thorough: 3_000_000,
            cpu_s: 20,
            rule: "one run = 1-4 values; each is encoded or decoded once undisturbed and then up to 24 times with one callback failing or declaring an impossible length; counted once per distinct event log",
            time: "no clock is involved; progress is counted in callbacks",
            real: lib,
            stub: &["caller-supplied Serialize/Deserialize code (fails on command)"],
            assumptions: &["lengths above 2^32-1 are declared without holding that many elements; byte strings of 4 GiB are unbacked zero pages"],
            probes: &[],
        },
        Scenario {
            id: "C08",
            run: wire::c08,
            quick: 80_000,
            thorough: 3_000_000,
            cpu_s: 20,
            rule: "one run = 1-10 request/reply exchanges between two peers in a discrete-event network with loss, repetition, delay, partition and damage until a heal time",
            time: "discrete-event network time",
            real: lib,
            stub: &["network, timers, retransmission protocol"],
            assumptions: &[],
            probes: &[],
        },
        Scenario {
            id: "C09",
            run: proc::c09,
            quick: 15_000,
            thorough: 1_000_000,
            cpu_s: 120,
            rule: "one run = one interface file, one undisturbed process and 1-6 processes with a failing open, read, write, full output or failing allocation; counted once per distinct log of system calls and results",
            time: "simulated clock inside the process; progress is counted in system calls",
            real: &["rpcgen (shipped command, real process)", "rpcgen (library)", "Rust runtime and standard library"],
            stub: &["system calls on the input file, stdout and stderr", "allocator (fails on command)"],
            assumptions: &["an early end of file that the operating system reports as a normal one cannot be told from a shorter file", "kernel-side delayed write errors after the process ended are out of reach"],
            probes: &[("success without output (EBADF)", proc::c09_ebadf)],
        },
        Scenario {
            id: "C10",
            run: proc::c10,
            quick: 15_000,
            thorough: 1_000_000,
            cpu_s: 120,
            rule: "one run = one interface file, one undisturbed process and 1-6 processes with interrupted, short and slow transfers and wrong or missing metadata; counted once per distinct log of system calls and results",
            time: "simulated clock inside the process; progress is counted in system calls",
            real: &["rpcgen (shipped command, real process)", "rpcgen (library)", "Rust runtime and standard library"],
            stub: &["system calls on the input file, stdout and stderr", "clock"],
            assumptions: &["metadata never claims more than 1 MiB"],
            probes: &[],
        },
        Scenario {
            id: "C11",
            run: gen::c11,
            quick: 40_000,
            thorough: 3_000_000,
            cpu_s: 60,
            rule: "one run = one interface file and 1-8 damaged copies (cut off inside a definition, with a remark that never ends, or 1-6 storage faults), generated in this process and, in every twelfth run, by the shipped command; counted once per distinct event log (damaged files and results)",
            time: "no clock is involved; progress is counted in generations",
            real: &["rpcgen (library)", "rpcgen (shipped command, real process)"],
            stub: &["storage (simulated damage)"],
            assumptions: &["damage that opens or closes a comment or a % line is judged only for failures, not for what it hides, except where the remark never ends", "nesting of at most 64 blocks"],
            probes: &[],
        },
        Scenario {
            id: "C12",
            run: gen::c12,
            quick: 40_000,
            thorough: 3_000_000,
            cpu_s: 60,
            rule: "one run = one interface file and 1-8 copies with 1-5 storage faults, each generated in 1-3 modes in this process under a work limit and, in every twelfth run, by the shipped command; counted once per distinct event log (damaged files and results)",
            time: "work is counted in executed edges, loads, stores and allocations",
            real: &["rpcgen (library)", "rpcgen (shipped command, real process)"],
            stub: &["storage (simulated damage)"],
            assumptions: &["numbers below 100000 or beyond 32 bits, at most 64 nested blocks, files below 200 kB", "the main thread has the usual 8 MiB stack"],
            probes: &[("the command crashes (20000 nested types)", gen::c12_deep), ("the command crashes (chain of 20000 typedefs)", gen::c12_chain)],
        },
        Scenario {
            id: "C20",
            run: net::c20,
            quick: 60_000,
            thorough: 3_000_000,
            cpu_s: 20,
            rule: "one run = 1-8 messages passed along 2-5 nodes, each running the library or the independent RFC 4506 implementation, over a link with loss, repetition, delay, partition and damage, with journals, crashes that tear them, restarts (now and then on the other implementation) and retransmission; counted once per distinct event log",
            time: "discrete-event network time",
            real: lib,
            stub: &["network, timers, forwarding protocol", "journal disk (loses any part of what was not synced)", "the other implementation (the harness's reference encoder and strict decoder)"],
            assumptions: &["the link's checksum finds every damage, what was synced survives"],
            probes: &[],
        },
        Scenario {
            id: "C21",
            run: cost::c21,
            quick: 200_000,
            thorough: 3_000_000,
            cpu_s: 20,
            rule: "one run = 1-12 values encoded by a sender whose memory and work are limited by the size of the value; caller code fails, panics or declares lengths it does not fill; counted once per distinct event log",
            time: "work is counted in executed edges, loads, stores and allocations",
            real: lib,
            stub: &["allocator (refuses beyond the budget)", "caller-supplied Serialize code"],
            assumptions: &["allowance: 64 KiB + 16 bytes per encoded byte; 50000 steps + 500 per value + 50 per encoded byte (a step is an edge, load, store, allocation or 16 bytes requested or copied in pieces of 1 KiB or more); 256 KiB + 128 bytes per value + 48 per encoded byte requested or copied in all"],
            probes: &[],
        },
        Scenario {
            id: "C22",
            run: proc::c22,
            quick: 12_000,
            thorough: 600_000,
            cpu_s: 120,
            rule: "one run = a history of 2-8 generator processes in one place (undisturbed, killed at any file operation or allocation, or failing) with edits of the interface in between; the place is compared byte for byte after each, and every undisturbed process with one in a fresh place; counted once per distinct log of system calls and results",
            time: "simulated clock inside the process; progress is counted in system calls",
            real: &["rpcgen (shipped command, real process)", "Rust runtime and standard library"],
            stub: &["system calls on the input file, stdout and stderr; changes to the file system outside the run's directory are refused and recorded", "crashes (the process is killed)"],
            assumptions: &["file system changes go through the C library, as those of the Rust standard library do"],
            probes: &[],
        },
        Scenario {
            id: "C23",
            run: cost::c23,
            quick: 8_000,
            thorough: 200_000,
            cpu_s: 60,
            rule: "one run = 1000-3000 encode, decode and relay calls, or 150-400 stub generations, of 1-3 kinds, on repeated and new, sound and damaged input, with failing and panicking caller code, on one thread or (one run in eight) on 200-800 short-lived ones; counted once per distinct event log",
            time: "no clock is involved; progress is counted in calls",
            real: &["serde-xdr (all)", "serde-xdr-derive (generated code)", "rpcgen (library)"],
            stub: &["allocator (accounting)", "caller-supplied Serialize/Deserialize code (fails, panics on command)"],
            assumptions: &["24 KiB are allowed for caches and buffers that keep growing after the first quarter of the calls"],
            probes: &[],
        },
        Scenario {
            id: "C13",
            run: proc::c13,
            quick: 15_000,
            thorough: 1_000_000,
            cpu_s: 120,
            rule: "one run = one interface file generated by 2-6 processes with different hash seeds, clocks, process ids, environments, file names, directories, terminals, numbers of processors, thread start orders and heap layouts, then 1-4 times and on two threads within one process; counted once per distinct event log",
            time: "simulated clocks from 1970 to 2116",
            real: &["rpcgen (shipped command, real process)", "rpcgen (library)", "Rust runtime and standard library"],
            stub: &["getrandom", "clock", "getpid", "environment", "heap placement", "scheduler"],
            assumptions: &[],
            probes: &[],
        },
    ];
    std::process::exit(main_with(&scs));
}
