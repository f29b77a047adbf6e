//! The C14 and C24 scenarios, linked with stubs that the shipped command generated.
use xsim::driver::{main_with, Scenario};
use xsim::peers::{c14, prepare, Stub};
use xsim::statics::relay;

include!(env!("RELAY_REGISTRY"));

fn run(c: &mut xsim::choice::Ch) -> xsim::driver::Outcome {
    c14(c, STUBS)
}
fn main() {
    prepare(SEED, IDLS, EVOLVE);
    let scs = [Scenario {
        id: if EVOLVE { "C24" } else { "C14" },
        run,
        quick: 60_000,
        thorough: 1_000_000,
        cpu_s: 20,
        rule: if EVOLVE {
            "one run = 1-5 messages of generated types, each passed through 2-6 peers whose stubs were generated from different editions of the interface (written differently, reordered, extended) with different options, over links with loss, repetition, delay, partition and damage until a heal time; counted once per distinct event log (bytes received and values read)"
        } else {
            "one run = 1-5 messages of generated types, each passed through 2-6 peers whose stubs were generated with different options, over links with loss, repetition, delay, partition and damage until a heal time; counted once per distinct event log (bytes received and values read)"
        },
        time: "discrete-event network time",
        real: &["stubs generated by rpcgen (shipped command)", "serde-xdr (all)", "serde-xdr-derive (generated code)", "serde derive", "rustc (compiles the stubs)"],
        stub: &["network, timers, retransmission protocol"],
        assumptions: &[
            "damaged messages are read and not passed on",
            "messages that take a union's default arm are relayed between peers in union mode only",
            "unions switch on unsigned int, bool or an enumeration, bool unions name both cases, union arms hold no fixed-length opaque, and with standard traits enumerations appear directly in structs: the stubs of the other forms do not compile or cannot be encoded",
        ],
        probes: &[],
    }];
    std::process::exit(main_with(&scs));
}
