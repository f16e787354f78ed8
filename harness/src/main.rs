mod reference;
mod analysis;
mod alloc;
mod ring;
mod sim;
mod report;
mod regular;
mod crud;
mod display;
#[cfg(feature = "hooks")]
mod quantities;
#[cfg(feature = "hooks")]
mod measurers;
mod together;
mod leftovers;
mod features;

fn before_worker() {
    alloc::assert_system_refuses();
    sim::init();
}

fn main() {
    let mut props = vec![];
    props.extend(analysis::props());
    // (C04 & C05: second part of the checks)
    props.extend(alloc::props().into_iter().map(|mut p| { if p.id != "C06" { p.subs.retain(|s| s.name.starts_with("global")); } p }));
    props.extend(ring::props());
    props.extend(regular::props());
    props.extend(crud::props());
    props.extend(display::props());
    #[cfg(feature = "hooks")]
    props.extend(quantities::props());
    #[cfg(feature = "hooks")]
    props.extend(measurers::props());
    props.extend(together::props());
    props.extend(leftovers::props());
    props.extend(features::props());
    let c19 = vcommon::Prop { id: "C19", rule: "generated sequences of time steps, kept & freed blocks, spikes and suspensions (with others' activity meanwhile) in every stage of a regular or async run, baselines and sizes; nontrivial: dips, auxiliary or freed memory in a pass",
        assumptions: vec!["time only passes when the user functions say so: clock_gettime & sleeps of the process are virtual", "figures of regular runs are observed through the report: exact times, heap with the precision shown"],
        subs: regular::charge_subs().into_iter().chain([crud::charge_sub()]).collect() };
    props.push(c19);
    let c21 = vcommon::Prop { id: "C21", rule: "a panic injected at a generated position; nontrivial: every case",
        assumptions: vec!["time only passes when the user functions say so: clock_gettime & sleeps of the process are virtual"],
        subs: vec![regular::fault_sub(), crud::fault_sub()] };
    props.push(c21);
    vcommon::main(props, before_worker)
}
