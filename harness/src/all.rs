#[path = "sym.rs"]
pub mod sym;
#[path = "store.rs"]
pub mod store;
#[path = "kit.rs"]
pub mod kit;
#[path = "h_core.rs"]
pub mod h_core;
#[path = "h_gate.rs"]
pub mod h_gate;
#[path = "h_node.rs"]
pub mod h_node;
#[path = "h_elem.rs"]
pub mod h_elem;
#[path = "h_flash.rs"]
pub mod h_flash;
#[path = "h_worker.rs"]
pub mod h_worker;
#[path = "h_sched.rs"]
pub mod h_sched;

/// One entry point per harness: an exported symbol for the executor, a table for the replayer.
macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        pub static ENTRIES: &[(&str, fn())] = &[$((stringify!($f), $m::$f)),*];
        pub mod export { $( #[unsafe(no_mangle)] pub extern "C" fn $f() { super::$m::$f() } )* }
    };
}
entries! {
    h_core::c01_types, h_core::c01_rounds2, h_core::c01_rounds3, h_core::c01_rounds5, h_core::c01_many, h_core::c01_many_kept,
    h_core::c03_any4, h_core::c03_any5, h_core::c03_any6, h_core::c03_any7,
    h_core::c03_order3, h_core::c03_damaged3, h_core::c03_order4, h_core::c03_damaged4,
    h_core::c03_far, h_core::c04_far, h_core::c04_any4, h_core::c04_any5, h_core::c04_any6, h_core::c04_order4, h_core::c04_damaged3,
    h_core::c04_order5, h_core::c04_damaged4, h_core::c04_fault2, h_core::c04_fault3, h_core::c04_fault_deep, h_core::c04_fault_deep3,
    h_core::c04_rounds4, h_core::c04_rounds6, h_core::c04_kept,
    h_core::c05_order3, h_core::c05_damaged2, h_core::c05_faults, h_core::c05_deep,
    h_core::c02_power1, h_core::c02_power2, h_core::c02_fresh, h_core::c02_errors, h_core::c02_deep,
    h_gate::c06_lie, h_gate::c06_fresh, h_gate::c06_drops, h_gate::c06_twice,
    h_gate::c07_seq4, h_gate::c07_seq5, h_gate::c07_seq6, h_gate::c07_late_node,
    h_gate::c08_once, h_gate::c08_two, h_gate::c08_rounds, h_gate::c08_deep,
    h_gate::c15_two, h_gate::c07_fault5, h_gate::c07_fault6, h_gate::c07_fault6_lies, h_gate::c07_busy_set, h_gate::c15_between1, h_gate::c15_buffer, h_gate::c15_between2, h_gate::c15_between3, h_gate::c06_unreadable, h_gate::c15_late, h_gate::c15_damaged, h_gate::c15_three, h_gate::c15_deep,
    h_gate::c14_value, h_gate::c14_key, h_gate::c14_buffer, h_gate::c14_over, h_gate::c14_check,
    h_gate::c17_order, h_gate::c17_damaged, h_gate::c17_deep, h_gate::c17_kinds1, h_gate::c17_kinds2, h_gate::c17_kinds_deep,
    h_node::c09_dup4, h_node::c09_dup5, h_node::c09_two4, h_node::c09_busy2, h_node::c09_busy4, h_node::c09_busy6, h_node::c09_two5,
    h_node::c18_seq5, h_node::c18_seq6, h_node::c18_seq7,
    h_node::c10_default, h_node::c10_stable, h_node::c10_reattach, h_node::c10_many, h_node::c10_busy, h_node::c10_pending2, h_node::c07_pending, h_node::c10_pending3, h_node::c10_pending_deep, h_node::c19_schema,
    h_elem::c13_split, h_elem::c13_split_long, h_elem::c13_split_wide, h_elem::c13_split_9, h_elem::c13_crc_long, h_elem::c13_new, h_elem::c13_crc, h_elem::c13_keys,
    h_elem::c13_keys_utf8, h_elem::c13_values, h_elem::c13_stored,
    h_flash::c12_w4, h_flash::c12_w1r4, h_flash::c12_w16, h_flash::c12_w8_cache, h_flash::c12_state_cache, h_flash::c12_decode, h_flash::c12_mixed, h_flash::c12_mixed_w1,
    h_flash::c12_largest, h_flash::c12_range, h_flash::c12_subrange, h_flash::c14_flash, h_flash::c12_full, h_flash::c12_power, h_flash::c12_power_wrap, h_flash::c12_power_w1,
    h_flash::c12_errors, h_flash::c12_cancel, h_flash::c12_stack, h_flash::c12_stack_wrap, h_flash::c12_stack_errors, h_flash::c12_stack_deep,
    h_worker::c16_two, h_worker::c16_three,
    h_worker::c16_close, h_worker::c16_clean1, h_worker::c16_clean2, h_worker::c16_close4, h_worker::c16_late, h_worker::c16_four, h_worker::c16_error1, h_worker::c16_both, h_core::c05_last, h_core::c05_last_damaged, h_core::c01_orphan, h_elem::c13_similar, h_elem::c13_similar_long, h_elem::c13_large, h_gate::c06_extra, h_gate::c06_extra2, h_gate::c17_sizes, h_core::c01_wide, h_worker::c16_error2,
    h_sched::c11_start2, h_sched::c11_late_worker, h_sched::c11_start_deep, h_sched::c11_update2, h_sched::c11_preempt1, h_sched::c11_preempt2, h_sched::c11_preempt_cancel, h_sched::c11_preempt_update, h_sched::c11_preempt_update_deep, h_sched::c11_preempt_deep, h_sched::c11_attach_set1, h_sched::c11_attach_set_deep, h_sched::c11_update_deep,
    h_sched::c11_passes2, h_sched::c11_passes_err, h_sched::c11_passes_deep, h_sched::c11_cancel1, h_sched::c11_cancel_deep, h_sched::c11_signal,
    h_worker::c16_stop1, h_worker::c16_stop2, h_worker::c16_noop, h_worker::c16_error_stop2, h_worker::c16_error_stop3, h_worker::c16_slow2, h_worker::c16_slow3, h_worker::c16_slow_stop, h_worker::c16_slow_stop3, h_worker::c16_stop_busy1, h_worker::c16_stop_busy2,
}

struct CS;
critical_section::set_impl!(CS);
unsafe impl critical_section::Impl for CS {
    unsafe fn acquire() -> critical_section::RawRestoreState {
        h_sched::preempt();
        h_sched::CRITICAL.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
    }
    unsafe fn release(_: critical_section::RawRestoreState) {
        h_sched::CRITICAL.fetch_sub(1, core::sync::atomic::Ordering::Relaxed);
        h_sched::preempt();
    }
}
