//! What actually happened during the runs: counters that cost nothing and allocate nothing.
use crate::rng::mix;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

macro_rules! counters {
    ($($id:ident = $name:literal),* $(,)?) => {
        #[allow(dead_code, non_camel_case_types, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum C { $($id),* }
        pub const NAMES: &[&str] = &[$($name),*];
        static COUNTS: [AtomicU64; NAMES.len()] = [const { AtomicU64::new(0) }; NAMES.len()];
    };
}

counters! {
    ReadCall = "io.read_calls",
    WriteCall = "io.write_calls",
    ShortRead = "fault.short_read",
    ShortWrite = "fault.short_write",
    ReadIntr = "fault.read_interrupted",
    WriteIntr = "fault.write_interrupted",
    ReadErr = "fault.read_error",
    ReadErrInFileHeader = "fault.read_error_in_file_header",
    ReadErrInFrameHeader = "fault.read_error_in_message_header",
    ReadErrInBody = "fault.read_error_in_message_content",
    ReadErrEofKind = "fault.read_error_of_kind_unexpected_eof",
    ReadErrAtEnd = "fault.read_error_at_end_of_log",
    WouldBlock = "fault.would_block",
    BlockedWait = "fault.blocked_waiting_for_bytes",
    WriteErr = "fault.write_error",
    WriteZero = "fault.write_accepts_nothing",
    DiskFull = "fault.disk_full",
    Cut = "fault.log_cut",
    CutInFileHeader = "fault.log_cut_in_file_header",
    CutInFrameHeader = "fault.log_cut_in_message_header",
    CutInBody = "fault.log_cut_in_message_content",
    Damage = "fault.stored_bytes_damaged",
    DamagedMessageErr = "probe.damaged_message_reported_as_error",
    DamagedMessageItem = "probe.damaged_message_yielded_altered",
    Crash = "fault.crash_of_writer",
    CrashMidMessage = "fault.crash_inside_a_message",
    Late = "fault.bytes_arrive_after_end",
    AllocRefused = "fault.oversized_message_offered",
    Switch = "sched.context_switches",
    Preempt = "sched.interrupted_between_instructions",
    LockWait = "sched.waits_for_a_lock",
    Nested = "sched.nested_steps_inside_read",
    StdioBlocked = "fault.stdio_full_or_closed",
    Abandon = "fault.reader_abandoned_half_way",
    Items = "probe.messages_yielded",
    Errors = "probe.errors_yielded",
    Typed = "probe.typed_values_yielded",
    BadId = "probe.data_without_subscription",
    Redirect = "probe.data_after_redirection",
    MultiIdx = "probe.multi_instance_data",
    NestedData = "probe.nested_data",
    PadData = "probe.data_with_padding",
    BigMsg = "probe.message_over_60000_bytes",
    Ignored = "probe.ignored_messages",
    Straddle = "probe.message_straddles_appended_offset",
    Beyond4G = "probe.offset_beyond_4GiB",
    BytesRead = "io.bytes_read",
    BytesWritten = "io.bytes_written",
    SimMicros = "time.simulated_microseconds",
    LogRecords = "probe.log_records_to_callers_logger",
    DsOps = "probe.byte_source_operations",
    Pristine = "probe.compared_with_a_fresh_process",
    Anyway = "probe.difference_seen_without_faults_too",
    ThreadMsgs = "probe.messages_passed_between_threads",
    Dependent = "probe.messages_that_depend_on_a_damaged_definition",
    LookedAgain = "probe.messages_looked_at_again_later",
    Handed = "sched.parser_handed_to_another_thread",
    Stall = "fault.stalled_for_over_a_second",
    ClockJump = "fault.wall_clock_set",
    ClockRead = "probe.clock_read_by_the_library",
    EnvRead = "probe.environment_variable_read_by_the_library",
    Touched = "probe.file_process_or_network_reached_for",
    LongLogMsgs = "probe.messages_in_long_logs",
}

static HASH: AtomicU64 = AtomicU64::new(0);
static FIRED: AtomicU64 = AtomicU64::new(0);

pub fn count(c: C) {
    add(c, 1);
}
pub fn add(c: C, n: u64) {
    COUNTS[c as usize].fetch_add(n, Relaxed);
    if NAMES[c as usize].starts_with("fault.") {
        FIRED.fetch_add(n, Relaxed);
    }
}
/// Event log of the current run, as a running hash. Only one simulated thread runs at a time.
pub fn event(x: u64) {
    let h = HASH.load(Relaxed);
    HASH.store(mix(h ^ x), Relaxed);
}
pub fn begin_run() {
    HASH.store(0, Relaxed);
    FIRED.store(0, Relaxed);
}
pub fn run_hash() -> u64 {
    HASH.load(Relaxed)
}
pub fn run_faults() -> u64 {
    FIRED.load(Relaxed)
}
pub fn snapshot() -> Vec<u64> {
    COUNTS.iter().map(|c| c.load(Relaxed)).collect()
}
/// Start counting afresh, in a copy of the process.
pub fn zero() {
    COUNTS.iter().for_each(|c| c.store(0, Relaxed));
}
