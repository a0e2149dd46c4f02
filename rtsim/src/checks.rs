pub static CHECKS: &[Check] = &[
    Check { id: "C01", works: &[("calls", 1)], classes: &[V_OWN, V_CRASH, V_HANG], quick: 60_000, thorough: 3_000_000 },
    Check { id: "C02", works: &[("calls", 1)], classes: &[V_VAL, V_ERR, V_CRASH], quick: 60_000, thorough: 3_000_000 },
    Check { id: "C03", works: &[("calls", 1)], classes: &[V_FATAL], quick: 60_000, thorough: 3_000_000 },
    Check { id: "C10", works: &[("calls", 1)], classes: &[V_OWN, V_VAL, V_ERR, V_CRASH, V_HANG], quick: 30_000, thorough: 1_500_000 },
    Check { id: "C04", works: &[("ptr", 1)], classes: &[V_OWN, V_PTR, V_CRASH, V_HANG], quick: 60_000, thorough: 3_000_000 },
    Check { id: "C05", works: &[("cont", 1)], classes: &[V_OWN, V_MODEL, V_VAL, V_CRASH, V_HANG], quick: 60_000, thorough: 3_000_000 },
    Check { id: "C06", works: &[("uv", 1)], classes: &[V_OWN, V_MODEL, V_CRASH, V_HANG], quick: 60_000, thorough: 3_000_000 },
    Check { id: "C07", works: &[("strs", 1)], classes: &[V_OWN, V_MODEL, V_CRASH, V_HANG], quick: 60_000, thorough: 3_000_000 },
    Check { id: "C08", works: &[("io", 1)], classes: &[V_OWN, V_IO, V_CRASH, V_HANG], quick: 60_000, thorough: 3_000_000 },
    Check { id: "C09", works: &[("fmt", 4), ("strs", 1)], classes: &[V_OWN, V_FMT, V_CRASH, V_HANG], quick: 60_000, thorough: 3_000_000 },
];
pub static PROBES: &[&str] = &["", "operation ended by a throwing element constructor", "operation ended by std::bad_alloc", "C++ function stopped in the middle by an exception", "construction from text that is not valid", "short read", "short write", "I/O call interrupted", "I/O call failed", "I/O call transferred nothing", "panic in an I/O call", "formatting failed in the middle", "sink failed", "sink panicked", "C++ stream failed"];
