import extract
STR = "src/structure/"
EQC = "#[derive(PartialEq, Eq, Structural, Clone, Copy)]\n"
EPOCH = ("std::time::UNIX_EPOCH", "epoch__()", "a constant of std through a function that returns it")
UNIT = {
    "trusted": [
        "std::time: SystemTime, Duration and UNIX_EPOCH as nanoseconds from the epoch (64-bit seconds: Linux)",
    ],
    "prelude": "time.rs",
    "types": [{"file": STR + "time.rs", "name": "Time_t", "derive": EQC}],
    "replace": [EPOCH],
    "constants": [STR + "time.rs"],
    "impls": [
        {"file": STR + "time.rs", "head": "implTime_t", "functions": {}, "only": True},
        {"file": STR + "time.rs", "head": "implFrom<SystemTime>forTime_t", "as": "impl Time_t", "label": "Time_t::",
         "functions": {"from": {
             "contract": "ensures to_protocol(sys_time.nanos(), r),",
             "ghost": "proof { shifts(); }",
             "forms": {"and_then": extract.OPTION_AND_THEN},
             "lifted": [{
                 "name": "within",
                 "signature": "fn within__(arg__: Duration) -> (r: Option<Time_t>)",
                 "call": "Self::within__(arg__)",
                 "ghost": "proof { shifts(); }",
                 "contract": "requires arg__.subsec() < 1_000_000_000, ensures arg__.secs() > 0x7fff_ffff ==> r is None, "
                             "arg__.secs() <= 0x7fff_ffff ==> r == Some(Time_t { seconds: arg__.secs() as i32, "
                             "fraction: fraction_of(arg__.subsec() as int) as u32 }),"}],
         }}},
        {"file": STR + "time.rs", "head": "implTryFrom<Time_t>forSystemTime", "as": "impl SystemTime",
         "label": "SystemTime::", "functions": {"try_from": {
             "sig": [("Self::Error", "&'static str", "associated type written out")],
             "ghost": "proof { shifts(); }",
             "contract": "ensures to_clock(time, r),"}}},
    ],
}
