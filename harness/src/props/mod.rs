use crate::fw::Ctx;
macro_rules! props {
    ($($id:literal $m:ident),* $(,)?) => {
        $(pub mod $m;)*
        pub fn run(ctx: &Ctx) -> bool {
            match ctx.prop.as_str() {
                $($id => $m::run(ctx),)*
                _ => return false,
            }
            true
        }
    };
}
props! {
    "C01" c01, "C02" c02, "C03" c03, "C04" c04, "C05" c05, "C06" c06, "C07" c07, "C08" c08, "C09" c09, "C10" c10, "C11" c11, "C12" c12, "C13" c13, "C14" c14, "C15" c15, "C16" c16, "C17" c17, "C18" c18, "C19" c19, "C20" c20, "C21" c21, "C22" c22, "C23" c23, "C24" c24, "C25" c25, "C26" c26, "C27" c27, "C28" c28, "C29" c29, "C30" c30, "C31" c31,
}
/// `vmon child <what> ...`: work done in a process of its own
pub fn child_mode(args: &[String]) -> Option<i32> {
    let a: Vec<String> = args.iter().skip_while(|x| *x != "child").skip(1).cloned().collect();
    match a.first().map(|x| x.as_str()) {
        Some("untrusted") => Some(crate::untrusted::child()),
        Some("c27") => Some(c27::child(&a[1..])),
        Some("c31") => Some(c31::child(&a[1..])),
        _ => None,
    }
}
pub fn level(p: &str) -> &'static str {
    match p {
        "C27" | "C16" => "fault_enumeration",
        _ => "exploration",
    }
}
/// how many times the basic number of cases a quick run does, for a few seconds each
pub fn scale(p: &str) -> u64 {
    match p {
        "C01" | "C02" | "C05" => 100,
        "C04" => 50,
        "C17" | "C19" | "C06" => 80,
        "C03" => 25,
        "C07" | "C08" | "C09" => 45,
        "C13" => 30,
        "C11" | "C12" | "C14" | "C20" => 20,
        "C21" => 30,
        "C15" | "C16" => 14,
        "C30" => 30,
        "C31" => 6,
        "C18" => 24,
        "C22" => 10,
        "C24" => 8,
        "C25" | "C26" => 14,
        "C23" | "C28" => 3,
        _ => 1,
    }
}
