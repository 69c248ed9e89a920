#[macro_use]
pub mod rt;
pub mod dump;
pub mod jobs;
pub mod pjobs;
pub mod plex;
pub mod pparse;
pub mod ptree;
pub mod rlex;
pub mod rparse;
pub mod src;
pub mod tjobs;
pub mod vocab;

pub struct Job {
    /// 0: quick and thorough, 1: thorough only
    pub tier: u8,
    pub mode: u32,
    pub t: &'static str,
}
pub const IDS: [&str; 32] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C27", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C25", "C28", "C29", "C30", "C31", "C26", "C22", "C23", "C24", "C32",
];
pub fn jobs(h: u32) -> &'static [Job] {
    match h {
        0 => jobs::C01,
        1 => jobs::C02,
        2 => jobs::C03,
        3 => jobs::C04,
        4 => jobs::C05,
        5 => jobs::C06,
        6 => jobs::C07,
        7 => jobs::C08,
        8 => jobs::C09,
        9 => jobs::C27,
        10 => pjobs::C10,
        11 => pjobs::C11,
        12 => pjobs::C12,
        13 => pjobs::C13,
        14 => pjobs::C14,
        15 => pjobs::C15,
        16 => pjobs::C16,
        17 => pjobs::C17,
        18 => pjobs::C18,
        19 => pjobs::C19,
        20 => pjobs::C20,
        21 => pjobs::C21,
        22 => pjobs::C25,
        23 => pjobs::C28,
        24 => pjobs::C29,
        25 => pjobs::C30,
        26 => pjobs::C31,
        27 => pjobs::C26,
        28 => tjobs::C22,
        29 => tjobs::C23,
        30 => tjobs::C24,
        31 => tjobs::C32,
        _ => rt::fail(9999),
    }
}
pub fn run(h: u32, job: u32) {
    let j = &jobs(h)[job as usize];
    let s = src::build(j.t);
    if h < 10 {
        plex::run(j, &s)
    } else {
        pparse::run(j, &s)
    }
}
