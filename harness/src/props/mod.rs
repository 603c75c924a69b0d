pub mod agent;
pub mod codec;
pub mod convs;
pub mod held;
pub mod misc;
pub mod tcp;
pub mod trace;
pub mod units;

use crate::fuzz;
use crate::runner::LegDyn;

fn with(mut v: Vec<Box<dyn LegDyn>>, l: Box<dyn LegDyn>) -> Vec<Box<dyn LegDyn>> {
    v.push(l);
    v
}

pub fn legs(id: &str) -> Option<Vec<Box<dyn LegDyn>>> {
    Some(match id {
        "C01" => codec::c01(),
        "C02" => codec::c02(),
        "C03" => codec::c03(),
        "C04" => codec::c04(),
        "C05" => with(codec::c05(), fuzz::leg("bytes-stream", "stream", 40_000, 1_000_000, 240, 2000, fuzz::stream_gen, |c, o| fuzz::stream_bytes(&c.bytes.0, o),
            "damaged streams of frames as plain bytes, and in the thorough tier those a coverage-guided fuzzer finds; non-trivial: a complete frame of more than a header")),
        "C06" => with(codec::c06(), fuzz::leg("bytes-frame", "frame", 80_000, 2_000_000, 300, 1500, fuzz::frame_gen, |c, o| fuzz::frame_bytes(&c.bytes.0, o),
            "damaged frames as plain bytes, and in the thorough tier those a coverage-guided fuzzer finds, read and written again; non-trivial: longer than a header")),
        "C07" => {
            let mut v = codec::c07_codec();
            v.push(convs::c07_conv());
            v
        }
        "C08" => codec::c08(),
        "C09" => units::c09(),
        "C10" => units::c10(),
        "C11" => units::c11(),
        "C12" => convs::c12(),
        "C13" => with(with(convs::c13(), convs::successive(convs::c13_together)), tcp::c13()),
        "C14" => with(with(convs::c14(), convs::successive(convs::c14_together)), tcp::c14()),
        "C15" => convs::c15(),
        "C16" => with(convs::c16().into_iter().chain([convs::successive(convs::c16_together)]).chain(tcp::c16()).collect(), fuzz::leg("bytes-conversation", "conv", 20_000, 400_000, 400, 1200, fuzz::conv_gen, |c, o| fuzz::conv_bytes(&c.bytes.0, o),
            "everything a peer sends as plain, damaged bytes, and in the thorough tier those a coverage-guided fuzzer finds; non-trivial: more than one reply expected")),
        "C17" => misc::c17(),
        "C18" => with(agent::c18(), convs::c18_memory()),
        "C19" => agent::c19(),
        "C20" => agent::c20(),
        "C21" => with(misc::c21(), fuzz::leg("bytes-block", "block", 60_000, 1_500_000, 180, 1200, fuzz::block_gen, |c, o| fuzz::block_bytes(&c.bytes.0, o),
            "damaged header blocks as plain bytes, and in the thorough tier those a coverage-guided fuzzer finds; non-trivial: more than three bytes")),
        "C22" => misc::c22(),
        "C23" => trace::c23(),
        "C24" => {
            let mut v = held::c24();
            v.push(agent::c24());
            v
        }
        _ => return None,
    })
}
