mod cmd;
mod data;
mod frame;
mod session;
mod text;

use frame::*;

fn main() {
    frame_main(|prop, rec, rng| Some(match prop {
        "D01" | "D02" => (data::RULE_D, data::stream(rec, rng)),
        "D03" => (data::RULE_S, data::sink(rec, rng)),
        "D04" => (data::RULE_R, data::round(rec, rng)),
        "H01" => (data::RULE_H, data::prependable(rec, rng)),
        "C02" | "C03" | "C04" | "C05" | "C06" => (cmd::RULE_C, cmd::commands(rec, rng)),
        "R01" => (text::RULE_R1, text::build(rec, rng)),
        "R02" => (text::RULE_R2, text::line(rec, rng)),
        "R03" => (text::RULE_R3, text::reply_parse(rec, rng)),
        "T01" => (text::RULE_T, text::strings(rec, rng)),
        "B01" => (text::RULE_B, text::views(rec, rng)),
        "R04" => (session::RULE_R4, session::replies(rec, rng)),
        "S01" | "S02" | "S03" | "S04" | "S05" | "S06" | "S07" => (session::RULE, session::sessions(rec, rng)),
        "C01" => (cmd::RULE_T, cmd::total(rec, rng)),
        "E01" | "E02" | "E03" => (cmd::RULE_E, cmd::emails(rec, rng)),
        _ => return None,
    }))
}
