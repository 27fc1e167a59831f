use crate::engine::Scenario;

pub mod bent;
pub mod complete;
pub mod fs;
pub mod large;
pub mod late;
pub mod layout;
pub mod robust;
pub mod size;
pub mod sound;
pub mod zk;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    /// small menu used where an execution is expensive (real group)
    Conf,
    Quick,
    Thorough,
}
impl Tier {
    pub fn parse(s: &str) -> Tier {
        match s {
            "conf" => Tier::Conf,
            "thorough" => Tier::Thorough,
            _ => Tier::Quick,
        }
    }
    pub fn pick<T>(self, conf: T, quick: T, thorough: T) -> T {
        match self {
            Tier::Conf => conf,
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

pub fn scenarios(prop: &str, t: Tier) -> Vec<Scenario> {
    // the real group is slow: always the small menus
    let t = if cfg!(any(feature = "mixed", feature = "real")) { Tier::Conf } else { t };
    match prop {
        "Q01" => complete::q01(t),
        "K01" => complete::k01(t),
        "I01" => complete::i01(t),
        "L01" => complete::l01(t),
        "L03" => complete::l03(t),
        "Q02" => sound::q02(t),
        "Q03" => sound::q03(t),
        "K02" => sound::k02(t),
        "I02" => sound::i02(t),
        "L02" => sound::l02(t),
        "L04" => sound::l04(t),
        "K03" => layout::k03(t),
        "K04" => layout::k04(t),
        "M01" => layout::m01(t),
        "Z01" => zk::z01(t),
        "Z02" => zk::z02(t),
        "Z03" => zk::z03(t),
        "F01" => fs::f01(t),
        "F02" => fs::f02(t),
        "F03" => fs::f03(t),
        "S01" => size::s01(t),
        "T01" => robust::t01(t),
        "T02" => robust::t02(t),
        _ => panic!("unknown property {}", prop),
    }
}
